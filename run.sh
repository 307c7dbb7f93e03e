#!/bin/bash
# Usage: run.sh CHECK [quick|thorough] [check arguments]
# Builds the check and the compiler from the working tree of /repo and runs the check.
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VX_REPO:-/repo}
id=$1; shift
tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
. "$VERIF/env.sh"
base=/dev/shm; [ -w $base ] || base=${TMPDIR:-/tmp}
VX_SCRATCH=$(mktemp -d $base/vx.XXXXXX) || exit 2
export VX_SCRATCH VX_VERIF=$VERIF VX_REPO=$REPO
cleanup() { case "$VX_SCRATCH" in "$base"/vx.*) rm -rf "$VX_SCRATCH";; esac; }
trap cleanup EXIT
trap 'exit 3' INT TERM
mkdir -p "$VX_SCRATCH/bin"
export VX_CLI=$VX_SCRATCH/bin/fbdl
# Harness sources are put into the module with an overlay, /repo is not touched.
{
	echo '{"Replace": {'
	sep=
	for f in "$VERIF"/harness/lib/*.go "$VERIF"/harness/"${id,,}"/*.go; do
		[ -e "$f" ] || continue
		d=$(basename "$(dirname "$f")")
		printf '%s"%s/internal/verifx/%s/%s": "%s"\n' "$sep" "$REPO" "$d" "$(basename "$f")" "$f"
		sep=,
	done
	echo '}}'
} > "$VX_SCRATCH/overlay.json"
cd "$REPO" || exit 2
go build -buildvcs=false -o "$VX_CLI" ./cmd/fbdl || { echo "cannot build $REPO" >&2; exit 2; }
b=$VX_SCRATCH/bin/check
if ! go build -buildvcs=false -overlay "$VX_SCRATCH/overlay.json" -o "$b" "./internal/verifx/${id,,}" 2> "$VX_SCRATCH/build.log"; then
	cat "$VX_SCRATCH/build.log" >&2
	go build -buildvcs=false -tags cliengine -overlay "$VX_SCRATCH/overlay.json" -o "$b" "./internal/verifx/${id,,}" || exit 2
fi
if [ -x "$VERIF/harness/${id,,}/prepare.sh" ]; then
	"$VERIF/harness/${id,,}/prepare.sh" || exit 2
fi
cd "$VERIF" || exit 2
"$b" "$@"
exit $?
