#!/bin/bash
# Builds the compiler under the controlled scheduler: $VX_SCRATCH/bin/explore, and explore-race with the race detector.
# The name of the variant goes to $VX_SCRATCH/variant.
set -o pipefail
cd "$VX_REPO" || exit 2
W=$VX_SCRATCH/instr
mkdir -p "$W"
overlay() {
	echo '{"Replace": {'
	sep=
	for d in vsync explore; do
		for f in "$VX_VERIF"/harness/$d/*.go; do
			printf '%s"%s/internal/verifx/%s/%s": "%s"\n' "$sep" "$VX_REPO" "$d" "$(basename "$f")" "$f"
			sep=,
		done
	done
	echo '}}'
}
sed 's/^go 1\..*/go 1.23.0/; /^toolchain/d' go.mod > "$W/go.mod"
cp go.sum "$W/go.sum"
overlay > "$W/overlay.json"
b() { # output, flags
	o=$1; shift
	go build -buildvcs=false -modfile "$W/go.mod" -overlay "$W/overlay.json" "$@" -o "$o" ./internal/verifx/explore
}
echo none > "$VX_SCRATCH/variant"
if go build -buildvcs=false -o "$W/instr" "$VX_VERIF/harness/instr/main.go" && "$W/instr" "$VX_REPO" "$W" "$W/overlay.json" > "$W/stat.json"; then
	if grep -q '"channels"' "$W/stat.json"; then
		echo "channels are in use, schedules are not controlled" >&2
		exit 0
	fi
	if b "$VX_SCRATCH/bin/explore"; then
		echo norace > "$VX_SCRATCH/variant"
		CGO_ENABLED=1 b "$VX_SCRATCH/bin/explore-race" -race && echo race > "$VX_SCRATCH/variant"
	fi
fi
exit 0
