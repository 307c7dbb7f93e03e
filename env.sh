# Sourced by scripts: the offline Go environment.
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GOENV=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOPATH=${GOPATH:-/root/go}
export CGO_ENABLED=0 LC_ALL=C.UTF-8
unset FBDPATH
