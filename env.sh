# Go toolchain used to build and run the analyser (offline).
GOROOT=/opt/veriftools/go1.26.10
[ -x "$GOROOT/bin/go" ] || GOROOT=$(go env GOROOT)
export GOROOT PATH="$GOROOT/bin:$PATH" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0 GOSUMDB=off GONOSUMDB=* GONOSUMCHECK=1
