# Environment of builds, sourced by setup.sh and check.sh.
export HOME="${HOME:-/root}"
GO=/opt/veriftools/go1.26.10/bin
[ -x "$GO/go" ] && export PATH="$GO:$PATH" GOROOT=/opt/veriftools/go1.26.10
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GONOSUMDB='*' GOSUMDB=off CGO_ENABLED=1
