# environment of every command: offline, local toolchain
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
build_govc() {
	mkdir -p "$VERIF/bin"
	(cd "$VERIF/govc" && go build -o "$VERIF/bin/govc" .) || { echo "error: govc does not build"; exit 2; }
}
