#!/bin/bash
# check.sh PROPERTY            decide one property (VERIF_SEED, VERIF_TIER)
# check.sh replay FILE         replay a recorded violation (exit 1 if it still happens)
# check.sh setup               build everything once (the checks rebuild what they need)
V="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -tags=safe" GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T="$(mktemp -d /tmp/verif-XXXXXXXX)" || exit 2
trap 'rm -rf "$T"' EXIT
trap 'exit 2' INT TERM
cd "$V/sim" || exit 2
go build -o "$T/check" ./cmd/check >&2 && go build -o "$T/instr" ./cmd/instr >&2 || exit 2
case "$1" in
setup)
	"$T/check" -tmp "$T" -verif "$V" -build
	;;
replay)
	f="$(realpath "$2")"
	"$T/check" -tmp "$T" -verif "$V" -replay "$f"
	;;
*)
	"$T/check" -tmp "$T" -verif "$V" "$@"
	;;
esac
