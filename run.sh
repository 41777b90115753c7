#!/bin/bash
# ./run.sh setup | ID quick|thorough | replay FILE | build
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS= GOENV=off GONOSUMDB='*' GONOSUMCHECK=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
SEED=${VERIF_SEED:-1}
B=$(mktemp -d "${TMPDIR:-/tmp}/vrun.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
build() { # $1: extra flags
  echo "{\"Replace\":{\"/repo/go.mod\":\"$V/harness/freetype.mod\"}}" > "$B/overlay.json"
  ( cd harness && go build -mod=mod -overlay="$B/overlay.json" -buildvcs=false $1 -o "$B/check" ./cmd/check ) || { echo "ERROR OF THE CHECK: build failed"; exit 2; }
}
case "$1" in
setup) CGO_ENABLED=0 build && echo built;;
build) export CGO_ENABLED=0; build; cp "$B/check" "${2:-/tmp/check}";;
replay)
  case "$(basename "$2")" in C05*) export CGO_ENABLED=1; build -race;; *) export CGO_ENABLED=0; build;; esac
  "$B/check" -mode replay -dir "$V" "$2"; exit $?;;
*)
  ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
  case "$ID" in C05) export CGO_ENABLED=1; build -race;; *) export CGO_ENABLED=0; build;; esac
  shift; [ $# -gt 0 ] && shift
  "$B/check" -prop "$ID" -tier "$TIER" -seed "$SEED" -dir "$V" "$@"; exit $?;;
esac
