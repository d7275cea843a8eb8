#!/bin/bash
# check.sh <property> [quick|thorough] | check.sh <property> --replay FILE | check.sh --build
# Builds the checks against /repo's working tree and runs one of them.
set -u
V="$(cd "$(dirname "$0")" && pwd)"
. "$V/env.sh"
mkdir -p "$V/build"
cd "$V/harness" || exit 2
B="$V/build"; R=/repo; O="$V"; MOD=()
if [ -n "${VERIF_REPO:-}" ]; then # development only (tools/bug.py): check a scratch copy instead of /repo
  R="$VERIF_REPO"; B="$R/.verif-build"; O="$R/.verif-out"; mkdir -p "$B" "$O"
  for f in KNOWN_FINDINGS.txt regress known; do [ -e "$V/$f" ] && ln -sfn "$V/$f" "$O/$f"; done
  sed "s#=> /repo/src#=> $R/src#" go.mod >"$B/go.mod"; cp go.sum "$B/go.sum"; MOD=("-modfile=$B/go.mod")
fi
build() { # build to a private name, then move into place (checks may run in parallel)
  local out="$1"; shift
  go build "${MOD[@]}" "$@" -o "$out.$$" . >"$B/build.$$.log" 2>&1 || { cat "$B/build.$$.log" >&2; rm -f "$B/build.$$.log"; echo "build of the checks failed" >&2; exit 2; }
  rm -f "$B/build.$$.log"; mv -f "$out.$$" "$out"
}
build "$B/verif"
case "${1:-}" in
  --build) build "$B/verif-race" -race; (cd "$R/src" && go build -o "$B/helena.$$" . && mv -f "$B/helena.$$" "$B/helena") || exit 2; exit 0;;
  P20) build "$B/verif-race" -race;;
  P26) (cd "$R/src" && go build -o "$B/helena.$$" . && mv -f "$B/helena.$$" "$B/helena") || exit 2;;
esac
export VERIF_HELENA="$B/helena"
if [ "${2:-}" = "--replay" ]; then exec "$B/verif" replay "$3"; fi
PROP="$1"; T="${2:-${VERIF_TIER:-quick}}"
shift; [ $# -gt 0 ] && shift
exec "$B/verif" check "$PROP" -tier "$T" -verif "$O" "$@"
