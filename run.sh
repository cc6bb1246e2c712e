#!/bin/bash
# run.sh <property> [--case name:index]: builds the harness for one property against /repo's
# working tree (through a build overlay, nothing is written into /repo) and runs it.
# exit 0: held on everything explored. exit 1 + VIOLATION line: broken. other: no answer.
set -u
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
PROP="${1:?property}"; shift
TIER="${VERIF_TIER:-quick}"
SEED="${VERIF_SEED:-1}"
[[ "$SEED" =~ ^-?[0-9]+$ ]] || SEED=1
export HOME=/root
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=/root/go GOCACHE=/root/.cache/go-build
source "$VERIF/props.sh"
MODULE="${MODULE_OF[$PROP]:-}"
[ -n "$MODULE" ] || { echo "unknown property $PROP"; exit 2; }
HARNESS="${HARNESS_OF[$PROP]}"
FLAGS="${FLAGS_OF[$PROP]:-}"
LIMIT="${LIMIT_OF[$PROP]:-840}"
SCRATCH="$(mktemp -d /tmp/verif.XXXXXX)" || exit 2
cleanup() { rm -rf "$SCRATCH"; }
trap cleanup EXIT
mkdir -p "$VERIF/evidence/replays"
T0=$(date +%s.%N)
# overlay: every harness file appears below $REPO/$MODULE/verifharness
python3 - "$VERIF/harness" "$REPO" "$MODULE" "$SCRATCH" <<'P' || exit 2
import json,os,sys
src,repo,module,scratch=sys.argv[1:5]
rep={}
for sub in ("vt",module):
    base=os.path.join(src,sub)
    for d,_,fs in os.walk(base):
        for f in fs:
            if not f.endswith(".go"): continue
            rel=os.path.relpath(os.path.join(d,f),base)
            dst=os.path.join(repo,module,"verifharness","vt" if sub=="vt" else "",rel)
            rep[os.path.normpath(dst)]=os.path.join(d,f)
json.dump({"Replace":rep},open(os.path.join(scratch,"overlay.json"),"w"))
# hooks: files added to the packages themselves, used unless they don't build
base=os.path.join(src,"hooks",module)
for d,_,fs in os.walk(base):
    for f in fs:
        if f.endswith(".go"):
            rep[os.path.normpath(os.path.join(repo,module,os.path.relpath(os.path.join(d,f),base)))]=os.path.join(d,f)
json.dump({"Replace":rep},open(os.path.join(scratch,"overlay-hooks.json"),"w"))
P
cp "$REPO/$MODULE/go.mod" "$SCRATCH/go.mod" && cp "$REPO/$MODULE/go.sum" "$SCRATCH/go.sum" || exit 2
build() { (cd "$REPO/$MODULE" && go build $FLAGS -tags "$1" -overlay "$SCRATCH/$2" -modfile "$SCRATCH/go.mod" -o "$SCRATCH/check" "./verifharness/$HARNESS") >"$SCRATCH/build.log" 2>&1; }
if ! build verif,verifhook overlay-hooks.json && ! build verif overlay.json; then
  tail -40 "$SCRATCH/build.log"
  echo "the harness does not build against this tree: no answer"
  exit 3
fi
if [ -n "${BIN_OF[$PROP]:-}" ]; then
  if ! (cd "$REPO/$MODULE" && { go build ${BIN_OF[$PROP]} -tags verifhook -overlay "$SCRATCH/overlay-hooks.json" -modfile "$SCRATCH/go.mod" -o "$SCRATCH/shuttermint" . ||
     go build ${BIN_OF[$PROP]} -modfile "$SCRATCH/go.mod" -o "$SCRATCH/shuttermint" .; }) >"$SCRATCH/build.log" 2>&1; then
    tail -40 "$SCRATCH/build.log"
    echo "the program doesn't build: no answer"
    exit 3
  fi
  export VERIF_SHUTTERMINT="$SCRATCH/shuttermint"
fi
if [ "$HARNESS" = wasmcheck ]; then
  # any Go version that brings the support code for node
  WGO=/opt/veriftools/go1.24.13
  for f in both encrypt decrypt; do
    (cd "$REPO/$MODULE" && GOOS=js GOARCH=wasm CGO_ENABLED=0 "$WGO/bin/go" build -modfile "$SCRATCH/go.mod" -o "$SCRATCH/$f.wasm" "./shcryptowasm/${f}_wasm.go") >"$SCRATCH/build.log" 2>&1 || WBAD=$f
    [ -z "${WBAD:-}" ] || break
  done
  export VERIF_WASM_DIR="$SCRATCH" VERIF_WASM_DRIVER="$VERIF/harness/wasm/driver.js" VERIF_WASM_EXEC="$WGO/lib/wasm/wasm_exec.js"
fi
[ -z "${VERIF_BUILD_ONLY:-}" ] || { echo "$MODULE/$HARNESS builds"; exit 0; }
T1=$(date +%s.%N)
if [ -n "${WBAD:-}" ]; then
  tail -20 "$SCRATCH/build.log"
  grep -q '^shcryptowasm/.*\.go:[0-9]*:' "$SCRATCH/build.log" || { echo "the wasm modules don't build: no answer"; exit 3; }
  R="$VERIF/evidence/replays/C32-build.txt"
  { echo "property: C32"; echo "what: $WBAD.wasm doesn't compile"; cat "$SCRATCH/build.log"; } >"$R"
  echo "VIOLATION property=C32 replay=$R"
  exit 1
fi
mkdir -p "$SCRATCH/work"
rm -f "$VERIF/evidence/replays/$PROP"-*
( cd "$SCRATCH/work" && GORACE="halt_on_error=0 exitcode=66 log_path=$SCRATCH/race" timeout -k 10 "$LIMIT" "$SCRATCH/check" -prop "$PROP" -tier "$TIER" -seed "$SEED" \
   -out "$VERIF/evidence" -scratch "$SCRATCH/work" -known "$VERIF/known_findings.txt" \
   -log "$SCRATCH/sut.log" -wallbase "$(echo "$T1 $T0" | awk '{print $1-$2}')" "$@" ) >"$SCRATCH/out.txt" 2>"$SCRATCH/err.txt"
RC=$?
cat "$SCRATCH/out.txt"
NRACE=0
if compgen -G "$SCRATCH/race.*" >/dev/null; then
  NRACE=$(cat "$SCRATCH"/race.* | grep -c 'WARNING: DATA RACE')
fi
report() { # $1 = reason
  R="$VERIF/evidence/replays/$PROP-process.txt"
  { echo "property: $PROP"; echo "what: $1"; echo "seed: $SEED tier: $TIER"; echo "rerun: VERIF_SEED=$SEED VERIF_TIER=$TIER ./run.sh $PROP"
    echo "--- stderr (tail)"; tail -c 20000 "$SCRATCH/err.txt"; echo "--- log of the code under test (tail)"; tail -c 6000 "$SCRATCH/sut.log" 2>/dev/null
    cat "$SCRATCH"/race.* 2>/dev/null | head -c 60000; } >"$R"
  echo "$1"
  echo "VIOLATION property=$PROP replay=$R"
  exit 1
}
if [ "$NRACE" -gt 0 ]; then
  report "the race detector reported $NRACE data race(s)"
fi
case "$RC" in
  0) exit 0 ;;
  10) exit 1 ;;
  20) tail -5 "$SCRATCH/err.txt"; exit 4 ;;
  124|137) tail -5 "$SCRATCH/err.txt"; echo "watchdog: no verdict within ${LIMIT}s"; exit 5 ;;
  *) grep -m3 -E '^(panic|fatal error|runtime:|SIG)' "$SCRATCH/err.txt"; tail -3 "$SCRATCH/sut.log" 2>/dev/null
     report "the process running the code under test died with status $RC" ;;
esac
