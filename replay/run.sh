#!/bin/bash
# run.sh AREA PROPERTY SEED REPO: search for a failing input on the real code.
# Exit 1: found (printed). Exit 0: none found. Anything else: could not run.
area=$1 prop=$2 seed=$3 repo=$4
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOENV=off GO111MODULE=on GOFLAGS="-mod=mod -buildvcs=false"
GO=/opt/veriftools/go1.27.3/bin/go
[ -x "$GO" ] || GO=go
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
export VP_PROP=$prop VP_SEED=$seed VP_SECS=${VP_SECS:-40} VP_DIR=$work
case $area in
queue)       pkg=cache/queue ;;
cache)       pkg=cache ;;
files)       pkg=cache/files ;;
qlearn)      pkg=cache/ai/qlearn ;;
featuremap)  pkg=cache/ai/featuremap ;;
category)    pkg=cache ;;
simulation)  pkg=cache ;;
qcache)      pkg= ;;
*) echo "unknown area $area"; exit 3 ;;
esac
src=$here/$area
if [ "$area" = qcache ]; then
    # GOPATH mode with relative imports: work on a copy
    cp -r "$repo/qLearning_smartCache" "$work/src" || exit 3
    for f in "$src"/*_test.go; do cp "$f" "$work/src/cache/"; done
    (cd "$work/src/cache" && GO111MODULE=off GOFLAGS= timeout 200 "$GO" test -v -vet=off -count=1 -timeout 150s -run '^TestVerifReplay$' . ) > "$work/out" 2>&1
else
    sim=$repo/SmartCache/sim
    cp "$sim/go.mod" "$work/go.mod"; cp "$sim/go.sum" "$work/go.sum"
    {
        echo '{"Replace": {'
        sep=
        for f in "$src"/*_test.go; do
            printf '%s"%s/%s/%s": "%s"' "$sep" "$sim" "$pkg" "$(basename "$f")" "$f"; sep=,
        done
        # the repository's own tests of the package are left out
        for f in "$sim/$pkg"/*_test.go; do
            [ -e "$f" ] && printf '%s"%s": ""' "$sep" "$f"
        done
        echo '}}'
    } > "$work/overlay.json"
    (cd "$sim" && "$GO" test -modfile "$work/go.mod" -overlay "$work/overlay.json" -vet=off -c -o "$work/t.test" "./$pkg") > "$work/out" 2>&1 || { cat "$work/out"; exit 3; }
    mkdir -p "$work/run"
    (cd "$work/run" && timeout 200 "$work/t.test" -test.run '^TestVerifReplay$' -test.timeout 150s) > "$work/out" 2>&1
fi
grep -v '^time=' "$work/out" | head -c 6000
grep -q '^REPLAY-FOUND' "$work/out" && exit 1
# a crash outside the test's own goroutine
if grep '^panic: ' "$work/out" | grep -qv 'test timed out'; then echo "REPLAY-FOUND the code crashes"; exit 1; fi
# the search watches the clock between operations: one that runs on does not return
if grep '^panic: ' "$work/out" | grep -q 'test timed out'; then echo "REPLAY-FOUND an operation of the code does not return"; exit 1; fi
grep -q 'no failing input' "$work/out" && exit 0
exit 3
