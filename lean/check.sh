#!/bin/bash
# Prints the axioms of the contracts as Lean propositions, compares them with the
# committed file, and has Lean check the proofs. Not needed by the checks.
set -e
D="$(cd "$(dirname "$0")" && pwd)"
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
"$D/../bin/vgo" -repo "${1:-/repo}" -specs "$D/../contracts" -lean > "$W/Axioms.lean"
diff "$D/Axioms.lean" "$W/Axioms.lean"
cp "$D/Model.lean" "$D/Join.lean" "$W"
cd "$W"
lean -o Axioms.olean Axioms.lean
LEAN_PATH="$W:$LEAN_PATH" lean Model.lean | tee model.out
lean Join.lean | tee join.out
if grep -q "sorry\|error" model.out join.out; then exit 1; fi
echo "all axioms proved"
