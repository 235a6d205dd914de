#!/bin/bash
# selftest.sh: executes a battery of standard library calls in the executor, against their known results.
cd "$(dirname "$0")/.." || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/verif/harness/root" "$T/verif/evidence" "$T/repo"
cp -a rt "$T/verif/"
cp properties.jsonl known_findings.json "$T/verif/"
cp tools/selftest/std.go.txt "$T/verif/harness/root/std.go"
cp -a /repo/. "$T/repo/"
. ./env.sh
for h in std1 std2 std3 std4 std5 std6 std7; do
	bin/gosym check -verif "$T/verif" -property E01 -tier quick -only "$h" -nonative -repo "$T/repo"
done
