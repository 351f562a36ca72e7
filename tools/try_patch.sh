#!/bin/bash
# try_patch.sh [-R] PATCH [ID...]: applies a patch to /repo, runs the quick checks (all by default),
# prints those that report a violation, and restores /repo.
set -u
rev=(); [ "$1" = -R ] && { rev=(-R); shift; }
patch=$(readlink -f "$1"); shift
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(seq -f 'C%02g' 1 35))
cd "$(dirname "$0")/.." || exit 3
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 3; }
git -C /repo apply ${rev[@]+"${rev[@]}"} "$patch" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for i in "${ids[@]}"; do
    out=$(./check.sh "$i" quick 2>&1); r=$?
    case $r in
        0) ;;
        1) echo "  $i: $(grep -B1 -m1 '^VIOLATION' <<<"$out" | head -1 | cut -c1-220)" ;;
        *) echo "  $i: NO ANSWER ($r): $(tail -3 <<<"$out")" ;;
    esac
done
