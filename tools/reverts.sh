#!/bin/bash
# for every "fix:" commit of /repo: undo it in the working tree, run the checks named in known_findings.txt, restore
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "dirty"; exit 1; }
for c in $(git log --format=%h --grep='^fix:' ${1:-0c104aa}..HEAD); do
  if git diff $c $c~1 | git apply --3way - >/dev/null 2>&1 || { git checkout -q HEAD -- .; git diff $c $c~1 | git apply -C1 - ; }; then
    git reset -q
    props=$(grep "^fixed:.* $c " /verif/known_findings.txt | sed 's/.*property=\(C[0-9]*\).*/\1/' | sort -u)
    for p in $props; do r=$(bash /verif/check.sh $p quick 2>&1 | grep -c VIOLATION); echo "$c $p caught=$r $(git log -1 --format=%s $c)"; done
    [ -n "$props" ] || echo "$c: no property named"
  else echo "$c does not revert cleanly"; fi
  git checkout -q HEAD -- .
done
