#!/bin/bash
# Reverts each repaired defect (the "fixed:" lines of known_findings.txt) in a scratch copy of /repo and shows that the
# property's check reports it again. Usage: tools/regress.sh [commit...]
cd "$(dirname "$0")/.." || exit 2
W=$(mktemp -d /tmp/regress.XXXXXX)
git clone -q /repo "$W/repo" || exit 2
mkdir "$W/verif"; cp -a mc check.sh known_findings.txt "$W/verif/"; [ -d mce ] && cp -a mce "$W/verif/"
sed -i "s#/repo#$W/repo#" "$W"/verif/mc*/Cargo.toml
grep '^fixed:' known_findings.txt | while read -r _ p c rest; do
  p=${p#property=}
  [ $# -gt 0 ] && [[ " $* " != *" $c "* ]] && continue
  git -C "$W/repo" checkout -q -f master 2>/dev/null || git -C "$W/repo" checkout -q -f main
  if ! git -C "$W/repo" revert --no-commit "$c" >/dev/null 2>&1; then echo "$p $c: does not revert cleanly"; git -C "$W/repo" revert --abort 2>/dev/null; git -C "$W/repo" reset -q --hard; continue; fi
  out=$("$W/verif/check.sh" "$p" 2>&1); rc=$?
  echo "$p $c: exit $rc; $(grep -B1 '^VIOLATION' <<<"$out" | head -1 | cut -c1-220)"
  git -C "$W/repo" revert --abort 2>/dev/null; git -C "$W/repo" reset -q --hard
done
rm -rf "$W"
