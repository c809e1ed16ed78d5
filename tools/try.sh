#!/bin/bash
# try.sh DIFF|-e SCRIPT ID...: apply a diff (or run a python edit script in the copy) to a scratch copy of /repo and run checks on it.
# Development only. Prints one line per check and, for alarms, the messages.
set -u
H=$(cd "$(dirname "$0")/.." && pwd)
if [ "$1" = -e ]; then kind=e; shift; fi
D=$1; shift
S=$(mktemp -d /tmp/try.XXXXXX)
cp -a /repo "$S/repo"
cd "$S/repo" || exit 2
if [ "${kind:-}" = e ]; then python3 "$D" || { echo "edit failed: $D"; rm -rf "$S"; exit 2; }; else git apply "$D" || { echo "does not apply: $D"; rm -rf "$S"; exit 2; }; fi
bash "$H/bin/extract.sh" "$S/m.json" "$S/repo" > "$S/log" 2>&1 || { echo "extract failed: $D"; grep -m5 -A6 '^error' "$S/log" | cut -c1-200; rm -rf "$S"; exit 2; }
ids="$*"
[ "$ids" = all ] && ids=$(cd $H && python3 -c "
import sys; sys.path.insert(0,'analysis')
import registry; print(*sorted(registry.CHECKS))")
cd "$H"
echo $ids | tr ' ' '\n' | xargs -P 7 -I{} sh -c "PZ_REPO=$S/repo timeout 300 python3 check.py {} --mir $S/m.json --repo $S/repo --no-evidence > $S/o.{} 2>&1; echo \$? > $S/rc.{}"
for i in $ids; do r=$(cat $S/rc.$i); if [ "$r" != 0 ]; then echo "$(basename $(dirname $D))/$(basename $D) $i rc=$r"; grep -v '^checked' $S/o.$i | cut -c1-${W:-260} | head -${N:-5}; fi; done
[ -n "${KEEP:-}" ] && cp $S/m.json $KEEP
rm -rf "$S"
