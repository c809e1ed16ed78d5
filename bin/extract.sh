#!/bin/bash
# extract.sh OUT.json [REPO]: compile REPO (default /repo) with the MIR dumping driver.
# Everything that is built goes to $PZ_WORK (default /verif/.work), never to REPO.
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
work="${PZ_WORK:-$here/.work}"
out="$(realpath -m "$1")"; repo="${2:-/repo}"
mkdir -p "$work"
exec 9>"$work/lock"; flock 9
export CARGO_NET_OFFLINE=true
sys="$(rustc +nightly --print sysroot)" || exit 2
export LD_LIBRARY_PATH="$sys/lib"
drv="$work/driver/release/pzdriver"
if [ ! -x "$drv" ] || [ "$here/driver/src/main.rs" -nt "$drv" ]; then
  (cd "$here/driver" && cargo +nightly build --release --offline --target-dir "$work/driver") >"$work/driver.log" 2>&1 \
    || { tail -20 "$work/driver.log" >&2; exit 3; }
fi
tgt="$work/target"
# cargo must run the compiler on the crate even if it believes that nothing changed.
find "$tgt" -path '*pizauth*' -path '*fingerprint*' -name '*bin-pizauth*' -delete 2>/dev/null
rm -f "$out"
export PZ_CRATE=pizauth PZ_OUT="$out" RUSTC_WORKSPACE_WRAPPER="$drv"
cd "$repo" && cargo +nightly check --offline --bin pizauth --target-dir "$tgt" >"$work/extract.log" 2>&1
rc=$?
if [ $rc -ne 0 ] || [ ! -s "$out" ]; then tail -30 "$work/extract.log" >&2; exit 4; fi
