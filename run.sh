#!/bin/bash
# run.sh <property id> [quick|thorough]: rebuild one check from /repo's working tree and run it.
cd "$(dirname "$0")" || exit 2
. ./env.sh
id=$1 tier=${2:-${VERIF_TIER:-quick}}
export VERIF_TIER=$tier VERIF_SEED=${VERIF_SEED:-1}
bin=$(echo "$id" | tr A-Z a-z)
profile=release
grep -qx "$bin" harness/checked.txt && profile=checked
log=target/build-$bin.log
mkdir -p target evidence
crate=harness
[ -f "ltest/src/bin/$bin.rs" ] && crate=ltest
[ -f "mtest/src/bin/$bin.rs" ] && crate=mtest
build() { (cd $crate && $CARGO build --profile "$profile" --bin "$bin" "$@") >"$log" 2>&1; }
# Sections that need single /repo files under settings of other machines are left out only if those do not build.
if ! build; then
    tail -60 "$log" >"$log.full"
    ok=
    [ $crate = harness ] && for set in inc,memx,arch memx,arch,bare inc,arch,bare inc,memx,bare memx,arch inc,arch inc,memx inc memx arch bare ""; do
        if build --no-default-features --features "$set"; then ok=1; break; fi
    done
    if [ -z "$ok" ]; then
        tail -60 "$log"
        echo "build of check $id failed"
        exit 2
    fi
    echo "note: built with '$set' only, see $log.full"
fi
exec "target/$profile/$bin" "$tier"
