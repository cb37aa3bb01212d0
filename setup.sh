#!/bin/bash
# Builds every check once so that later runs only rebuild what changed.
cd "$(dirname "$0")" || exit 2
. ./env.sh
mkdir -p target evidence
cd harness || exit 2
$CARGO build --release --bins >../target/setup.log 2>&1 ||
    $CARGO build --release --bins --no-default-features >>../target/setup.log 2>&1 ||
    { tail -40 ../target/setup.log; exit 1; }
args=()
while read -r b; do [ -n "$b" ] && args+=(--bin "$b"); done <checked.txt
if [ ${#args[@]} -gt 0 ]; then
    $CARGO build --profile checked "${args[@]}" >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
fi
for c in ltest mtest; do
    (cd ../$c && $CARGO build --release --bins) >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
done
../target/release/c44 build >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
../target/release/c53 build >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
../target/release/c51 build >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
../target/release/c54 build >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
../target/release/c67 build >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
../target/release/c68 build >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
../target/release/c69 build >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
../target/release/c59 build >>../target/setup.log 2>&1 || { tail -40 ../target/setup.log; exit 1; }
