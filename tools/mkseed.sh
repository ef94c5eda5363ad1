#!/bin/bash
# mkseed.sh ID : validates /verif/seeded/ID in a scratch copy: applies, builds, passes the tests, demo 0 without and nonzero with the patch
ID=$1; S=/verif/seeded/$ID; W=/tmp/w/seed-$ID
/bin/rm -rf "$W"; mkdir -p "$W"
(cd /repo && git ls-files -z | xargs -0 cp --parents -t "$W" && cp -a target "$W/" 2>/dev/null)
cat > "$W/.demo_env" <<EOF
EOF
cd "$W"
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$W/target
b() { cargo test --workspace --no-default-features --no-run --offline >"$W/b.log" 2>&1; }
b || { tail -20 $W/b.log; echo "$ID: baseline build failed"; exit 1; }
sed "s#/repo#$W#g" "$S/demo.sh" > "$W/demo.sh"
cp "$S"/* "$W/.." 2>/dev/null
mkdir -p "$W/demo.d"; cp "$S"/* "$W/demo.d/"; cp "$W/demo.sh" "$W/demo.d/demo.sh"
bash "$W/demo.d/demo.sh" >"$W/d0.log" 2>&1; r0=$?
patch -p1 -s < "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 1; }
touch src/lib.rs
b || { grep -A8 '^error' $W/b.log | head -30; echo "$ID: patched build failed"; exit 1; }
cargo test --workspace --no-default-features --no-fail-fast --offline -- --test-threads 8 >"$W/t.log" 2>&1
f=$(grep -E '^test .*FAILED' "$W/t.log" | head -5)
bash "$W/demo.d/demo.sh" >"$W/d1.log" 2>&1; r1=$?
echo "$ID: unpatched demo=$r0 patched demo=$r1 failing tests: ${f:-none}"
[ $r0 -ne 0 ] && cat $W/d0.log
cd /; /bin/rm -rf "$W"
