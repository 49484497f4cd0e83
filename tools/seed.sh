#!/bin/bash
# seed.sh ID...: confirm planted bugs in a scratch copy (/tmp/seed), then run the property's check on /repo with the bug applied.
# With NOCHECK=1, only confirm.
[ -d /tmp/seed ] || cp -a /repo /tmp/seed
git -C /tmp/seed checkout -q -- . ; git -C /tmp/seed fetch -q /repo HEAD && git -C /tmp/seed reset -q --hard FETCH_HEAD
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_TARGET_DIR=/tmp/seed/target
cd /tmp/seed
build() { (cargo build --workspace --offline --locked && cargo test --workspace --no-run --offline --locked) > /tmp/seed.build 2>&1 || { tail -30 /tmp/seed.build; return 1; }; }
for id in "$@"; do
    D=/verif/seeded/$id
    echo "== $id"
    git checkout -q -- . ; touch src/*.rs; build || { echo "$id: original does not build"; continue; }
    rm -rf /tmp/seed.demo; cp -r $D /tmp/seed.demo; rm -f /tmp/seed.demo/{patch.diff,meta.json}
    timeout 300 bash /tmp/seed.demo/demo.sh > /tmp/seed.out 2>&1; r=$?
    [ $r = 0 ] || { echo "$id: demo fails on the original: $r"; tail -5 /tmp/seed.out; continue; }
    git apply --check $D/patch.diff && git apply $D/patch.diff || { echo "$id: does not apply"; continue; }
    touch src/*.rs; build || { echo "$id: does not build"; continue; }
    timeout 300 bash /tmp/seed.demo/demo.sh > /tmp/seed.out 2>&1; r=$?
    [ $r != 0 ] && echo "demo with bug: rc $r: $(tail -1 /tmp/seed.out)" || { echo "$id: demo does not fail"; continue; }
    if [ -z "$NOTEST" ]; then
        timeout -k 10 200 cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 > /tmp/seed.cargo.log 2>&1
        PROCSTAR=/tmp/seed/target/debug/procstar PYTHONPATH=/tmp/seed/python PYTHONDONTWRITEBYTECODE=1 timeout -k 10 300 /opt/vp/venv/bin/python -m pytest test -v -p no:cacheprovider --timeout 30 --continue-on-collection-errors --basetemp=/tmp/seed.tmp --junitxml=/tmp/seed.pytest.xml > /tmp/seed.pytest.log 2>&1
        python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.cargo.log junit:/tmp/seed.pytest.xml > /dev/null
        python3 - <<'P' || { echo "$id: breaks tests"; continue; }
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/seed.json'))['passed'])
m=sorted(b-p); print("tests pass" if not m else f"tests that fail: {m}"); sys.exit(bool(m))
P
    fi
    git checkout -q -- .
    [ -n "$NOCHECK" ] && continue
    prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    (flock 8
    git -C /repo apply $D/patch.diff
    cd /verif; t=$(date +%s); timeout 900 bash harness/check.sh $prop quick > /tmp/seed.check 2>&1; r=$?
    git -C /repo checkout -q -- .
    echo "check $prop: rc $r ($(( $(date +%s) - t )) s) $(grep -h VIOLATION /tmp/seed.check | head -1)"; [ $r = 1 ] && tail -3 /tmp/seed.check | cut -c1-300
    ) 8> /tmp/seed.lock
done
