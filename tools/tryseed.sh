#!/bin/bash
# tryseed.sh ID [check]   confirm a planted bug in a scratch copy (/tmp/sr): demo passes clean, fails patched, tests pass.
# With "check": also run the property's quick check against the patched scratch copy (SIM_REPO).
set -u
ID=$1; S=/verif/seeded/$ID
if [ ! -d /tmp/sr ]; then
  git clone -q /repo /tmp/sr && (cd /tmp/sr && CC=gcc CXX=g++ cmake -S cloudini_lib -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCLOUDINI_BUILD_TOOLS=OFF -DCLOUDINI_BUILD_BENCHMARKS=OFF -DCLOUDINI_FORCE_VENDORED_DEPS=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null && ninja -C _build -j8 >/dev/null) || exit 1
fi
cd /tmp/sr || exit 1
git checkout -q -- . ; git pull -q /repo HEAD 2>/dev/null
rm -rf /tmp/sd_$ID; cp -r $S /tmp/sd_$ID; rm -f /tmp/sd_$ID/patch.diff /tmp/sd_$ID/meta.json
if [ "${SKIPCLEAN:-}" = "" ]; then
  ninja -C _build -j8 >/tmp/ts_b.log 2>&1
  timeout 300 bash /tmp/sd_$ID/demo.sh >/tmp/ts_clean.log 2>&1; echo "$ID clean demo rc=$?"; tail -2 /tmp/ts_clean.log
fi
git apply $S/patch.diff || exit 1
ninja -C _build -j8 >/tmp/ts_b.log 2>&1 || { tail -20 /tmp/ts_b.log; git checkout -q -- .; exit 1; }
_build/test/test_cloudini 2>&1 | tail -4
timeout 300 bash /tmp/sd_$ID/demo.sh >/tmp/ts_bug.log 2>&1; echo "$ID patched demo rc=$?"; tail -3 /tmp/ts_bug.log
if [ "${2:-}" = check ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif; SIM_REPO=/tmp/sr SIM_BUILD=/tmp/sr_build timeout 900 python3 check.py ${3:-$P} quick; echo "$ID check rc=$?"
  git checkout -q -- evidence 2>/dev/null
fi
cd /tmp/sr; git checkout -q -- .; rm -rf /tmp/sd_$ID
