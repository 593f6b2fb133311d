#!/bin/bash
# plant.sh ID...: confirm seeded bugs in a scratch copy of /repo, then run the
# property's check against /repo with the patch applied (and undone).
set -u
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
for ID in "$@"; do
    D=/verif/seeded/$ID
    P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
    rm -rf /tmp/plantcopy
    mkdir -p /tmp/plantcopy/seed
    cp -a /repo /tmp/plantcopy/repo
    cp "$D"/* /tmp/plantcopy/seed/
    cd /tmp/plantcopy/repo
    bash /tmp/plantcopy/seed/demo.sh >/tmp/plantcopy/d0 2>&1; d0=$?
    git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; continue; }
    bash /tmp/plantcopy/seed/demo.sh >/tmp/plantcopy/d1 2>&1; d1=$?
    t=skipped
    if [ "${TESTS:-1}" = 1 ]; then
        git -C /repo apply "$D/patch.diff"
        t=$( (cd /repo; bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plantcopy/t.json) 2>&1 | tail -1)
        git -C /repo checkout -- .
    fi
    git -C /repo apply "$D/patch.diff"
    c=$(cd /verif; bash check.sh "$P" quick 2>&1 | grep -E 'VIOLATION|violations,|harness' | cut -c1-230 | head -3)
    git -C /repo checkout -- .
    echo "== $ID ($P): demo clean=$d0 patched=$d1 tests=[$t]"
    echo "$c" | sed 's/^/     /'
    [ "$d0" = 0 ] || tail -5 /tmp/plantcopy/d0
    rm -rf /tmp/plantcopy
done
