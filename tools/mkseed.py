#!/usr/bin/env python3
"""Maintains /verif/seeded from tools/seeds.py: mkseed.py [make|check|all] [ids...]
make : apply the change to /repo, confirm it builds and passes the stable tests, record the demo (harness copy + job + expected output of the unchanged tree)
check: apply, run the property's check, undo, report caught / missed
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'bin'), os.path.join(V, 'tools')]
import lib, seeds
REPO = '/repo'
DEMO = r'''#!/bin/bash
# exit 0 iff the code in the current directory gives the recorded (correct) answers
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
t="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/h" && tar -C "$t/h" -xf "$here/harness.tar" && cp "$here/job.json" "$t/"
sed -i "s#path = \"/repo\"#path = \"$repo\"#" "$t/h/Cargo.toml"
export CARGO_TARGET_DIR="$t/target"
(cd "$t/h" && cargo build --offline -q 2>"$t/build.log") || { tail -n 20 "$t/build.log"; exit 3; }
timeout 60 "$t/target/debug/vharness" CMD "$t/job.json" "$t/out.ndjson"
rc=$?
[ $rc -eq 0 ] || { echo "driver ended with status $rc"; exit 1; }
if cmp -s "$t/out.ndjson" "$here/expected.ndjson"; then echo same; exit 0; fi
echo "answers differ from the correct ones:"; diff "$here/expected.ndjson" "$t/out.ndjson" | cut -c1-400 | head -n 10
exit 1
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def undo():
    sh('git -C /repo checkout -- .')


def apply_edits(s):
    for f, a, b in s['edits']:
        p = os.path.join(REPO, f)
        t = open(p).read()
        assert t.count(a) == 1, (s['id'], f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))


def stable_ok():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        return 'does not build: ' + r.stdout[-1500:]
    sh('bash /opt/vp/test.sh /tmp/mkseed.json')
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    d = json.load(open('/tmp/mkseed.json'))
    ok = set(d.get('passed', []))
    miss = base - ok
    return 'fails tests: %s' % sorted(miss)[:5] if miss else None


def make(s):
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    d = os.path.join(V, 'seeded', s['id'])
    job = s['job']()
    res, crash = lib.run_harness(s['cmd'], job, 'seed')
    assert not crash, crash
    try:
        apply_edits(s)
        diff = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
        e = stable_ok()
        if e:
            print(s['id'], 'REJECTED', e)
            return False
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        json.dump(job, open(os.path.join(d, 'job.json'), 'w'))
        shutil.copy(os.path.join(lib.WORK, 'seed.out.ndjson'), os.path.join(d, 'expected.ndjson'))
        sh('tar -C %s -cf %s --sort=name --mtime=2020-01-01 Cargo.toml Cargo.lock src' % (os.path.join(V, 'harness'), os.path.join(d, 'harness.tar')))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO.replace('CMD', s['cmd']))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        bad = sh('bash %s/demo.sh' % d, cwd=REPO)
    finally:
        undo()
    good = sh('bash %s/demo.sh' % d, cwd=REPO)
    if good.returncode != 0 or bad.returncode != 1:
        print(s['id'], 'DEMO WRONG: clean %d, changed %d' % (good.returncode, bad.returncode), good.stdout[-500:], bad.stdout[-500:])
        shutil.rmtree(d)
        return False
    print(s['id'], 'made;', bad.stdout.strip()[:300])
    return True


def check(s):
    d = os.path.join(V, 'seeded', s['id'])
    if not os.path.exists(d):
        return
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    r = sh('git -C /repo apply %s/patch.diff' % d)
    assert r.returncode == 0, r.stdout
    try:
        r = sh('python3 bin/check.py ' + s['property'], cwd=V)
    finally:
        undo()
    caught = r.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in r.stdout
    print(s['id'], s['property'], 'caught' if caught else 'MISSED rc=%d' % r.returncode, r.stdout.strip().splitlines()[0][:300] if r.stdout.strip() else '', flush=True)


if __name__ == '__main__':
    what = sys.argv[1]
    ids = sys.argv[2:]
    lib.build()
    for s in seeds.SEEDS:
        if ids and s['id'] not in ids:
            continue
        try:
            if what in ('make', 'all'):
                if make(s) and what == 'all':
                    check(s)
            elif what == 'check':
                check(s)
        finally:
            undo()
