#!/usr/bin/env python3
"""Planted bugs: writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.rs,meta.json} from the table in seeds_table.py.
usage: seeds.py write [ids…]      (patches are made against /repo's HEAD in a scratch copy)
       seeds.py confirm [ids…]    (applies each patch to /repo, builds, runs the stable tests and the demo, undoes it)
       seeds.py check [ids…]      (applies each patch to /repo, runs the quick check of its property, undoes it)"""
import json, os, subprocess as sp, sys, time, tempfile, shutil
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'seeded')

RUST_DEMO = '''#!/bin/bash
# Copies the crate to a scratch directory, adds the test module demo.rs to it and runs it.
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/latke /repo/saber-rust "$T"/ && mkdir "$T/pqcrypto" || exit 2
for f in /repo/pqcrypto/*; do [ "$(basename "$f")" = target ] || cp -a "$f" "$T/pqcrypto/"; done
cp "$D/demo.rs" "$T/@CRATE@/src/planted_demo.rs" || exit 2
printf '\\n#[cfg(test)]\\nmod planted_demo;\\n' >> "$T/@CRATE@/src/lib.rs"
@APPEND@
cd "$T/@CD@" || exit 2
CARGO_TARGET_DIR="$T/target" timeout 280 cargo test --offline -p @PKG@ --lib planted_demo -- --test-threads=1 2>&1 | tail -40
exit ${PIPESTATUS[0]}
'''
CRATES = dict(latke=('latke', '.', 'latke'), saber=('saber-rust', '.', 'saber'), dilithium=('pqcrypto/pqcrypto-dilithium', 'pqcrypto', 'pqcrypto-dilithium'))


def run(cmd, **k):
    return sp.run(cmd, shell=isinstance(cmd, str), stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)


def write(s):
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with tempfile.TemporaryDirectory() as t:
        run('git -C /repo worktree prune')
        run(['git', 'clone', '-q', '/repo', t + '/r'])
        for f, edits in s['edits'].items():
            p = t + '/r/' + f
            x = open(p).read()
            for e in edits:
                old, new = e[0], e[1]
                n = e[2] if len(e) > 2 else 1
                assert x.count(old) == n, (s['id'], f, old, x.count(old))
                x = x.replace(old, new)
            open(p, 'w').write(x)
        diff = run(['git', '-C', t + '/r', 'diff']).stdout
    open(d + '/patch.diff', 'w').write(diff)
    if 'rust' in s:
        c = CRATES[s.get('crate', 'latke')]
        open(d + '/demo.rs', 'w').write(s['rust'].lstrip('\n'))
        app = ''
        if 'append' in s:
            open(d + '/append.rs', 'w').write(s['append'])
            app = 'cat "$D/append.rs" >> "$T/%s"' % s['appendto']
        open(d + '/demo.sh', 'w').write(RUST_DEMO.replace('@APPEND@', app).replace('@CRATE@', c[0]).replace('@CD@', c[1]).replace('@PKG@', c[2]))
    else:
        for n, x in s['files'].items():
            open(d + '/' + n, 'w').write(x.lstrip('\n'))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)


def clean():
    run('git -C /repo checkout -- .')
    assert run('git -C /repo status --short').stdout.strip() == ''


def confirm(s, full=True):
    d = os.path.join(OUT, s['id'])
    clean()
    r0 = run(['bash', d + '/demo.sh'], cwd='/repo')
    res = ['clean demo %d' % r0.returncode]
    try:
        a = run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        assert a.returncode == 0, a.stdout
        if full:
            b = run('bash /opt/vp/build.sh')
            res.append('build %d' % b.returncode)
            run('bash /opt/vp/test.sh /tmp/seed_t.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            now = json.load(open('/tmp/seed_t.json'))
            got = now.get('passed', now)
            miss = set(base['stable']) - set(got)
            res.append('tests missing %s' % sorted(miss)[:4])
        r1 = run(['bash', d + '/demo.sh'], cwd='/repo')
        res.append('patched demo %d' % r1.returncode)
    finally:
        clean()
    ok = r0.returncode == 0 and r1.returncode != 0 and (not full or (b.returncode == 0 and not miss))
    print(s['id'], 'OK' if ok else 'BAD', *res, flush=True)
    if not ok:
        print((r0.stdout if r0.returncode else r1.stdout)[-3000:], flush=True)


def check(s):
    d = os.path.join(OUT, s['id'])
    clean()
    try:
        a = run(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        assert a.returncode == 0, a.stdout
        t = time.time()
        r = run(['python3-vt', V + '/sym/check.py', s['property']], cwd=V)
        last = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'UNDECIDED' in l or 'rror' in l][:2]
        print(s['id'], s['property'], 'CAUGHT' if r.returncode == 1 and 'VIOLATION property=%s ' % s['property'] in r.stdout else 'MISSED rc=%d' % r.returncode, '%.0fs' % (time.time() - t), *last, flush=True)
    finally:
        clean()


if __name__ == '__main__':
    from seeds_table import SEEDS
    ids = sys.argv[2:]
    for s in SEEDS:
        if ids and s['id'] not in ids:
            continue
        dict(write=write, confirm=confirm, quick=lambda s: confirm(s, False), check=check)[sys.argv[1]](s)
