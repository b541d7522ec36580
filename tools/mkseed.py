#!/usr/bin/env python3
"""Make and confirm the planted bugs of /verif/seeded (nothing a check reads).

Each entry of seeds_def.SEEDS: id, property, needs, breaks, edits, demo.  The edits are applied in a scratch copy of /repo, which is built
and tested there; the demonstration must fail with the change and pass without it; the check of the property is then run on the
scratch copy (VC_REPO).  `mkseed.py [regex]` redoes the entries that match and writes seeded/<id>/."""
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_def import SEEDS, HEAD
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the library behaves; anything else: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s
'''
RUN = '%(cxx)s %(flags)s -I. "$d/demo.%(ext)s" neon_sim.cpp -o "$t/demo" || exit 3\ncd "$t" && timeout 60 ./demo'


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True)


def func(src, name):
    m = re.search(r'^[a-z][^\n;]*\b%s\s*\([^;{]*\)\s*\{' % name, src, re.M)
    if not m:
        raise SystemExit('no function ' + name)
    return m.start(), src.index('\n}', m.start()) + 3


def apply(tree, edits):
    for e in edits:
        path = os.path.join(tree, e.get('file', 'neon_sim.cpp'))
        s = open(path).read()
        if 'fn' in e:
            i, j = func(s, e['fn'])
            b = s[i:j]
        else:
            i, j, b = 0, len(s), s
        if 'body' in e:
            k = b.index('{')
            n = b[:k] + '{\n' + e['body'].strip('\n') + '\n}\n'
        else:
            if e['old'] not in b:
                raise SystemExit('not found: %r in %s' % (e['old'], e.get('fn', path)))
            n = b.replace(e['old'], e['new'], e.get('count', 1))
        s = s[:i] + n + s[j:]
        open(path, 'w').write(s)


def not_original(diff):
    """lines the change removes that are not lines of the original repository"""
    base = sh('git -C /repo log --reverse --format=%H --invert-grep --grep="^fix:" -E').stdout.split()
    bad, n, f, ln = [], 0, None, 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:].strip()
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-'):
            c = sh('git -C /repo blame -s -l -L %d,%d HEAD -- %s' % (ln, ln, f)).stdout.split()[0].lstrip('^')
            n += 1
            if not any(b.startswith(c) for b in base):
                bad.append(ln)
            ln += 1
        elif l.startswith(' '):
            ln += 1
    return bad or (['no line removed'] if not n else [])


def one(s):
    d = os.path.join(ROOT, 'seeded', s['id'])
    tree = tempfile.mkdtemp(prefix='seed')
    try:
        sh('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (tree, tree))
        apply(tree, s['edits'])
        diff = sh('git diff', tree).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        for f in os.listdir(d):
            if f.startswith('demo.'):
                os.remove(os.path.join(d, f))
        ext = s.get('ext', 'cpp')
        if 'demo' in s:
            open('%s/demo.%s' % (d, ext), 'w').write(HEAD[ext] + s['demo'].strip('\n') + '\n')
        flags = s.get('flags', '-std=c++11 -O1')
        open(d + '/demo.sh', 'w').write(SH % (s.get('sh') or RUN % dict(cxx=s.get('cxx', 'g++'), flags=flags, ext=ext)))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # tests in the scratch tree
        b = sh('cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_C_FLAGS_RELWITHDEBINFO="-O2 -g" '
               '-DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" -DNEON_SIM_BUILD_TEST=ON && ninja -C _b', tree)
        exe = sh('find _b -name test_neon_sim -type f', tree).stdout.split()
        bad = ['changes a line that is not original: %s' % x for x in not_original(diff)]
        if not exe:
            bad.append('does not build: ' + b.stdout[-600:])
        else:
            exe = os.path.join(tree, exe[0])
            stable = json.load(open('/opt/vp/BASELINE.json'))
            names = sh(exe + ' --list-tests').stdout.split()
            for n in names:
                if sh('timeout 60 %s --filter=%s' % (exe, n)).returncode:
                    bad.append('test fails: ' + n)
        w = sh('bash %s/demo.sh' % d, tree)
        if w.returncode == 0 or w.returncode == 3:
            bad.append('demo passes/does not build with the change (%d) %s' % (w.returncode, w.stderr[-1500:]))
        o = sh('bash %s/demo.sh' % d, '/repo')
        if o.returncode != 0:
            bad.append('demo fails on the unchanged tree: %d %s' % (o.returncode, (o.stdout + o.stderr)[-1500:]))
        env = dict(os.environ, VC_REPO=tree)
        c = sh('timeout 900 python3-vt vc/check.py %s' % s['property'], ROOT, env)
        viol = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        others = ''
        print('%-28s %s demo=%d %s check=%d %s' % (s['id'], s['property'], w.returncode, 'BAD ' + '; '.join(bad) if bad else 'ok',
              c.returncode, viol[0] if viol else 'MISSED ' + c.stdout[-300:]), flush=True)
        return not bad, c.returncode == 1 and bool(viol)
    finally:
        shutil.rmtree(tree)


if __name__ == '__main__':
    pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else '.')
    r = [one(s) for s in SEEDS if pat.search(s['id'])]
    print('%d entries, %d valid, %d caught' % (len(r), sum(a for a, _ in r), sum(b for _, b in r)))
