#!/usr/bin/env python3
"""Makes and confirms planted bugs: tools/seed.py [ID...] (definitions in tools/seeds/*.py).  Scratch copy: /tmp/scr."""
import glob, importlib.util, json, os, subprocess, sys, shutil
V = '/verif'
SCR = '/tmp/scr'


def defs():
    r = {}
    for p in sorted(glob.glob(V + '/tools/seeds/*.py')):
        s = importlib.util.spec_from_file_location('x', p)
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        for d in m.SEEDS:
            r[d['id']] = d
    return r


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


DEMO = """#!/bin/bash
# cwd: the repository, after its build
set -eu
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -g %(flags)s -pthread -I. "$here/demo.cpp" %(src)s -o "$tmp/demo"
cd "$tmp"
timeout 120 ./demo
"""


def main():
    ds = defs()
    ids = sys.argv[1:] or [i for i in ds if not os.path.exists('%s/seeded/%s/patch.diff' % (V, i))]
    if not os.path.exists(SCR):
        sh('cp -a /repo %s' % SCR)
    for a in ('libfly.mk', 'test.sh', 'build.sh'):
        s = open('/opt/vp/' + a).read().replace('/opt/vp/libfly.mk', '/tmp/scrmk/libfly.mk').replace('/repo', SCR)
        os.makedirs('/tmp/scrmk', exist_ok=True)
        if not os.path.exists('/tmp/scrmk/' + a) or open('/tmp/scrmk/' + a).read() != s:
            open('/tmp/scrmk/' + a, 'w').write(s)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for i in ids:
        d = ds[i]
        sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (SCR, SCR, SCR))
        for f, old, new in d['edits']:
            p = '%s/%s' % (SCR, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(i, 'EDIT MATCHES', s.count(old), f, repr(old[:60]))
                break
            open(p, 'w').write(s.replace(old, new))
        else:
            out = '%s/seeded/%s' % (V, i)
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(sh('git -C %s diff' % SCR).stdout)
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            open(out + '/demo.cpp', 'w').write(d['demo'])
            open(out + '/demo.sh', 'w').write(DEMO % {'flags': d.get('flags', ''), 'src': d.get('src', '_build/libfly.a')})
            b = sh('bash /tmp/scrmk/build.sh')
            if b.returncode:
                print(i, 'BUILD FAILS', b.stdout[-800:])
                shutil.rmtree(out)
                continue
            sh('bash /tmp/scrmk/test.sh /tmp/scrmk/out.json')
            t = json.load(open('/tmp/scrmk/out.json'))
            miss = stable - set(t['passed'])
            g, h = sh('bash %s/demo.sh' % out, cwd='/repo'), sh('bash %s/demo.sh' % out, cwd=SCR)
            ok = not miss and g.returncode == 0 and h.returncode != 0
            print(i, 'CONFIRMED' if ok else 'REJECTED', 'tests missing %s; demo clean %d, patched %d' % (sorted(miss)[:3], g.returncode, h.returncode), '' if ok else g.stdout[-500:] + h.stdout[-300:], flush=True)
            if not ok:
                shutil.move(out, '/tmp/rejected_' + i) if not os.path.exists('/tmp/rejected_' + i) else shutil.rmtree(out)
    sh('git -C %s checkout -q -- .' % SCR)


main()
