#!/usr/bin/env python3
"""Create and validate planted bugs: mkseed.py [ids...] (definitions in tools/seeds.py)."""
import os, sys, json, subprocess, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
w="$(mktemp -d)"; trap 'rm -rf "$w"' EXIT
cd "$w"
g++ -std=c++17 -O1 -w %s -I"$repo/pico-cnn" -I"$repo" "$here/demo.cpp" "$repo"/pico-cnn/tensor.cpp "$repo"/pico-cnn/layers/*.cpp "$repo"/pico-cnn/layers/*/*.cpp %s -o demo || exit 3
timeout 60 ./demo > out.txt 2> err.txt; rc=$?
tail -n 3 out.txt; [ $rc -eq 0 ] || { tail -n 3 err.txt; exit 1; }
exit 0
'''
HEAD = '''#include "pico-cnn.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
using namespace pico_cnn; using namespace pico_cnn::naive;
static int bad = 0;
static void expect(bool ok, const char *what) { if (!ok) { printf("WRONG: %s\\n", what); bad = 1; } }
static bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(b)); }
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    want = sys.argv[1:]
    for s in seeds.SEEDS:
        if want and s['id'] not in want: continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        if not want and os.path.exists(os.path.join(d, 'meta.json')): continue
        t = tempfile.mkdtemp(prefix='seed'); r = os.path.join(t, 'repo')
        sh('cp -a /repo %s' % r)
        sh('git -C %s checkout -- . && rm -rf %s/_build' % (r, r))
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(r, f); x = open(p).read()
            n = s.get('count', 1)
            if x.count(old) < 1: print(s['id'], 'pattern not found in', f); ok = False; break
            i = -1
            for _ in range(s.get('nth', 1)): i = x.index(old, i+1)
            x = x[:i] + new + x[i+len(old):]
            open(p, 'w').write(x)
        if not ok: shutil.rmtree(t); continue
        diff = sh('git -C %s diff' % r).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.cpp'), 'w').write(HEAD + s.get('pre', '') + 'int main() {\n' + s['demo'] + '\n    return bad;\n}\n')
        io = ' '.join('"$repo"/pico-cnn/io/%s.cpp' % x for x in s.get('io', [])) + s.get('libs', '')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (s.get('flags', ''), io)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh('cd /repo && bash %s/demo.sh' % d); b = sh('cd %s && bash %s/demo.sh' % (r, d))
        # stable tests with the patch
        sh('rsync -a 2>/dev/null'); tests = 'skipped'
        u = tempfile.mkdtemp(prefix='ut')
        c = sh('cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 && ninja -C %s' % (r, u, u))
        if c.returncode: tests = 'BUILD FAILED ' + c.stdout[-300:]
        else:
            e = sh('cd %s && timeout 100 ./unit_tests' % u); tests = 'pass' if 'OK (' in e.stdout + e.stderr else 'FAIL ' + (e.stdout + e.stderr)[-300:]
        shutil.rmtree(u); shutil.rmtree(t)
        good = a.returncode == 0 and b.returncode not in (0, 3) and tests == 'pass'
        print(s['id'], 'OK' if good else 'REJECTED', 'clean', a.returncode, 'patched', b.returncode, tests, '' if good else (a.stdout + a.stderr + b.stdout + b.stderr)[-500:])
        if not good: shutil.rmtree(d)
main()
