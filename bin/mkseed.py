#!/usr/bin/env python3
"""mkseed.py DEFS.py [ID...]: makes /verif/seeded/<id>/ from a table of planted bugs and confirms patch and demonstration in a
scratch copy (compile, demo on the unchanged tree, demo on the changed tree). Build and stable tests are confirmed by vcheck."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/sh
# run in the repository after the build; exits 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GNU_SOURCE -I include -I src -I "$D" -o "$T/demo" "$D/demo.c" \\
  src/message.c src/trax.c src/region.c src/strmap.c src/base64.c src/debug.c -lm || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo
'''
HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/socket.h>
#include <math.h>
#include "trax.h"
#include "message.h"
#include "buffer.h"
#define CHECK(c) do { if (!(c)) { printf("wrong: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for b in ns['BUGS']:
    if only and b['id'] not in only:
        continue
    w = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % (w, w), shell=True, check=True)
        for f, old, new in b['edits']:
            p = w + '/' + f
            s = open(p, encoding='latin-1').read()
            n = s.count(old)
            if n != 1:
                sys.exit('%s: %d occurrences of %r in %s' % (b['id'], n, old, f))
            open(p, 'w', encoding='latin-1').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True).stdout
        d = V + '/seeded/' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.sh', 'w').write(b.get('sh', SH).replace(' -lm', ' -lm ' + b['ld'] if b.get('ld') else ' -lm'))
        os.chmod(d + '/demo.sh', 0o755)
        if 'demo' in b:
            open(d + '/demo.c', 'w').write((HEAD if b.get('head', True) else '') + b['demo'])
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        r1 = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, timeout=300)
        r2 = subprocess.run([d + '/demo.sh'], cwd=w, capture_output=True, text=True, timeout=300)
        ok = r1.returncode == 0 and r2.returncode not in (0, 2)
        print(b['id'], 'ok' if ok else 'NOT CONFIRMED', r1.returncode, r2.returncode, (r2.stdout + r2.stderr).strip().split('\n')[0][:150])
        if not ok:
            print(r1.stdout[-1500:], r1.stderr[-1500:], r2.stdout[-500:], r2.stderr[-1500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
