"""Runs one proof unit: extract -> goto-cc -> goto-instrument (contracts) -> cbmc."""
import os, re, subprocess, time, shutil, hashlib, json
from concurrent.futures import ThreadPoolExecutor
from csrc import Source, StructureError

REPO = os.environ.get('TRAX_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

BASE_CHECKS = ['--bounds-check', '--pointer-check', '--pointer-primitive-check', '--signed-overflow-check',
               '--div-by-zero-check', '--undefined-shift-check']


class Unit:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        self.source = None
        self.stubs = []
        self.loops = []       # (func, idx, total, clause)
        self.ghosts = []
        self.afters = []
        self.calls = []
        self.ops = []
        self.unions = []
        self.cbmc = []
        self.defs = []
        self.checks = None
        self.functions = []   # functions under contract in this unit
        self.assumes = []     # assumptions, verbatim for the evidence
        self.bounded = None   # text of the bound if the unit is a bounded stand-in
        self.fallback = None  # (defs, cbmc options) of the bounded fallback
        self.dfcc = True
        self.timeout = 600
        self.tier = 'quick'
        self.solver = None
        self.remove = []
        self.macros = []
        self.cases = 1
        self.split = 1        # obligations are dealt out to this many runs of cbmc
        text = open(path).read()
        m = re.match(r'//@ like (\w+)\n', text)   # another unit with some directives changed
        if m:
            base = open(os.path.join(os.path.dirname(path), m.group(1) + '.c')).read()
            pre, sep, har = base.partition('//@@prelude')
            text = pre + text[m.end():] + sep + har
        pre, _, har = text.partition('//@@harness')
        head, _, prelude = pre.partition('//@@prelude')
        self.prelude = prelude
        self.harness = har
        for line in head.splitlines():
            if not line.startswith('//@ '):
                continue
            k, _, v = line[4:].partition(' ')
            v = v.strip()
            if k == 'source': self.source = v
            elif k == 'stub': self.stubs += v.split()
            elif k == 'loop':
                m = re.match(r'(\w+) (\d+) of (\d+|\*) : (.*)$', v)
                self.loops.append((m.group(1), int(m.group(2)), None if m.group(3) == '*' else int(m.group(3)),
                                   m.group(4)))
            elif k == 'ghost':
                m = re.match(r'(\w+) (\d+) : (.*)$', v)
                self.ghosts.append((m.group(1), int(m.group(2)), m.group(3)))
            elif k == 'after':
                m = re.match(r'(\w+) (\d+) : (.*)$', v)
                self.afters.append((m.group(1), int(m.group(2)), m.group(3)))
            elif k == 'op':
                f, _, e = v.partition(' : ')
                e, _, g = e.rpartition(' : ')
                a, o, b = e.split(' | ')
                self.ops.append((f.strip(), a, o.strip(), b, g.strip()))
            elif k == 'union': self.unions.append(tuple(x.strip() for x in v.split(':')))
            elif k == 'call': self.calls.append(tuple(x.strip() for x in v.split(':')))
            elif k == 'cbmc': self.cbmc += v.split()
            elif k == 'defs': self.defs += v.split()
            elif k == 'checks': self.checks = v.split()
            elif k == 'function': self.functions += v.split()
            elif k == 'assume': self.assumes.append(v)
            elif k == 'bounded': self.bounded = v
            elif k == 'fallback': self.fallback = v
            elif k == 'nodfcc': self.dfcc = False
            elif k == 'timeout': self.timeout = int(v)
            elif k == 'tier': self.tier = v
            elif k == 'solver': self.solver = v
            elif k == 'remove': self.remove += v.split()
            elif k == 'cases': self.cases = int(v)
            elif k == 'split': self.split = int(v)
            elif k == 'macros': self.macros += v.split()
            else: raise ValueError('%s: unknown directive %s' % (path, k))


def run(cmd, timeout, cwd):
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        out += '\nTIMEOUT after %ds' % timeout
        rc = 124
    return rc, out, time.time() - t


def race(cmds, timeout, cwd, sfx=''):
    t = time.time()
    ps = []
    for n, c in enumerate(cmds):
        f = open(os.path.join(cwd, 'out%s_%d.txt' % (sfx, n)), 'w+')
        ps.append((subprocess.Popen(c, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True), f))
    win = None
    alive = set(range(len(ps)))
    while win is None and alive and time.time() - t < timeout:
        for n in list(alive):
            rc = ps[n][0].poll()
            if rc is not None:
                alive.discard(n)
                if rc in (0, 10) or not alive:
                    win = n
                    break
        time.sleep(0.02)
    for n in alive:
        try:
            os.killpg(ps[n][0].pid, 9)
        except OSError:
            pass
        ps[n][0].wait()
    for _, f in ps:
        f.seek(0)
    outs = [f.read() for _, f in ps]
    for _, f in ps:
        f.close()
    if win is None:
        return 124, outs[0] + '\nTIMEOUT after %ds' % timeout, time.time() - t, 0
    return ps[win][0].returncode, outs[win], time.time() - t, win


def preprocess(source):
    r = subprocess.run(['gcc', '-E', '-P', '-D_GNU_SOURCE', '-D__NO_CTYPE', '-I', REPO + '/include', '-I', REPO + '/src',
                        os.path.join(REPO, source)], capture_output=True, text=True)
    if r.returncode:
        raise StructureError('preprocessing %s failed: %s' % (source, r.stderr[-500:]))
    return r.stdout


def macros(source):
    """The repository's own macros, for the harness (the verified text itself is already expanded)."""
    names = set()
    for d in ('src', 'include'):
        for f in os.listdir(os.path.join(REPO, d)):
            if f.endswith(('.h', '.c')):
                names |= set(re.findall(r'^[ \t]*#[ \t]*define[ \t]+(\w+)',
                                        open(os.path.join(REPO, d, f), errors='replace').read(), re.M))
    r = subprocess.run(['gcc', '-E', '-dM', '-D_GNU_SOURCE', '-I', REPO + '/include', '-I', REPO + '/src',
                        os.path.join(REPO, source)], capture_output=True, text=True)
    out = []
    for line in r.stdout.splitlines():
        m = re.match(r'#define (\w+)', line)
        if m and m.group(1) in names:
            out.append('#undef %s\n%s' % (m.group(1), line))
    return '\n'.join(out)


PROP = re.compile(r'^\[(\S+)\] (.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$')


def prove(unit, work, bounded_fallback=False, pool=None):
    """Result dict: status proved|failed|undecided|structure, obligations, ..."""
    res = dict(unit=unit.name, functions=unit.functions, assumes=unit.assumes, bounded=unit.bounded,
               obligations=0, discharged=0, failed=[], wall=0.0, solver_time=0.0, status='undecided', output='',
               backend='cbmc 6.11.0', commands=[])
    t0 = time.time()
    d = os.path.join(work, unit.name + ('_b' if bounded_fallback else ''))
    os.makedirs(d, exist_ok=True)
    try:
        src = Source(preprocess(unit.source))
        for f in unit.functions:
            if f not in src.funcs:
                raise StructureError('function under contract %s not found' % f)
        if bounded_fallback:
            text = src.instrument(unit.stubs, [], [], [], unit.calls, (), unit.unions)
        else:
            text = src.instrument(unit.stubs, unit.loops, unit.ghosts, unit.afters, unit.calls, unit.ops, unit.unions)
    except StructureError as e:
        res.update(status='structure', output=str(e), wall=time.time() - t0)
        return res
    mac = macros(unit.source)
    early = [l for l in mac.split('\n') if any(re.match(r'#define %s\b' % x, l) for x in unit.macros)]
    with open(os.path.join(d, 'unit.c'), 'w') as f:
        f.write('#include "%s/proofs/common.h"\n' % HERE + '\n'.join(early) + '\n' + unit.prelude + '\n' + text + '\n'
                + mac + '\n#define NULL ((void*)0)\n' + unit.harness)
    ks = range(unit.cases)
    if pool:
        rs = list(pool.map(lambda k: prove_case(unit, d, k, bounded_fallback), ks))
    else:
        rs = [prove_case(unit, d, k, bounded_fallback) for k in ks]
    ok = {}
    seen = {}
    for k, r in enumerate(rs):
        res['commands'] += r['commands'] if k == 0 else []
        res['solver_time'] += r['solver_time']
        res['backend'] = r.get('backend', res['backend'])
        for name, desc, st in r['props']:
            if 'REACH ' in desc:
                ok[desc] = ok.get(desc, False) or st != 'SUCCESS'
                continue
            seen[name] = seen.get(name, True) and st == 'SUCCESS'
            if st != 'SUCCESS':
                res['failed'].append('[%s] %s: %s' % (name, desc, st) + (' (case %d)' % k if unit.cases > 1 else ''))
    res['failed'].sort(key=lambda x: 'FAILURE' not in x)
    res['obligations'] = len(seen)
    res['discharged'] = sum(seen.values())
    for desc, x in ok.items():
        if not x:
            res['failed'].append('vacuous: %s is unreachable' % desc)
    res['reach'] = len(ok)
    bad = [r for r in rs if r['status'] != 'ok']
    res['output'] = (bad[0] if bad else next((r for r in rs if r['rc'] == 10), rs[0]))['output']
    if any('FAILURE' in x for x in res['failed']):
        res['status'] = 'failed'
    elif any(r['status'] == 'structure' for r in rs):
        res['status'] = 'structure'
    elif bad or any('vacuous' not in x for x in res['failed']):
        res['status'] = 'undecided'
    elif res['failed']:
        res['status'] = 'failed'
    else:
        res['status'] = 'proved'
    res['wall'] = time.time() - t0
    return res


def prove_case(unit, d, case, bounded_fallback):
    r = dict(status='ok', props=[], output='', commands=[], solver_time=0.0, rc=0)
    defs = list(unit.defs)
    sfx = ''
    if unit.cases > 1:
        defs.append('-DCASE=%d' % case)
        sfx = str(case)
    if bounded_fallback:
        defs.append('-DBOUNDED')
    gb = 'a%s.gb' % sfx
    cmd = ['goto-cc', '-D_GNU_SOURCE', '-DPROOF'] + defs + ['-o', gb, 'unit.c']
    r['commands'].append(' '.join(cmd))
    rc, out, _ = run(cmd, 120, d)
    if rc:
        r.update(status='structure', output='goto-cc: ' + out[-3000:])
        return r
    if unit.dfcc and not bounded_fallback:
        cmd = ['goto-instrument', '--no-malloc-may-fail', '--dfcc', 'main', '--apply-loop-contracts', gb, 'b%s.gb' % sfx]
        gb = 'b%s.gb' % sfx
        r['commands'].append(' '.join(cmd))
        rc, out, _ = run(cmd, 300, d)
        if rc:
            r.update(status='structure', output='goto-instrument: ' + out[-3000:])
            return r
    cmd = ['cbmc', gb, '--drop-unused-functions', '--no-malloc-may-fail', '--object-bits', '10'] \
        + (unit.checks if unit.checks is not None else BASE_CHECKS) + unit.cbmc
    if bounded_fallback:
        cmd += unit.fallback.split()
    # two SAT back ends side by side, the first answer counts
    solvers = [x.strip() for x in unit.solver.split('|')] if unit.solver else ['--sat-solver minisat2', '--sat-solver cadical']
    if bounded_fallback and unit.split > 1:
        solvers = ['--sat-solver minisat2', '--sat-solver cadical']
    r['commands'].append(' '.join(cmd + solvers[0].split()))
    groups = [[]]
    if unit.split > 1 and not bounded_fallback:
        rc, out, _ = run(cmd + ['--show-properties'], 60, d)
        names = re.findall(r'^Property (\S+):$', out, re.M)
        # the obligations of the code and of the harness first, so that the hard ones go to different runs
        names.sort(key=lambda x: ('.assertion.' not in x and 'invariant' not in x, x))
        groups = [[y for x in names[k::unit.split] for y in ('--property', x)] for k in range(unit.split)]
        groups = [g for g in groups if g] or [[]]

    def group(k):
        return race([cmd + groups[k] + x.split() for x in solvers], unit.timeout, d, '%s_%d' % (sfx, k))
    with ThreadPoolExecutor(6) as ex:
        rs = list(ex.map(group, range(len(groups))))
    for rc, out, wall, who in rs:
        r['backend'] = 'cbmc 6.11.0 ' + solvers[who].replace('--sat-solver ', 'SAT ')
        r['solver_time'] += wall
        if rc not in (0, 10):
            r['status'] = 'undecided'
            r['output'] = out
        if rc == 10 and r['status'] == 'ok':
            r['rc'] = rc
            r['output'] = out
        elif not r['output']:
            r['output'] = out
        n = len(r['props'])
        for line in out.splitlines():
            m = PROP.match(line)
            if m:
                r['props'].append(m.groups())
        if len(r['props']) == n:
            r['status'] = 'undecided'
    if r['status'] == 'undecided':
        r['props'] = []
    return r


if __name__ == '__main__':
    import sys, tempfile
    from concurrent.futures import ThreadPoolExecutor
    w = tempfile.mkdtemp(prefix='prove')
    pool = ThreadPoolExecutor(4)
    for p in sys.argv[1:]:
        fb = False
        if p.startswith('b:'):
            fb = True; p = p[2:]
        u = Unit(p)
        r = prove(u, w, fb, pool)
        print('%-28s %-10s obligations %d discharged %d reach %s wall %.1fs' % (u.name, r['status'], r['obligations'],
              r['discharged'], r.get('reach'), r['wall']))
        for x in r['failed'][:40]:
            print('   ', x)
        if r['status'] in ('structure', 'undecided'):
            print(r['output'][-3000:])
        print('   work', os.path.join(w, u.name))
