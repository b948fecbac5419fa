#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]  - decides one property on the tree in $TRAX_REPO (default /repo).

The deciding step is the verifier accepting every obligation of the property's proof units (proofs/*.c), which are
regenerated from the current source on every run. A concrete oracle runs beside it on the compiled real code, to have a
failing input to show when there is one. Exit 0: held. Exit 1: VIOLATION line. See DESIGN.md.
"""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.dont_write_bytecode = True
from prove import Unit, prove, REPO, run
from checks import CHECKS

FIT = re.compile(r'\] line \d+ unfit |is assignable|assigns|frame condition|is freeable|dynamic allocation is allowed')


def oracle(src, mode, work, seed, secs, procs, res):
    """Builds the concrete oracle and runs it with several seeds; res gets the outcome."""
    exe = os.path.join(work, 'oracle_%s' % mode)
    cmd = [os.path.join(VERIF, 'native', 'build.sh'), os.path.join(VERIF, 'native', src + '.c'), exe]
    r = subprocess.run(cmd, capture_output=True, text=True)
    res['runs'] = []
    if r.returncode:
        res['error'] = 'oracle did not build: ' + r.stderr[-2000:]
        return
    ps = []
    for k in range(procs):
        s = seed * 1000 + k
        out = open(os.path.join(work, 'oracle_%s_%d.txt' % (mode, s)), 'w+')
        d = os.path.join(work, 'd_%s_%d' % (mode, s))
        os.makedirs(d)
        ps.append((s, subprocess.Popen([exe, mode, str(s), str(secs)], stdout=out, stderr=subprocess.STDOUT, cwd=d,
                                       stdin=subprocess.DEVNULL, start_new_session=True), out))
    for s, p, out in ps:
        try:
            rc = p.wait(timeout=secs + 90)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            rc = 'timeout'
        out.seek(0)
        txt = out.read()
        out.close()
        fails = [l for l in txt.splitlines() if l.startswith('FAIL')]
        m = re.search(r'^OK cases=(\d+) distinct=(\d+) rule=(.*)$', txt, re.M)
        if rc == 0 and m and not fails:
            res['runs'].append(dict(seed=s, cases=int(m.group(1)), distinct=int(m.group(2))))
            res['rule'] = m.group(3)
        elif fails or rc in (3, 4, 5) or (isinstance(rc, int) and rc < 0):
            if 'failure' not in res:
                res['failure'] = dict(seed=s, secs=secs, line=(fails or ['FAIL exit status %s' % rc])[0], output=txt[-20000:],
                                      cmd='native/build.sh native/%s.c /tmp/oracle && /tmp/oracle %s %d %d' % (src, mode, s, secs))
        else:
            res['error'] = 'oracle gave no answer (%s): %s' % (rc, txt[-500:])


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    c = CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='trax_check_')
    atexit.register(shutil.rmtree, work, True)

    def stop(*_):
        sys.exit(1)
    signal.signal(signal.SIGTERM, stop)
    quick = tier == 'quick'
    orc = {}
    th = None
    if c.get('oracle'):
        th = threading.Thread(target=oracle, args=(*c['oracle'], work, seed, c.get('secs', 8) if quick else 90, 2 if quick else 6, orc))
        th.start()
    units = [Unit(os.path.join(VERIF, 'proofs', u + '.c')) for u in c['units'] + ([] if quick else c.get('thorough', []))]
    pool = ThreadPoolExecutor(6 if quick else 4)
    upool = ThreadPoolExecutor(8)

    def one(u):
        r = prove(u, work, False, pool)
        r['fit'] = None
        if r['status'] == 'failed' and all(FIT.search(x) for x in r['failed']):
            r['fit'] = 'the frame clause no longer fits: ' + '; '.join(r['failed'][:5])
        if r['status'] in ('structure', 'undecided') or r['fit']:
            why = r['fit'] or r['output'][-800:]
            if u.fallback is not None:
                b = prove(u, work, True, pool)
                b['unfit'] = why
                b['failed'] = [x for x in b['failed'] if 'vacuous' not in x]
                real = [x for x in b['failed'] if 'unwinding assertion' not in x and 'recursion unwinding' not in x]
                if b['status'] == 'failed' and not real:
                    b['status'] = 'undecided' if b['failed'] else 'proved'
                b['failed'] = real
                b['bounded'] = u.bounded or 'loops unwound: %s, sizes as in the BOUNDED branch of proofs/%s.c' % (u.fallback, u.name)
                b['is_fallback'] = True
                return b
            r['unfit'] = why
            if r['fit']:
                r['status'] = 'undecided'
        return r
    results = list(upool.map(one, units))
    if th:
        th.join()

    bad = [r for r in results if r['status'] == 'failed']
    proved = [r for r in results if r['status'] == 'proved' and not r.get('is_fallback') and not r['bounded']]
    bounded = [r for r in results if r['status'] == 'proved' and (r.get('is_fallback') or r['bounded'])]
    undecided = [r for r in results if r['status'] in ('undecided', 'structure')]
    known = []
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        known = [l.strip() for l in open(kf) if l.startswith('KNOWN-FINDING: property=%s ' % pid)]
    for l in known:
        print(l)

    ob = sum(r['obligations'] for r in proved)
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=0.0, violations=0, assumptions=sorted(set(
        a for r in results for a in r['assumes'])) + c.get('assumptions', []),
        coverage=dict(
            obligations=sum(r['obligations'] for r in results if not (r.get('is_fallback') or r['bounded'])),
            discharged=sum(r['discharged'] for r in results if not (r.get('is_fallback') or r['bounded'])),
            checker_cmd='; '.join(results[0]['commands']) if results and results[0]['commands'] else 'cbmc',
            trusted_base=['goto-cc, goto-instrument --dfcc --apply-loop-contracts and cbmc 6.11.0 with MiniSat, CaDiCaL or z3',
                          'gcc -E (preprocessing); engine/csrc.py inserts contracts and renames stubbed definitions, nothing else',
                          'the contracts of stubbed callees as written in the harness (discharged by the unit named in the assumption where there is one)'],
            functions_under_contract=sorted(set(f for r in proved for f in r['functions'])),
            units=[dict(unit=r['unit'], status=r['status'] + (' (bounded)' if r in bounded else ''), obligations=r['obligations'],
                        discharged=r['discharged'], reachability_probes=r.get('reach', 0), backend=r['backend'],
                        solver_s=round(r['solver_time'], 2), functions=r['functions'],
                        **({'bound': r['bounded'], 'why': r.get('unfit', '')[:600]} if r in bounded else {}),
                        **({'why': r.get('unfit', r['output'][-600:])} if r in undecided else {}),
                        **({'failed': r['failed'][:20]} if r in bad else {}))
                   for r in results],
            bounded_not_proved=[r['unit'] for r in bounded], not_decided=[r['unit'] for r in undecided],
            solver_s=round(sum(r['solver_time'] for r in results), 2),
            oracle=dict(note='runtime comparison of the real code with the contracts, for failing inputs; not part of the proof',
                        evaluations=sum(x['cases'] for x in orc.get('runs', [])),
                        distinct_nontrivial=sum(x['distinct'] for x in orc.get('runs', [])),
                        rule=orc.get('rule', ''), **({'error': orc['error']} if 'error' in orc else {}))))
    print('%s %s: %d units proved (%d obligations), bounded %s, undecided %s, failed %s; oracle %d cases' % (
        pid, tier, len(proved), ob, [r['unit'] for r in bounded], [r['unit'] for r in undecided], [r['unit'] for r in bad],
        ev['coverage']['oracle']['evaluations']))
    for r in undecided + bounded:
        if r.get('unfit'):
            print('  note: unit %s could not be redone as a proof (%s)' % (r['unit'], r['unfit'].strip().splitlines()[-1][:200] if r['unfit'].strip() else ''))

    rc = 0
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    replay = os.path.join(evd, 'replay-%s.txt' % pid)
    if os.path.exists(replay):
        os.remove(replay)
    if orc.get('failure') or bad:
        rc = 1
        ev['violations'] = 1
        with open(replay, 'w') as f:
            if orc.get('failure'):
                x = orc['failure']
                f.write('Failing input on the real code. Replay (in /verif):\n  %s\n%s\n\n%s\n' % (x['cmd'], x['line'], x['output']))
            for r in bad:
                f.write('\nUnit proofs/%s.c%s: obligations not discharged\n' % (r['unit'], ' (bounded)' if r.get('is_fallback') else ''))
                f.write('\n'.join('  ' + x for x in r['failed'][:60]))
                f.write('\ncommands: %s\n\nverifier output:\n%s\n' % ('; '.join(r['commands']), r['output'][-12000:]))
        for r in bad:
            for x in r['failed'][:6]:
                print('  unit %s: %s' % (r['unit'], x))
        if orc.get('failure'):
            print('  ' + orc['failure']['line'][:1000])
            print('VIOLATION property=%s replay=%s' % (pid, replay))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(evd, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return rc


if __name__ == '__main__':
    sys.exit(main())
