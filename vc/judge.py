"""One check: run the specification of a property, discharge its obligations, replay what fails, report and write the evidence."""
import os, sys, time, json, traceback, signal, re
from .driver import *
from .replay import Harness
from . import specs, model

ASAN_PROPS = ('C03', 'C22')
TRUSTED = [
    'clang 18 front end (parsing, overload resolution, template instantiation of the real sources)',
    'tool/export.cpp (prints the resolved AST of every function reached; no rewriting)',
    'vc/ (symbolic executor, loop rules, contracts of the standard/Boost/ViennaCL operations used, verification-condition simplifier)',
    'z3 4.8.12+ and cvc5 1.1.2']
ASSUME = [
    'double arithmetic is treated as exact real arithmetic; float casts of the ViennaCL residual are treated as exact',
    'integers are mathematical, with separate obligations for unsigned wrap-around and sign casts (C28, C03)',
    'division x/x is simplified to 1 and x*(1/x) likewise: sound where no division by zero happens (C28)',
    'container, algorithm and linear-algebra operations of the standard library, Boost and ViennaCL behave as their documentation says',
    'OpenMP runs every iteration of a parallel loop exactly once']

class Alarm(Exception): pass

def known(pid):
    r = []
    f = VERIF + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) case=(\S+) (.*)', l)
            if m and m.group(1) == pid: r.append((m.group(2), m.group(3).strip()))
    return r

def main(argv):
    verbose = '-v' in argv
    nohar = '-n' in argv
    argv = [a for a in argv if a not in ('-v', '-n')]
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    c = Ctx(pid, tier)
    har = {}
    def harness(v):
        if v not in har: har[v] = Harness(v, pid in ASAN_PROPS)
        return har[v]
    base = specs.HARNESS.get(pid, ('main',))
    if not nohar:
        for v in base: harness(v)
    def onalarm(*a): raise Alarm('time limit of the symbolic execution')
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(1800 if tier == 'thorough' else 240)
    try:
        for part, v in [(part, v) for v in specs.variants_of(pid, tier) for part in specs.SPECS[pid]]:
            if not (part.tier == 'quick' or tier == 'thorough'): continue
            try: part(c, (v,))
            except (Unsupported, ExtractError, KeyError, AttributeError, z3.Z3Exception, RecursionError, TypeError, IndexError, ValueError, AssertionError) as ex:
                c.unsupported.append('%s%s: %s: %s' % (part.__name__, '' if v == 'main' else '/' + v, type(ex).__name__, str(ex)[:400]))
                if verbose: print(traceback.format_exc())
    except Alarm as ex: c.unsupported.append(str(ex))
    signal.alarm(0)
    t1 = time.time()
    D = Discharger(c, 1500 if tier == 'thorough' else 330)
    D.round1()
    solver = 0.0
    failing = None   # (variant, case, output)
    explored = []
    def search(secs):
        nonlocal failing
        if nohar: return
        vs = list(base) + [v for v in sorted({getattr(o.run, 'variant', 'main') for o in D.bad()}) if v not in base]
        for v in vs:
            h = harness(v)
            if not h.ready():
                explored.append({'variant': v, 'error': 'the harness does not compile: ' + h.error[:300]})
                continue
            f, out = h.run(pid, seed, secs)
            m = re.search(r'OK property=\S+ cases=(\d+)', out)
            explored.append({'variant': v, 'seconds': secs, 'cases': int(m.group(1)) if m else 0, 'sanitizer': 'address' if h.asan else 'libc++ hardening'})
            if f:
                m = re.search(r'FAIL property=\S+ case=(\d+)', out)
                failing = (v, int(m.group(1)) if m else None, out, secs)
                return
    sampling = 20 if tier == 'thorough' else 3
    bad = D.bad()
    if bad or c.unsupported:
        search(12 if tier == 'quick' else 40)
        if bad:
            D.round2(8 if failing else 64, 120 if failing else None)
            bad = D.bad()
        if bad and not failing and not nohar: 
            D2 = [x for x in explored if 'cases' in x]
            if D2: seed2, seed = seed, seed + 7919; search(25); seed = seed if failing else seed2
    else:
        search(sampling)
    D.vacuity()
    vac = D.vacuous
    if vac: c.unsupported += ['vacuous hypotheses: ' + v.name for v in vac]
    if not c.obs and not c.unsupported: c.unsupported.append('no obligation was generated')
    bad = D.bad()
    wall = time.time() - t0
    if verbose:
        print('exec %.1f prove %.1f obligations %d trivial %d solver %.1f' % (t1 - t0, time.time() - t1, len(c.obs), sum(getattr(r.ex, 'trivial', 0) for r in c.runs), D.solver))
        for o in c.obs:
            if o.status != 'proved' or o.secs > 3: print('  ', o.status, '%.1f' % o.secs, o.name, '' if o.status == 'proved' else text(o.goal, 300))
        for u in c.unsupported: print('UNSUPPORTED', u)
        print('explored', explored)
    for h in har.values(): h.cancel()

    # ---- verdict
    violation = bool(bad) or failing is not None
    kf = known(pid)
    for cs, what in kf: print('KNOWN-FINDING: property=%s %s' % (pid, what))
    rp = None
    if violation:
        os.makedirs(VERIF + '/replays', exist_ok=True)
        rp = VERIF + '/replays/%s.txt' % pid
        with open(rp, 'w') as f:
            f.write('property %s on the working tree of /repo (sources %s)\n' % (pid, model.REPO))
            if bad:
                f.write('\nobligations the verifier did not discharge:\n')
                for o in bad[:40]:
                    f.write('\n--- %s [%s] %s (%s)\n' % (o.name, o.kind, o.status, o.backend))
                    f.write('goal: %s\n' % text(o.goal))
                    f.write('hypotheses: %s\n' % text([h for h in o.hyps], 3000))
                    f.write('verifier: %s\n' % (o.info or 'no model')[:4000])
            else: f.write('\nevery obligation was discharged; the failing input below contradicts the trusted base\n')
            if c.unsupported: f.write('\nnot decided deductively on this tree: %s\n' % '; '.join(c.unsupported))
            if failing:
                v, case, out, secs = failing
                f.write('\nfailing input on the real code (build variant %s):\n%s\n' % (v, out[:20000]))
                f.write('\nreproduce: %s\n' % har[v].command(pid, seed, secs, case))
            else: f.write('\nno-failing-input-found: the verifier output above is what failed\n')
    by = {}
    for o in c.obs:
        if o.status == 'proved': by[o.backend or 'simplifier'] = by.get(o.backend or 'simplifier', 0) + 1
    kinds = {}
    for o in c.obs: kinds[o.kind] = kinds.get(o.kind, 0) + 1
    funcs = sorted({f for r in c.runs for f in list(r.ex.inlined) + [getattr(r, 'func', '')] if f and ('OpenMps' in f or '::' not in f or 'anonymous' in f)})
    ext = {}
    for r in c.runs:
        for k, n in r.ex.called.items(): ext[k] = ext.get(k, 0) + n
    cov = {
        'obligations': len(c.obs), 'discharged': sum(o.status == 'proved' for o in c.obs),
        'checker_cmd': 'cd /verif && python3-vt check.py %s%s' % (pid, ' --thorough' if tier == 'thorough' else ''),
        'trusted_base': TRUSTED,
        'obligation_kinds': kinds, 'discharged_by': by,
        'obligations_simplified_to_true_while_generated': sum(getattr(r.ex, 'trivial', 0) for r in c.runs),
        'functions_under_contract': funcs,
        'external_operations_by_contract': sorted(ext),
        'build_variants': sorted({getattr(r, 'variant', 'main') for r in c.runs}),
        'solver_seconds': round(D.solver, 2), 'symbolic_execution_seconds': round(t1 - t0, 2),
        'not_decided_deductively': c.unsupported,
        'bounded_exploration_of_the_real_code': explored,
        'vacuity_checks': len(c.vac),
        'samples': [{'obligation': o.name, 'goal': text(o.goal, 400), 'status': o.status, 'backend': o.backend} for o in c.obs[:3]],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': ASSUME + c.assumptions, 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if failing else ' no-failing-input-found'))
        for o in bad[:6]: print('  failed obligation: %s' % o.name)
        return 1
    print('property=%s held: %d obligations discharged%s' % (pid, cov['discharged'], (' (bounded stand-in: %s)' % '; '.join(c.unsupported)[:300]) if c.unsupported else ''))
    return 0
