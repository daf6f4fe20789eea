"""Collects the obligations of a property, discharges them in parallel, judges the outcome and writes the evidence."""
import os, sys, time, json, re, traceback, signal, select
from .terms import *
from .solve import *
from .execu import *
from . import model
from .model import Run, ExtractError, VERIF, REPO

STRUCT = {'loop-bound', 'serial-dependence', 'iterator-guard', 'iterator-begin', 'iterator-end', 'iterator-step', 'iterator-continues',
          'strict-weak-order', 'size-mismatch', 'insert-at-end', 'no-throw', 'loop-invariant'}
MEMORY = {'bounds', 'sign-cast', 'narrowing', 'insert-at-end', 'size-mismatch'}
ARITH = {'div-zero', 'sqrt-neg', 'unsigned-wrap'}
RACE = {'race', 'race-ww', 'race-rw'}

class Ob:
    __slots__ = ('name', 'kind', 'run', 'hyps', 'goal', 'status', 'backend', 'secs', 'info', 'group', 'weight')
    def __init__(self, name, kind, run, hyps, goal, group=''):
        self.name, self.kind, self.run, self.hyps, self.goal, self.group = name, kind, run, list(hyps), goal, group
        self.status, self.backend, self.secs, self.info = None, '', 0.0, ''

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs, self.runs, self.unsupported, self.notes = [], [], [], []
        self.vac = []
        self.trivial = 0
        self.seen = set()
        self.assumptions = []
    # ---- running functions
    def run(self, variant='main', **kw):
        r = Run(variant, **kw)
        r.ctx = self
        self.runs.append(r)
        return r
    def exec(self, method, variant='main', args=(), prepare=None, pred=None):
        r = self.run(variant).computer()
        if prepare: prepare(r)
        r.func = method
        r.method('Computer::' + method, args, pred)
        return r
    # ---- obligations
    def ob(self, run, name, hyps, goal, kind='contract', group=''):
        goal = V(goal)
        key = (id(run.pr), goal.get_id(), tuple(h.get_id() for h in hyps))
        if key in self.seen: return
        self.seen.add(key)
        self.obs.append(Ob(name, kind, run, hyps, goal, group))
    def take(self, run, kinds, extra=(), pred=None):
        """the obligations of the given kinds the execution generated"""
        for o in run.ex.obls:
            if o.kind in kinds and (pred is None or pred(o)): self.ob(run, o.name, o.hyps + list(extra), o.goal, o.kind)
    def structural(self, run, allow=(), extra=()):
        self.take(run, STRUCT, extra)
        self.nothrow(run, allow, extra)
    def nothrow(self, run, allow=(), extra=()):
        for t in run.ex.throws:
            tag = t.val[0]
            if any(a in tag for a in allow): continue
            pc = [p for p in t.st.pc if not z3.is_false(p)]
            self.ob(run, '%s/no-throw(%s)' % (getattr(run, 'func', '?'), tag), pc + list(extra), F, 'no-throw')
    def frame(self, run, changed, extra=(), only=None):
        for nm, rng, g in run.frame(set(changed), only=only):
            self.ob(run, '%s/frame/%s' % (getattr(run, 'func', '?'), nm), run.hyps + list(extra) + rng, g, 'frame')
    def vacuity(self, run, hyps, name):
        self.vac.append((name, run, list(hyps)))

# ------------------------------------------------------------------ proving in parallel
def prove_one(o, timeout, cvc5=True):
    t0 = time.time()
    pr = o.run.pr
    pr.timeout = timeout
    pr.use_cvc5 = cvc5
    st0 = pr.solver_time
    try: r = pr.prove(o.hyps, o.goal)
    except Unsupported as ex: r = Result('unknown', '', 'unsupported: %s' % ex)
    except z3.Z3Exception as ex: r = Result('unknown', '', 'z3: %s' % str(ex)[:100])
    except RecursionError: r = Result('unknown', '', 'recursion')
    info = r.info or ''
    if r.status != 'proved' and r.model is not None:
        try: info += ' model: ' + str(r.model)[:3000]
        except Exception: pass
    return {'s': r.status, 'b': r.backend, 'i': info, 't': time.time() - t0, 'q': pr.solver_time - st0}

def prove_all(obs, timeout, limit, end, procs=8):
    """forked workers take jobs from a common queue; a worker that does not come back from a job in time is replaced"""
    if not obs: return 0.0
    procs = max(1, min(procs, len(obs)))
    total = 0.0
    sys.stdout.flush(); sys.stderr.flush()
    qr, qw = os.pipe()
    if len(obs) > 9000: raise RuntimeError('more obligations than the queue holds')
    os.write(qw, b''.join(b'%6d\n' % j for j in range(len(obs))))
    w = {}      # read end -> [pid, buffer, current job, since]
    def start():
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                if qw >= 0: os.close(qw)
                for x in w: os.close(x)
                sys.setrecursionlimit(20000)
                while time.time() <= end:
                    x = os.read(qr, 7)
                    if len(x) < 7: break
                    j = int(x)
                    os.write(wr, (json.dumps({'j': j}) + '\n').encode())
                    o = obs[j]
                    o.run.pr.deadline = min(end, time.time() + limit)
                    d = prove_one(o, timeout)
                    d['j'] = j
                    os.write(wr, (json.dumps(d) + '\n').encode())
            finally: os._exit(0)
        os.close(wr)
        w[rd] = [pid, b'', None, time.time()]
    for _ in range(procs): start()
    os.close(qw); qw = -1
    def drop(rd):
        pid = w[rd][0]
        try: os.kill(pid, signal.SIGKILL)
        except ProcessLookupError: pass
        os.waitpid(pid, 0); os.close(rd); del w[rd]
    while w:
        rs, _, _ = select.select(list(w), [], [], 2)
        for rd in rs:
            x = os.read(rd, 65536)
            if not x:
                drop(rd)
                continue
            *lines, rest = (w[rd][1] + x).split(b'\n')
            w[rd][1] = rest
            for l in lines:
                d = json.loads(l)
                if 's' not in d:
                    w[rd][2], w[rd][3] = d['j'], time.time()
                    continue
                o = obs[d['j']]
                w[rd][2] = None
                o.status, o.backend, o.info = d['s'], d['b'], d['i']
                o.secs += d['t']; total += d['q']
        now = time.time()
        for rd in list(w):
            pid, _, j, since = w[rd]
            if j is not None and now > min(end, since + limit) + 15:
                obs[j].status, obs[j].info = 'unknown', 'time limit'
                obs[j].secs += now - since
                drop(rd)
                if now < end: start()
            elif j is None and now > end + 15: drop(rd)
    os.close(qr)
    for o in obs:
        if o.status is None: o.status, o.info = 'unknown', o.info or 'time limit'
    return total

class Discharger:
    """three rounds: a short timeout for everything, a long one for what is left, then the vacuity checks"""
    def __init__(self, ctx, budget):
        self.ctx, self.solver, self.vacuous = ctx, 0.0, []
        self.end = time.time() + budget
    def bad(self): return [o for o in self.ctx.obs if o.status != 'proved']
    def round1(self): self.solver += prove_all(self.ctx.obs, 3000, 60, self.end)
    def round2(self, most, budget=None):
        bad = sorted(self.bad(), key=lambda o: o.secs)[:most]
        first = {id(o): (o.status, o.info) for o in bad}
        for o in bad: o.status = None
        end = time.time() + budget if budget else max(self.end, time.time() + 60)
        self.solver += prove_all(bad, 20000, 150, end)
        for o in bad:
            if o.status is None: o.status, o.info = first[id(o)]
    def vacuity(self):
        vac = [Ob(name, 'vacuity', run, hyps, F) for name, run, hyps in self.ctx.vac]
        if vac: self.solver += prove_all(vac, 1500, 10, time.time() + 60)
        self.vacuous = [o for o in vac if o.status == 'proved']

def text(e, n=1500):
    s = re.sub(r'\s+', ' ', str(e))
    return s if len(s) <= n else s[:n] + ' ...'
