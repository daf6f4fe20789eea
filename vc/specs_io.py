"""Specifications of the application: configuration, particle input, result files, the run (Main.cpp)."""
from .specs import *
from . import iolib, loops
from .loops import mk_sel
from .iolib import xml, lit, text_of

def literals(e):
    """the literal texts an expression can take"""
    out = {}
    def walk(x):
        if text_of(x) is not None: out[text_of(x)] = x
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: walk(x.arg(1)); walk(x.arg(2))
    walk(e)
    return sorted(out)
def pick(r, hyps, e):
    """the one text e has under the hypotheses"""
    for t in literals(e):
        if r.pr.prove(hyps + [z3.Distinct(*[lit(x) for x in literals(e)])] if len(literals(e)) > 1 else hyps, e == lit(t), 3000): return t
    return None

def pname(pl): return pl[0] + ''.join('.' + str(z[1] if len(z) > 1 else z[0]) for z in pl[1])

# ------------------------------------------------------------------ C21
@spec('C21')
def c21(c, variants):
    for v in variants:
        r = c.run(v).computer(); r.func = 'OutputToCsv'
        iolib.install(r.ex)
        s, D = r.pre, r.D
        no = z3.Const('outputCount', I)
        r.requires('outputCount >= 0', no >= 0)
        live = r.plain_call(r.m.find('OutputToCsv'), [r.this, no])
        r.post = View(r.ex.st.mem[r.this.root], D)
        files = [r.ex.st.mem[k] for k in sorted(r.ex.streams)]
        if len(files) != 1: raise Unsupported('one file is expected')
        f = files[0]
        rows, cur = f.f['rows'], f.f['cur']
        h = r.hyps
        c.ob(r, 'the file of that number', h, f.f['name'] == iolib.FMT_N(lit('result/particles_%05d.csv'), z3.ToReal(no)))
        c.ob(r, 'one line for the header and one for each particle', h, rows.dims[0] == s.n + 1)
        c.ob(r, 'the last line is complete', h, cur.f['fmt'] == lit(''))
        cell = lambda nm, k: cread(rows.elem.f[nm], [k])
        head = pick(r, h, cell('fmt', V(0)))
        c.ob(r, 'the first line is a fixed text', h, V(head is not None and '\x01' not in head))
        names = [x.strip() for x in (head or '').split(',')]
        ax = 'xyz' if D == 3 else 'xz'; vx = 'uvw' if D == 3 else 'uw'
        i = ix('i')
        p = s.part(i)
        want = {'Type': z3.ToReal(p.type), 'p': p.p, 'n': p.n}
        for k in range(D): want[ax[k]] = p.x[k]; want[vx[k]] = p.u[k]
        c.ob(r, 'the header names every property once', h, V(sorted(names) == sorted(want)))
        hi = h + [0 <= i, i < s.n]
        row = pick(r, hi, cell('fmt', i + 1))
        parts = [x.strip() for x in (row or '').split(',')]
        c.ob(r, 'the line of a particle has one value per header', hi, V(row is not None and parts == ['\x01'] * len(names)))
        for k, nm in enumerate(names):
            if nm in want: c.ob(r, 'value under %s' % nm, hi, cell('a%d' % k, i + 1) == want[nm])
        k = binder('k')
        c.ob(r, 'the number of particles that are not deactivated is returned', h, live == mk_sum(k, V(0), s.n, z3.If(s.part(k).type != DISABLED, V(1), V(0))))
        c.frame(r, set())
        c.structural(r)
        c.vacuity(r, hi, 'C21')

# ------------------------------------------------------------------ C27
CONDITION = {'StartTime': 'startTime', 'EndTime': 'endTime', 'OutputInterval': 'outputInterval', 'Eps': 'eps'}
def cfg(group, name): return 'openmps.%s.%s.<xmlattr>.value' % (group, name)

@spec('C27')
def c27(c, variants):
    for v in variants:
        r = c.run(v); r.func = 'LoadCondition'
        iolib.install(r.ex)
        co = r.plain_call(r.m.find('LoadCondition'), [Opq('ptree')])
        for k, n in CONDITION.items(): c.ob(r, 'condition.%s is %s' % (k, n), r.hyps, toReal(co.f[k]) == xml(r.ex, cfg('condition', n)))
        # the environment
        r = c.run(v); r.func = 'LoadEnvironment'; D = r.D
        iolib.install(r.ex)
        iv = z3.Const('outputInterval', R)
        x = lambda n: xml(r.ex, cfg('environment', n))
        steps = xml(r.ex, cfg('environment', 'minStepCountPerOutput'), 'int')
        r.requires('interval > 0', iv > 0)
        for n in ('courant', 'g', 'rho', 'r_eByl_0', 'l_0'): r.requires('%s > 0' % n, x(n) > 0)
        r.requires('nu >= 0', x('nu') >= 0)
        r.requires('minStepCountPerOutput >= 1, and the same number read as either type', z3.And(steps >= 1, x('minStepCountPerOutput') == z3.ToReal(steps)))
        e = r.plain_call(r.m.find('LoadEnvironment'), [Opq('ptree'), iv]).f
        l0, cr, ra, g = x('l_0'), x('courant'), x('r_eByl_0'), x('g')
        q = lambda nm, want, got=None: c.ob(r, nm, r.hyps, (e[nm] if got is None else got) == want)
        q('L_0', l0); q('MaxDx', cr * l0); q('R_e', ra * l0); q('NeighborLength', ra * l0 * (1 + 2 * cr)); q('Rho', x('rho')); q('Nu', x('nu'))
        t = SQRT(2 * cr * l0 / g)
        m = iv / z3.ToReal(steps)
        q('MaxDt', z3.If(t < m, t, m))
        ax = 'XYZ' if D == 3 else 'XZ'
        for k in range(D):
            q('G[%d]' % k, -g if k == D - 1 else z3.RealVal(0), e['G'].f[str(k)])
            q('MinX[%d]' % k, x('min' + ax[k]), e['MinX'].f[str(k)])
            q('MaxX[%d]' % k, x('max' + ax[k]), e['MaxX'].f[str(k)])
        c.structural(r, allow=('ptree_error',))
        c.vacuity(r, r.hyps, 'C27')
        # the particles
        r = c.run(v); r.func = 'LoadParticles'
        iolib.install(r.ex)
        READ = Opq('particles read')
        calls = []
        def read(ex, ref, this, args):
            calls.append((list(ex.st.pc), ex.rv(args[0]) if isinstance(args[0], dict) else ex.load(args[0])))
            return READ
        r.ex.contracts['InputFromCsv'] = read
        src = z3.Const('xml<std::basic_string>(openmps.particles.<xmlattr>.type)', STR)
        v_ = r.plain_call(r.m.find('LoadParticles'), [Opq('ptree')])
        c.ob(r, 'the particles of the configuration are what is read', r.hyps, V(v_ is READ and len(calls) == 1))
        c.ob(r, 'only the source csv is accepted', r.hyps, src == lit('csv'))
        for pc, a in calls: c.ob(r, 'the text of the particles is read', pc, a == z3.Const('xml<std::basic_string>(openmps.particles)', STR))
        ok = [iolib.present(k) for k in ('openmps.particles', 'openmps.particles.<xmlattr>.type')] + [iolib.readable('std::basic_string', k) for k in ('openmps.particles', 'openmps.particles.<xmlattr>.type')]
        for t in r.ex.throws: c.ob(r, 'the source csv is not rejected (%s)' % t.val[0], [z3.And(*ok), src == lit('csv')] + [p for p in t.st.pc if not z3.is_false(p)], F)
        c.vacuity(r, [src == lit('csv')] + ok, 'C27 particles')
        # the computer
        r = c.run(v); r.func = 'CreateComputer'
        env = r.make('Environment', 'E')
        eps = z3.Const('eps', R)
        before = r.ex.st.mem[env.root]
        f = [f for f in r.m.find('CreateComputer', many=True)]
        if len(f) != 1: raise Unsupported('CreateComputer')
        comp = r.plain_call(f[0], [eps, env, Opq('wall'), Opq('wallpre')])
        c.ob(r, 'the tolerance of the solver is eps', r.hyps, comp.f['ppe'].f['allowableResidual'] == eps)
        for (p, a), (_, b) in zip(loops.leaves(before), loops.leaves(comp.f['environment'])):
            idx = [z3.Const('at%d' % k, I) for k in range(0 if isinstance(a, z3.ExprRef) else a.arity)]
            c.ob(r, 'the environment is the one given %s' % '.'.join(str(z[1]) for z in p), r.hyps, cread(a, idx) == cread(b, idx))

# ------------------------------------------------------------------ C23
class Main:
    """main under the contracts of what it calls"""
    def __init__(self, c, v):
        self.c = c
        r = self.r = c.run(v)
        r.func = 'main'
        ex = r.ex
        self.calls = {}
        x = lambda n: z3.Const('condition.' + n, R)
        self.start, self.end, self.interval = x('StartTime'), x('EndTime'), x('OutputInterval')
        r.requires('interval > 0, start >= 0, end >= start', z3.And(self.interval > 0, self.start >= 0, self.end >= self.start))
        ceil = lambda e: -FLOOR(-e)
        self.offset = ceil(self.start / self.interval)
        self.count = ceil((self.end - self.start) / self.interval)
        self.out, self.T = ex.newroot(V(0), 'ghost.outputs'), ex.newroot(z3.RealVal(0), 'ghost.T')
        self.failed, self.told = ex.newroot(F, 'ghost.failed'), ex.newroot(F, 'ghost.told')
        self.WHAT = z3.Const('message of the failure', STR)
        iolib.install(ex, self.console)
        ex.ext['std::exception::what'] = lambda ex, ref, this, args, e: self.WHAT
        V_ = lambda ex, *a: VOID
        con, ext = ex.contracts, ex.ext
        arg = lambda a: ex.rv(a) if isinstance(a, dict) else (ex.load(a) if isinstance(a, Lval) else a)
        con['System'] = V_
        ext['boost::property_tree::xml_parser::read_xml'] = V_
        ext['boost::property_tree::read_xml'] = V_
        con['Timer::Start'] = V_
        con['Timer::Time'] = lambda ex, ref, this, args: ex.fresh_leaf('elapsed', 0, R)
        ex.ext_ctor['Timer'] = lambda ex, ref, args, e: Opq('timer')
        con['Timer::Timer'] = lambda ex, ref, this, args: Opq('timer')
        for p in ('std::', ''):
            ext[p + 'time'] = lambda ex, ref, this, args, e: ex.fresh_leaf('now', 0, I)
            ext[p + 'localtime'] = lambda ex, ref, this, args, e: Ptr(ex.newroot(Rec('tm', {k: ex.fresh_leaf(k, 0, I) for k in ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year', 'tm_wday', 'tm_yday', 'tm_isdst')}), 'tm'))
        def make_unique(ex, ref, this, args, e):
            t = ref['targs'][0]
            if t.get('t') == 'uarray':
                n = arg(args[0])
                el = ex.mkval(t['of'], ex.mk_fresh, 'array', 1)
                return Ptr(ex.newroot(Arr('vector', [n], el, 0), 'array').i(0))
            return Ptr(ex.newroot(Opq('ptree'), 'unique'))
        ext['std::make_unique'] = make_unique
        def deref(ex, ref, this, args, e):
            v = ex.st.get(this)
            if v.lv is None: raise Unsupported('empty pointer')
            return v.lv
        ext['std::unique_ptr::operator*'] = deref
        ext['std::unique_ptr::get'] = lambda ex, ref, this, args, e: ex.st.get(this)
        def reset(ex, ref, this, args, e):
            ex.st.set(this, Ptr(None)); return VOID
        ext['std::unique_ptr::reset'] = reset
        def record(name, ret):
            def h(ex, ref, this, args):
                a = [arg(z) for z in args]
                if ex.collect: self.calls.setdefault(name, []).append((list(ex.st.pc), a))
                return ret(ex, ref)
            con[name] = h
        conds = {'StartTime': self.start, 'EndTime': self.end, 'OutputInterval': self.interval, 'Eps': z3.Const('condition.Eps', R)}
        def condition(ex, ref):
            k, rec = r.cls('ComputingCondition')
            return Rec(strip_q(rec['q']), dict(conds), int(k))
        def named(name):
            k, rec = r.cls(name)
            def h(ex, ref): return ex.mkval({'t': 'rec', 'q': rec['q'], 'id': int(k)}, ex.mk_named(''), 'loaded' + name)
            return h
        record('LoadCondition', condition)
        record('LoadEnvironment', named('Environment'))
        def particles(ex, ref):
            v = ex.mkval({k: z for k, z in ref['ret'].items() if k != 'ref'}, ex.mk_named(''), 'loadedParticles')
            ex.st.assume(v.dims[0] >= 0)
            return v
        record('LoadParticles', particles)
        def computer(ex, ref):
            k, rec = r.cls('Computer')
            v = ex.mkval({'t': 'rec', 'q': rec['q'], 'id': int(k)}, ex.mk_named(''), 'created')
            return v.set('environment', v.f['environment'].set('t', z3.RealVal(0)))
        record('CreateComputer', computer)
        con['Computer::AddParticles'] = self.add
        con['OutputToCsv'] = self.output
        con['Computer::ForwardTime'] = self.forward
        self.added = []
        ex.loop_hooks.insert(0, LoopContract(c, r, 'main', self.propose, once=False))
        f = r.m.find('main')
        argc = z3.Const('argc', I)
        r.requires('argc is 1 or 2', z3.And(argc >= 1, argc <= 2))
        argv = ex.newroot(Arr('vector', [argc], Base(z3.Function('argv', I, STR), 1, STR), 0), 'argv')
        r.plain_call(f, [argc, Ptr(argv.i(0))])
    def g(self, lv, st=None): return (st or self.r.ex.st).get(lv)
    def console(self, ex, x):
        if isinstance(x, z3.ExprRef) and x.sort() == STR and contains(x, lambda n: n.eq(self.WHAT)): ex.st.set(self.told, T)
    def add(self, ex, ref, this, args):
        v = ex.rv(args[0]) if isinstance(args[0], dict) else ex.load(args[0]) if isinstance(args[0], Lval) else args[0]
        self.added.append(v)
        return VOID
    def at(self, k): return z3.ToReal(k) * self.interval
    def output(self, ex, ref, this, args):
        a = [ex.rv(z) if isinstance(z, dict) else (ex.load(z) if isinstance(z, Lval) else z) for z in args]
        o = self.g(self.out)
        ex.oblige('contract', a[1] == self.offset + o, 'results are numbered consecutively from the offset')
        ex.oblige('contract', self.g(self.T) >= self.at(o), 'a result is written once the clock has reached its time')
        ex.oblige('contract', mkNot(self.g(self.failed)), 'no result after a failure')
        ex.oblige('contract', o <= self.count, 'no result after the end')
        ex.st.set(self.out, o + 1)
        return ex.fresh_leaf('live', 0, I)
    def forward(self, ex, ref, this, args):
        o = self.g(self.out)
        ex.oblige('contract', o >= 1, 'the initial state is written first')
        ex.oblige('contract', self.g(self.T) < self.at(o), 'no step once the time of the next result is reached')
        ex.oblige('contract', mkNot(self.g(self.failed)), 'no step after a failure')
        t = self.g(self.T)
        b = ex.fresh_leaf('fails', 0, B)
        sv = self.g(self.failed)
        ex.st.set(self.failed, T)
        ex.throw_if(b, 'std::exception')
        ex.st.set(self.failed, sv)
        n = ex.fresh_leaf('T', 0, R)
        ex.st.assume(n > t)
        ex.st.set(self.T, n)
        ex.st.set(this.f('environment').f('t'), n)
        return VOID
    def propose(self, lp):
        e = lp.entry
        ghosts = {(z.root, ()) for z in (self.out, self.T, self.failed, self.told)} | {lp.its}
        if not any((z.root, ()) in lp.changed for z in (self.out, self.T)): return None
        inv = []
        out = lambda st: self.g(self.out, st)
        for pl in lp.changed:
            if pl in ghosts: continue
            cur = lp.get(e, pl)
            if not isinstance(cur, z3.ExprRef): continue
            nm = pname(pl)
            if cur.sort() == R:
                for t, fn in (('the clock', lambda st: self.g(self.T, st)), ('the last output time', lambda st: self.at(out(st) - 1)), ('the next output time', lambda st: self.at(out(st))),
                              ('the clock from the start', lambda st: self.g(self.T, st) + self.start)):
                    inv.append(Inv('%s is %s' % (nm, t), 'is', fn, pl))
            if cur.sort() == I:
                for t, fn in (('the number of results', out), ('the number of results but one', lambda st: out(st) - 1), ('the number of the next result', lambda st: out(st) + self.offset),
                              ('the number of the last result', lambda st: out(st) + self.offset - 1), ('what is left', lambda st: self.count - out(st) + 1), ('what is left and one', lambda st: self.count - out(st) + 2)):
                    inv.append(Inv('%s is %s' % (nm, t), 'is', fn, pl))
        H = lambda n, fn: inv.append(Inv(n, 'holds', fn))
        H('the initial state is written', lambda st: out(st) >= 1)
        H('not past the end', lambda st: out(st) <= self.count + 1)
        H('before the end', lambda st: out(st) <= self.count)
        H('no failure', lambda st: mkNot(self.g(self.failed, st)))
        H('the clock has reached the last output time', lambda st: self.g(self.T, st) >= self.at(out(st) - 1))
        return inv

@spec('C23')
def c23(c, variants):
    for v in variants:
        m = Main(c, v)
        r = m.r
        r.ex.path_obls = True
        for o in r.ex.obls:
            if o.kind == 'contract': c.ob(r, o.name, o.hyps, o.goal, 'contract')
        paths = r.ex.paths or []
        ends = []
        for k, s in enumerate(paths):
            g = lambda lv: s.get(lv)
            c.ob(r, 'end %d: a failure is reported' % k, list(s.pc), z3.Implies(V(g(m.failed)), V(g(m.told))))
            c.ob(r, 'end %d: every scheduled result is written unless a failure is reported' % k, list(s.pc), z3.Or(V(g(m.failed)), g(m.out) == m.count + 1))
        if not paths: raise Unsupported('main does not end')
        c.nothrow(r, allow=('ptree_error', 'runtime_error'))
        c.take(r, {'loop-invariant', 'sign-cast', 'bounds'})
        c.vacuity(r, list(paths[-1].pc), 'C23')

@spec('C27')
def c27_main(c, variants):
    """what main hands on"""
    for v in variants:
        m = Main(c, v)
        r = m.r
        one = lambda n: m.calls.get(n, [])
        for n in ('LoadCondition', 'LoadEnvironment', 'LoadParticles', 'CreateComputer'): r.m.find(n); c.ob(r, 'main calls %s once' % n, r.hyps, V(len(one(n)) == 1))
        for pc, a in one('LoadEnvironment'): c.ob(r, 'the environment is loaded for the configured output interval', pc, toReal(a[1]) == m.interval)
        for pc, a in one('CreateComputer'):
            c.ob(r, 'the computer is given eps', pc, toReal(a[0]) == z3.Const('condition.Eps', R))
            k, rec = r.cls('Environment')
            want = r.ex.mkval({'t': 'rec', 'q': rec['q'], 'id': int(k)}, r.ex.mk_named(''), 'loadedEnvironment')
            c.ob(r, 'the computer is given the environment', pc, V(vsame(a[1], want)))
        ok = len(m.added) == 1
        c.ob(r, 'the particles read are added once', r.hyps, V(ok))
        for a in m.added:
            nm = {x.decl.name() for _, x in loops.leaves(a) if isinstance(x, Base)} | {x.decl().name() for _, x in loops.leaves(a) if isinstance(x, z3.ExprRef)}
            c.ob(r, 'the particles added are the particles read', r.hyps, V(all(n.startswith('loadedParticles') for n in nm)))

# ------------------------------------------------------------------ C22
class Input:
    """what a text says: the lines, the header, the columns of the rows"""
    def __init__(self, csv, D):
        self.csv, self.nl, self.comma = csv, lit('\n'), lit(',')
        self.names = ['Type', 'x', 'z', 'u', 'w', 'p', 'n'] if D == 2 else ['Type', 'x', 'y', 'z', 'u', 'v', 'w', 'p', 'n']
        self.n = iolib.COUNT(csv, self.nl)
    def line(self, k): return iolib.FIELD(self.csv, self.nl, k)
    def strip(self, k): return iolib.BLANKS(self.line(k))
    def cols(self, k): return mkIf(iolib.STRLEN(self.strip(k)) > 0, iolib.COUNT(self.strip(k), self.comma), V(0))
    def item(self, k, j): return iolib.FIELD(self.strip(k), self.comma, j)
    def known(self, s): return z3.Or(*[s == lit(x) for x in self.names])

@spec('C22')
def c22(c, variants):
    for v in variants:
        r = c.run(v); r.func = 'InputFromCsv'
        ex = r.ex
        iolib.install(ex)
        csv = z3.Const('csv', STR)
        t = Input(csv, r.D)
        r.ex.st.assume(z3.Distinct(*[lit(x) for x in t.names + ['']]))
        j0 = z3.Const('some column', I)
        l0 = z3.Const('some line', I)
        info = {}
        def propose(lp):
            e = lp.entry
            if any(not isinstance(lp.get(e, pl), z3.ExprRef) for pl in lp.changed): return None
            if any(pl[0].startswith('ghost') and pl != lp.its for pl in lp.changed): return None
            inv = []
            its = lambda st: lp.get(st, lp.its)
            I_ = lp.its
            for pl in lp.changed:
                if pl == I_: continue
                cur = lp.get(e, pl)
                nm = pname(pl)
                if cur.sort() == I and not (pl[1] and pl[1][-1] == ('f', 'second')):
                    inv.append(Inv(nm + ' counts', 'is', lambda st, cur=cur, I_=I_: cur + lp.get(st, I_), pl))
            if not any(pl[1] and pl[1][-1] == ('f', 'second') for pl in lp.changed):
                # the search for the header line
                inv.append(Inv('only empty lines so far', 'holds', lambda st, I_=I_: z3.Implies(z3.And(0 <= l0, l0 < lp.get(st, I_)), iolib.STRLEN(t.line(l0)) == 0)))
                inv.append(Inv('within the lines', 'holds', lambda st, I_=I_: z3.And(0 <= lp.get(st, I_), lp.get(st, I_) <= t.n)))
                info['head'] = I_
                return inv
            h = lp.get(e, info['head'])
            info['columns'] = I_
            inv.append(Inv('within the columns', 'holds', lambda st: z3.And(0 <= lp.get(st, I_), lp.get(st, I_) <= t.cols(h))))
            inv.append(Inv('every name so far is known', 'holds', lambda st: z3.Implies(z3.And(0 <= j0, j0 < lp.get(st, I_)), t.known(t.item(h, j0)))))
            for pl in lp.changed:
                if not (pl[1] and pl[1][-1] == ('f', 'second')): continue
                key = lp.get(e, (pl[0], pl[1][:-1] + (('f', 'first'),)))
                nm = text_of(key)
                info.setdefault('places', {})[nm] = pl
                inv.append(Inv('%s is found where it says' % nm, 'holds', lambda st, pl=pl, key=key: z3.Or(lp.get(st, pl) == 0, z3.And(1 <= lp.get(st, pl), lp.get(st, pl) <= lp.get(st, I_), t.item(h, lp.get(st, pl) - 1) == key))))
                inv.append(Inv('%s is not missed' % nm, 'holds', lambda st, pl=pl, key=key: z3.Implies(z3.And(0 <= j0, j0 < lp.get(st, I_), t.item(h, j0) == key), lp.get(st, pl) > 0)))
            return inv
        ex.loop_hooks.insert(0, LoopContract(c, r, 'InputFromCsv', propose, once=False))
        res = r.plain_call(r.m.find('InputFromCsv'), [csv])
        if 'head' not in info or sorted(info.get('places', {})) != sorted(t.names): raise Unsupported('the search for the header or the columns is not a loop over a map of the names')
        D = r.D
        st = ex.st
        at = lambda pl, s: loops.leaf_get(s.mem[pl[0]], pl[1])
        h = at(info['head'], st)
        col = {L: z3.simplify(at(info['places'][L], st)) for L in t.names}
        H = r.hyps
        # the header
        c.ob(r, 'there is a header line', H, z3.And(0 <= h, h < t.n, iolib.STRLEN(t.line(h)) > 0))
        c.ob(r, 'the lines before the header are empty', H + [0 <= l0, l0 < h], iolib.STRLEN(t.line(l0)) == 0)
        c.ob(r, 'every name in the header is known', H + [0 <= j0, j0 < t.cols(h)], t.known(t.item(h, j0)))
        for L in t.names: c.ob(r, 'the column of %s is where the header names it' % L, H, z3.And(0 <= col[L], col[L] < t.cols(h), t.item(h, col[L]) == lit(L)))
        # the particles
        k, j = binder('row'), ix('j')
        row = t.cols(k) > 0
        N = mk_sum(k, h + 1, t.n, z3.If(row, V(1), V(0)))
        c.ob(r, 'one particle for each row that is not blank', H, res.dims[0] == N)
        e = res.elem.f
        ax = 'xyz' if D == 3 else 'xz'; vx = 'uvw' if D == 3 else 'uw'
        leaf = {'p': e['p'], 'n': e['n'], 'Type': e['type']}
        for z in range(D): leaf[ax[z]] = e['x'].f[str(z)]; leaf[vx[z]] = e['u'].f[str(z)]
        conv = lambda L: 'stoi' if L == 'Type' else 'stod'
        for L in t.names:
            val = iolib.value(conv(L), t.item(k, col[L]))
            c.ob(r, '%s of the particles is the number in its column, row by row' % L, H + [0 <= j, j < res.dims[0], h + 1 <= t.n], cread(leaf[L], [j]) == mk_sel([(h + 1, t.n, k, row, val)], j, val.sort()))
        # what is rejected
        def instances(s):
            lines, items = {}, {}
            for a in apps(s.pc, lambda n: z3.is_app(n) and n.decl().name() == 'field'):
                if a.arg(0).eq(csv) and a.arg(1).eq(t.nl): lines[a.arg(2).get_id()] = a.arg(2)
                elif a.arg(1).eq(t.comma): items[a.arg(2).get_id()] = a.arg(2)
            return list(lines.values()), list(items.values())
        for z, tt in enumerate(ex.throws):
            s = tt.st
            pc = [p for p in s.pc if not z3.is_false(p)]
            lines, items = instances(s)
            well = [0 <= l0, l0 < t.n, iolib.STRLEN(t.line(l0)) > 0]
            if info['columns'][0] in s.mem or True:
                for a in items: well.append(z3.Implies(z3.And(0 <= a, a < t.cols(h)), t.known(t.item(h, a))))
                try: cl = {L: at(info['places'][L], s) for L in t.names}
                except KeyError: cl = {}
                for a in lines:
                    for L, x in cl.items():
                        well.append(z3.Implies(z3.And(a > h, t.cols(a) > 0), z3.And(x < t.cols(a), iolib.number(conv(L), t.item(a, x)))))
            opts = [well + [0 <= j0, j0 < t.cols(h), t.item(h, j0) == lit(L)] for L in t.names]
            best = next((o for o in opts if r.pr.prove(pc + o, F, 3000)), opts[0])
            c.ob(r, 'well-formed input is not rejected (%s, %d)' % (tt.val[0], z), pc + best, F)
        c.structural(r, allow=('std::',))
        c.take(r, {'bounds', 'sign-cast', 'narrowing'})
        c.vacuity(r, H + [t.cols(h + 1) > 0, h + 1 < t.n], 'C22')
