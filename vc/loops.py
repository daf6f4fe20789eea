"""Loop rules.  A loop is summarised by closed forms of what it changes (counters, sums, folds, maps, filtered lists,
buckets); the side conditions that make the closed form exact become obligations or make the loop unsupported."""
from .terms import *
from .solve import *

LIMIT_UNROLL = 40

# ------------------------------------------------------------------ leaves of values
def leaves(v, path=()):
    if isinstance(v, Rec):
        for k in v.f: yield from leaves(v.f[k], path + (('f', k),))
    elif isinstance(v, Arr):
        for j, d in enumerate(v.dims): yield (path + (('d', j),), d)
        yield from leaves(v.elem, path + (('e',),))
    elif isinstance(v, (z3.ExprRef, Col)): yield (path, v)
    elif isinstance(v, Ptr) and v.lv is not None and v.lv.path and v.lv.path[-1][0] == 'i': yield (path + (('p',),), v.lv.path[-1][1])
    else: yield (path + (('o',),), v)

def leaf_get(v, path):
    for p in path:
        if p[0] == 'f': v = v.f[p[1]]
        elif p[0] == 'd': v = v.dims[p[1]]
        elif p[0] == 'e': v = v.elem
        elif p[0] == 'p': v = v.lv.path[-1][1]
        elif p[0] == 'o': pass
    return v

def leaf_put(v, path, x):
    if not path: return x
    p = path[0]
    if p[0] == 'f': return v.set(p[1], leaf_put(v.f[p[1]], path[1:], x))
    if p[0] == 'd':
        ds = list(v.dims); ds[p[1]] = x
        return Arr(v.kind, ds, v.elem, v.ar)
    if p[0] == 'e': return Arr(v.kind, v.dims, leaf_put(v.elem, path[1:], x), v.ar)
    if p[0] == 'p': return Ptr(Lval(v.lv.root, v.lv.path[:-1] + (('i', x),)))
    if p[0] == 'o': return x
    raise Unsupported('leaf')

def is_scalar(x): return isinstance(x, z3.ExprRef)
def leaf_eq_(a, b):
    if isinstance(a, (z3.ExprRef, Col)) and isinstance(b, (z3.ExprRef, Col)): return csame(a, b)
    return vsame(a, b)

def same_shape(a, b): return [p for p, _ in leaves(a)] == [p for p, _ in leaves(b)]

# ------------------------------------------------------------------ entry points
def range_for(ex, s):
    init = []
    if s.get('init'): init.append(s['init'])
    init.append({'k': 'decl', 'vars': [s['range']], 'l': s['l']})
    init += [s['begin'], s['end']]
    body = {'k': 'block', 'b': [{'k': 'decl', 'vars': [s['var']], 'l': s['l']}, s['body']], 'l': s['l']}
    return run(ex, {'k': 'for', 'init': {'k': 'block', 'b': [x for x in init if x], 'l': s['l'], 'flat': True}, 'c': s['c'], 'inc': s['inc'], 'body': body, 'l': s['l']}, None)

def run(ex, s, omp):
    env0 = dict(ex.frame.env)
    st = ex.st
    if s.get('init'):
        if s['init'].get('flat'):
            for c in s['init']['b']:
                o = ex.exec(c, st)
                if len(o) != 1: raise Unsupported('loop initialisation')
                st = o[0].st
        else:
            o = ex.exec(s['init'], st)
            if len(o) != 1: raise Unsupported('loop initialisation')
            st = o[0].st
    ex.cur_line = s['l']
    for h in ex.loop_hooks:
        r = h(ex, s, st, omp)
        if r is not None:
            ex.frame.env = env0
            return r
    res = None
    if not omp and not ex.discovering:
        res = try_unroll(ex, s, st)
        if res is None: res = try_split(ex, s, st)
    if res is None:
        if ex.discovering:
            # only the set of changed objects matters here
            sm = Summary(ex, s, st.clone(), None)
            sm.discover()
            for (r, p), h in sm.hv.items(): st.mem[r] = leaf_put(st.mem[r], p, h)
            res = [Outcome_('normal', st)]
        else: res = Summary(ex, s, st, omp).go()
    ex.frame.env = env0
    return res

def try_split(ex, s, st, depth=0):
    """case split on a condition that decides a finite-valued integer the loop condition depends on"""
    c, _ = quiet(ex, lambda: eval_cond(ex, s, st.clone()))
    if depth > 4: return None
    a = None
    for n in apps([c], lambda n: z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE and n.sort() == I and z3.is_int_value(n.arg(1)) and z3.is_int_value(n.arg(2))):
        a = n.arg(0); break
    if a is None: return None
    a = atoms_of_cond(a)
    snap = (len(ex.obls), len(ex.throws), dict(ex.frame.env))
    outs, n0 = [], len(st.pc)
    for v in (T, F):
        s1 = st.clone()
        s1.assume(a if z3.is_true(v) else mkNot(a))
        for r, x in list(s1.mem.items()):
            s1.mem[r] = vmap(x, lambda l: z3.simplify(z3.substitute(l, (a, v))) if is_scalar(l) and contains(l, lambda n: n.eq(a)) else l)
        r = try_unroll(ex, s, s1)
        if r is None: r = try_split(ex, s, s1, depth + 1)
        if r is None:
            del ex.obls[snap[0]:]; del ex.throws[snap[1]:]; ex.frame.env = snap[2]
            return None
        outs += r
    return ex.join(outs, n0)

def eval_cond(ex, s, st):
    ex.st = st
    c = ex.tobool(ex.rv(s['c'])) if s.get('c') is not None else T
    return c, ex.st

def quiet(ex, f):
    """run f without recording obligations or throws"""
    sv, nt = ex.collect, len(ex.throws)
    ex.collect = False
    try: return f()
    finally:
        ex.collect = sv
        del ex.throws[nt:]

def try_unroll(ex, s, st):
    c, _ = quiet(ex, lambda: eval_cond(ex, s, st.clone()))
    c = z3.simplify(c)
    if z3.is_false(c):
        c, st2 = eval_cond(ex, s, st)
        return [Outcome_('normal', st2)]
    if not z3.is_true(c): return None
    snap = (len(ex.obls), len(ex.throws), dict(ex.frame.env))
    cur = st.clone()
    outs, exits = [], []
    n0 = len(st.pc)
    for it in range(LIMIT_UNROLL):
        c, cur = eval_cond(ex, s, cur)
        c = z3.simplify(c)
        if z3.is_false(c):
            exits.append(cur); cur = None; break
        if not z3.is_true(c):
            e = cur.clone(); e.assume(mkNot(c)); exits.append(e)
            cur.assume(c)
        env = dict(ex.frame.env)
        res = ex.exec(s['body'], cur)
        ex.frame.env = env
        nxt = []
        for o in res:
            if o.kind in ('normal', 'continue'): nxt.append(o.st)
            elif o.kind == 'break': exits.append(o.st)
            else: outs.append(o)
        if not nxt: cur = None; break
        if len(nxt) > 1: cur, _ = ex.merge([(x, V(0)) for x in nxt], ex.common_pc(nxt))
        else: cur = nxt[0]
        if s.get('inc') is not None:
            ex.st = cur; ex.ev(s['inc']); cur = ex.st
    if cur is not None:
        del ex.obls[snap[0]:]; del ex.throws[snap[1]:]; ex.frame.env = snap[2]
        return None
    if exits:
        if len(exits) > 1: m, _ = ex.merge([(x, V(0)) for x in exits], n0)
        else: m = exits[0]
        outs.append(Outcome_('normal', m))
    return outs

def Outcome_(k, st, val=None):
    from .execu import Outcome
    return Outcome(k, st, val)

# ------------------------------------------------------------------ written columns
class WL(Col):
    """a column as a base plus an ordered list of conditional writes (cond, prefix, value or inner column)"""
    def __init__(self, base, writes): self.base, self.writes, self.arity, self.sort = base, writes, base.arity, base.sort
    def read(self, idx):
        r = self.base.read(list(idx))
        for c, p, v in self.writes:
            hit = mkAnd(c, *[eqi(a, b) for a, b in zip(p, idx)])
            if z3.is_false(hit): continue
            x = cread(v, idx[len(p):])
            r = x if z3.is_true(hit) else mkIf(hit, x, r)
        return r

def flatten(col, base):
    """writes over base; raises Unsupported when the column is not of that shape"""
    if col is base or csame(col, base): return []
    if isinstance(col, Store): return flatten(col.prev, base) + [(T, col.idx, col.val)]
    if isinstance(col, PStore): return flatten(col.prev, base) + [(T, col.prefix, col.inner)]
    if isinstance(col, WL):
        return flatten(col.base, base) + list(col.writes)
    if isinstance(col, IteCol):
        a, b = flatten(col.a, base), flatten(col.b, base)
        n = 0
        while n < len(a) and n < len(b) and same_write(a[n], b[n]): n += 1
        return a[:n] + [(mkAnd(col.c, c), p, v) for c, p, v in a[n:]] + [(mkAnd(mkNot(col.c), c), p, v) for c, p, v in b[n:]]
    if isinstance(col, PApp):
        if isinstance(base, PApp) and csame(col.col, base.col): return []
    if isinstance(col, RegCol):
        return flatten(col.prev, base) + [(T, (), col)]
    raise Unsupported('column update shape %s' % type(col).__name__)

def same_write(a, b):
    return a[0].eq(b[0]) and len(a[1]) == len(b[1]) and all(x.eq(y) for x, y in zip(a[1], b[1])) and (
        a[2] is b[2] or (is_scalar(a[2]) and is_scalar(b[2]) and a[2].eq(b[2])))

class RegCol(Col):
    """prev changed inside a region: read(idx) = If(region(idx), value(idx), prev(idx))"""
    def __init__(self, prev, region, value, info=None):
        self.prev, self.region, self.value, self.arity, self.sort, self.info = prev, region, value, prev.arity, prev.sort, info
    def read(self, idx):
        c = self.region(list(idx))
        sc = z3.simplify(c)
        if z3.is_true(sc): return self.value(list(idx))
        if z3.is_false(sc): return self.prev.read(list(idx))
        return mkIf(c, self.value(list(idx)), self.prev.read(list(idx)))

# ------------------------------------------------------------------ summaries
class Var:
    """a leaf (or a cell of a column) the loop changes"""
    def __init__(self, key, init, hv, post, put):
        self.key, self.init, self.hv, self.post, self.put = key, init, hv, post, put
        self.closed = None      # scalar: fn(q)->expr ; column: Col valid after the loop / fn
        self.kind = None
    @property
    def scalar(self): return is_scalar(self.init)

class Summary:
    def __init__(self, ex, s, st, omp):
        self.ex, self.s, self.st, self.omp = ex, s, st, omp
        self.race = []
        self.line = s['l']
    # -------------------------------------------------------------- one symbolic iteration
    def iterate(self, st, inc=True):
        ex, s = self.ex, self.s
        nt = len(ex.throws)
        c, st1 = eval_cond(ex, s, st)
        st1.assume(c)
        npc = len(st1.pc)
        env = dict(ex.frame.env)
        outs = ex.exec(s['body'], st1)
        ex.frame.env = env
        nxt = [o.st for o in outs if o.kind in ('normal', 'continue')]
        others = [o for o in outs if o.kind not in ('normal', 'continue')]
        post = None
        if nxt:
            if len(nxt) > 1: post, _ = ex.merge([(x, V(0)) for x in nxt], ex.common_pc(nxt))
            else: post = nxt[0]
            if inc and s.get('inc') is not None:
                ex.st = post; ex.ev(s['inc']); post = ex.st
        thr = ex.throws[nt:]
        return c, post, others, thr, npc
    def diff(self, a, b):
        """leaves of a's objects that differ in b"""
        out = []
        for r in a.mem:
            if r not in b.mem: continue
            x, y = a.mem[r], b.mem[r]
            if x is y or vsame(x, y): continue
            if not same_shape(x, y): raise Unsupported('object changes shape in a loop')
            for (p, l1), (_, l2) in zip(leaves(x), leaves(y)):
                if not leaf_eq_(l1, l2):
                    if p and p[-1][0] == 'o': raise Unsupported('opaque object changes in a loop (%s%s)' % (r, p))
                    out.append((r, p))
        return out
    def havoc(self, key, l):
        nm = 'hv!%s!%d' % (re_id(key), next(self.ex.uid))
        if is_scalar(l): return z3.Const(nm, l.sort())
        return Base(z3.Function(nm, *([I] * l.arity), l.sort), l.arity, l.sort)
    def discover(self):
        ex, st = self.ex, self.st
        hv = {}
        for _ in range(12):
            st1 = st.clone()
            for (r, p), h in hv.items(): st1.mem[r] = leaf_put(st1.mem[r], p, h)
            ref = st1.clone()
            ex.discovering += 1
            try: c, post, others, thr, _ = quiet(ex, lambda: self.iterate(st1))
            finally: ex.discovering -= 1
            new = []
            for o in ([post] if post is not None else []):
                for k in self.diff(ref, o):
                    if k not in hv: new.append(k)
            if post is None: raise Unsupported('loop body never completes')
            if not new:
                self.hv, self.c, self.ref = hv, c, ref
                self.others = others
                return post
            for k in new: hv[k] = self.havoc(k, leaf_get(st.mem[k[0]], k[1]))
        raise Unsupported('loop: modified set does not settle')
    # -------------------------------------------------------------- main
    def go(self):
        ex = self.ex
        post = self.discover()
        if any(True for o in self.others): raise Unsupported('early exit from a loop at line %s' % self.line)
        it = self.iterator_key()
        if it: return IterSummary(self, it).go()
        self.find_counter(post)
        # main symbolic iteration q
        q = self.q
        st1 = self.closed_counters(self.st, q)
        st1.assume(mkAnd(self.lo <= q, q < self.hi))
        ex.bstack.append(q)
        try:
            base_pc = len(st1.pc)
            ref = st1.clone()
            c, post, others, thr, npc = quiet(ex, lambda: self.iterate(st1))
            self.build_vars(ref, post)
            self.body_pc = post.pc[base_pc:]
            self.hyp = post.pc
            self.classify()
        finally: ex.bstack.pop()
        # final pass: obligations with closed state
        if ex.collect:
            stf = self.state_at(q)
            stf.assume(mkAnd(self.lo <= q, q < self.hi))
            ex.bstack.append(q)
            try:
                c, post, others, thr, npc = self.iterate(stf)
            finally: ex.bstack.pop()
            self.emit_races()
        return [Outcome_('normal', self.exit_state())]
    def iterator_key(self):
        for (r, p) in self.hv:
            if p and p[-1] == ('f', 'index'):
                o = leaf_get(self.st.mem[r], p[:-1])
                if isinstance(o, Rec) and o.tag.endswith('Grid::Iterator'): return (r, p)
        return None
    def invariant(self, e):
        names = self.hv_names
        return not deep_contains(e, lambda n: is_uf(n) and n.decl().name() in names)
    @property
    def hv_names(self):
        return {h.decl().name() if is_scalar(h) else h.decl.name() for h in self.hv.values()}
    def find_counter(self, post):
        """primary counter and iteration range [lo,hi)"""
        counters = {}
        for k, h in self.hv.items():
            if not is_scalar(h) or h.sort() != I: continue
            d = z3.simplify(leaf_get(post.mem[k[0]], k[1]) - h)
            if z3.is_int_value(d): counters[k] = d.as_long()
        self.counters = counters
        c = self.c
        conj = c.children() if z3.is_and(c) else [c]
        found = None
        for a in conj:
            neg = False
            if z3.is_not(a): neg, a = True, a.arg(0)
            k = a.decl().kind() if z3.is_app(a) else None
            ops = {z3.Z3_OP_LT: '<', z3.Z3_OP_GT: '>', z3.Z3_OP_LE: '<=', z3.Z3_OP_GE: '>=', z3.Z3_OP_EQ: '==', z3.Z3_OP_DISTINCT: '!='}
            if k not in ops or a.num_args() != 2: continue
            op = ops[k]
            if neg: op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}[op]
            l, r = a.arg(0), a.arg(1)
            for x, y, o in ((l, r, op), (r, l, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op])):
                if x.sort() != I: continue
                for key, step in counters.items():
                    h = self.hv[key]
                    off = z3.simplify(x - h)
                    if self.invariant(off) and self.invariant(y) and step in (1, -1):
                        B = z3.simplify(y - off) if not z3.is_int_value(off) or off.as_long() else y
                        found = found or (key, step, o, B, off)
        if not found or len(conj) != 1: raise Unsupported('loop condition at line %s: %s' % (self.line, str(c)[:120]))
        key, step, o, Bd, off = found
        init = leaf_get(self.st.mem[key[0]], key[1])
        self.primary, self.step = key, step
        ex = self.ex
        ob = lambda g: self.deferred.append(g)
        self.deferred = []
        if step == 1:
            if o == '<': lo, hi = init, Bd
            elif o == '<=': lo, hi = init, Bd + 1
            elif o == '!=':
                lo, hi = init, Bd
                ex.oblige('loop-bound', lo <= hi)
            else: raise Unsupported('loop condition')
        else:
            if o == '>': lo, hi = Bd + 1, init + 1
            elif o == '>=': lo, hi = Bd, init + 1
            elif o == '!=':
                lo, hi = Bd + 1, init + 1
                ex.oblige('loop-bound', lo <= hi)
            else: raise Unsupported('loop condition')
        self.lo, self.hi, self.init = z3.simplify(lo), z3.simplify(hi), init
        self.q = binder(re_id(key))
        self.empty = None
    def counter_at(self, k, q):
        """value of counter k at the start of the iteration whose primary counter value is q"""
        init = leaf_get(self.st.mem[k[0]], k[1])
        if k == self.primary: return q
        n = (q - self.init) if self.step == 1 else (self.init - q)
        return z3.simplify(init + self.counters[k] * n)
    def closed_counters(self, st, q):
        st1 = st.clone()
        for k, h in self.hv.items():
            v = self.counter_at(k, q) if k in self.counters else h
            st1.mem[k[0]] = leaf_put(st1.mem[k[0]], k[1], v)
        return st1
    def exit_q(self):
        lo, hi = self.lo, self.hi
        if self.ex.pr.quick(self.st.pc, lo <= hi): return hi if self.step == 1 else z3.simplify(lo - 1)
        return mkIf(lo <= hi, hi, lo) if self.step == 1 else mkIf(lo <= hi, lo - 1, hi - 1)
    # -------------------------------------------------------------- variables
    def build_vars(self, ref, post):
        self.vars = []
        for k, h in self.hv.items():
            if k in self.counters: continue
            r, p = k
            init = leaf_get(self.st.mem[r], p)
            pv = leaf_get(post.mem[r], p)
            self.vars.append(Var(k, init, h, pv, None))
    def classify(self):
        cols = [v for v in self.vars if not v.scalar]
        self.subs = []            # list of functions rewriting expressions
        self.scal = [v for v in self.vars if v.scalar]
        self.cells = []
        self.maps, self.appends, self.buckets = [], [], []
        work = []
        for v in cols:
            ws = flatten(v.post, v.hv)
            work.append((v, ws))
        # scalarise / classify by the first index
        pend = []
        for v, ws in work: pend.append(self.scalarise(v, ws))
        for v, ws in pend:
            if v.scalar: self.scal.append(v); continue
            if not ws:
                v.kind, v.off, v.ws = 'map', z3.IntVal(0), []
                self.maps.append(v); continue
            o = self.own_offset(ws)
            if o is not None:
                v.kind, v.off, v.ws = 'map', o, ws
                self.maps.append(v)
            else:
                v.ws = ws
                self.appends.append(v)
        # reads of mapped columns inside this iteration refer to the state before the loop
        self.resolve_map_reads()
        self.solve_scalars()
        rest = []
        for v in self.appends:
            if not self.try_append(v): rest.append(v)
        self.appends = [v for v in self.appends if v not in rest]
        if rest: self.try_buckets(rest)
        for v in self.maps: self.close_map(v)
    def scalarise(self, v, ws):
        """a column written only below one loop-invariant index prefix becomes a smaller variable"""
        p = 0
        q = self.q
        def inv(e): return self.invariant(e) and not deep_contains(e, lambda n: n.eq(q))
        if not ws: return v, ws
        L = min(len(w[1]) for w in ws)
        while p < L and all(inv(w[1][p]) and w[1][p].eq(ws[0][1][p]) for w in ws): p += 1
        if p == 0: return v, ws
        pre = ws[0][1][:p]
        ar = v.hv.arity - p
        nm = 'hc!%d' % next(self.ex.uid)
        if ar == 0: X = z3.Const(nm, v.hv.sort)
        else: X = Base(z3.Function(nm, *([I] * ar), v.hv.sort), ar, v.hv.sort)
        init = papp(v.init, list(pre))
        H, old = v.hv, v.init
        def fn(n, ch):
            if is_uf(n) and n.decl().eq(H.decl):
                eq = mkAnd(*[eqi(a, b) for a, b in zip(pre, ch)])
                x = X if ar == 0 else X.read(ch[p:])
                return mkIf(eq, x, old.read(ch))
            return None
        self.subs.append(fn)
        if ar == 0:
            post = X
            for c, i, val in ws: post = mkIf(c, val, post)
            nv = Var(v.key, init, X, post, None)
            nv.owner, nv.prefix = v, pre
            if self.omp: self.race.append(('shared cell of %s' % (v.key,), F))
            return nv, None
        nws = [(c, i[p:], val) for c, i, val in ws]
        if any(len(i) == 0 for _, i, _ in nws):
            # whole sub-column rewritten
            if len(nws) == 1 and z3.is_true(nws[0][0]): raise Unsupported('nested whole-row update')
        nv = Var(v.key, init, X, WL(X, nws), None)
        nv.owner, nv.prefix = v, pre
        if self.omp: self.race.append(('shared row of %s' % (v.key,), F))
        return nv, nws
    def apply_subs(self, e):
        for fn in self.subs: e = deep_rewrite(e, fn)
        return e
    def own_offset(self, ws):
        q = self.q
        off = None
        for c, i, val in ws:
            if not i: return None
            o = z3.simplify(i[0] - q)
            if deep_contains(o, lambda n: n.eq(q)) or not self.invariant(o): return None
            if off is not None and not off.eq(o): return None
            off = o
        return off
    def resolve_map_reads(self):
        q, ex = self.q, self.ex
        self.foreign = []
        for v in self.maps:
            H, old, off = v.hv, v.init, v.off
            own = z3.simplify(q + off)
            def fn(n, ch, H=H, old=old, own=own, v=v):
                if is_uf(n) and n.decl().eq(H.decl):
                    d = z3.simplify(ch[0] - own)
                    if not z3.eq(d, z3.IntVal(0)): self.foreign.append((v, ch))
                    return old.read(ch)
                return None
            self.subs.append(fn)
    def R(self, e): return self.apply_subs(e)
    # -------------------------------------------------------------- scalars
    def solve_scalars(self):
        """closed forms for the scalar variables"""
        todo = list(self.scal)
        for v in todo: v.pv = self.R(v.post)
        progress = True
        cl = {}
        while todo and progress:
            progress = False
            for v in list(todo):
                post = self.sub_closed(v.pv, cl)
                others = [w.hv for w in todo if w is not v]
                if deep_contains(post, lambda n: any(n.eq(o) for o in others)): continue
                if self.close_scalar(v, post):
                    cl[v.hv.decl().name()] = v
                    todo.remove(v); progress = True
        for v in todo:
            # a variable shared by parallel iterations whose value has no closed form: its final value is unknown
            if not self.omp or self.reduction(v): raise Unsupported('loop variable %s at line %s' % (v.key, self.line))
            self.race.append(('shared variable %s' % (v.key,), F))
            v.kind = 'unknown'
            f = z3.Function('hs!%d' % next(self.ex.uid), I, v.hv.sort())
            v.closed = lambda t, f=f, v=v: v.init if t.eq(self.lo) else f(t)
            cl[v.hv.decl().name()] = v
        self.cl = cl
    def sub_closed(self, e, cl):
        if not cl: return e
        guards = [v for v in cl.values() if getattr(v, 'guard', None) is not None]
        def fn(n, ch):
            if z3.is_const(n) and is_uf(n) and n.decl().name() in cl: return cl[n.decl().name()].closed(self.q)
            for v in guards:
                if n.eq(v.guard): return v.guard_at
            return None
        return deep_rewrite(e, fn)
    def close_saturating(self, v, post):
        """a counter that goes up by one while a bound on itself holds: if(c && g(h)) h++ with g closed downwards.
        With S(t) = init + sum of c, g(h) holds at t exactly when g(S(t)) does, so h(t) = init + sum of c and g(S)."""
        h, q = v.hv, self.q
        inc, same = [], []
        def walk(e, conds):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                return walk(e.arg(1), conds + [e.arg(0)]) and walk(e.arg(2), conds + [mkNot(e.arg(0))])
            if e.eq(h): return True
            if z3.simplify(e - h).eq(z3.IntVal(1)): inc.append(mkAnd(*conds)); return True
            return False
        if not walk(post, []) or not inc: return False
        cond = mkOr(*inc)
        atoms = []
        def atom(e):
            if not deep_contains(e, lambda n: n.eq(h)): return
            if z3.is_and(e) or z3.is_or(e) or z3.is_not(e):
                for c in e.children(): atom(c)
            elif not any(e.eq(a) for a in atoms): atoms.append(e)
        atom(cond)
        if len(atoms) != 1: return False
        g = atoms[0]
        if deep_contains(g, lambda n: n.eq(q)): return False
        def put(b): return z3.simplify(z3.substitute(cond, (g, z3.BoolVal(b))), elim_and=False)
        for neg in (False, True):
            on, off = (put(True), put(False)) if not neg else (put(False), put(True))
            if z3.is_false(off): break
        else: return False
        gg = mkNot(g) if neg else g
        a, b = z3.Int('sat!a'), z3.Int('sat!b')
        if not self.ex.pr.prove(self.st.pc, mkImp(mkAnd(a <= b, z3.substitute(gg, (h, b))), z3.substitute(gg, (h, a)))): return False
        c1 = z3.substitute(cond, (g, z3.BoolVal(not neg)))
        v.kind, v.guard = 'sum', g
        if getattr(self, 'assume_guards', None) is not None:
            self.assume_guards.append((v, c1, gg))
            v.guard_at = z3.BoolVal(not neg)
            v.delta = mkIf(c1, z3.IntVal(1), z3.IntVal(0))
        else:
            def S(t):
                k = binder('s')
                lo, hi = (self.lo, t) if self.step == 1 else (t + 1, self.hi)
                return add0(v.init, mk_sum(k, lo, hi, z3.substitute(mkIf(c1, z3.IntVal(1), z3.IntVal(0)), (q, k))))
            v.guard_at = z3.substitute(g, (h, S(q)))
            v.delta = mkIf(mkAnd(c1, z3.substitute(gg, (h, S(q)))), z3.IntVal(1), z3.IntVal(0))
        d = v.delta
        def closed(t):
            k = binder('s')
            lo, hi = (self.lo, t) if self.step == 1 else (t + 1, self.hi)
            sm = mk_sum(k, lo, hi, z3.substitute(d, (q, k)))
            return add0(v.init, sm)
        v.closed = closed
        if self.omp and not self.reduction(v): self.race.append(('shared variable %s' % (v.key,), F))
        return True
    def close_scalar(self, v, post):
        q, h = self.q, v.hv
        # not changed any more after substitution
        if post.eq(h):
            v.closed = lambda t, i=v.init: i
            v.kind = 'const'
            return True
        if h.sort() in (I, R):
            d = delta(post, h)
            if d is not None:
                v.kind = 'sum'
                v.delta = d
                def closed(t, d=d, v=v):
                    k = binder('s')
                    lo, hi = (self.lo, t) if self.step == 1 else (t + 1, self.hi)
                    sm = mk_sum(k, lo, hi, z3.substitute(d, (q, k)))
                    return sm if isz_(v.init) else (v.init if isz_(sm) else v.init + sm)
                v.closed = closed
                if self.omp and not self.reduction(v): self.race.append(('shared variable %s' % (v.key,), F))
                return True
            f = self.fold(v, post)
            if f: return True
            if h.sort() == I and self.close_saturating(v, post): return True
        if not deep_contains(post, lambda n: n.eq(h)) and self.step == 1:
            # last written value
            def closed(t, post=post, v=v):
                return mkIf(t <= self.lo, v.init, z3.substitute(post, (q, z3.simplify(t - 1))))
            v.closed = closed; v.kind = 'last'
            if self.omp: self.race.append(('shared variable %s' % (v.key,), F))
            return True
        return False
    def reduction(self, v):
        for c in (self.omp or {}).get('clauses', []):
            if c['c'] == 'reduction': return True
        return False
    def fold(self, v, post):
        """running maximum/minimum over the items that satisfy a condition"""
        h, q, ex = v.hv, self.q, self.ex
        paths = []
        def walk(e, conds):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
                walk(e.arg(1), conds + [e.arg(0)]); walk(e.arg(2), conds + [mkNot(e.arg(0))])
            else: paths.append((conds, e))
        walk(post, [])
        gs = []
        for c, e in paths:
            if not e.eq(h) and not any(e.eq(g) for g in gs): gs.append(e)
        if len(gs) != 1 or deep_contains(gs[0], lambda n: n.eq(h)): return False
        g = gs[0]
        cond = mkOr(*[mkAnd(*[c for c in cs if not deep_contains(c, lambda n: n.eq(h))]) for cs, e in paths if e.eq(g)])
        for kind, ge in (('max', lambda a, b: a >= b), ('min', lambda a, b: a <= b)):
            ok = ex.pr.prove(self.st.pc, mkAnd(ge(post, h), mkImp(cond, ge(post, g)), mkOr(post == h, mkAnd(cond, post == g))))
            if ok: break
        else: return False
        v.kind = kind
        uid = next(ex.uid)
        def closed(t, v=v):
            k = binder('f')
            lo, hi = (self.lo, t) if self.step == 1 else (t + 1, self.hi)
            ck, gk = z3.substitute(cond, (q, k)), z3.substitute(g, (q, k))
            M = mk_comp('fold' + kind, k, [lo, hi, ck, gk, v.init], g.sort())
            W = mk_comp('foldw' + kind, k, [lo, hi, ck, gk, v.init], I)
            return M
        v.closed = closed
        if self.omp: self.race.append(('shared variable %s' % (v.key,), F))
        return True
    # -------------------------------------------------------------- maps
    def close_map(self, v):
        q = self.q
        if not v.ws:
            v.final, v.writes_at = v.init, []
            return
        rest = [binder('m') for _ in range(v.hv.arity - 1)]
        own = z3.simplify(q + v.off)
        if not all(self.invariant(self.sub_closed(self.R(c), self.cl)) for c, i, _ in v.ws):
            v.ws = [(self.drop_state(self.sub_closed(self.R(c), self.cl)), i, val) for c, i, val in v.ws]
        body = WL(v.hv, v.ws).read([own] + rest)
        body = self.sub_closed(self.R(body), self.cl)
        if not self.invariant(body): raise Unsupported('map value depends on the loop state (%s, line %s)' % (v.key, self.line))
        def at(idx, lo, hi):
            t = z3.simplify(idx[0] - v.off)
            c = mkAnd(lo <= t, t < hi)
            val = z3.substitute(body, (q, t), *zip(rest, idx[1:]))
            return c, val
        v.lam = at
        v.final = RegCol(v.init, lambda idx: at(idx, self.lo, self.hi)[0], lambda idx: at(idx, self.lo, self.hi)[1])
        v.body, v.rest = body, rest
        # what is written and when, for race obligations
        v.writes_at = [(self.sub_closed(self.R(c), self.cl), [self.sub_closed(self.R(x), self.cl) for x in i]) for c, i, _ in v.ws]
    # -------------------------------------------------------------- appended lists
    def try_append(self, v):
        """writes at off + counter while the counter advances under the same condition"""
        if self.step != 1: return False
        ws = v.ws
        if len(ws) != 1 or len(ws[0][1]) < 1: return False
        c, idx, val = ws[0]
        i0 = self.R(idx[0])
        rest = [self.R(x) for x in idx[1:]]
        for s in self.scal:
            if s.kind != 'sum' or s.hv.sort() != I: continue
            off = z3.simplify(i0 - s.hv)
            if not self.invariant(off) or deep_contains(off, lambda n: n.eq(self.q)): continue
            cc = self.sub_closed(self.R(c), self.cl)
            one = mkIf(cc, z3.IntVal(1), z3.IntVal(0))
            if not self.ex.pr.prove(self.hyp, one == s.delta): continue
            if not is_scalar(val): raise Unsupported('append of a column')
            vv = self.sub_closed(self.R(val), self.cl)
            if not self.invariant(vv) or not self.invariant(cc): raise Unsupported('appended value depends on the loop state')
            q = self.q
            v.kind = 'append'
            start = z3.simplify(off + s.init)
            def lam(t, v=v, s=s, cc=cc, vv=vv, start=start, rest=rest):
                def region(ix):
                    return mkAnd(start <= ix[0], ix[0] < start + (s.closed(t) - s.init), *[eqi(a, b) for a, b in zip(rest, ix[1:])])
                def value(ix):
                    return mk_sel([(self.lo, t, q, cc, vv)], z3.simplify(ix[0] - start), vv.sort())
                return RegCol(v.init, region, value)
            v.at_q = lam
            v.final = None
            return True
        return False
    # -------------------------------------------------------------- bucket lists
    def try_buckets(self, rest):
        """per-key counters and per-key lists: A[key(q)][0]++ and A[key(q)][1+old]=val(q)"""
        for v in rest:
            ws = v.ws
            if len(ws) == 1 and self.step == 1:
                self.scatter(v, ws[0]); continue
            if len(ws) != 2: raise Unsupported('scattered writes to %s at line %s' % (v.key, self.line))
            if self.step != 1: raise Unsupported('bucket order')
            if self.omp: self.race.append(('order of bucket entries of %s' % (v.key,), F))
            (c1, i1, v1), (c2, i2, v2) = ws
            n = len(i1)
            if n != v.hv.arity or len(i2) != n: raise Unsupported('bucket arity')
            key = [self.sub_closed(self.R(x), self.cl) for x in i1[:-1]]
            H = v.hv
            cell = H.read(list(i1))
            if not z3.simplify(v1 - cell - 1).eq(z3.IntVal(0)): raise Unsupported('bucket counter')
            if not all(z3.simplify(a - b).eq(z3.IntVal(0)) for a, b in zip(i1[:-1], i2[:-1])): raise Unsupported('bucket key')
            if not z3.is_int_value(z3.simplify(i1[-1])): raise Unsupported('bucket slot')
            offs = z3.simplify(i2[-1] - cell)
            slot = z3.simplify(i1[-1])
            if not z3.is_int_value(offs): raise Unsupported('bucket offset')
            if offs.as_long() <= slot.as_long(): raise Unsupported('bucket overlap')
            cond1, cond2 = [self.sub_closed(self.R(c), self.cl) for c in (c1, c2)]
            val = self.sub_closed(self.R(v2), self.cl)
            # under the continuing path both happen together
            cond1, cond2 = self.drop_state(cond1), self.drop_state(cond2)
            cnd = cond1
            if not cond1.eq(cond2):
                if not self.ex.pr.prove(self.norm_hyps(), cond1 == cond2): raise Unsupported('bucket conditions')
            for e in key + [cnd, val]:
                if not self.invariant(e): raise Unsupported('bucket key depends on the loop state')
            q = self.q
            v.kind = 'bucket'
            v.bk = dict(key=key, cond=cnd, val=val, slot=slot, off=offs)
            def count(b, t, key=key, cnd=cnd):
                k = binder('b')
                return mk_sum(k, self.lo, t, z3.substitute(mkIf(mkAnd(cnd, *[eqi(x, y) for x, y in zip(key, b)]), z3.IntVal(1), z3.IntVal(0)), (q, k)))
            v.count = count
            def at_q(t, v=v, key=key, cnd=cnd, val=val, slot=slot, off=offs, count=count):
                def region(ix): return T
                def value(ix):
                    b, m = ix[:-1], ix[-1]
                    old0 = v.init.read(list(b) + [slot])
                    cn = count(b, t)
                    s0 = z3.simplify(m - off - old0)
                    ck = mkAnd(cnd, *[eqi(x, y) for x, y in zip(key, b)])
                    lst = mk_sel([(self.lo, t, q, ck, val)], s0, val.sort())
                    inl = mkAnd(off + old0 <= m, m < off + old0 + cn)
                    r = mkIf(inl, lst, v.init.read(list(ix)))
                    e = eqi(m, slot)
                    if z3.is_true(e): return add0(old0, cn)
                    if z3.is_false(e): return r
                    return mkIf(e, add0(old0, cn), r)
                return RegCol(v.init, region, value)
            v.at_q = at_q
        self.buckets = rest
    def scatter(self, v, w):
        """A[key(q)] = val(q): after the loop a cell holds the value of the last iteration that wrote it"""
        c, idx, val = w
        if len(idx) != v.hv.arity or not is_scalar(val): raise Unsupported('scattered rows of %s' % (v.key,))
        key = [self.sub_closed(self.R(x), self.cl) for x in idx]
        cnd = self.drop_state(self.sub_closed(self.R(c), self.cl))
        vv = self.sub_closed(self.R(val), self.cl)
        for e in key + [cnd, vv]:
            if not self.invariant(e): raise Unsupported('scattered write depends on the loop state (%s, line %s)' % (v.key, self.line))
        if self.omp: self.race.append(('order of the writes to %s' % (v.key,), F))
        q = self.q
        v.kind = 'scatter'
        def at_q(t):
            def pos(ix):
                k = binder('w')
                return mk_comp('last', k, [self.lo, t, z3.substitute(mkAnd(cnd, *[eqi(x, y) for x, y in zip(key, ix)]), (q, k))], I)
            return RegCol(v.init, lambda ix: pos(ix) >= self.lo, lambda ix: z3.substitute(vv, (q, pos(ix))))
        v.at_q = at_q
    def last_entry_fact(self, v, col, t):
        """lemma (counting): a bucket that received anything has a last entry, made when it held one entry less"""
        ex, bk, q = self.ex, v.bk, self.q
        n = len(ex.bstack)
        d = col.col.decl if isinstance(col, PApp) else col.decl
        nk = len(bk['key'])
        W = z3.Function('h!lastin!%d' % next(ex.uid), *([I] * (nk + n + 1)))
        cnt = v.count(bk['key'], q)
        def fact(a):
            ch = a.children()
            pre, b, m = ch[:n], ch[n:n + nk], ch[n + nk]
            if not eqi(m, bk['slot']).eq(T): return []
            w = W(*ch[:n + nk])
            sub = [(q, w)] + list(zip(ex.bstack, pre)) if n else [(q, w)]
            S = lambda e: z3.substitute(e, *sub)
            keys = [S(k) for k in bk['key']]
            old = v.init.read(list(b) + [bk['slot']])
            if n: old = z3.substitute(old, *zip(ex.bstack, pre))
            return [z3.Or(a == old, mkAnd(S(self.lo) <= w, w < S(t), S(bk['cond']), *[x == y for x, y in zip(keys, b)], a == add0(old, S(cnt)) + 1))]
        ex.pr.add_fact(Fact([d.name()], fact, 'last entry of a bucket'))
    def drop_state(self, c):
        """an equivalent condition (on the paths that do not throw) that does not mention the loop state"""
        if self.invariant(c): return c
        ats = []
        def walk(e):
            if self.invariant(e): return
            k = e.decl().kind()
            if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
                for x in e.children(): walk(x)
            elif not any(e.eq(a) for a in ats): ats.append(e)
        walk(c)
        for val in itertools.product([T, F], repeat=len(ats)):
            d = z3.simplify(z3.substitute(c, *list(zip(ats, val))))
            if self.ex.pr.prove(self.norm_hyps(), c == d): return d
            if len(ats) > 4: break
        raise Unsupported('condition depends on the loop state at line %s' % self.line)
    def norm_hyps(self): return [self.sub_closed(self.R(h), self.cl) for h in self.hyp]
    # -------------------------------------------------------------- states
    def state_at(self, q):
        """state at the start of iteration q, in closed form"""
        st1 = self.closed_counters(self.st, q)
        for v in self.vars:
            if v.scalar: self.put(st1, v, v.closed(q))
        for v in self.maps:
            if self.omp or not self.foreign_of(v): self.put(st1, v, v.init)
            else: self.put(st1, v, v.init)
        for v in self.appends + self.buckets: self.put(st1, v, v.at_q(q))
        for v in self.scal:
            if v not in self.vars: self.put(st1, v, v.closed(q))
        self.flush(st1)
        return st1
    def foreign_of(self, v): return [f for f in self.foreign if f[0] is v]
    def put(self, st, v, val):
        own = getattr(v, 'owner', None)
        if own is None:
            st.mem[v.key[0]] = leaf_put(st.mem[v.key[0]], v.key[1], val)
        else: self.pending.setdefault(id(own), (own, []))[1].append((v.prefix, val))
    pending = None
    def flush(self, st):
        for own, lst in self.pending.values():
            col = own.init
            for pre, val in lst: col = cpstore(col, list(pre), val)
            st.mem[own.key[0]] = leaf_put(st.mem[own.key[0]], own.key[1], col)
        self.pending.clear()
    def exit_state(self):
        ex = self.ex
        eq = self.exit_q()
        hi = self.hi
        st1 = self.st.clone()
        for k in self.counters:
            st1.mem[k[0]] = leaf_put(st1.mem[k[0]], k[1], self.counter_at(k, eq))
        end = eq
        for v in self.vars:
            if v.scalar: self.put(st1, v, v.closed(self.sum_end(end)))
        for v in self.maps: self.put(st1, v, v.final)
        for v in self.appends: self.put(st1, v, v.at_q(self.sum_end(end)))
        for v in self.buckets:
            if v.kind == 'scatter': self.put(st1, v, v.at_q(self.sum_end(end))); continue
            col = ex.name_column(v.at_q(self.sum_end(end)), re_id(v.key))
            self.put(st1, v, col)
            self.last_entry_fact(v, col, self.sum_end(end))
        for v in self.scal:
            if v not in self.vars: self.put(st1, v, v.closed(self.sum_end(end)))
        self.flush(st1)
        # what the body assumed (no exception was thrown) holds for every iteration
        ex.st = st1
        facts = [self.sub_closed(self.R(self.at_loop_state(a)), self.cl) for a in self.body_pc[0:]]
        facts = [f for f in facts if not z3.is_true(f) and self.invariant(f) and not self.trivial_fact(f)]
        if facts: ex.forall_fact(self.q, self.lo, self.hi, mkAnd(*facts))
        return ex.st
    def at_loop_state(self, e):
        """replace reads of bucket columns by their value at iteration q"""
        for v in self.buckets + self.appends:
            H = v.hv
            col = v.at_q(self.q)
            def fn(n, ch, H=H, col=col):
                if isinstance(H, Base) and is_uf(n) and n.decl().eq(H.decl): return col.read(ch)
                return None
            e = deep_rewrite(e, fn)
        return e
    def trivial_fact(self, f):
        # conditions that only restate the range or the loop condition
        s = z3.Solver(); s.set('timeout', 100)
        s.add(self.lo <= self.q, self.q < self.hi, z3.Not(f))
        try: return s.check() == z3.unsat
        except z3.Z3Exception: return False
    def sum_end(self, e): return e if self.step != 1 else (self.hi if True else e)
    # -------------------------------------------------------------- races
    def emit_races(self):
        ex = self.ex
        if not self.omp:
            # serial: foreign reads of cells this loop writes are only legal if never written
            for v, ch in self.foreign: self.no_conflict(v, ch, 'serial-dependence')
            return
        ex.omp_loops.append(self.line)
        for what, g in self.race: ex.oblige('race', g, what)
        for v in self.maps:
            if not v.ws: continue
            t = binder('w')
            # two iterations never write the same cell: cells are indexed by the iteration
            ex.oblige_named('race-ww', mkImp(mkAnd(self.lo <= t, t < self.hi, self.lo <= self.q, self.q < self.hi, t != self.q), z3.simplify(t + v.off) != z3.simplify(self.q + v.off)), '%s' % re_id(v.key))
        seen = set()
        for v, ch in self.foreign:
            k = (id(v),) + tuple(c.get_id() for c in ch)
            if k in seen: continue
            seen.add(k)
            self.no_conflict(v, ch, 'race-rw')
    def no_conflict(self, v, ch, kind):
        ex = self.ex
        t = binder('w')
        ch = [self.sub_closed(self.R(x), self.cl) for x in ch]
        goals = []
        for c, i in v.writes_at:
            same = mkAnd(*[z3.substitute(x, (self.q, t)) == y for x, y in zip(i, ch)])
            goals.append(mkNot(mkAnd(z3.substitute(c, (self.q, t)), same)))
        st = self.st.clone()
        hyps = self.norm_hyps()
        sv = ex.st
        ex.st = st; ex.st.pc = hyps + [mkAnd(self.lo <= t, t < self.hi, t != self.q)]
        ex.oblige_named(kind, mkAnd(*goals), re_id(v.key))
        ex.st = sv

Summary.pending = None
_old_init = Summary.__init__
def _init(self, *a):
    _old_init(self, *a)
    self.pending = {}
    self.foreign = []
Summary.__init__ = _init

def isz_(e): return (z3.is_int_value(e) or z3.is_rational_value(e)) and str(e) == '0'
def add0(a, b): return b if isz_(a) else a + b

def re_id(key):
    r, p = key
    return (r.split('#')[0].split('.')[-1] + ''.join('.' + str(x[1]) for x in p if x[0] == 'f'))[:60]

def delta(post, h):
    """post == h + delta with delta free of h"""
    if z3.is_app(post) and post.decl().kind() == z3.Z3_OP_ITE:
        a, b = delta(post.arg(1), h), delta(post.arg(2), h)
        if a is None or b is None or deep_contains(post.arg(0), lambda n: n.eq(h)): return None
        return mkIf(post.arg(0), a, b)
    if post.eq(h): return z3.IntVal(0) if h.sort() == I else z3.RealVal(0)
    # structural: sum with exactly one h
    if z3.is_add(post):
        ch = post.children()
        hs = [c for c in ch if deep_contains(c, lambda n: n.eq(h))]
        if len(hs) == 1:
            d = delta(hs[0], h)
            if d is not None:
                rest = [c for c in ch if not c.eq(hs[0])]
                if len(rest) == len(ch) - 1:
                    r = rest[0]
                    for x in rest[1:]: r = r + x
                    return r if isz_(d) else d + r
        return None
    if z3.is_sub(post) and post.num_args() == 2:
        a, b = post.children()
        if deep_contains(b, lambda n: n.eq(h)): return None
        d = delta(a, h)
        return None if d is None else (-b if isz_(d) else d - b)
    return None

def mk_sel(segs, m, sort):
    """m-th element of the filtered list; segs: (lo, hi, binder, cond, val)"""
    k = binder('l')
    parts = []
    for lo, hi, b, c, v in segs:
        parts += [V(lo), V(hi), z3.substitute(V(c), (b, k)), z3.substitute(v, (b, k))]
    return mk_comp('sel', k, parts, sort, [m])

# ------------------------------------------------------------------ loops over Grid::Iterator
class IterSummary:
    """for(it=begin; it!=end; ++it): enumerates the occupied slots of the 3^D cells around a cell, block by block.
    Obligations: the first index, every step and the exit agree with that enumeration."""
    def __init__(self, sm, key):
        self.sm, self.key = sm, key
        self.ex, self.s, self.st = sm.ex, sm.s, sm.st
    def go(self):
        ex, sm, st = self.ex, self.sm, self.st
        if sm.omp: raise Unsupported('parallel iterator loop')
        r, p = self.key
        it = leaf_get(st.mem[r], p[:-1])
        nbs = it.f['neighbor']
        nb = [nbs.f[str(i)] for i in range(len(nbs.f))]
        NB = len(nb)
        MUL = NB + 1
        g = st.get(it.f['grid'].lv)
        data = g.f['data']
        D = len(data.dims) - 1
        def valid(b): return mkAnd(*[mkAnd(V(0) <= nb[b].f[str(a)], nb[b].f[str(a)] < data.dims[a]) for a in range(D)])
        def cnt(b): return mkIf(valid(b), data.elem.read([nb[b].f[str(a)] for a in range(D)] + [z3.IntVal(0)]), z3.IntVal(0))
        cn = [cnt(b) for b in range(NB)]
        def first(b0):
            e = z3.IntVal(NB)
            for b in reversed(range(b0, NB)): e = mkIf(cn[b] > 0, z3.IntVal(b), e)
            return e
        idx0 = leaf_get(st.mem[r], p)
        if D < 3: ex.oblige_named('iterator-begin', idx0 == first(0), 'starts at the first occupied cell')
        else:   # by cases: whether the outermost cells exist, axis by axis
            axes = []
            for a in range(D):
                co = {}
                for b in range(NB): x = z3.simplify(nb[b].f[str(a)]); co.setdefault(x.get_id(), x)
                axes += [mkAnd(V(0) <= x, x < data.dims[a]) for x in co.values() if any(z3.simplify(y - x).eq(V(2)) or z3.simplify(x - y).eq(V(2)) for y in co.values())]
            for m in range(2 ** len(axes)):
                cs = [x if m >> k & 1 else mkNot(x) for k, x in enumerate(axes)]
                ex.oblige_named('iterator-begin', z3.Implies(mkAnd(*cs), idx0 == first(0)), 'starts at the first occupied cell (case %d)' % m)
        vars_ = [k for k in sm.hv if k != self.key]
        l = binder('l')
        # exit test at the end position
        def at(b, li):
            s1 = st.clone()
            for k in vars_: s1.mem[k[0]] = leaf_put(s1.mem[k[0]], k[1], sm.hv[k])
            s1.mem[r] = leaf_put(s1.mem[r], p, z3.IntVal(NB) if b is None else z3.simplify(li * MUL + b))
            return s1
        sE = at(None, None)
        c, _ = quiet(ex, lambda: eval_cond(ex, self.s, sE))
        ex.oblige_named('iterator-end', mkNot(c), 'stops after the last occupied cell')
        posts = []
        ex.bstack.append(l)
        try:
            for b in range(NB):
                s1 = at(b, l)
                s1.assume(mkAnd(V(0) <= l, l < cn[b]))
                base_pc = len(s1.pc)
                for a in [valid(b)]: s1.assume(a)
                c, post, others, thr, npc = quiet(ex, lambda: sm.iterate(s1, inc=False))
                if others or thr: raise Unsupported('exit from an iterator loop')
                ex.st = s1.clone()
                ex.oblige_named('iterator-continues', c, 'at an occupied slot')
                # the increment
                s2 = at(b, l); s2.assume(mkAnd(V(0) <= l, l < cn[b])); s2.assume(valid(b))
                ex.st = s2
                ex.ev(self.s['inc'])
                ni = leaf_get(ex.st.mem[r], p)
                ex.oblige_named('iterator-step', ni == mkIf(l + 1 < cn[b], z3.simplify((l + 1) * MUL + b), first(b + 1)), 'block %d' % b)
                posts.append((post, s1.pc[base_pc:], list(post.pc)))
        finally: ex.bstack.pop()
        ex.st = st
        # variables changed by the body
        out = st.clone()
        scal, cols = [], []
        per = []
        for b in range(NB):
            sb = Summary(ex, self.s, st, None)
            sb.hv = {k: sm.hv[k] for k in vars_}
            sb.q, sb.lo, sb.hi, sb.step, sb.init = l, z3.IntVal(0), cn[b], 1, z3.IntVal(0)
            sb.counters = {}
            post, extra, pc = posts[b]
            sb.body_pc, sb.hyp = [], pc
            sb.assume_guards = []
            sb.build_vars(None, post)
            sb.classify_iter()
            per.append(sb)
        # combine segments: same variables in every block
        self.per, self.l, self.cn = per, l, cn
        names = [v.key for v in per[0].allvars]
        finals = {}
        closedsum = {}
        for j, v0 in enumerate(per[0].allvars):
            vs = [sb.allvars[j] for sb in per]
            if v0.scalar:
                if any(v.kind not in ('sum', 'const') for v in vs): raise Unsupported('iterator loop variable')
                tot = v0.init
                for b, v in enumerate(vs):
                    if v.kind == 'const': continue
                    k = binder('s')
                    sm_ = mk_sum(k, 0, cn[b], z3.substitute(v.delta, (l, k)))
                    tot = add0(tot, sm_)
                closedsum[id(v0)] = tot
                finals[j] = tot
        for j, v0 in enumerate(per[0].allvars):
            if v0.scalar: continue
            vs = [sb.allvars[j] for sb in per]
            if any(v.kind != 'append' for v in vs): raise Unsupported('iterator loop writes')
            a0 = v0.app
            cntvar = a0['counter']
            j0 = per[0].allvars.index(cntvar)
            total = finals[j0]
            start = z3.simplify(a0['off'] + cntvar.init)
            segs = [(z3.IntVal(0), cn[b], l, v.app['cond'], v.app['val']) for b, v in enumerate(vs)]
            rest = a0['rest']
            def region(ix, start=start, total=total, cv=cntvar, rest=rest):
                return mkAnd(start <= ix[0], ix[0] < start + (z3.simplify(total - cv.init)), *[eqi(a, b) for a, b in zip(rest, ix[1:])])
            def value(ix, segs=segs, start=start, v0=v0):
                return mk_sel(segs, z3.simplify(ix[0] - start), a0['val'].sort())
            finals[j] = RegCol(v0.init, region, value)
        sb = per[0]
        sb.pending = {}
        for j, v in enumerate(per[0].allvars): sb.put(out, v, finals[j])
        sb.flush(out)
        out.mem[r] = leaf_put(out.mem[r], p, z3.IntVal(NB))
        # obligations of the body, per block
        if ex.collect:
            for b in range(NB):
                s1 = st.clone()
                for j, v in enumerate(per[b].allvars):
                    if v.scalar: per[b].put(s1, v, self.partial(j, b, l))
                    else: pass
                per[b].flush(s1)
                s1.mem[r] = leaf_put(s1.mem[r], p, z3.simplify(l * MUL + b))
                s1.assume(mkAnd(V(0) <= l, l < cn[b])); s1.assume(valid(b))
                ex.bstack.append(l)
                try:
                    for v, c1, gg in per[b].assume_guards:
                        sub = [(w.hv, self.partial(j, b, l)) for j, w in enumerate(per[b].allvars) if w.scalar]
                        ex.st = s1.clone()
                        ex.oblige_named('iterator-guard', z3.substitute(mkImp(c1, gg), *sub), 'no item is left out by a bound on %s (block %d)' % (re_id(v.key), b))
                    sm.iterate(s1, inc=False)
                finally: ex.bstack.pop()
        return [Outcome_('normal', out)]
    def partial(self, j, b, l):
        v0 = self.per[0].allvars[j]
        tot = v0.init
        for bb in range(b + 1):
            v = self.per[bb].allvars[j]
            if v.kind == 'const': continue
            k = binder('s')
            hi = self.cn[bb] if bb < b else l
            tot = add0(tot, mk_sum(k, 0, hi, z3.substitute(v.delta, (self.l, k))))
        return tot

def classify_iter(self):
    """as classify, but only sums and appends are allowed and append data is kept"""
    self.subs = []
    self.scal = [v for v in self.vars if v.scalar]
    self.maps, self.appends, self.buckets = [], [], []
    for v in [v for v in self.vars if not v.scalar]:
        ws = flatten(v.post, v.hv)
        if not ws:
            continue
        nv, nws = self.scalarise(v, ws)
        if nv.scalar: self.scal.append(nv)
        else:
            nv.ws = nws; self.appends.append(nv)
    self.solve_scalars()
    for v in self.appends:
        if len(v.ws) != 1: raise Unsupported('iterator loop writes')
        c, idx, val = v.ws[0]
        i0 = self.R(idx[0])
        ok = False
        for s in self.scal:
            if s.kind != 'sum' or s.hv.sort() != I: continue
            off = z3.simplify(i0 - s.hv)
            if not self.invariant(off): continue
            cc = self.sub_closed(self.R(c), self.cl)
            if not self.ex.pr.prove(self.hyp, mkIf(cc, z3.IntVal(1), z3.IntVal(0)) == s.delta): continue
            vv = self.sub_closed(self.R(val), self.cl)
            v.kind = 'append'
            v.app = dict(off=off, cond=cc, val=vv, rest=[self.R(x) for x in idx[1:]], counter=s)
            ok = True
            break
        if not ok: raise Unsupported('iterator loop append')
    self.allvars = self.scal + self.appends
Summary.classify_iter = classify_iter
