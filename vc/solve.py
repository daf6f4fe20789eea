"""Discharging obligations: rational-function normal form, case splitting, z3 and cvc5 on purified queries."""
import time, subprocess, os, random, itertools
from fractions import Fraction
import z3
from .terms import *

SQRT = z3.Function('sqrt', R, R)
FLOOR_F = z3.Function('floor', R, I)
def FLOOR(x):
    if z3.is_rational_value(x):
        return z3.IntVal(x.numerator_as_long() // x.denominator_as_long())
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL: return x.arg(0)
    return FLOOR_F(x)
def floor_fact(n):
    return [z3.And(z3.ToReal(n) <= n.arg(0), n.arg(0) < z3.ToReal(n) + 1)]

class Fact:
    """instantiated for every application of one of the given declarations that occurs in a query"""
    def __init__(self, decls, fn, name=''):
        self.names = {d if isinstance(d, str) else d.name() for d in decls}
        self.fn, self.name = fn, name

def sqrt_fact(n):
    a = n.arg(0)
    return [z3.Implies(a >= 0, z3.And(n >= 0, n * n == a))]

# -------------------------------------------------------------- normal form
class NF:
    """polynomials with integer exponents over atoms: dict monomial->Fraction, monomial=tuple((atom,exp)..)"""
    def __init__(self):
        self.cache = {}
        self.atoms = {}      # key -> index
        self.atomv = []      # index -> ('e', expr) | ('sqrt', poly) | ('inv', poly)
        self.keep = []
    def atom(self, key, val):
        if key not in self.atoms:
            self.atoms[key] = len(self.atomv)
            self.atomv.append(val)
        return self.atoms[key]
    @staticmethod
    def const(c): return {(): Fraction(c)} if c != 0 else {}
    @staticmethod
    def add(a, b, s=1):
        r = dict(a)
        for k, v in b.items():
            x = r.get(k, 0) + s * v
            if x == 0: r.pop(k, None)
            else: r[k] = x
        return r
    def mulmono(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            d[a] = d.get(a, 0) + e
        return d
    def mul(self, a, b):
        if len(a) * len(b) > 20000: raise Unsupported('polynomial too large')
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                d = self.mulmono(m1, m2)
                extra = None
                for at, e in list(d.items()):
                    if e == 0: del d[at]; continue
                    v = self.atomv[at]
                    if v[0] == 'sqrt' and e not in (0, 1):
                        h, o = divmod(e, 2)
                        if o: d[at] = 1
                        else: del d[at]
                        p = self.pow(v[1], h)
                        extra = p if extra is None else self.mul(extra, p)
                m = tuple(sorted(d.items()))
                c = c1 * c2
                if extra is None:
                    x = r.get(m, 0) + c
                    if x == 0: r.pop(m, None)
                    else: r[m] = x
                else:
                    for m3, c3 in self.mul({m: c}, extra).items():
                        x = r.get(m3, 0) + c3
                        if x == 0: r.pop(m3, None)
                        else: r[m3] = x
        return r
    def pow(self, p, n):
        if n < 0: return self.pow(self.inv(p), -n)
        r = self.const(1)
        for _ in range(n): r = self.mul(r, p)
        return r
    def norm_lead(self, p):
        """p = c * q with q's leading coefficient 1"""
        m = min(p)
        c = p[m]
        return c, {k: v / c for k, v in p.items()}
    def key(self, p): return tuple(sorted(p.items()))
    def inv(self, p):
        if not p: raise Unsupported('division by constant zero')
        if len(p) == 1:
            (m, c), = p.items()
            r = {(): 1 / c}
            for a, e in m:
                r = self.mul(r, {((a, -e),): Fraction(1)})
            return r
        c, q = self.norm_lead(p)
        at = self.atom(('inv', self.key(q)), ('inv', q))
        return {((at, 1),): 1 / c}
    def sqrt(self, p):
        if not p: return {}
        if len(p) == 1:
            (m, c), = p.items()
            if m == ():
                import math
                n, d = c.numerator, c.denominator
                if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
                    return self.const(Fraction(math.isqrt(n), math.isqrt(d)))
        at = self.atom(('sqrt', self.key(p)), ('sqrt', dict(p)))
        return {((at, 1),): Fraction(1)}
    def nf(self, e):
        i = e.get_id()
        if i in self.cache: return self.cache[i][1]
        r = self._nf(e)
        self.cache[i] = (e, r)
        return r
    def _nf(self, e):
        if z3.is_rational_value(e): return self.const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_int_value(e): return self.const(e.as_long())
        if z3.is_algebraic_value(e): raise Unsupported('algebraic')
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in ch: r = self.add(r, self.nf(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.nf(ch[0])
            for c in ch[1:]: r = self.add(r, self.nf(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS: return self.add({}, self.nf(ch[0]), -1)
        if k == z3.Z3_OP_MUL:
            r = self.const(1)
            for c in ch: r = self.mul(r, self.nf(c))
            return r
        if k == z3.Z3_OP_DIV: return self.mul(self.nf(ch[0]), self.inv(self.nf(ch[1])))
        if k == z3.Z3_OP_TO_REAL: return self.nf(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_int_value(z3.simplify(ch[1])): return self.pow(self.nf(ch[0]), z3.simplify(ch[1]).as_long())
        if is_uf(e) and e.decl().eq(SQRT): return self.sqrt(self.nf(ch[0]))
        if is_ufapp(e):
            key = ('uf', e.decl().get_id()) + tuple(self.argkey(c) for c in ch)
            at = self.atom(key, ('e', e))
            return {((at, 1),): Fraction(1)}
        at = self.atom(('e', e.get_id()), ('e', e))
        self.keep.append(e)
        return {((at, 1),): Fraction(1)}
    def argkey(self, c):
        if c.sort() == I or c.sort() == R:
            return self.key(self.nf(c))
        return ('id', c.get_id())
    def clear_inv(self, p):
        """multiply by all inverse atoms' polynomials so that none remains"""
        for _ in range(40):
            at = None
            for m in p:
                for a, e in m:
                    if self.atomv[a][0] == 'inv' or e < 0:
                        at = a; break
                if at is not None: break
            if at is None: return p
            if self.atomv[at][0] == 'inv':
                q = self.atomv[at][1]
                top = max(dict(m).get(at, 0) for m in p)
                r = {}
                for m, c in p.items():
                    d = dict(m); e = d.pop(at, 0)
                    r = self.add(r, self.mul({tuple(sorted(d.items())): c}, self.pow(q, top - e)))
                p = r
            else:
                low = min(dict(m).get(at, 0) for m in p)
                p = self.mul(p, {((at, -low),): Fraction(1)})
        raise Unsupported('clear_inv')

def ite_conds(e, limit=1):
    """an if-then-else condition occurring in e (innermost-free conditions first)"""
    seen, st = set(), [e]
    while st:
        n = st.pop()
        i = n.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:
            c = n.arg(0)
            inner = ite_conds(c)
            return inner if inner is not None else c
        st.extend(n.children())
    return None

def atoms_of_cond(c):
    """first propositional atom of c"""
    while True:
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR): c = c.arg(0)
        elif k == z3.Z3_OP_EQ and c.arg(0).sort() == B: c = c.arg(0)
        elif k == z3.Z3_OP_ITE: c = c.arg(0)
        else: return c

class Result:
    def __init__(self, status, backend='', info='', model=None):
        self.status, self.backend, self.info, self.model = status, backend, info, model
    def __bool__(self): return self.status == 'proved'
    def __repr__(self): return 'Result(%s,%s,%s)' % (self.status, self.backend, self.info)

class Prover:
    unify_hyps = False    # also bring the comprehensions of the hypotheses to common representatives
    def __init__(self, timeout_ms=4000):
        self.facts = []
        self.selval = {}
        self.facts_by = {}
        self.timeout = timeout_ms
        self.solver_time = 0.0
        self.queries = 0
        self.by_backend = {}
        self.deadline = None
        self.unify_cache = {}
        self.use_cvc5 = True
        self.disc = ({}, {}, NF())
        self.nodefs = False
        self.witness = []      # terms at which the completeness of filtered lists is instantiated
        self.add_fact(Fact(['sqrt'], sqrt_fact, 'sqrt'))
        self.add_fact(Fact(['floor'], floor_fact, 'floor'))
    def add_fact(self, f):
        self.facts.append(f)
        for n in f.names: self.facts_by.setdefault(n, []).append(f)
    def instantiate(self, es, rounds=3, done=None, limit=500):
        out, done = [], set() if done is None else done
        cur = list(es)
        pool, guards, used = {}, [], set()
        for _ in range(rounds):
            new = []
            for n in apps(cur, is_uf):
                if n.get_id() in done: continue
                done.add(n.get_id())
                nm = uf_name(n)
                pool.setdefault(nm, []).append(n)
                for f in self.facts_by.get(nm, ()):
                    if not (self.nodefs and f.name.startswith("definition")): new.extend(f.fn(n))
                if is_comp(n):
                    c = COMP[nm]
                    if c.kind == 'all': guards.append(n)
                    else: new.extend(self.comp_facts(n, c))
            for g in guards:
                c = COMP[g.decl().name()]
                for nm, pos, off in triggers(c):
                    for ap in pool.get(nm, ()):
                        t = ap.arg(pos)
                        if off: t = z3.simplify(t - off)
                        k = (g.get_id(), t.get_id())
                        if k in used: continue
                        used.add(k)
                        lo, hi, body = comp_inst(g, t)
                        new.append(z3.Implies(z3.And(g, lo <= t, t < hi), body))
                        if len(out) + len(new) > limit: return out + new
            if len(out) + len(new) > limit: return out + new
            if not new: break
            out.extend(new)
            cur = new
        return out
    def comp_facts(self, n, c):
        out = []
        if c.kind == 'sum':
            k = binder('z')
            lo, hi, body = comp_inst(n, k)
            zero = z3.IntVal(0) if n.sort() == I else z3.RealVal(0)
            out.append(z3.Implies(hi <= lo, n == zero))
            if n.sort() == I:
                bs = z3.simplify(body)
                if z3.is_app(bs) and bs.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(bs.arg(1)) and z3.is_int_value(bs.arg(2)) and {bs.arg(1).as_long(), bs.arg(2).as_long()} == {0, 1}:
                    out += [n >= 0, z3.Implies(lo <= hi, n <= hi - lo)]
        elif c.kind in ('foldmax', 'foldmin'):
            k = binder('z')
            lo, hi, cond, g, init = comp_inst(n, k)
            ge = (lambda a, b: a >= b) if c.kind == 'foldmax' else (lambda a, b: a <= b)
            W = mk_comp(c.kind.replace('fold', 'foldw'), k, [lo, hi, cond, g, init], I)
            out.append(ge(n, init))
            lo2, hi2, cw, gw, _ = comp_inst(W, W)
            out.append(z3.Or(n == init, z3.And(lo2 <= W, W < hi2, cw, gw == n)))
            if not binders_in([n]): out.append(mk_comp('all', k, [lo, hi, mkImp(cond, ge(n, g))], B))
        elif c.kind == 'last':
            k = binder('z')
            lo, hi, cond = comp_inst(n, k)
            out += [z3.Or(n == lo - 1, z3.And(lo <= n, n < hi, z3.substitute(cond, (k, n)))),
                    z3.Implies(z3.And(lo < hi, z3.substitute(cond, (k, hi - 1))), n == hi - 1),
                    mk_comp('all', k, [lo, hi, mkImp(cond, k <= n)], B)]
        elif c.kind == 'sel':
            m = n.children()[-1]
            k = binder('z')
            ps = comp_inst(n, k)
            cs = [x for j in range(0, len(ps), 4) for x in ps[j:j + 3]]
            ws = mk_comp('selseg', k, cs, I, [m]); wt = mk_comp('selpos', k, cs, I, [m])   # the same for lists filtered alike
            tot, alts = z3.IntVal(0), []
            for j in range(0, len(ps), 4):
                lo, hi, cond, val = ps[j:j + 4]
                for w in self.witness:
                    # completeness: an item that passes the filter has a place in the list
                    S = lambda e: z3.substitute(e, (k, w))
                    rank = mk_sum(k, lo, w, mkIf(cond, z3.IntVal(1), z3.IntVal(0)))
                    pos = tot + rank
                    cnt = mk_sum(k, lo, hi, mkIf(cond, z3.IntVal(1), z3.IntVal(0)))
                    here = n.decl()(*(n.children()[:-1] + [pos]))
                    out.append(z3.Implies(z3.And(lo <= w, w < hi, S(cond)), z3.And(0 <= rank, rank < cnt, here == S(val))))
                tot = tot + mk_sum(k, lo, hi, mkIf(cond, z3.IntVal(1), z3.IntVal(0)))
                l2, h2, cw, vw = [z3.substitute(x, (k, wt)) for x in (lo, hi, cond, val)]
                alts.append(z3.And(ws == j // 4, l2 <= wt, wt < h2, cw, vw == n))
                self.selval.setdefault(n.get_id(), []).append((n, z3.And(ws == j // 4, vw == n), vw))
            out.append(z3.Implies(z3.And(m >= 0, m < tot), z3.Or(*alts)))
        return out
    # ------------------------------------------------------------ raw solvers
    def z3check(self, fs, timeout=None, want_model=False):
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.add(*fs)
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        return str(r), (s.model() if r == z3.sat and want_model else None)
    def cvc5check(self, fs, timeout=None):
        t0 = time.time()
        s = z3.Solver(); s.add(*fs)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % (timeout or self.timeout), '--nl-ext-tplanes', '-'], input=txt, capture_output=True, text=True, timeout=(timeout or self.timeout) / 1000 + 5)
            r = p.stdout.strip().split('\n')[0]
        except Exception as ex:
            r = 'unknown'
        self.solver_time += time.time() - t0
        self.queries += 1
        return r if r in ('sat', 'unsat') else 'unknown'
    def purify(self, fs):
        """replace UF applications by constants, adding congruence for pairs with the same symbol"""
        m, keep = {}, []
        nf = NF()
        keyed = {}
        def fn(n, ch):
            if is_ufapp(n):
                e = n.decl()(*ch) if not all(a.eq(b) for a, b in zip(ch, n.children())) else n
                try: key = (n.decl().get_id(),) + tuple(nf.argkey(c) for c in e.children())
                except Unsupported: key = e.get_id()
                if key not in keyed:
                    c = z3.Const('pur!%d' % len(keyed), n.sort())
                    keyed[key] = (c, e)
                return keyed[key][0]
            return None
        cache = {}
        out = [rewrite(f, fn, cache) for f in fs]
        by = {}
        for c, e in keyed.values(): by.setdefault(e.decl().get_id(), []).append((c, e))
        extra = []
        for l in by.values():
            for (c1, e1), (c2, e2) in itertools.combinations(l, 2):
                if len(extra) > 250: break
                eqs = [mkEq(a, b) for a, b in zip(e1.children(), e2.children())]
                eqs = [z3.simplify(x) for x in eqs]
                if any(z3.is_false(x) for x in eqs): continue
                extra.append(mkImp(mkAnd(*eqs), c1 == c2))
        return out + extra
    def smt(self, hyps, goal, timeout=None):
        """plain query: hyps and facts entail goal?"""
        neg = z3.Not(goal)
        fs = list(hyps) + [neg]
        inst = self.instantiate(fs)
        fs = fs + inst
        r, m = self.z3check(fs, timeout, True)
        if r == 'unsat': return Result('proved', 'z3')
        if r == 'sat': return Result('refuted', 'z3', '', m)
        # relevancy-reduced and purified attempts
        rel = self.relevant(hyps, goal)
        if len(rel) < len(hyps):
            f2 = rel + [neg]; f2 += self.instantiate(f2)
            r, _ = self.z3check(f2, timeout)
            if r == 'unsat': return Result('proved', 'z3')
        try:
            pf = self.purify(fs)
            r, m = self.z3check(pf, timeout, True)
            if r == 'unsat': return Result('proved', 'z3')
            if r == 'sat': return Result('refuted', 'z3', 'purified', m)
        except Unsupported: pf = fs
        if self.use_cvc5:
            r = self.cvc5check(pf, timeout)
            if r == 'unsat': return Result('proved', 'cvc5')
            if r == 'sat': return Result('refuted', 'cvc5', 'purified')
        return Result('unknown', 'z3+cvc5', 'solvers gave up')
    def relevant(self, hyps, goal):
        syms = set(n.decl().get_id() for n in apps([goal], is_uf))
        out = []
        pool = list(hyps)
        for _ in range(2):
            rest = []
            for h in pool:
                hs = set(n.decl().get_id() for n in apps([h], is_uf))
                if hs & syms: out.append(h)
                else: rest.append(h)
            pool = rest
            break
        return out
    # ------------------------------------------------------------ main entry
    def prove(self, hyps, goal, timeout=None, depth=0):
        if self.deadline and time.time() > self.deadline: return Result('unknown', '', 'time budget exhausted')
        hyps = [h for h in hyps if not z3.is_true(h)]
        goal = V(goal)
        if z3.is_true(goal) or any(h.eq(goal) for h in hyps): return self.count(Result('proved', 'syntactic'))
        g = z3.simplify(goal)
        if z3.is_true(g): return self.count(Result('proved', 'syntactic'))
        if z3.is_and(goal):
            last = None
            for c in goal.children():
                r = self.prove(hyps, c, timeout, depth)
                if not r: return r
                last = r; hyps = hyps + [c]
            return last
        if is_comp(goal) and COMP[goal.decl().name()].kind == 'all':
            k = binder('sk')
            lo, hi, body = comp_inst(goal, k)
            return self.prove(hyps + [lo <= k, k < hi], body, timeout, depth)
        if z3.is_implies(goal): return self.prove(hyps + [goal.arg(0)], goal.arg(1), timeout, depth)
        if depth == 0 and z3.is_eq(goal) and goal.arg(0).sort() != R and self.discrete(hyps, goal): return self.count(Result('proved', 'z3'))
        if z3.is_eq(goal) and goal.arg(0).sort() in (R, I) or (z3.is_eq(goal) and goal.arg(0).sort() == B):
            r = self.count(self.prove_eq(hyps, goal.arg(0), goal.arg(1), timeout, depth))
            if r or not (self.unify_hyps and depth == 0): return r
        if depth == 0 and self.discrete(hyps, goal): return self.count(Result('proved', 'z3'))
        if self.unify_hyps and depth == 0:
            hs = [h for h in hyps if apps([h], is_comp)]
            g2, *hs2 = self.unify(hyps, z3.And(goal, *hs), depth).children() if hs else [self.unify(hyps, goal, depth)]
            hyps = [h for h in hyps if not any(h is x for x in hs)] + hs2
        else: g2 = self.unify(hyps, goal, depth)
        return self.count(self.smt(hyps, g2, timeout))
    def discrete(self, hyps, goal, timeout=1500):
        """first attempt: integers and uninterpreted functions only; real-valued terms and comparisons become opaque"""
        fs = [h for h in hyps] + [z3.Not(goal)]
        cache, keyed, nf = self.disc
        if len(cache) > 400000: self.disc = cache, keyed, nf = {}, {}, NF()
        ds = [discretise(f, cache, keyed, nf) for f in fs]
        r, _ = self.z3check(ds, 300)
        if r == 'unsat': return True
        inst = self.instantiate(fs, rounds=4)
        if not inst: return False
        ds += [discretise(f, cache, keyed, nf) for f in inst]
        r, _ = self.z3check(ds, timeout)
        return r == 'unsat'
    def count(self, r):
        if r: self.by_backend[r.backend] = self.by_backend.get(r.backend, 0) + 1
        return r
    # ------------------------------------------------------------ comprehension congruence
    def unify(self, hyps, goal, depth=0):
        """replace comprehension applications that are provably equal by one representative"""
        if depth > 3: return goal
        reps = {}
        for _ in range(6):
            cs = apps([goal], is_comp)
            cs = [c for c in cs if not any(x is not c and contains_sub(c, x) for x in cs)] or cs
            done = True
            for a, b in itertools.combinations(cs, 2):
                if a.sort() != b.sort(): continue
                if a.decl().name().split('#')[0] != b.decl().name().split('#')[0]: continue
                if a.decl().eq(b.decl()) and all(z3.simplify(x - y).eq(z3.IntVal(0)) for x, y in zip(a.children(), b.children())): continue
                if self.comp_equal(hyps, a, b, depth):
                    goal = z3.substitute(goal, (b, a)); done = False
                    break
            if done: break
        return goal
    def comp_equal(self, hyps, a, b, depth=0):
        key = (a.get_id(), b.get_id(), tuple(h.get_id() for h in hyps))
        if key in self.unify_cache: return self.unify_cache[key][0]
        r = self._comp_equal(hyps, a, b, depth)
        self.unify_cache[key] = (r, a, b, hyps)
        return r
    def _comp_equal(self, hyps, a, b, depth):
        ka, kb = COMP[a.decl().name()].kind, COMP[b.decl().name()].kind
        if ka != kb: return False
        na, nb = COMP[a.decl().name()].nextra, COMP[b.decl().name()].nextra
        if na != nb: return False
        if na:
            ea, eb = a.children()[-na:], b.children()[-nb:]
            for x, y in zip(ea, eb):
                if not x.eq(y) and not self.quick(hyps, x == y): return False
        k = binder('u')
        pa, pb = comp_inst(a, k), comp_inst(b, k)
        if ka == 'sum':
            return self.sums_zero(hyps, [(1, pa), (-1, pb)], k, depth)
        # other comprehensions: parts must agree pointwise in their range (parts[0]=lo, parts[1]=hi)
        if len(pa) != len(pb): return False
        if ka == 'sel':     # segments of (lo, hi, cond, value)
            for j in range(0, len(pa), 4):
                h2 = hyps + [pa[j] <= k, k < pa[j + 1]]
                for h, x, y in ((hyps, pa[j], pb[j]), (hyps, pa[j + 1], pb[j + 1]), (h2, pa[j + 2], pb[j + 2]), (h2 + [pa[j + 2]], pa[j + 3], pb[j + 3])):
                    if not x.eq(y) and not self.prove(h, x == y, 2000, depth + 1): return False
            return True
        for x, y in zip(pa[:2], pb[:2]):
            if not x.eq(y) and not self.prove(hyps, x == y, 2000, depth + 1): return False
        h2 = hyps + [pa[0] <= k, k < pa[1]]
        for x, y in zip(pa[2:], pb[2:]):
            if x.eq(y): continue
            if not self.prove(h2, x == y, 2000, depth + 1): return False
        return True
    def sums_zero(self, hyps, terms, k, depth):
        """sum over all k of sum_i coef_i * [lo_i<=k<hi_i] body_i(k) == 0, pointwise"""
        rngs = []
        for c, (lo, hi, body) in terms: rngs.append((z3.simplify(lo), z3.simplify(hi)))
        same = all(l.eq(rngs[0][0]) and h.eq(rngs[0][1]) for l, h in rngs)
        if not same:
            same = all(self.quick(hyps, z3.And(l == rngs[0][0], h == rngs[0][1])) for l, h in rngs[1:])
        if same:
            h2 = hyps + [rngs[0][0] <= k, k < rngs[0][1]]
            parts = [(c, p[2]) for c, p in terms]
        else:
            h2 = hyps
            parts = [(c, mkIf(z3.And(p[0] <= k, k < p[1]), p[2], V(0) if p[2].sort() == I else z3.RealVal(0))) for c, p in terms]
        pos = [mulc(c, x) for c, x in parts if not neg_coef(c)]
        ng = [mulc(negc(c), x) for c, x in parts if neg_coef(c)]
        zero = z3.RealVal(0) if any(x.sort() == R for x in pos + ng) else z3.IntVal(0)
        l = sum_list(pos, zero); r = sum_list(ng, zero)
        return bool(self.prove_eq(h2, l, r, 3000, depth + 1))
    def quick(self, hyps, goal):
        r, _ = self.z3check([h for h in hyps if linear_int(h)] + [z3.Not(goal)], 500)
        return r == 'unsat'
    # ------------------------------------------------------------ congruence under context
    def congruent(self, hyps, a, b, fuel=None):
        """a and b have the same shape and differ only where the context makes the difference disappear"""
        if fuel is None: fuel = [60000]
        if a.eq(b): return True
        if a.sort() != b.sort(): return False
        fuel[0] -= 1
        if fuel[0] < 0: return False
        hs = frozenset(h.get_id() for h in hyps)
        memo = self.unify_cache.setdefault(('cong', a.get_id(), b.get_id()), [])
        for (h2, r2, _) in memo:
            if r2 and h2 <= hs: return True
            if not r2 and h2 == hs: return False
        r = self._congruent(hyps, a, b, fuel)
        memo.append((hs, r, (a, b, list(hyps))))
        return r
    def _congruent(self, hyps, a, b, fuel):
        ITE = z3.Z3_OP_ITE
        ka, kb = a.decl().kind(), b.decl().kind()
        if ka == ITE and kb == ITE:
            if self.congruent(hyps, a.arg(0), b.arg(0), fuel):
                return self.congruent(hyps + [a.arg(0)], a.arg(1), b.arg(1), fuel) and self.congruent(hyps + [mkNot(a.arg(0))], a.arg(2), b.arg(2), fuel)
        for x, y in ((a, b), (b, a)):
            if x.decl().kind() == ITE:
                # a case distinction on the arguments of the function on the other side
                for br in (2, 1):
                    z = x.arg(br)
                    if is_ufapp(y) and is_ufapp(z) and y.decl().eq(z.decl()) and all(self.congruent(hyps, *((u, v) if x is b else (v, u)), fuel) for u, v in zip(y.children(), z.children())):
                        c = z3.substitute(x.arg(0), *[(v, u) for u, v in zip(y.children(), z.children()) if not u.eq(v)]) if y.num_args() else x.arg(0)
                        if self.entails(hyps, c if br == 1 else mkNot(c)): return True
                if self.entails(hyps, mkNot(x.arg(0))): return self.congruent(hyps, x.arg(2), y, fuel)
                if self.entails(hyps, x.arg(0)): return self.congruent(hyps, x.arg(1), y, fuel)
        if ka == ITE or kb == ITE: return False
        if is_comp(a) and is_comp(b):
            ca, cb = COMP[a.decl().name()], COMP[b.decl().name()]
            if ca.kind != cb.kind or ca.nextra != cb.nextra: return False
            n = ca.nextra
            if n:
                for x, y in zip(a.children()[-n:], b.children()[-n:]):
                    if not self.congruent(hyps, x, y, fuel): return False
            if a.decl().eq(b.decl()): 
                return all(self.congruent(hyps, x, y, fuel) for x, y in zip(a.children(), b.children()))
            k = binder('c')
            pa, pb = comp_inst(a, k), comp_inst(b, k)
            if len(pa) != len(pb): return False
            if ca.kind == 'sel':     # segments of (lo, hi, cond, value)
                for j in range(0, len(pa), 4):
                    for x, y in zip(pa[j:j + 2], pb[j:j + 2]):
                        if not self.congruent(hyps, x, y, fuel): return False
                    h2 = hyps + [pa[j] <= k, k < pa[j + 1]]
                    if not self.congruent(h2, pa[j + 2], pb[j + 2], fuel): return False
                    if not self.congruent(h2 + [pa[j + 2]], pa[j + 3], pb[j + 3], fuel): return False
                return True
            for x, y in zip(pa[:2], pb[:2]):
                if not self.congruent(hyps, x, y, fuel): return False
            h2 = hyps + [pa[0] <= k, k < pa[1]]
            for x, y in zip(pa[2:], pb[2:]):
                if not self.congruent(h2, x, y, fuel): return False
            return True
        if not a.decl().eq(b.decl()) or a.num_args() != b.num_args() or a.num_args() == 0: return False
        if ka in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            A, B2 = a.children(), b.children()
            rest = []
            h2 = list(hyps)
            ids = [y.get_id() for y in B2]
            for x in A:
                if x.get_id() in ids: h2.append(x if ka == z3.Z3_OP_AND else mkNot(x)); ids.remove(x.get_id())
                else: rest.append(x)
            other = [y for y in B2 if y.get_id() in ids]
            for x in rest:
                y = next((y for y in other if y.num_args() == x.num_args() and self.congruent(h2, x, y, fuel)), None)
                if y is None: return False
                other.remove(y)
                h2.append(x if ka == z3.Z3_OP_AND else mkNot(x))
            return True
        if ka in (z3.Z3_OP_ADD, z3.Z3_OP_MUL) and not all(self.congruent(hyps, x, y, fuel) for x, y in zip(a.children(), b.children())):
            other = b.children()
            for x in a.children():
                y = next((y for y in other if self.congruent(hyps, x, y, fuel)), None)
                if y is None: return False
                other.remove(y)
            return True
        return all(self.congruent(hyps, x, y, fuel) for x, y in zip(a.children(), b.children()))
    def shape(self, e): return e.num_args() > 0 and (is_comp(e) or e.decl().kind() == z3.Z3_OP_ITE)
    def entails(self, hyps, goal):
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        key = ('ent', g.get_id(), tuple(h.get_id() for h in hyps))
        if key not in self.unify_cache:
            fs = list(hyps) + [z3.Not(g)]
            cache, keyed, nf = self.disc
            ds = [discretise(f, cache, keyed, nf) for f in fs]
            r, _ = self.z3check(ds, 300)
            if r != 'unsat':
                inst = self.instantiate(fs, rounds=3, limit=300)
                r, _ = self.z3check(ds + [discretise(f, cache, keyed, nf) for f in inst], 500)
            self.unify_cache[key] = (r == 'unsat', g, list(hyps))
        return self.unify_cache[key][0]
    # ------------------------------------------------------------ equalities
    def prove_eq(self, hyps, a, b, timeout=None, depth=0):
        if a.eq(b): return Result('proved', 'syntactic')
        if depth == 0 and self.shape(a) and self.shape(b) and self.congruent(hyps, a, b): return Result('proved', 'congruence')
        if a.sort() == B:
            g = self.unify(hyps, a == b, depth)
            if z3.is_true(z3.simplify(g)): return Result('proved', 'syntactic')
            return self.smt(hyps, g, timeout)
        if a.sort() != b.sort(): a, b = toReal(a), toReal(b)
        if self.unify_hyps:   # squares of sums
            sq = [e.arg(0) for e in (a, b) if z3.is_mul(e) and e.num_args() == 2 and e.arg(0).eq(e.arg(1))]
            if len(sq) == 2 and apps(sq, is_comp) and self.prove_eq(hyps, sq[0], sq[1], timeout, depth): return Result('proved', 'normal-form')
        if depth <= 3:
            g = self.unify(hyps, a == b, depth)
            if z3.is_true(g): return Result('proved', 'normal-form')
            if z3.is_eq(g): a, b = g.arg(0), g.arg(1)
        s = z3.Solver(); s.set('timeout', 300)
        # facts are instantiated for the relevant terms once
        base = list(hyps) + self.instantiate(list(hyps) + [a == b], rounds=2, limit=150)
        s.add(*[h for h in base])
        self.budget = 3000
        return self.split_eq(s, base, [], a, b, timeout, depth)
    def split_eq(self, s, hyps, conds, a, b, timeout, depth):
        self.budget -= 1
        if self.budget < 0: return Result('unknown', '', 'case split too large')
        if self.deadline and time.time() > self.deadline: return Result('unknown', '', 'time budget exhausted')
        a, b = z3.simplify(a), z3.simplify(b)
        if a.eq(b): return Result('proved', 'normal-form')
        c = ite_conds(a)
        if c is None: c = ite_conds(b)
        if c is None: return self.leaf_eq(s, hyps + conds, a, b, timeout, depth)
        c = atoms_of_cond(c)
        last = None
        for v in (c, z3.Not(c)):
            s.push(); s.add(v)
            t0 = time.time()
            r = s.check()
            self.solver_time += time.time() - t0; self.queries += 1
            if r == z3.unsat:
                s.pop(); continue
            val = T if v is c else F
            a2, b2 = z3.substitute(a, (c, val)), z3.substitute(b, (c, val))
            # also equalities of consts: substitute t=const
            if v is c and z3.is_eq(c) and z3.is_int_value(c.arg(1)) : 
                a2, b2 = z3.substitute(a2, (c.arg(0), c.arg(1))), z3.substitute(b2, (c.arg(0), c.arg(1)))
            res = self.split_eq(s, hyps, conds + [v], a2, b2, timeout, depth)
            s.pop()
            if not res: return res
            last = res
        return last or Result('proved', 'z3')
    def leaf_eq(self, s, hyps, a, b, timeout, depth):
        try:
            nf = NF()
            d = nf.add(nf.nf(a), nf.nf(b), -1)
            if not d or not nf.clear_inv(d): return Result('proved', 'normal-form')
            if depth <= 3 and self.linear_sums(nf, d, hyps, depth): return Result('proved', 'normal-form')
        except Unsupported: pass
        r = self.ground_eq(hyps, a, b, depth)
        if r: return r
        return self.smt(hyps, a == b, timeout)
    def ground_eq(self, hyps, a, b, depth):
        """contradiction or equal integer arguments by reasoning over integers and uninterpreted functions only; then normal forms"""
        if depth > 1: return None
        inst = self.instantiate(list(hyps) + [a == b], rounds=4, limit=600)
        cache, keyed, nf0 = self.disc
        # counts of lists filtered alike
        cnt = [n for n in apps(list(hyps) + inst + [a, b], is_comp) if COMP[n.decl().name()].kind == 'sum' and n.sort() == I and not binders_in([n])]
        for x, y in itertools.combinations(cnt[:12], 2):
            key = ('cnt', x.get_id(), y.get_id())
            if key not in self.unify_cache: self.unify_cache[key] = (self.comp_equal([h for h in hyps if not contains(h, is_comp)], x, y, 2), x, y)
            if self.unify_cache[key][0]: inst.append(x == y)
        s = z3.Solver(); s.set('timeout', 1500)
        t0 = time.time()
        s.add(*[discretise(f, cache, keyed, nf0) for f in list(hyps) + inst])
        self.queries += 1
        r = s.check()
        self.solver_time += time.time() - t0
        if r == z3.unsat: return Result('proved', 'z3')
        if r != z3.sat: return None
        s.set('timeout', 500)
        changed = False
        for n in apps([a, b], is_comp):
            if COMP[n.decl().name()].kind != 'sel': continue
            for _, alt, vw in self.selval.get(n.get_id(), ()):
                s.push(); s.add(z3.Not(discretise(alt, cache, keyed, nf0)))
                q = s.check(); self.queries += 1
                s.pop()
                if q == z3.unsat:
                    a, b = z3.substitute(a, (n, vw)), z3.substitute(b, (n, vw))
                    changed = True
                    break
        for _ in range(8):
            pairs = {}
            byf = {}
            for n in apps([a, b], is_uf):
                if n.num_args() and not is_comp(n): byf.setdefault(n.decl().get_id(), []).append(n)
            for l in byf.values():
                for x, y in itertools.combinations(l, 2):
                    for u, v in zip(x.children(), y.children()):
                        if u.sort() == I and not u.eq(v): pairs[(u.get_id(), v.get_id())] = (u, v)
            hit = False
            for u, v in pairs.values():
                du, dv = discretise(u, cache, keyed, nf0), discretise(v, cache, keyed, nf0)
                s.push(); s.add(du != dv)
                q = s.check(); self.queries += 1
                s.pop()
                if q == z3.unsat:
                    if len(str(u)) < len(str(v)): u, v = v, u
                    a, b = z3.substitute(a, (u, v)), z3.substitute(b, (u, v))
                    hit = changed = True
                    break
            if not hit: break
        if changed:
            try:
                nf = NF()
                d = nf.add(nf.nf(a), nf.nf(b), -1)
                if not d or not nf.clear_inv(d): return Result('proved', 'normal-form')
            except Unsupported: pass
        return None
    def linear_sums(self, nf, d, hyps, depth):
        """d is linear in some sum atoms with binder-free coefficients: combine under one sum"""
        mono = []
        for m, c in d.items():
            at = [x for x, e in m if e == 1 and nf.atomv[x][0] == 'e' and is_comp(nf.atomv[x][1]) and COMP[nf.atomv[x][1].decl().name()].kind == 'sum']
            if not at: return False
            mono.append((m, c, at))
        if not mono: return False
        tried = 0
        for choice in itertools.product(*[at for _, _, at in mono]):
            S = set(choice)
            # one atom of the chosen set in every monomial
            if any(sum(1 for x in at if x in S) != 1 for _, _, at in mono): continue
            tried += 1
            if tried > 6: break
            groups = {}
            for (m, c, at), x in zip(mono, choice):
                rest = tuple(y for y in m if y[0] != x)
                g = groups.setdefault(x, {})
                g[rest] = g.get(rest, 0) + c
            k = binder('u')
            terms = [(poly_expr(nf, poly), comp_inst(nf.atomv[x][1], k)) for x, poly in groups.items()]
            if self.sums_zero(hyps, terms, k, depth + 1): return True
        return False

def discretise(e, cache, keyed, nf=None):
    def opaque(n):
        k = n.get_id()
        if is_uf(n) and nf is not None:
            try: k = (n.decl().get_id(),) + tuple(nf.argkey(c) for c in kids(n))
            except Unsupported: pass
        if nf is not None and z3.is_app(n):
            # comparisons of reals: one atom per normal form of the difference, a<b read as not (b<=a)
            kd = n.decl().kind()
            if kd in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
                a, b = n.arg(0), n.arg(1)
                if kd in (z3.Z3_OP_GE, z3.Z3_OP_LT): a, b = b, a
                neg = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)       # a<=b, or its negation
                try:
                    d = nf.add(nf.nf(a), nf.nf(b), -1)
                    if kd == z3.Z3_OP_EQ:
                        key, d = 'eq', max(tuple(sorted(d.items())), tuple(sorted((m, -c) for m, c in d.items())))
                    else: key, d = 'le', tuple(sorted(d.items()))
                    k = (key, d)
                    if k not in keyed: keyed[k] = (n, z3.Const('abs!%d' % len(keyed), B))
                    return z3.Not(keyed[k][1]) if neg else keyed[k][1]
                except (Unsupported, TypeError): k = n.get_id()
        if k not in keyed: keyed[k] = (n, z3.Const('abs!%d' % len(keyed), n.sort()))
        return keyed[k][1]
    st = [(e, False)]
    while st:
        n, done = st.pop()
        i = n.get_id()
        if i in cache: continue
        if not done:
            if n.sort() != R and any(c.sort() == R for c in kids(n)):
                cache[i] = (n, opaque(n)); continue
            if n.sort() == R: cache[i] = (n, n); continue
            st.append((n, True))
            for c in kids(n):
                if c.get_id() not in cache: st.append((c, False))
        else:
            ch = [cache[c.get_id()][1] for c in kids(n)]
            cache[i] = (n, n if all(a is b or a.eq(b) for a, b in zip(ch, kids(n))) else rebuild(n, ch))
    return cache[e.get_id()][1]

def triggers(c):
    """(function, argument position, offset) of applications that bind the quantified variable of an 'all' definition"""
    t = getattr(c, 'trig', None)
    if t is None:
        t = []
        bv = c.bv
        for n in apps([c.parts[2]], is_ufapp):
            for p, a in enumerate(n.children()):
                if a.sort() != I: continue
                if a.eq(bv): x = (n.decl().name(), p, 0)
                else:
                    d = z3.simplify(a - bv)
                    if not z3.is_int_value(d): continue
                    x = (n.decl().name(), p, d.as_long())
                if x not in t: t.append(x)
        c.trig = t
    return t

def contains_sub(a, x):
    return contains(a, lambda n: n.eq(x))

def neg_coef(c): return isinstance(c, (int, Fraction)) and c < 0
def negc(c): return -c
def mulc(c, x):
    if isinstance(c, (int, Fraction)):
        if c == 1: return x
        return z3.RealVal(str(Fraction(c))) * toReal(x)
    return c * toReal(x)
def sum_list(l, zero):
    if not l: return zero
    r = l[0]
    for x in l[1:]: r = r + x
    return r

def linear_int(h):
    return not contains(h, lambda n: n.sort() == R)

def poly_expr(nf, p):
    r = None
    for m, c in p.items():
        t = z3.RealVal(str(c))
        for a, e in m:
            v = nf.atomv[a]
            if v[0] == 'e': x = toReal(v[1])
            elif v[0] == 'sqrt': x = SQRT(poly_expr(nf, v[1]))
            else: x = 1 / poly_expr(nf, v[1])
            for _ in range(abs(e)): t = t * x if e > 0 else t / x
        r = t if r is None else r + t
    return z3.RealVal(0) if r is None else r
