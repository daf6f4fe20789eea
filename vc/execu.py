"""Symbolic execution of the exported AST with loop rules; every rule's side condition is an obligation."""
import re
from .terms import *
from .solve import *

def strip_q(q):
    return q.replace('std::__1::', 'std::').replace('(anonymous namespace)::', '').replace('boost::numeric::ublas::', 'ublas::').replace('OpenMps::', '').replace('(anonymous)::','')

def detemplate(q):
    from . import lib
    return lib.detemplate(q)

class Outcome:
    __slots__ = ('kind', 'st', 'val')
    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val

class State:
    __slots__ = ('mem', 'pc')
    def __init__(self, mem=None, pc=None):
        self.mem = dict(mem or {}); self.pc = list(pc or [])
    def clone(self): return State(self.mem, self.pc)
    def assume(self, c):
        if not z3.is_true(c): self.pc.append(c)
    def get(self, lv):
        if lv.root not in self.mem: raise Unsupported('dead object %s' % (lv,))
        return vget(self.mem[lv.root], lv.path)
    def set(self, lv, v):
        self.mem[lv.root] = vset(self.mem[lv.root], lv.path, v)

class Frame:
    def __init__(self, fn, env=None, this=None):
        self.fn, self.env, self.this = fn, env or {}, this

class Obligation:
    def __init__(self, name, kind, hyps, goal, line, func):
        self.name, self.kind, self.hyps, self.goal, self.line, self.func = name, kind, hyps, goal, line, func
        self.result = None

class Module:
    """an exported translation unit"""
    def __init__(self, j):
        self.j = j
        self.fn = j['functions']; self.rec = j['records']; self.glob = j['globals']
        self.byq = {}
        for k, f in self.fn.items():
            f['sq'] = strip_q(f['q'])
            f['sq'] = detemplate(f['sq'])
            self.byq.setdefault(f['sq'], []).append(f)
    def find(self, sq, pred=None, many=False):
        fs = [f for f in self.byq.get(sq, []) if pred is None or pred(f)]
        if many: return fs
        if not fs: raise Unsupported('no function %s' % sq)
        return fs[0]
    def find_suffix(self, suffix, pred=None):
        return [f for q, l in self.byq.items() if q.endswith(suffix) for f in l if pred is None or pred(f)]

class Exec:
    def __init__(self, mod, prover, dim=2):
        self.m, self.pr, self.dim = mod, prover, dim
        self.obls = []
        self.contracts = {}      # stripped q-name -> handler(ex, st, ref, this, args) -> value
        self.loop_hooks = []
        self.collect = True
        self.discovering = 0
        self.defs = {}
        self.uid = itertools.count()
        self.st = None
        self.frame = None
        self.throws = []
        self.func_stack = []
        self.called = {}
        self.inlined = set()
        self.omp_loops = []
        self.omp_depth = 0
        self.path_obls = True
        self.invariants = []
        self.loop_log = []
        self.cur_line = 0
        self.global_cache = {}
        self.libs = {}
        self.enum_dom = []
        self.bstack = []
        self.foralls = []
        from . import lib
        lib.install(self)

    # ------------------------------------------------------------ misc
    strip = staticmethod(strip_q)
    STD_EXC = {'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
               'std::invalid_argument': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'], 'std::length_error': ['std::logic_error'],
               'std::domain_error': ['std::logic_error'], 'std::range_error': ['std::runtime_error'], 'std::overflow_error': ['std::runtime_error'],
               'boost::bad_lexical_cast': ['std::bad_cast'], 'std::bad_cast': ['std::exception'], 'std::bad_alloc': ['std::exception']}
    def exc_bases(self, tag):
        from .lib import detemplate
        out, work = [], [tag]
        while work:
            t = work.pop()
            for b in self.STD_EXC.get(detemplate(t), []):
                if b not in out: out.append(b); work.append(b)
            for r in self.m.rec.values():
                if strip_q(r['q']) == t or detemplate(strip_q(r['q'])) == detemplate(t):
                    for b in r['bases']:
                        q = detemplate(strip_q(b.get('q', '?')))
                        if q not in out: out.append(q); work.append(q)
                    break
        return out
    def oblige_named(self, kind, goal, note=''): self.oblige(kind, goal, note)
    def forall_fact(self, k, lo, hi, cond):
        """assume: for all k in [lo,hi): cond"""
        cond = V(cond)
        if z3.is_true(cond): return
        self.st.assume(mk_comp('all', k, [V(lo), V(hi), cond], B))
    def fresh_sym(self, nm, sort=I):
        nm = 'h!%s!%d' % (nm, next(self.uid))
        if not self.bstack: return z3.Const(nm, sort)
        return z3.Function(nm, *([I] * len(self.bstack)), sort)(*self.bstack)
    def fresh_leaf(self, nm, arity, sort):
        nm = 'h!%s!%d' % (nm, next(self.uid))
        b = self.bstack
        if arity + len(b) == 0: return z3.Const(nm, sort)
        f = z3.Function(nm, *([I] * (arity + len(b))), sort)
        if arity == 0: return f(*b)
        base = Base(f, arity + len(b), sort)
        return PApp(base, list(b)) if b else base
    def name_column(self, col, nm):
        """a new symbol for a column, defined as the column (unfolded by the prover where it occurs)"""
        b = list(self.bstack)
        nm = 'd!%s!%d' % (nm, next(self.uid))
        f = z3.Function(nm, *([I] * (col.arity + len(b))), col.sort)
        n = len(b)
        def fact(a):
            ch = a.children()
            v = col.read(ch[n:])
            if n: v = z3.substitute(v, *zip(b, ch[:n]))
            return [a == v]
        self.pr.add_fact(Fact([nm], fact, 'definition of ' + nm))
        self.defs[nm] = lambda ch: (z3.substitute(col.read(ch[n:]), *zip(b, ch[:n])) if n else col.read(ch))
        base = Base(f, col.arity + n, col.sort)
        return PApp(base, b) if b else base
    def newroot(self, val, nm='t'):
        r = '%s#%d' % (nm, next(self.uid))
        self.st.mem[r] = val
        return Lval(r)
    def oblige(self, kind, goal, note=''):
        if not self.collect: return
        goal = V(goal)
        if z3.is_true(goal): return
        if z3.is_true(z3.simplify(goal)): 
            self.trivial = getattr(self, 'trivial', 0) + 1
            return
        f = self.func_stack[-1] if self.func_stack else '?'
        self.obls.append(Obligation('%s/%s@%s%s' % (f, kind, self.cur_line, (':' + note) if note else ''), kind, list(self.st.pc), goal, self.cur_line, f))

    # ------------------------------------------------------------ types
    def leaf(self, ty, arity, mk, name):
        t = ty.get('t')
        if t == 'bool': return mk(name, arity, B)
        if t in ('int', 'enum'): return mk(name, arity, I)
        if t == 'float': return mk(name, arity, R)
        raise Unsupported('leaf type %s' % ty.get('s'))
    def mkval(self, ty, mk, name='v', arity=0):
        """value tree of a type, leaves by mk(name, arity, sort)"""
        t = ty.get('t')
        if t in ('bool', 'int', 'enum', 'float'): return self.leaf(ty, arity, mk, name)
        if t == 'array':
            return Rec('carray', {str(i): self.mkval(ty['of'], mk, '%s_%d' % (name, i), arity) for i in range(ty['n'])})
        if t == 'rec':
            q = strip_q(ty['q'])
            if ty.get('ref') and False: pass
            h = self.libs['types'].get(q)
            if h: return h(self, ty, mk, name, arity)
            r = self.m.rec.get(str(ty['id']))
            if r is not None:
                f = {}
                for b in r['bases']:
                    if b.get('t') == 'rec' and str(b['id']) in self.m.rec:
                        f.update(self.mkval(b, mk, name, arity).f)
                for fd in r['fields']:
                    fn = fd['name'] or ('?%d' % fd['id'])
                    if fd['type'].get('ref'): f[fn] = RefV(None); continue
                    f[fn] = self.mkval(fd['type'], mk, name + '.' + fn, arity)
                return Rec(q, f, ty['id'])
            return Opq(q, {'name': name})
        if t == 'ptr': return Ptr(None)
        raise Unsupported('type %s' % ty.get('s'))
    def mk_fresh(self, nm, arity, sort): return self.fresh_leaf(nm, arity, sort)
    def mk_named(self, prefix):
        def mk(nm, arity, sort):
            n = prefix + nm
            if arity == 0: return z3.Const(n, sort)
            return Base(z3.Function(n, *([I] * arity), sort), arity, sort)
        return mk
    def mk_zero(self, nm, arity, sort):
        z = F if sort == B else z3.IntVal(0) if sort == I else z3.RealVal(0) if sort == R else z3.Const('emptystr', STR)
        return z if arity == 0 else ConstCol(arity, z)
    def default_value(self, ty, name='u'):
        """default-initialised variable: class types by their default state, scalars unspecified"""
        return self.mkval(ty, self.mk_fresh, 'undef_' + name)
    def havoc_like(self, v, name='h'):
        def fn(l): return self.fresh_leaf(name, 0 if isinstance(l, z3.ExprRef) else l.arity, l.sort() if isinstance(l, z3.ExprRef) else l.sort)
        return vmap(v, fn)

    # ------------------------------------------------------------ expressions
    def rv(self, e):
        """rvalue"""
        v = self.ev(e)
        if isinstance(v, Lval):
            v = self.load(v)
        return v
    def load(self, lv):
        return self.st.get(lv)
    def lv(self, e):
        """lvalue (materialises temporaries)"""
        v = self.ev(e)
        if isinstance(v, Lval): return v
        return self.newroot(v, 'tmp')
    def deref_fields(self, lv):
        """follow a RefV stored at lv"""
        v = self.st.get(lv)
        if isinstance(v, RefV):
            if v.lv is None: raise Unsupported('unbound reference')
            return v.lv
        return lv

    def ev(self, e):
        if e is None: raise Unsupported('missing expression')
        if 'l' in e: self.cur_line = e['l']
        k = e['k']
        m = getattr(self, 'ev_' + k, None)
        if m is None: raise Unsupported('expression %s %s' % (k, e.get('cls', '')))
        return m(e)
    def ev_int(self, e):
        t = e['ty'].get('t')
        v = int(e['v'])
        if t == 'bool': return V(bool(v))
        return z3.IntVal(v)
    def ev_native(self, e): return e['fn'](self)     # made up by the engine (standard algorithms as loops), not in the source
    def ev_bool(self, e): return V(bool(e['v']))
    def ev_flt(self, e):
        from fractions import Fraction
        f = Fraction(float.fromhex(e['hex']))
        # prefer the decimal reading when it is the same double
        try:
            d = Fraction(e['v'])
            if float(d) == float(f): f = d
        except Exception: pass
        return z3.RealVal(str(f))
    def ev_str(self, e): return self.libs['strlit'](self, e['v'])
    def ev_null(self, e): return Ptr(None)
    def ev_zero(self, e): return self.mkval(e['ty'], self.mk_zero)
    def ev_this(self, e): return Ptr(self.frame.this)
    def ev_fn(self, e): return FnV(e['f'])
    def ev_var(self, e):
        i = e['id']
        fr = self.frame
        if i in fr.env: return fr.env[i]
        if e.get('global'): return self.global_var(e)
        raise Unsupported('variable %s' % e['n'])
    def global_var(self, e):
        i = e['id']
        g = self.m.glob.get(str(i))
        h = self.libs['globals'].get(strip_q(e['q']))
        root = 'glob:%s' % e['q']
        if root in self.st.mem: return Lval(root)
        if h: self.st.mem[root] = h(self); return Lval(root)
        if g is None or 'init' not in g: raise Unsupported('global %s' % e['q'])
        if not g.get('const'): raise Unsupported('mutable global %s' % e['q'])
        sv = self.frame; self.frame = Frame(None)
        v = self.rv(g['init'])
        self.frame = sv
        self.st.mem[root] = v
        return Lval(root)
    def ev_member(self, e):
        o = self.ev(e['obj'])
        if e.get('arrow'):
            if isinstance(o, Lval): o = self.load(o)
            if isinstance(o, Ptr):
                if o.lv is None: raise Unsupported('null dereference')
                o = o.lv
            elif hasattr(o, 'arrow'): o = o.arrow(self)
            else: raise Unsupported('arrow on %r' % (o,))
        nm = e['n'] or ('?%d' % e['fid'])
        if isinstance(o, Lval):
            l = o.f(nm)
            v = self.st.get(l)
            if isinstance(v, RefV):
                if v.lv is None: raise Unsupported('unbound reference')
                return v.lv
            return l
        h = getattr(o, 'member', None)
        if h: return h(nm)
        if isinstance(o, Rec):
            v = o.f[nm]
            return v.lv if isinstance(v, RefV) else v
        raise Unsupported('member of %r' % (o,))
    def ev_method(self, e): return FnV(e['f'])
    def ev_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.lv(e['e'])
            v = self.st.get(l)
            if isinstance(v, Ptr):
                n = self.ptr_add(v, 1 if op == '++' else -1)
            else:
                if op == '--' and not e['e']['ty'].get('signed', True): self.oblige('unsigned-wrap', v >= 1)
                n = v + 1 if op == '++' else v - 1
                n = self.fold(n)
            self.st.set(l, n)
            return v if e['post'] else l
        if op == '*':
            p = self.rv(e['e'])
            if isinstance(p, Ptr):
                if p.lv is None: raise Unsupported('null dereference')
                return p.lv
            if isinstance(p, FnV): return p
            raise Unsupported('deref %r' % (p,))
        if op == '&':
            v = self.ev(e['e'])
            if isinstance(v, FnV): return v
            if isinstance(v, Lval): return Ptr(v)
            raise Unsupported('address of temporary')
        v = self.rv(e['e'])
        if op == '-':
            if not e['ty'].get('signed', True) and e['ty'].get('t') == 'int': self.oblige('unsigned-wrap', v == 0)
            return self.fold(-v)
        if op == '+': return v
        if op == '!': return mkNot(self.tobool(v))
        if op == '__extension__': return v
        raise Unsupported('unary %s' % op)
    def fold(self, v):
        if isinstance(v, z3.ExprRef) and v.sort() in (I, R):
            ch = v.children()
            if ch and all(z3.is_int_value(c) or z3.is_rational_value(c) for c in ch): return z3.simplify(v)
        return v
    def tobool(self, v):
        if isinstance(v, Ptr): return V(v.lv is not None)
        if v.sort() == B: return v
        if v.sort() == I: return mkNot(mkEq(v, z3.IntVal(0)))
        return v != 0
    def ptr_add(self, p, n):
        if p.lv is None or not p.lv.path or p.lv.path[-1][0] != 'i': raise Unsupported('pointer arithmetic')
        return Ptr(Lval(p.lv.root, p.lv.path[:-1] + (('i', z3.simplify(p.lv.path[-1][1] + n)),)))
    def ev_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a']); return self.ev(e['b'])
        if op == '=':
            v = self.rv(e['b'])
            l = self.lv(e['a'])
            self.st.set(l, v)
            return l
        if op in ('&&', '||'):
            a = self.tobool(self.rv(e['a']))
            if z3.is_false(z3.simplify(a)) and op == '&&': return F
            if z3.is_true(z3.simplify(a)) and op == '||': return T
            b = self.guarded(a if op == '&&' else mkNot(a), lambda: self.tobool(self.rv(e['b'])), F if op == '&&' else T)
            return mkAnd(a, b) if op == '&&' else mkOr(a, b)
        a = self.rv(e['a']); b = self.rv(e['b'])
        return self.binop(op, a, b, e['ty'], e['a']['ty'])
    def guarded(self, c, f, dflt):
        """evaluate f under condition c; merge the state effects"""
        s0 = self.st
        n0 = len(s0.pc)
        s1 = s0.clone(); s1.assume(c)
        self.st = s1
        v = f()
        s1 = self.st
        changed = [k for k in s0.mem if not vsame(s0.mem[k], s1.mem.get(k))]
        for k in s1.mem:
            if k not in s0.mem: s0.mem[k] = s1.mem[k]
        for k in changed: s0.mem[k] = vite(c, s1.mem[k], s0.mem[k])
        for x in s1.pc[n0:]:
            if not x.eq(c): s0.assume(mkImp(c, x))
        self.st = s0
        return v
    def binop(self, op, a, b, ty, aty=None):
        if isinstance(a, Ptr) or isinstance(b, Ptr): return self.ptr_binop(op, a, b)
        h = getattr(a, 'binop', None) or getattr(b, 'rbinop', None)
        if h: return h(self, op, a, b)
        if not isinstance(a, z3.ExprRef) or not isinstance(b, z3.ExprRef): raise Unsupported('binary %s on %r %r' % (op, type(a), type(b)))
        if op in ('&', '|', '^') and a.sort() == B and b.sort() == B:
            return mkAnd(a, b) if op == '&' else mkOr(a, b) if op == '|' else z3.Xor(a, b)
        if a.sort() == B: a = mkIf(a, z3.IntVal(1), z3.IntVal(0)) if op not in ('==', '!=') or b.sort() != B else a
        if b.sort() == B and a.sort() != B: b = mkIf(b, z3.IntVal(1), z3.IntVal(0))
        if op in ('==', '!='):
            r = mkEq(a, b)
            return r if op == '==' else mkNot(r)
        if a.sort() != b.sort(): a, b = toReal(a), toReal(b)
        if op == '<': return self.cmp(a < b)
        if op == '>': return self.cmp(a > b)
        if op == '<=': return self.cmp(a <= b)
        if op == '>=': return self.cmp(a >= b)
        uns = ty.get('t') == 'int' and not ty.get('signed', True)
        if op == '+':
            if isz(a): return b
            if isz(b): return a
            return self.fold(a + b)
        if op == '-':
            if isz(b): return a
            if uns: self.oblige('unsigned-wrap', a >= b)
            return self.fold(a - b)
        if op == '*':
            if isone(a): return b
            if isone(b): return a
            return self.fold(a * b)
        if op == '/':
            if a.sort() == I:
                self.oblige('div-zero', b != 0)
                if z3.is_int_value(b) and b.as_long() > 0:
                    if not uns: 
                        return mkIf(a >= 0, a / b, -((-a) / b))
                    dm = divmod_lin(a, b.as_long())
                    return dm[0] if dm else self.fold(a / b)
                if z3.is_int_value(a) and z3.is_int_value(b): return z3.IntVal(int(a.as_long() / b.as_long()))
                return mkIf(mkAnd(a >= 0, b > 0), a / b, z3.Function('cdiv', I, I, I)(a, b))
            if not (z3.is_rational_value(b) and b.numerator_as_long() != 0): self.oblige('div-zero', b != 0)
            if isone(b): return a
            return self.fold(a / b)
        if op == '%':
            self.oblige('div-zero', b != 0)
            if z3.is_int_value(b) and b.as_long() > 0 and uns:
                dm = divmod_lin(a, b.as_long())
                return dm[1] if dm else self.fold(a % b)
            return mkIf(mkAnd(a >= 0, b > 0), a % b, z3.Function('cmod', I, I, I)(a, b))
        raise Unsupported('binary %s' % op)
    def cmp(self, c):
        ch = c.children()
        if all(z3.is_int_value(x) or z3.is_rational_value(x) for x in ch): return z3.simplify(c)
        return c
    def ptr_binop(self, op, a, b):
        if op in ('+', '-') and isinstance(a, Ptr) and isinstance(b, z3.ExprRef): return self.ptr_add(a, b if op == '+' else -b)
        if op == '+' and isinstance(b, Ptr): return self.ptr_add(b, a)
        if op in ('==', '!=') and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv is None or b.lv is None: r = V(a.lv is b.lv)
            elif a.lv.root == b.lv.root and len(a.lv.path) == len(b.lv.path):
                cs = []
                for x, y in zip(a.lv.path, b.lv.path):
                    if x[0] != y[0]: cs.append(F)
                    elif x[0] == 'i': cs.append(eqi(x[1], y[1]))
                    else: cs.append(V(x[1] == y[1]))
                r = mkAnd(*cs)
            else: r = F
            return r if op == '==' else mkNot(r)
        if op == '-' and isinstance(a, Ptr) and isinstance(b, Ptr): return z3.simplify(a.lv.path[-1][1] - b.lv.path[-1][1])
        if op in ('<', '>', '<=', '>=') and isinstance(a, Ptr) and isinstance(b, Ptr):
            x, y = a.lv.path[-1][1], b.lv.path[-1][1]
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        raise Unsupported('pointer %s' % op)
    def ev_cas(self, e):
        op = e['op'][:-1]
        b = self.rv(e['b'])
        l = self.lv(e['a'])
        a = self.st.get(l)
        ty = e.get('cty') or e['ty']
        if isinstance(a, z3.ExprRef) and a.sort() == I and isinstance(b, z3.ExprRef) and b.sort() == R:
            r = self.binop(op, toReal(a), b, ty)
            r = self.float_to_int(r)
        else:
            if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == R: b = toReal(b) if b.sort() == I else b
            r = self.binop(op, a, b, ty)
        if e['ty'].get('t') == 'float' and e['ty'].get('bits') == 32: r = self.f32(r)
        self.st.set(l, r)
        return l
    def ev_cond(self, e):
        c = self.tobool(self.rv(e['c']))
        sc = z3.simplify(c)
        if z3.is_true(sc): return self.ev(e['a'])
        if z3.is_false(sc): return self.ev(e['b'])
        a = self.guarded(c, lambda: self.evm(e['a'], e), None)
        b = self.guarded(mkNot(c), lambda: self.evm(e['b'], e), None)
        if isinstance(a, Lval) and isinstance(b, Lval):
            if same_lv(a, b): return a
            a, b = self.load(a), self.load(b)
        else:
            if isinstance(a, Lval): a = self.load(a)
            if isinstance(b, Lval): b = self.load(b)
        if isinstance(a, Void): return a if isinstance(b, Void) else b
        return vite(c, a, b)
    def evm(self, e, par):
        if e['k'] == 'throw':
            self.ev(e); return VOID
        v = self.ev(e)
        if isinstance(v, Lval) and not par.get('lv'): v = self.load(v)
        return v
    def f32(self, x):
        return z3.Function('f32', R, R)(x)
    def float_to_int(self, v):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_TO_REAL: return v.arg(0)
        if z3.is_rational_value(v): return z3.IntVal(int(v.numerator_as_long() / v.denominator_as_long()))
        return mkIf(v >= 0, FLOOR(v), -FLOOR(-v))
    def ev_cast(self, e):
        ck = e['ck']
        if ck == 'LValueToRValue':
            return self.rv(e['e'])
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'BitCast', 'AtomicToNonAtomic'):
            return self.ev(e['e'])
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e['e'])
            if isinstance(v, Lval): return Ptr(v.i(0))
            return v
        if ck == 'ToVoid':
            self.ev(e['e']); return VOID
        if ck == 'NullToPointer': return Ptr(None)
        v = self.rv(e['e'])
        ty, sty = e['ty'], e['e']['ty']
        if ck == 'IntegralCast':
            if v.sort() == B: return mkIf(v, z3.IntVal(1), z3.IntVal(0))
            if ty.get('t') == 'bool': return self.tobool(v)
            if not ty.get('signed', True) and sty.get('signed', True): self.oblige('sign-cast', v >= 0)
            if ty.get('bits', 64) < sty.get('bits', 64) and not z3.is_int_value(v):
                n = ty['bits']
                if ty.get('signed', True): self.oblige('narrowing', z3.And(v >= -2 ** (n - 1), v < 2 ** (n - 1)))
                else: self.oblige('narrowing', z3.And(v >= 0, v < 2 ** n))
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.tobool(v)
        if ck == 'IntegralToFloating':
            if v.sort() == B: v = mkIf(v, z3.IntVal(1), z3.IntVal(0))
            r = toReal(v)
            return self.f32(r) if ty.get('bits') == 32 and not z3.is_rational_value(r) else r
        if ck == 'FloatingToIntegral':
            r = self.float_to_int(v)
            if not ty.get('signed', True): self.oblige('sign-cast', r >= 0)
            return r
        if ck == 'FloatingCast':
            if ty.get('bits') == 32 and sty.get('bits', 64) > 32: return self.f32(v)
            return v
        raise Unsupported('cast %s' % ck)
    def ev_index(self, e):
        b = self.rv(e['a'])
        i = self.rv(e['i'])
        if isinstance(i, Ptr): b, i = i, b
        if isinstance(b, Ptr): return self.ptr_add(b, i).lv
        if hasattr(b, 'dims') and not isinstance(b, Arr):
            i = z3.simplify(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(b.dims): return b.dims[i.as_long()]
        raise Unsupported('subscript')
    def ev_throw(self, e):
        v = self.rv(e['e']) if e.get('e') else None
        self.throw(v, strip_q(e['e']['ty'].get('q', '?')) if e.get('e') else 'rethrow')
        return VOID
    def throw_if(self, c, tag, v=None):
        """a call that throws when c holds"""
        if z3.is_false(c) or self.pr.quick(self.st.pc, mkNot(c)): return
        s = self.st.clone(); s.assume(c)
        self.throws.append(Outcome('throw', s, (tag, v)))
        self.st.assume(mkNot(c))
    def throw(self, v, tag):
        self.throws.append(Outcome('throw', self.st.clone(), (tag, v)))
        self.st.pc.append(F)
    def ev_ilist(self, e):
        ty = e['ty']
        vals = [self.rv(a) for a in e['args']]
        return self.build_list(ty, vals)
    def build_list(self, ty, vals):
        t = ty.get('t')
        if t == 'array': return Rec('carray', {str(i): v for i, v in enumerate(vals)})
        if t in ('int', 'float', 'bool', 'enum'): return vals[0] if vals else self.mkval(ty, self.mk_zero)
        if t == 'rec':
            q = strip_q(ty['q'])
            if q in ('std::array',):
                if len(vals) == 1 and isinstance(vals[0], Rec) and vals[0].tag == 'carray': return Rec('std::array', vals[0].f)
                if not vals:
                    return Rec('std::array', {str(i): self.mkval(ty['targs'][0], self.mk_zero) for i in range(ty['targs'][1]['int'])})
                return Rec('std::array', {str(i): v for i, v in enumerate(vals)})
            if q == 'std::initializer_list': return Rec('ilist', {str(i): v for i, v in enumerate(vals)})
            r = self.m.rec.get(str(ty['id']))
            if r is not None:
                f = {}
                for fd, v in zip(r['fields'], vals): f[fd['name']] = v
                for fd in r['fields'][len(vals):]:
                    f[fd['name']] = self.rv(fd['init']) if fd.get('init') else self.mkval(fd['type'], self.mk_zero)
                return Rec(q, f, ty['id'])
        raise Unsupported('initialiser list for %s' % ty.get('s'))
    def ev_lambda(self, e):
        f = {}
        for c in e['caps']:
            if c.get('this'):
                f['this'] = RefV(self.frame.this) if c.get('byref', True) else self.load(self.frame.this)
                continue
            init = c['init']
            if c.get('byref'):
                f[c['id']] = RefV(self.lv(init))
            else:
                v = self.rv(init)
                f[c['id']] = v
        return Rec('closure', f, e['rec'])

    # ------------------------------------------------------------ calls
    def ev_call(self, e):
        if 'f' not in e:
            f = self.rv(e['fe'])
            if isinstance(f, FnV): return self.call(f.ref, None, e['args'], e)
            if isinstance(f, Ptr): raise Unsupported('call through pointer')
            raise Unsupported('indirect call')
        return self.call(e['f'], None, e['args'], e)
    def ev_mcall(self, e):
        o = self.ev(e['obj'])
        if e.get('arrow'):
            if isinstance(o, Lval): o = self.load(o)
            if isinstance(o, Ptr):
                if o.lv is None: raise Unsupported('null dereference')
                o = o.lv
        if not isinstance(o, Lval): o = self.newroot(o, 'obj')
        return self.call(e['f'], o, e['args'], e)
    def ev_opcall(self, e):
        a = e['args']
        if e.get('ismember'):
            o = self.ev(a[0])
            if not isinstance(o, Lval): o = self.newroot(o, 'obj')
            return self.call(e['f'], o, a[1:], e)
        if 'f' not in e: raise Unsupported('operator call')
        return self.call(e['f'], None, a, e)
    def call(self, ref, this, args, e):
        sq = detemplate(strip_q(ref['q']))
        c = self.contracts.get(sq)
        if c is None and ref.get('n') in self.contracts: c = self.contracts.get(ref['n'])
        if c:
            self.called[sq] = self.called.get(sq, 0) + 1
            return c(self, ref, this, args)
        if this is not None and ref.get('n') == 'operator()':
            o = self.st.get(this)
            h = o.d.get('call') if isinstance(o, Opq) else None
            if h: return h(self, args)
        if ref.get('body'):
            return self.inline(ref, this, args)
        if this is not None and ref.get('n') == 'operator()' :
            o = self.st.get(this)
            if isinstance(o, Rec) and o.tag == 'closure': return self.inline(ref, this, args)
            h = getattr(o, 'd', {}).get('call') if isinstance(o, Opq) else None
            if h: return h(self, args)
        if ref.get('assign') and ref.get('repo', False) or (ref.get('assign') and ref.get('defaulted')):
            v = self.rv(args[0])
            self.st.set(this, v)
            return this
        if (ref.get('defaulted') or ref.get('repo')) and ref['n'].startswith('~'): return VOID
        from . import lib
        return lib.call(self, ref, sq, this, args, e)
    def ev_ctor(self, e):
        ref = e['f']
        kind = ref.get('ctor')
        sq = detemplate(strip_q(ref['q']))
        cls = strip_q(ref['cls'])
        c = self.contracts.get(sq)
        if c: return c(self, ref, None, e['args'])
        rec = self.m.rec.get(str(ref['clsid']))
        triv = kind in ('copy', 'move') and (ref.get('defaulted') or (rec is not None and rec.get('lambda')))
        if ref.get('body') and not triv:
            return self.construct(ref, e['args'], e['ty'])
        if kind in ('copy', 'move') and len(e['args']) >= 1:
            src = self.ev(e['args'][0])
            v = self.load(src) if isinstance(src, Lval) else src
            if kind == 'move' and isinstance(src, Lval) and isinstance(v, Arr) and v.kind in ('vector',):
                # moved-from vectors are unspecified: havoc unless it is a temporary
                if not src.root.startswith('tmp'): self.libs['moved'](self, src, v)
            return v
        if str(ref['clsid']) in self.m.rec and kind == 'default' and not self.m.rec[str(ref['clsid'])]['lambda']:
            return self.default_record(ref['clsid'])
        from . import lib
        return lib.construct(self, ref, cls, e['args'], e)
    def default_record(self, rid):
        r = self.m.rec[str(rid)]
        f = {}
        for fd in r['fields']:
            if fd.get('init'): f[fd['name']] = self.rv(fd['init'])
            else: f[fd['name']] = self.default_init(fd['type'], fd['name'])
        return Rec(strip_q(r['q']), f, rid)
    def default_init(self, ty, name):
        if ty.get('t') == 'rec':
            q = strip_q(ty['q'])
            d = self.libs['defaults'].get(q)
            if d: return d(self, ty)
            if str(ty['id']) in self.m.rec: return self.default_record(ty['id'])
        return self.default_value(ty, name)
    def bind_args(self, fn, args, env):
        """args: AST list or already evaluated values"""
        vals = []
        ps = fn['params']
        for j, p in enumerate(ps):
            if j >= len(args): raise Unsupported('missing argument')
            a = args[j]
            v = self.ev(a) if isinstance(a, dict) else a
            vals.append((p, v))
        for p, v in vals:
            if p['type'].get('ref'):
                if not isinstance(v, Lval): v = self.newroot(v, 'tmp')
                env[p['id']] = v
            else:
                if isinstance(v, Lval): v = self.load(v)
                env[p['id']] = self.newroot(v, p['n'] or 'arg')
    def inline(self, ref, this, args):
        fn = self.m.fn.get(str(ref['id']))
        if fn is None: raise Unsupported('no body for %s' % ref['q'])
        self.inlined.add(fn['sq'])
        fr = Frame(fn, {}, this)
        self.bind_args(fn, args, fr.env)
        if fn.get('lambda'):
            clo = self.st.get(this)
            fr.this = clo.f['this'].lv if 'this' in clo.f and isinstance(clo.f['this'], RefV) else (this.f('this') if 'this' in clo.f else None)
            for k, v in clo.f.items():
                if k == 'this': continue
                fr.env[k] = v.lv if isinstance(v, RefV) else this.f(k)
        return self.run_body(fn, fr, fn['ref']['ret'])
    def run_body(self, fn, fr, rty):
        if len(self.func_stack) > 60: raise Unsupported('recursion')
        sv = self.frame, self.cur_line
        self.frame = fr
        if fn.get('lambda'): nm = (self.func_stack[-1] if self.func_stack else '') + '::lambda' if not (self.func_stack and self.func_stack[-1].endswith('lambda')) else self.func_stack[-1]
        else: nm = fn['sq']
        self.func_stack.append(nm)
        n0 = len(self.st.pc)
        outs = self.exec(fn['body'], self.st)
        self.func_stack.pop()
        self.frame, self.cur_line = sv
        rets = []
        for o in outs:
            if o.kind == 'normal': rets.append((o.st, VOID))
            elif o.kind == 'return': rets.append((o.st, o.val))
            else: raise Unsupported('stray ' + o.kind)
        if not rets:
            # always throws
            return VOID
        isref = bool(rty.get('ref'))
        if not self.func_stack: self.paths = [o for o, _ in rets]
        st, v = self.merge(rets, n0, isref)
        self.st = st
        return v
    def merge(self, rets, n0, isref=False):
        """merge states (list of (state,value)); pcs share the first n0 entries"""
        if not isref:
            rr = []
            for s, v in rets:
                if isinstance(v, Lval): v = s.get(v)
                rr.append((s, v))
            rets = rr
        if len(rets) == 1: return rets[0]
        guards = [mkAnd(*s.pc[n0:]) for s, _ in rets]
        # longest common prefix
        common = n0
        m = min(len(s.pc) for s, _ in rets)
        while common < m and all(s.pc[common].eq(rets[0][0].pc[common]) for s, _ in rets): common += 1
        guards = [mkAnd(*s.pc[common:]) for s, _ in rets]
        st = State({}, rets[0][0].pc[:common])
        keys = set(rets[0][0].mem)
        for s, _ in rets[1:]: keys &= set(s.mem)
        # prefer the shortest guards for the ITE conditions
        for k in rets[0][0].mem:
            if k not in keys: continue
            v = rets[-1][0].mem[k]
            for (s, _), g in reversed(list(zip(rets[:-1], guards[:-1]))):
                try: v = v if vsame(s.mem[k], v) else vite(g, s.mem[k], v)
                except Unsupported:
                    v = None; break
            if v is not None: st.mem[k] = v
        # roots living only in some of the states but reachable from values: keep them too
        for s, _ in rets:
            for k in s.mem:
                if k not in st.mem and k not in keys: st.mem[k] = s.mem[k]
        d = mkOr(*guards)
        if not self.complementary(guards): st.assume(d)
        val = rets[-1][1]
        for (s, v), g in reversed(list(zip(rets[:-1], guards[:-1]))):
            if isinstance(v, Lval) and isinstance(val, Lval):
                if same_lv(v, val): continue
                raise Unsupported('reference depends on a condition')
            if isinstance(v, Void) and isinstance(val, Void): continue
            val = vite(g, v, val)
        return st, val
    def complementary(self, gs):
        if len(gs) == 2 and (mkNot(gs[0]).eq(gs[1]) or mkNot(gs[1]).eq(gs[0])): return True
        # exhaustive by propositional reasoning
        s = z3.Solver(); s.set('timeout', 200); s.add(z3.Not(z3.Or(*gs)))
        return s.check() == z3.unsat
    def construct(self, ref, args, ty):
        fn = self.m.fn[str(ref['id'])]
        self.inlined.add(fn['sq'])
        cls = str(ref['clsid'])
        r = self.m.rec[cls]
        f = {}
        obj = self.newroot(Rec(strip_q(r['q']), f, ref['clsid']), 'new')
        fr = Frame(fn, {}, obj)
        self.bind_args(fn, args, fr.env)
        sv = self.frame, self.cur_line
        self.frame = fr
        self.func_stack.append(fn['sq'])
        for i in fn.get('inits', []):
            if 'm' in i:
                if i['mt'].get('ref'): v = RefV(self.lv(i['e']))
                else: v = self.rv_init(i['e'], i['mt'])
                cur = self.st.mem[obj.root]
                self.st.mem[obj.root] = cur.set(i['m'], v)
            elif 'base' in i:
                if i['base'].get('t') == 'rec' and str(i['base']['id']) in self.m.rec:
                    v = self.rv(i['e'])
                    cur = self.st.mem[obj.root]
                    for k, x in v.f.items(): cur = cur.set(k, x)
                    self.st.mem[obj.root] = cur
                else:
                    try: self.rv(i['e'])
                    except Unsupported: pass
            else: raise Unsupported('delegating constructor')
        have = self.st.mem[obj.root].f
        for fd in r['fields']:
            if fd['name'] not in have:
                if fd.get('init'): v = self.rv(fd['init'])
                else: v = self.default_init(fd['type'], fd['name'])
                self.st.mem[obj.root] = self.st.mem[obj.root].set(fd['name'], v)
        self.func_stack.pop()
        self.frame = sv[0]
        self.run_body(fn, fr, {})
        self.cur_line = sv[1]
        return self.st.mem[obj.root]
    def rv_init(self, e, ty):
        if e is None: return self.default_init(ty, 'f')
        return self.rv(e)
    def call_closure(self, clo_lv, args):
        """call a closure/function value with already evaluated args (Lval or Value)"""
        v = self.st.get(clo_lv) if isinstance(clo_lv, Lval) else clo_lv
        if isinstance(v, Rec) and v.tag == 'closure':
            if not isinstance(clo_lv, Lval): clo_lv = self.newroot(v, 'clo')
            cands = [f for f in self.m.fn.values() if f.get('lambda') == v.ty and f['n'] == 'operator()']
            if len(cands) > 1: cands = [f for f in cands if self.match_params(f, args)]
            if len(cands) != 1: raise Unsupported('ambiguous generic lambda')
            return self.inline(cands[0]['ref'], clo_lv, args)
        if isinstance(v, FnV): return self.call(v.ref, None, args, {})
        if isinstance(v, Opq) and 'call' in v.d: return v.d['call'](self, args)
        raise Unsupported('call of %r' % (v,))
    def match_params(self, f, args): return len(f['params']) == len(args)

    # ------------------------------------------------------------ statements
    def exec(self, s, st):
        """returns list of Outcome; sets nothing"""
        if s is None: return [Outcome('normal', st)]
        self.st = st
        if s.get('l'): self.cur_line = s['l']
        m = getattr(self, 'ex_' + s['k'], None)
        if m is None: raise Unsupported('statement %s' % s.get('cls', s['k']))
        return m(s)
    def feasible(self, st):
        return not any(z3.is_false(c) for c in st.pc)
    def ex_null(self, s): return [Outcome('normal', self.st)]
    def ex_expr(self, s):
        self.ev(s['e'])
        return [Outcome('normal', self.st)] if self.feasible(self.st) else []
    split_paths = False    # follow the ways out of a loop under contract separately to the end of the function
    paths = None
    def ex_block(self, s): return self.exec_seq(s['b'], self.st)
    def exec_seq(self, b, cur):
        outs = []
        for z, c in enumerate(b):
            res = self.exec(c, cur)
            nxt = [o for o in res if o.kind == 'normal']
            outs += [o for o in res if o.kind != 'normal']
            if not nxt: return outs
            if len(nxt) > 1 and self.split_paths:
                env = dict(self.frame.env)
                for o in nxt:
                    self.frame.env = dict(env)
                    outs += self.exec_seq(b[z + 1:], o.st)
                return outs
            if len(nxt) > 1:
                n0 = self.common_pc([o.st for o in nxt])
                cur, _ = self.merge([(o.st, VOID) for o in nxt], n0)
            else: cur = nxt[0].st
        outs.append(Outcome('normal', cur))
        return outs
    def common_pc(self, sts):
        m = min(len(s.pc) for s in sts); n = 0
        while n < m and all(s.pc[n].eq(sts[0].pc[n]) for s in sts): n += 1
        return n
    def ex_decl(self, s):
        for v in s['vars']:
            if '?' in v: raise Unsupported('declaration %s' % v['?'])
            self.declare(v)
        return [Outcome('normal', self.st)] if self.feasible(self.st) else []
    def declare(self, v):
        if v.get('static'): raise Unsupported('static local')
        if v.get('bindings'):
            x = self.ev(v['init'])
            if not isinstance(x, Lval) or not v['type'].get('ref'):
                if isinstance(x, Lval): x = self.load(x)
                x = self.newroot(x, 'bind')
            self.frame.env[v['id']] = x
            for j, b in enumerate(v['bindings']):
                val = self.st.get(x)
                if isinstance(val, Rec):
                    if str(j) in val.f: self.frame.env[b['id']] = x.f(str(j))
                    else: self.frame.env[b['id']] = x.f(list(val.f)[j])
                else: raise Unsupported('structured binding')
            return
        if v['type'].get('ref'):
            x = self.ev(v['init'])
            if not isinstance(x, Lval): x = self.newroot(x, v['n'])
            self.frame.env[v['id']] = x
            return
        if 'init' in v: x = self.rv(v['init'])
        else: x = self.default_init(v['type'], v['n'])
        self.frame.env[v['id']] = self.newroot(x, v['n'])
    def ex_if(self, s):
        if s.get('init'):
            r = self.exec(s['init'], self.st)
            if not r: return []
            self.st = r[0].st
        if s.get('var'): self.declare(s['var'])
        c = self.tobool(self.rv(s['c']))
        if not self.feasible(self.st): return []
        sc = z3.simplify(c)
        st = self.st
        if z3.is_true(sc): return self.exec(s['a'], st)
        if z3.is_false(sc): return self.exec(s['b'], st)
        s1 = st.clone(); s1.assume(c)
        s2 = st.clone(); s2.assume(mkNot(c))
        env = dict(self.frame.env)
        o1 = self.exec(s['a'], s1)
        self.frame.env = dict(env)
        o2 = self.exec(s['b'], s2)
        self.frame.env = env
        return self.join(o1 + o2, len(st.pc))
    def join(self, outs, n0):
        nm = [o for o in outs if o.kind == 'normal']
        rest = [o for o in outs if o.kind != 'normal']
        if len(nm) > 1 and not self.split_paths:
            st, _ = self.merge([(o.st, VOID) for o in nm], n0)
            nm = [Outcome('normal', st)]
        return nm + rest
    def ex_ret(self, s):
        if s.get('e') is None: return [Outcome('return', self.st, VOID)]
        v = self.ev(s['e'])
        if not self.feasible(self.st): return []
        rty = self.frame.fn['ref']['ret']
        if isinstance(v, Lval) and not rty.get('ref'): v = self.load(v)
        return [Outcome('return', self.st, v)]
    def ex_break(self, s): return [Outcome('break', self.st)]
    def ex_continue(self, s): return [Outcome('continue', self.st)]
    def ex_try(self, s):
        n = len(self.throws)
        outs = self.exec(s['body'], self.st)
        thrown = self.throws[n:]
        del self.throws[n:]
        res = list(outs)
        env = dict(self.frame.env)
        for t in thrown:
            handled = False
            for h in s['handlers']:
                m = True if h.get('any') else self.libs['catches'](self, h['type'], t.val[0])
                if m is None: raise Unsupported('cannot decide handler')
                if m:
                    self.st = t.st
                    # drop the infeasible marker
                    if self.st.pc and z3.is_false(self.st.pc[-1]): self.st.pc.pop()
                    self.frame.env = dict(env)
                    if h.get('var'): self.frame.env[h['var']['id']] = self.newroot(t.val[1] if t.val[1] is not None else Opq('exc'), 'exc')
                    res += self.exec(h['body'], self.st)
                    handled = True
                    break
            if not handled: self.throws.append(t)
        self.frame.env = env
        return res
    def ex_omp(self, s):
        d = s['d']
        if d in ('parallel for', 'parallel for simd', 'for'):
            cl = [c for c in s['clauses'] if c['c'] not in ('schedule', 'num_threads', 'default')]
            b = s['body']
            while b['k'] == 'block' and len(b['b']) == 1: b = b['b'][0]
            if b['k'] != 'for': raise Unsupported('omp body')
            return self.loop(b, omp={'clauses': cl, 'line': s['l']})
        if d in ('atomic',): return self.exec(s['body'], self.st)
        if d in ('critical',): return self.exec(s['body'], self.st)
        if d in ('simd',):
            return self.exec(s['body'], self.st)
        raise Unsupported('omp %s' % d)
    def ex_for(self, s): return self.loop(s)
    def ex_while(self, s): return self.loop({'k': 'for', 'init': None, 'c': s['c'], 'inc': None, 'body': s['body'], 'l': s['l']})
    def ex_rfor(self, s):
        from . import loops
        return loops.range_for(self, s)
    def ex_do(self, s):
        """the body once, then as a while loop"""
        out, nxt, n0 = [], [], len(self.st.pc)
        env = dict(self.frame.env)
        for o in self.exec(s['body'], self.st):
            if o.kind in ('normal', 'continue'): nxt.append(o.st)
            elif o.kind == 'break': raise Unsupported('break in a do loop')
            else: out.append(o)
        self.frame.env = env
        if not nxt: return out
        self.st = nxt[0] if len(nxt) == 1 else self.merge([(x, V(0)) for x in nxt], n0)[0]
        return out + self.loop({'k': 'for', 'init': None, 'c': s['c'], 'inc': None, 'body': s['body'], 'l': s['l']})
    def ex_switch(self, s):
        c = self.rv(s['c'])
        body = s['body']
        if body['k'] != 'block': raise Unsupported('switch body')
        # flatten labels
        items = []
        def flat(x, labels):
            while x['k'] in ('case', 'default'):
                labels.append(None if x['k'] == 'default' else x['v'])
                x = x['s']
            items.append((labels, x))
        for x in body['b']: flat(x, []) if x['k'] in ('case', 'default') else items.append(([], x))
        starts = [(j, l) for j, (ls, _) in enumerate(items) for l in ls]
        st0 = self.st
        outs, others = [], []
        n0 = len(st0.pc)
        conds = []
        for j, l in starts:
            if l is not None: conds.append((j, mkEq(c, self.rv(l))))
        dflt = [j for j, l in starts if l is None]
        neg = mkAnd(*[mkNot(x) for _, x in conds])
        cases = conds + [(dflt[0] if dflt else len(items), neg)]
        prevs = []
        for j, cond in cases:
            if z3.is_false(z3.simplify(cond)): continue
            s1 = st0.clone(); s1.assume(cond)
            env = dict(self.frame.env)
            res = self.exec({'k': 'block', 'b': [x for _, x in items[j:]], 'l': s['l']}, s1)
            self.frame.env = env
            for o in res:
                if o.kind == 'break': o.kind = 'normal'
                outs.append(o)
        return self.join(outs, n0)
    def loop(self, s, omp=None):
        from . import loops
        return loops.run(self, s, omp)

def isz(a): return (z3.is_int_value(a) or z3.is_rational_value(a)) and a.eq(z3.IntVal(0) if a.sort() == I else z3.RealVal(0))
def isone(a): return (z3.is_int_value(a) or z3.is_rational_value(a)) and a.eq(z3.IntVal(1) if a.sort() == I else z3.RealVal(1))

def divmod_lin(a, n):
    """(n*l + c) for non-negative l, 0 <= c < n: quotient l and remainder c (unsigned arithmetic, no wrap)"""
    a = z3.simplify(a)
    ch = a.children() if z3.is_add(a) else [a]
    c, q = 0, None
    for t in ch:
        if z3.is_int_value(t): c += t.as_long(); continue
        if z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % n == 0:
            x = t.arg(1) if t.arg(0).as_long() == n else z3.IntVal(t.arg(0).as_long() // n) * t.arg(1)
            q = x if q is None else q + x
        else: return None
    if c < 0: return None
    d, m = divmod(c, n)
    qq = z3.IntVal(d) if q is None else q if d == 0 else q + d
    return qq, z3.IntVal(m)
