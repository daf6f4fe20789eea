"""Terms: z3 expressions, columns (array-valued state), sums and other comprehensions, facts."""
import z3, itertools
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
STR = z3.DeclareSort('Str')
_cnt = itertools.count()

class Unsupported(Exception):
    pass

def fresh(name, sort=I):
    return z3.Const('%s!%d' % (name, next(_cnt)), sort)

def binder(name='k'):
    return z3.Const('q!%s%d' % (name, next(_cnt)), I)

def freshfun(name, arity, sort):
    return z3.Function('%s!%d' % (name, next(_cnt)), *([I] * arity), sort)

def V(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x

T, F = z3.BoolVal(True), z3.BoolVal(False)

def mkAnd(*xs):
    ys = []
    for x in xs:
        if z3.is_true(x): continue
        if z3.is_false(x): return F
        if any(x.eq(y) for y in ys): continue
        ys.append(x)
    return T if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)

def mkOr(*xs):
    ys = []
    for x in xs:
        if z3.is_false(x): continue
        if z3.is_true(x): return T
        if any(x.eq(y) for y in ys): continue
        ys.append(x)
    return F if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)

def mkNot(x):
    if z3.is_true(x): return F
    if z3.is_false(x): return T
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)

def mkImp(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return T
    return z3.Implies(a, b)

def mkIf(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if a.sort() != b.sort():
        if a.sort() == R and b.sort() == I: b = z3.ToReal(b)
        elif a.sort() == I and b.sort() == R: a = z3.ToReal(a)
        else: raise Unsupported('if of sorts %s %s' % (a.sort(), b.sort()))
    if a.sort() == B:
        if z3.is_true(a) and z3.is_false(b): return c
        if z3.is_false(a) and z3.is_true(b): return mkNot(c)
    return z3.If(c, a, b)

def toReal(e):
    if e.sort() == R: return e
    if z3.is_int_value(e): return z3.RealVal(e.as_long())
    return z3.ToReal(e)

def simp(e):
    return z3.simplify(e)

def mkEq(a, b):
    if a.eq(b): return T
    if a.sort() != b.sort():
        a, b = toReal(a), toReal(b)
    if z3.is_int_value(a) and z3.is_int_value(b): return V(a.as_long() == b.as_long())
    return a == b

# ---------------------------------------------------------------- traversal
_KIDS = {}
def kids(n):
    i = n.get_id()
    r = _KIDS.get(i)
    if r is None:
        r = _KIDS[i] = (n, n.children())
    return r[1]
_UF = {}
def is_uf(n):
    i = n.get_id()
    r = _UF.get(i)
    if r is None:
        r = _UF[i] = (n, z3.is_app(n) and n.decl().kind() == z3.Z3_OP_UNINTERPRETED)
    return r[1]
_NAME = {}
def uf_name(n):
    i = n.get_id()
    r = _NAME.get(i)
    if r is None: r = _NAME[i] = (n, n.decl().name())
    return r[1]
def rewrite(e, fn, cache=None):
    """bottom-up rewrite; fn(node, newchildren) -> replacement or None"""
    if cache is None: cache = {}
    st = [(e, False)]
    while st:
        n, done = st.pop()
        i = n.get_id()
        if i in cache: continue
        if not done:
            st.append((n, True))
            for c in kids(n):
                if c.get_id() not in cache: st.append((c, False))
        else:
            ch = [cache[c.get_id()][1] for c in kids(n)]
            r = fn(n, ch)
            if r is None:
                if all(a is b or a.eq(b) for a, b in zip(ch, kids(n))): r = n
                elif z3.is_quantifier(n): raise Unsupported('quantifier')
                else: r = rebuild(n, ch)
            cache[i] = (n, r)
    return cache[e.get_id()][1]

def rebuild(n, ch):
    k = n.decl().kind()
    if k == z3.Z3_OP_ITE: return mkIf(*ch)
    if k == z3.Z3_OP_AND: return mkAnd(*ch)
    if k == z3.Z3_OP_OR: return mkOr(*ch)
    if k == z3.Z3_OP_NOT: return mkNot(ch[0])
    return n.decl()(*ch)

def subst(e, *pairs):
    pairs = [(a, b) for a, b in pairs if not a.eq(b)]
    return z3.substitute(e, *pairs) if pairs else e

def apps(es, pred):
    """all subterms satisfying pred (in order of discovery, unique)"""
    seen, out, st = set(), [], list(reversed(list(es)))
    while st:
        n = st.pop()
        i = n.get_id()
        if i in seen: continue
        seen.add(i)
        if pred(n): out.append(n)
        st.extend(reversed(kids(n)))
    return out

def is_ufapp(n):
    return is_uf(n) and len(kids(n)) > 0

def contains(e, pred):
    seen, st = set(), [e]
    while st:
        n = st.pop()
        i = n.get_id()
        if i in seen: continue
        seen.add(i)
        if pred(n): return True
        st.extend(kids(n))
    return False

def binders_in(es, deep=False):
    out = {}
    for n in apps(es, lambda n: is_uf(n) and not kids(n) and uf_name(n).startswith('q!')):
        out[uf_name(n)] = n
    return [out[k] for k in sorted(out)]

def consts_in(e):
    return {n.decl().name() for n in apps([e], lambda n: z3.is_const(n) and is_uf(n))}

# ---------------------------------------------------------------- comprehensions
class Comp:
    """definition of a comprehension symbol; placeholders are constants ph0.. and bound constant bv"""
    def __init__(self, kind, decl, phs, bv, parts):
        self.kind, self.decl, self.phs, self.bv, self.parts = kind, decl, phs, bv, parts
    def inst(self, args, b):
        prs = list(zip(self.phs, args)) + [(self.bv, b)]
        return [z3.substitute(p, *prs) for p in self.parts]

COMP = {}        # decl name -> Comp
_COMPKEY = {}    # (kind, parts) -> Comp
PH = [z3.Const('ph!%d' % i, I) for i in range(64)]
BV = z3.Const('bv!', I)

def is_comp(n):
    return is_uf(n) and uf_name(n) in COMP

def mk_comp(kind, bnd, parts, sort, extra_args=()):
    """kind: 'sum','sel',...  parts: expressions that may mention binder bnd. Result: app of comp symbol."""
    parts = [z3.simplify(p) if isinstance(p, z3.ExprRef) else V(p) for p in parts]
    params = [b for b in binders_in(parts) if not b.eq(bnd)]
    # order parameters by first occurrence for alpha-independence
    order = {}
    for n in apps(parts, lambda n: z3.is_const(n) and is_uf(n) and n.decl().name().startswith('q!')):
        order.setdefault(n.decl().name(), len(order))
    params.sort(key=lambda b: order[b.decl().name()])
    # nested comps inside already have args; BV placeholder must not clash with nested: nested defs are separate symbols
    prs = [(p, PH[i]) for i, p in enumerate(params)]
    if bnd is not None: prs.append((bnd, BV))
    cparts = [z3.simplify(z3.substitute(p, *prs)) if prs else z3.simplify(p) for p in parts]
    key = (kind, str(sort), len(params), len(extra_args), tuple(p.get_id() for p in cparts))
    c = _COMPKEY.get(key)
    if c is None:
        nm = '%s#%d' % (kind, len(COMP))
        d = z3.Function(nm, *([I] * (len(params) + len(extra_args)) + [sort])) if (params or extra_args) else None
        if d is None:
            d = z3.Const(nm, sort).decl()
        c = Comp(kind, d, PH[:len(params)], BV, cparts)
        c.sort = sort
        c.nextra = len(extra_args)
        COMP[nm] = c
        _COMPKEY[key] = c
    return c.decl(*(list(params) + list(extra_args)))

def comp_inst(app, b):
    c = COMP[app.decl().name()]
    ch = app.children()
    n = len(c.phs)
    return c.inst(ch[:n], b)

def mk_sum(bnd, lo, hi, body):
    body = V(body); lo = V(lo); hi = V(hi)
    sb = z3.simplify(body)
    zero = z3.IntVal(0) if body.sort() == I else z3.RealVal(0)
    if sb.eq(zero): return zero
    if z3.simplify(lo >= hi).eq(T): return zero
    return mk_comp('sum', bnd, [lo, hi, body], body.sort())

def deep_rewrite(e, fn, cache=None):
    """rewrite that also enters definitions of comprehensions. fn(n, ch) as in rewrite (called for non-comp nodes)."""
    cache = {} if cache is None else cache
    def f(n, ch):
        if is_comp(n):
            c = COMP[n.decl().name()]
            b = binder('d')
            np_ = len(c.phs)
            old = c.inst(n.children()[:np_], b)
            new = [deep_rewrite(p, fn, {}) for p in old]
            if all(x.eq(y) for x, y in zip(old, new)):
                if all(x.eq(y) for x, y in zip(ch, n.children())): return n
                return n.decl()(*ch)
            return mk_comp(c.kind, b, new, c.sort, ch[np_:])
        return fn(n, ch)
    return rewrite(e, f, cache)

def deep_contains(e, pred):
    found = [False]
    seen = set()
    def go(e):
        for n in apps([e], lambda n: True):
            if pred(n): found[0] = True; return
            if is_comp(n):
                nm = n.decl().name()
                if nm in seen: continue
                seen.add(nm)
                for p in COMP[nm].parts:
                    go(p)
                    if found[0]: return
    go(e)
    return found[0]

# ---------------------------------------------------------------- columns
class Col:
    arity = 0
    sort = None

class Base(Col):
    def __init__(self, decl, arity, sort): self.decl, self.arity, self.sort = decl, arity, sort
    def read(self, idx): return self.decl(*idx)
    def bases(self): return {self}

class ConstCol(Col):
    def __init__(self, arity, val): self.arity, self.val, self.sort = arity, val, val.sort()
    def read(self, idx): return self.val

class LamCol(Col):
    """closed form: fn(idx list) -> expr"""
    def __init__(self, arity, sort, fn): self.arity, self.sort, self.fn = arity, sort, fn
    def read(self, idx): return self.fn(list(idx))

class Store(Col):
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val, self.arity, self.sort = prev, tuple(idx), val, prev.arity, prev.sort
    def read(self, idx):
        c = mkAnd(*[eqi(a, b) for a, b in zip(self.idx, idx)])
        if z3.is_true(c): return self.val
        if z3.is_false(c): return self.prev.read(idx)
        return mkIf(c, self.val, self.prev.read(idx))

class PStore(Col):
    def __init__(self, prev, prefix, inner):
        self.prev, self.prefix, self.inner, self.arity, self.sort = prev, tuple(prefix), inner, prev.arity, prev.sort
    def read(self, idx):
        n = len(self.prefix)
        c = mkAnd(*[eqi(a, b) for a, b in zip(self.prefix, idx[:n])])
        if z3.is_false(c): return self.prev.read(idx)
        v = cread(self.inner, idx[n:])
        if z3.is_true(c): return v
        return mkIf(c, v, self.prev.read(idx))

class IteCol(Col):
    def __init__(self, c, a, b): self.c, self.a, self.b, self.arity, self.sort = c, a, b, a.arity, a.sort
    def read(self, idx): return mkIf(self.c, self.a.read(idx), self.b.read(idx))

class PApp(Col):
    def __init__(self, col, prefix): self.col, self.prefix, self.arity, self.sort = col, tuple(prefix), col.arity - len(prefix), col.sort
    def read(self, idx): return self.col.read(list(self.prefix) + list(idx))

def eqi(a, b):
    if a.eq(b): return T
    d = z3.simplify(a - b)
    if z3.is_int_value(d): return V(d.as_long() == 0)
    return a == b

def cread(c, idx):
    if isinstance(c, z3.ExprRef):
        assert not idx
        return c
    return c.read(list(idx))

def papp(col, prefix):
    if not prefix: return col
    if isinstance(col, z3.ExprRef): raise Unsupported('index of scalar leaf')
    if col.arity == len(prefix): return col.read(list(prefix))
    if isinstance(col, PApp): return PApp(col.col, list(col.prefix) + list(prefix))
    return PApp(col, prefix)

def csame(a, b):
    if a is b: return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    if isinstance(a, Base) and isinstance(b, Base): return a.decl.eq(b.decl)
    if isinstance(a, PApp) and isinstance(b, PApp):
        return csame(a.col, b.col) and len(a.prefix) == len(b.prefix) and all(x.eq(y) for x, y in zip(a.prefix, b.prefix))
    if isinstance(a, PStore) and isinstance(b, PStore):
        return csame(a.prev, b.prev) and csame(a.inner, b.inner) and len(a.prefix) == len(b.prefix) and all(x.eq(y) for x, y in zip(a.prefix, b.prefix))
    return False

def cite(c, a, b):
    if csame(a, b): return a
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, z3.ExprRef): return mkIf(c, a, b)
    # restore-after-partial: collapse writes that put back what was there
    return IteCol(c, a, b)

def cstore(col, idx, val):
    if isinstance(col, z3.ExprRef):
        assert not idx
        return val
    if len(idx) < col.arity: return cpstore(col, idx, val)
    return Store(col, idx, val)

def cpstore(col, prefix, inner):
    if not prefix: return inner
    if not isinstance(inner, z3.ExprRef):
        # writing a partial view back onto itself
        if isinstance(inner, PApp) and inner.col is col and len(inner.prefix) == len(prefix) and all(x.eq(y) for x, y in zip(inner.prefix, prefix)):
            return col
    if col.arity == len(prefix): return Store(col, prefix, inner)
    return PStore(col, prefix, inner)

# ---------------------------------------------------------------- values
class Rec:
    __slots__ = ('tag', 'f', 'ty')
    def __init__(self, tag, f, ty=None): self.tag, self.f, self.ty = tag, f, ty
    def set(self, k, v):
        g = dict(self.f); g[k] = v
        return Rec(self.tag, g, self.ty)
    def __repr__(self): return '%s%s' % (self.tag, self.f)

class Arr:
    """array value. dims: list of leaves (arity = enclosing), elem: value tree with leaves of arity enclosing+len(dims)"""
    __slots__ = ('kind', 'dims', 'elem', 'ar')
    def __init__(self, kind, dims, elem, ar=0): self.kind, self.dims, self.elem, self.ar = kind, list(dims), elem, ar

class RefV:
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv

class Ptr:
    """pointer to lval (last path element may be an index: then arithmetic is allowed)"""
    __slots__ = ('lv',)
    def __init__(self, lv): self.lv = lv

class FnV:
    __slots__ = ('ref',)
    def __init__(self, ref): self.ref = ref

class Opq:
    """opaque immutable value"""
    __slots__ = ('tag', 'd')
    def __init__(self, tag, d=None): self.tag, self.d = tag, d or {}

class Void: pass
VOID = Void()

class Lval:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()): self.root, self.path = root, tuple(path)
    def f(self, name): return Lval(self.root, self.path + (('f', name),))
    def i(self, e): return Lval(self.root, self.path + (('i', V(e)),))
    def __repr__(self): return '%s%s' % (self.root, ''.join('.' + str(p[1]) if p[0] == 'f' else '[%s]' % p[1] for p in self.path))

def vmap(v, fn):
    """map over all leaves"""
    if isinstance(v, Rec): return Rec(v.tag, {k: vmap(x, fn) for k, x in v.f.items()}, v.ty)
    if isinstance(v, Arr): return Arr(v.kind, [fn(d) for d in v.dims], vmap(v.elem, fn), v.ar)
    if isinstance(v, (z3.ExprRef, Col)): return fn(v)
    return v

def vapp(v, prefix):
    if isinstance(v, Arr):
        return Arr(v.kind, [papp(d, prefix) for d in v.dims], vapp(v.elem, prefix), max(0, v.ar - len(prefix)))
    if isinstance(v, Rec): return Rec(v.tag, {k: vapp(x, prefix) for k, x in v.f.items()}, v.ty)
    if isinstance(v, (z3.ExprRef, Col)): return papp(v, prefix)
    if isinstance(v, (Opq, FnV)): return v
    raise Unsupported('vapp %r' % (v,))

def vget(v, path):
    """read at path"""
    k = 0
    while k < len(path):
        p = path[k]
        if isinstance(v, RefV): raise Unsupported('path through reference')
        if p[0] == 'f':
            if not isinstance(v, Rec) or p[1] not in v.f: raise Unsupported('field %s of %r' % (p[1], type(v)))
            v = v.f[p[1]]; k += 1
        elif p[0] == 'd':
            v = v.dims[p[1]]; k += 1
        else:
            e = p[1]
            if isinstance(v, Arr):
                if len(v.dims) == 1: v = vapp(v.elem, [e])
                else: v = Arr(v.kind, [d for d in v.dims[1:]], vapp(v.elem, [e]), v.ar)
                k += 1
            elif isinstance(v, Rec):
                v = rec_index(v, e); k += 1
            else: raise Unsupported('index of %r' % (v,))
    return v

def rec_index(v, e):
    if z3.is_int_value(z3.simplify(e)):
        e = z3.simplify(e)
        key = str(e.as_long())
        if key not in v.f: raise Unsupported('constant index %s out of range' % key)
        return v.f[key]
    ks = sorted((k for k in v.f if k.isdigit()), key=int)
    r = v.f[ks[-1]]
    for k in reversed(ks[:-1]): r = vite(e == int(k), v.f[k], r)
    return r

def vset(v, path, val, pre=()):
    """functional update at path; pre: index prefix collected (v's leaves have arity>=len(pre))"""
    if not path:
        return vstore_all(v, pre, val)
    p = path[0]
    if p[0] == 'f':
        if not isinstance(v, Rec) or p[1] not in v.f: raise Unsupported('set field %s' % (p[1],))
        return v.set(p[1], vset(v.f[p[1]], path[1:], val, pre))
    if p[0] == 'd':
        ds = list(v.dims); ds[p[1]] = cstore(ds[p[1]], pre, val)
        return Arr(v.kind, ds, v.elem, v.ar)
    e = p[1]
    if isinstance(v, Arr):
        idx = [e]; j = 1
        while len(idx) < len(v.dims):
            if j < len(path) and path[j][0] == 'i': idx.append(path[j][1]); j += 1
            else: raise Unsupported('row assignment')
        return Arr(v.kind, v.dims, vset(v.elem, path[j:], val, tuple(pre) + tuple(idx)), v.ar)
    if isinstance(v, Rec):
        if z3.is_int_value(z3.simplify(e)):
            e = z3.simplify(e)
            key = str(e.as_long())
            if key not in v.f: raise Unsupported('constant index out of range')
            return v.set(key, vset(v.f[key], path[1:], val, pre))
        r = v
        for k in [k for k in v.f if k.isdigit()]:
            r = r.set(k, vite(e == int(k), vset(v.f[k], path[1:], val, pre), v.f[k]))
        return r
    raise Unsupported('vset')

def vstore_all(v, pre, val):
    if not pre: return val
    if isinstance(v, Rec):
        if not isinstance(val, Rec): raise Unsupported('store record')
        return Rec(v.tag, {k: vstore_all(v.f[k], pre, val.f[k]) for k in v.f}, v.ty)
    if isinstance(v, Arr):
        return Arr(v.kind, [cstore(d, pre, n) for d, n in zip(v.dims, val.dims)], vstore_all_cols(v.elem, pre, val.elem), v.ar)
    if isinstance(v, (z3.ExprRef, Col)): return cstore(v, pre, val)
    raise Unsupported('store of %r' % (v,))

def vstore_all_cols(v, pre, val):
    if isinstance(v, Rec): return Rec(v.tag, {k: vstore_all_cols(v.f[k], pre, val.f[k]) for k in v.f}, v.ty)
    if isinstance(v, Arr):
        return Arr(v.kind, [cpstore(d, pre, n) for d, n in zip(v.dims, val.dims)], vstore_all_cols(v.elem, pre, val.elem), v.ar)
    return cpstore(v, pre, val)

def vite(c, a, b):
    if a is b: return a
    if isinstance(a, Rec) and isinstance(b, Rec):
        if a.f.keys() != b.f.keys(): raise Unsupported('merge of different records')
        return Rec(a.tag, {k: vite(c, a.f[k], b.f[k]) for k in a.f}, a.ty)
    if isinstance(a, Arr) and isinstance(b, Arr):
        return Arr(a.kind, [cite(c, x, y) for x, y in zip(a.dims, b.dims)], vite(c, a.elem, b.elem), a.ar)
    if isinstance(a, (z3.ExprRef, Col)) and isinstance(b, (z3.ExprRef, Col)): return cite(c, a, b)
    if isinstance(a, RefV) and isinstance(b, RefV) and same_lv(a.lv, b.lv): return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and (a.lv is b.lv or (a.lv is not None and b.lv is not None and same_lv(a.lv, b.lv))): return a
    if isinstance(a, FnV) and isinstance(b, FnV) and a.ref['id'] == b.ref['id']: return a
    if isinstance(a, Void): return a
    if isinstance(a, Opq) and isinstance(b, Opq) and a.tag == b.tag and a.d is b.d: return a
    if hasattr(a, 'merge'): return a.merge(c, b)
    raise Unsupported('merge of %r and %r' % (a, b))

def same_lv(a, b):
    return a.root == b.root and len(a.path) == len(b.path) and all(
        x[0] == y[0] and (x[1].eq(y[1]) if x[0] == 'i' else x[1] == y[1]) for x, y in zip(a.path, b.path))

def vsame(a, b):
    if a is b: return True
    if type(a) != type(b) and not (isinstance(a, (z3.ExprRef, Col)) and isinstance(b, (z3.ExprRef, Col))): return False
    if isinstance(a, Rec): return a.f.keys() == b.f.keys() and all(vsame(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Arr): return len(a.dims) == len(b.dims) and all(csame(x, y) for x, y in zip(a.dims, b.dims)) and vsame(a.elem, b.elem)
    if isinstance(a, (z3.ExprRef, Col)): return csame(a, b)
    if isinstance(a, RefV): return same_lv(a.lv, b.lv)
    if isinstance(a, Ptr): return a.lv is b.lv or (a.lv is not None and b.lv is not None and same_lv(a.lv, b.lv))
    if isinstance(a, FnV): return a.ref['id'] == b.ref['id']
    return False
