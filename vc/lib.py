"""Assumed contracts of the library functions the program calls (std, boost::ublas, boost::multi_array, viennacl).
Every entry is part of the trusted base; each use is counted in ex.lib_used."""
from .terms import *
from .solve import SQRT, FLOOR
import re

def detemplate(q):
    out, d, i = [], 0, 0
    while i < len(q):
        if q.startswith('operator', i):
            m = re.match(r'operator(<<=|>>=|<=>|->\*|->|<<|>>|<=|>=|<|>|\(\)|\[\]|[-+*/%^&|~!=,]+)', q[i:])
            if m:
                if d == 0: out.append(m.group(0))
                i += m.end(); continue
        c = q[i]
        if c == '<': d += 1
        elif c == '>': d -= 1
        elif d == 0: out.append(c)
        i += 1
    return ''.join(out)

# ------------------------------------------------------------------ types
def vec_of(n, mk, name, arity):
    return Rec('vec', {str(i): mk('%s.%d' % (name, i), arity, R) for i in range(n)})

def ty_cvector(ex, ty, mk, name, arity): return vec_of(ty['targs'][1]['int'], mk, name, arity)
def ty_cmatrix(ex, ty, mk, name, arity):
    n, m = ty['targs'][1]['int'], ty['targs'][2]['int']
    return Rec('mat', {str(i): vec_of(m, mk, '%s.%d' % (name, i), arity) for i in range(n)})
def ty_vector(ex, ty, mk, name, arity):
    return Arr('vector', [mk(name + '.size', arity, I)], ex.mkval(ty['targs'][0], mk, name, arity + 1), arity)
def ty_array(ex, ty, mk, name, arity):
    return Rec('std::array', {str(i): ex.mkval(ty['targs'][0], mk, '%s_%d' % (name, i), arity) for i in range(ty['targs'][1]['int'])})
def ty_pair(ex, ty, mk, name, arity):
    return Rec('pair', {'first': ex.mkval(ty['targs'][0], mk, name + '.first', arity), 'second': ex.mkval(ty['targs'][1], mk, name + '.second', arity)})
def ty_tuple(ex, ty, mk, name, arity):
    return Rec('tuple', {str(i): ex.mkval(t, mk, '%s.%d' % (name, i), arity) for i, t in enumerate(ty['targs'])})
def ty_multi(ex, ty, mk, name, arity):
    n = ty['targs'][1]['int']
    return Arr('multi', [mk('%s.dim%d' % (name, i), arity, I) for i in range(n)], ex.mkval(ty['targs'][0], mk, name, arity + n), arity)
def ty_lvec(ex, ty, mk, name, arity):
    return Arr('lvec', [mk(name + '.size', arity, I)], mk(name, arity + 1, R), arity)
def ty_lmat(ex, ty, mk, name, arity):
    return Arr('lmat', [mk(name + '.rows', arity, I), mk(name + '.cols', arity, I)], mk(name, arity + 2, R), arity)
def ty_string(ex, ty, mk, name, arity): return mk(name, arity, STR)

TYPES = {
    'ublas::c_vector': ty_cvector, 'ublas::c_matrix': ty_cmatrix, 'std::vector': ty_vector, 'std::array': ty_array,
    'std::pair': ty_pair, 'std::tuple': ty_tuple, 'boost::multi_array': ty_multi,
    'viennacl::vector': ty_lvec, 'viennacl::vector_base': ty_lvec, 'ublas::vector': ty_lvec,
    'viennacl::compressed_matrix': ty_lmat, 'ublas::compressed_matrix': ty_lmat,
    'std::basic_string': ty_string,
}

def lit(s):
    c = z3.Const('str!' + s, STR)
    return c
def strlit(ex, s):
    ex.strlits[s] = lit(s)
    return ex.strlits[s]

def install(ex):
    ex.strlits = {}
    ex.lib_used = {}
    ex.libs = {'types': TypeMap(), 'globals': {'boost::extents': lambda ex: Rec('extents', {})}, 'defaults': {},
               'strlit': strlit, 'moved': moved, 'catches': catches}
    ex.ext = {}          # spec supplied library handlers: detemplated name -> fn(ex, ref, this, args, e)
    ex.ext_ctor = {}
class TypeMap(dict):
    def get(self, q, d=None): return TYPES.get(q) or TYPES.get(detemplate(q), d)

def moved(ex, lv, v):
    ex.st.set(lv, ex.havoc_like(v, 'moved'))

def catches(ex, hty, tag):
    """does a handler of this type catch an exception with the given class name?"""
    h = detemplate(ex.strip(hty['q']))
    t = detemplate(tag)
    if h == t or hty['q'] == tag: return True
    anc = ex.exc_bases(tag)
    return h in anc

# ------------------------------------------------------------------ helpers
def is_vec(v): return isinstance(v, Rec) and v.tag == 'vec'
def is_mat(v): return isinstance(v, Rec) and v.tag == 'mat'
def vz(a, b, f): return Rec(a.tag, {k: (vz(a.f[k], b.f[k], f) if isinstance(a.f[k], Rec) else f(a.f[k], b.f[k])) for k in a.f})
def vs(a, f): return Rec(a.tag, {k: (vs(a.f[k], f) if isinstance(a.f[k], Rec) else f(a.f[k])) for k in a.f})
def add_(a, b): return b if iszero(a) else a if iszero(b) else a + b
def sub_(a, b): return a if iszero(b) else a - b
def mul_(a, b):
    if iszero(a) or iszero(b): return z3.RealVal(0)
    if isone(a): return b
    if isone(b): return a
    return a * b
def iszero(a): return z3.is_rational_value(a) and a.numerator_as_long() == 0
def isone(a): return z3.is_rational_value(a) and a.numerator_as_long() == 1 and a.denominator_as_long() == 1
def dot(a, b):
    r = z3.RealVal(0)
    for k in a.f: r = add_(r, mul_(a.f[k], b.f[k]))
    return r
def scal(x): return toReal(x) if isinstance(x, z3.ExprRef) else x

def lsize(v): return v.dims[0]
def lvec_map(vs_, fn, size):
    return Arr('lvec', [size], LamCol(1, R, lambda idx: fn(*[cread(v.elem, idx) for v in vs_])))

def sqrt_of(ex, x):
    ex.oblige('sqrt-neg', x >= 0)
    if iszero(x): return x
    return SQRT(x)

def same_size(ex, a, b):
    ex.oblige('size-mismatch', a == b)

def long_inner(ex, a, b):
    same_size(ex, lsize(a), lsize(b))
    k = binder('ip')
    return mk_sum(k, 0, lsize(a), cread(a.elem, [k]) * cread(b.elem, [k]))
def long_prod(ex, A, x):
    same_size(ex, A.dims[1], lsize(x))
    def row(i):
        k = binder('mv')
        return mk_sum(k, 0, A.dims[1], cread(A.elem, [i, k]) * cread(x.elem, [k]))
    return Arr('lvec', [A.dims[0]], LamCol(1, R, lambda idx: row(idx[0])))

# ------------------------------------------------------------------ calls
def vals(ex, args): return [ex.rv(a) if isinstance(a, dict) else (ex.load(a) if hasattr(a, 'path') else a) for a in args]

def arith(ex, op, a, b):
    if is_vec(a) and is_vec(b) or is_mat(a) and is_mat(b):
        if op == '+': return vz(a, b, add_)
        if op == '-': return vz(a, b, sub_)
    if (is_vec(a) or is_mat(a)) and isinstance(b, z3.ExprRef):
        b = scal(b)
        if op == '*': return vs(a, lambda x: mul_(x, b))
        if op == '/':
            ex.oblige('div-zero', b != 0)
            return vs(a, lambda x: x / b)
    if (is_vec(b) or is_mat(b)) and isinstance(a, z3.ExprRef) and op == '*':
        a = scal(a)
        return vs(b, lambda x: mul_(a, x))
    if isinstance(a, Arr) and a.kind == 'lvec' and isinstance(b, Arr) and b.kind == 'lvec' and op in '+-':
        same_size(ex, lsize(a), lsize(b))
        return lvec_map([a, b], (lambda x, y: x + y) if op == '+' else (lambda x, y: x - y), lsize(a))
    if isinstance(a, Arr) and a.kind == 'lvec' and isinstance(b, z3.ExprRef):
        b = scal(b)
        if op == '*': return lvec_map([a], lambda x: x * b, lsize(a))
        if op == '/':
            ex.oblige('div-zero', b != 0)
            return lvec_map([a], lambda x: x / b, lsize(a))
    if isinstance(b, Arr) and b.kind == 'lvec' and isinstance(a, z3.ExprRef) and op == '*':
        a = scal(a)
        return lvec_map([b], lambda x: a * x, lsize(b))
    raise Unsupported('library operator %s on %r %r' % (op, a, b))

def index_array(ex, lv, idx):
    """lv[idx] with a bounds obligation"""
    # how many indices of the innermost array are already given?
    k = len(lv.path)
    v = None
    # walk the value following the path to find the array and the number of consumed dimensions
    cur = ex.st.mem[lv.root]
    arr, used = (cur, 0) if isinstance(cur, Arr) else (None, 0)
    base = 0
    j = 0
    while j < len(lv.path):
        p = lv.path[j]
        if p[0] == 'f': cur = cur.f[p[1]]; arr, used = (cur, 0) if isinstance(cur, Arr) else (None, 0); j += 1
        elif p[0] == 'i':
            if isinstance(cur, Arr):
                n = len(cur.dims)
                ids = []
                while j < len(lv.path) and len(ids) < n and lv.path[j][0] == 'i': ids.append(lv.path[j][1]); j += 1
                if len(ids) == n:
                    cur = vapp(cur.elem, ids) ; arr, used = (cur, 0) if isinstance(cur, Arr) else (None, 0)
                else: arr, used = cur, len(ids)
            elif isinstance(cur, Rec): cur = rec_index(cur, p[1]); arr, used = (cur, 0) if isinstance(cur, Arr) else (None, 0); j += 1
            else: raise Unsupported('index')
        else: raise Unsupported('dims index')
    if arr is not None:
        d = arr.dims[used]
        if not isinstance(d, z3.ExprRef): raise Unsupported('dimension of nested array')
        ex.oblige('bounds', mkAnd(V(0) <= idx, idx < d) if not z3.is_int_value(idx) or idx.as_long() < 0 else idx < d)
        return lv.i(idx)
    if isinstance(cur, Rec):
        n = len(cur.f)
        ex.oblige('bounds', mkAnd(V(0) <= idx, idx < n))
        return lv.i(idx)
    raise Unsupported('index of %r' % (cur,))

def ptr_i(p):
    if not isinstance(p, Ptr) or p.lv is None or not p.lv.path or p.lv.path[-1][0] != 'i': raise Unsupported('iterator')
    return p.lv.path[-1][1]
def ptr_base(p): return Lval(p.lv.root, p.lv.path[:-1])
def container_of(ex, lv): return ex.st.get(lv)

def deref(ex, p):
    v = container_of(ex, ptr_base(p))
    if isinstance(v, Arr): ex.oblige('bounds', mkAnd(V(0) <= ptr_i(p), ptr_i(p) < v.dims[0]))
    return p.lv

def std_minmax(ex, args, ismin):
    a, b = vals(ex, args[:2])
    if a.sort() != b.sort(): a, b = toReal(a), toReal(b)
    return mkIf(b < a, b, a) if ismin else mkIf(a < b, b, a)

def tup(vals_): return Rec('tuple', {str(i): v for i, v in enumerate(vals_)})

def vector_resize(ex, this, n, fill=None):
    v = ex.st.get(this)
    old = v.dims[0]
    zero = lambda nm, ar, so: ex.mk_zero(nm, ar, so)
    elem = v.elem
    z = fill
    def grow(l, zl):
        ar = l.arity
        def rd(idx):
            return mkIf(idx[0] < old, cread(l, idx), cread(zl, idx[1:]) if zl is not None else dflt(l.sort))
        return LamCol(ar, l.sort, rd)
    if z is None: ne = vmap(elem, lambda l: grow(l, None))
    else: ne = vmap2(elem, z, grow)
    ex.st.set(this, Arr(v.kind, [n], ne, v.ar))

def dflt(sort): return F if sort == B else z3.IntVal(0) if sort == I else z3.RealVal(0) if sort == R else z3.Const('str!', STR)
def vmap2(a, b, fn):
    if isinstance(a, Rec): return Rec(a.tag, {k: vmap2(a.f[k], b.f[k], fn) for k in a.f}, a.ty)
    if isinstance(a, Arr): return Arr(a.kind, [fn(x, y) for x, y in zip(a.dims, b.dims)], vmap2(a.elem, b.elem, fn), a.ar)
    if isinstance(a, (z3.ExprRef, Col)): return fn(a, b)
    return a

def push_back(ex, this, val):
    v = ex.st.get(this)
    n = v.dims[0]
    ex.st.set(this.i(n), val)
    v2 = ex.st.get(this)
    ex.st.set(this, Arr(v.kind, [n + 1], v2.elem, v2.ar)) if isinstance(n, z3.ExprRef) else None
def call(ex, ref, sq, this, args, e):
    g = detemplate(sq)
    n = ref['n']
    ex.lib_used[g] = ex.lib_used.get(g, 0) + 1
    h = ex.ext.get(g)
    if h: return h(ex, ref, this, args, e)
    g = g.replace('std::__math::', 'std::').replace('std::ranges::', 'std::')
    cls = g.rsplit('::', 1)[0] if '::' in g else ''
    # ---------------------------------------------------------------- free functions
    if g in ('sqrt', 'std::sqrt'): return sqrt_of(ex, toReal(vals(ex, args)[0]))
    if g in ('abs', 'std::abs', 'fabs', 'std::fabs'):
        a, = vals(ex, args[:1]); return mkIf(a >= 0, a, -a)
    if g in ('ceil', 'std::ceil'):
        a = toReal(vals(ex, args)[0]); return z3.ToReal(-FLOOR(-a))
    if g in ('floor', 'std::floor'):
        a = toReal(vals(ex, args)[0]); return z3.ToReal(FLOOR(a))
    if g in ('pow', 'std::pow'):
        a, b = vals(ex, args)
        b = z3.simplify(b)
        if z3.is_int_value(b) or (z3.is_rational_value(b) and b.denominator_as_long() == 1):
            k = b.as_long() if z3.is_int_value(b) else b.numerator_as_long()
            if abs(k) <= 8:
                r = z3.RealVal(1)
                for _ in range(abs(k)): r = mul_(r, toReal(a))
                if k >= 0: return r
                ex.oblige('div-zero', toReal(a) != 0)
                return 1 / r
        elif z3.is_rational_value(b) and b.numerator_as_long() == 1 and b.denominator_as_long() == 2: return sqrt_of(ex, toReal(a))
        raise Unsupported('pow')
    if g in ('hypot', 'std::hypot'):
        a = [toReal(x) for x in vals(ex, args)]
        return SQRT(sum((x * x for x in a[1:]), a[0] * a[0]))
    if g in ('std::min', 'std::max') and len(args) >= 2: return std_minmax(ex, args, g == 'std::min')
    if g in ('fmin', 'fmax', 'std::fmin', 'std::fmax'): return std_minmax(ex, args, g.endswith('min'))
    if g in ('std::min', 'std::max') and len(args) == 1:
        l = ex.rv(args[0])
        r = l.f['0']
        for k in list(l.f)[1:]:
            r = mkIf(l.f[k] < r, l.f[k], r) if g == 'std::min' else mkIf(r < l.f[k], l.f[k], r)
        return r
    if g in ('std::move', 'std::forward', 'std::as_const', 'std::addressof') and len(args) == 1:
        v = ex.ev(args[0]) if isinstance(args[0], dict) else args[0]
        return Ptr(v) if g == 'std::addressof' else v
    if g == 'std::get':
        o = ex.ev(args[0]) if isinstance(args[0], dict) else args[0]
        k = ref['targs'][0]['int'] if isinstance(ref['targs'][0], dict) and 'int' in ref['targs'][0] else None
        if k is None: raise Unsupported('get by type')
        if isinstance(o, Lval):
            v = ex.st.get(o)
            return o.f(field_key(v, k))
        return o.f[field_key(o, k)]
    if g in ('std::make_tuple', 'std::forward_as_tuple', 'std::tie'): return tup(vals(ex, args))
    if g == 'std::make_pair':
        a, b = vals(ex, args); return Rec('pair', {'first': a, 'second': b})
    if g == 'std::tuple_cat':
        r = []
        for t in vals(ex, args): r += [t.f[k] for k in sorted(t.f, key=int)]
        return tup(r)
    if g == 'std::swap':
        a, b = ex.lv(args[0]), ex.lv(args[1])
        x, y = ex.st.get(a), ex.st.get(b)
        ex.st.set(a, y); ex.st.set(b, x); return VOID
    if g == 'std::numeric_limits::epsilon': return z3.RealVal('1/4503599627370496')
    if g == 'std::numeric_limits::max' or g == 'std::numeric_limits::infinity':
        if ref['ret'].get('t') == 'float': return z3.Const('dbl_max', R)
        return z3.IntVal(2 ** (ref['ret']['bits'] - (1 if ref['ret'].get('signed') else 0)) - 1)
    if g == 'std::max_element' or g == 'std::min_element': return max_element(ex, g, args)
    if g in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size'):
        lv = ex.lv(args[0]); c = ex.st.get(lv)
        if g == 'std::size': return c.dims[0] if isinstance(c, Arr) else V(len(c.f))
        return Ptr(lv.i(0 if 'begin' in g else (c.dims[0] if isinstance(c, Arr) else len(c.f))))
    if g in ('std::next', 'std::prev'):
        v = vals(ex, args)
        return ex.ptr_add(v[0], (v[1] if len(v) > 1 else V(1)) * (1 if g == 'std::next' else -1))
    if g == 'std::distance':
        a, b = vals(ex, args); return z3.simplify(ptr_i(b) - ptr_i(a))
    if g == 'std::make_move_iterator': return vals(ex, args)[0]
    if g == 'std::copy': return algo_copy(ex, args)
    if g == 'std::transform' and len(args) == 4: return algo_transform(ex, args)
    if g == 'std::fill': return algo_fill(ex, args)
    if g in ('std::accumulate', 'std::reduce') and len(args) in (3, 4): return algo_accumulate(ex, args)
    if g in ('std::inner_product', 'std::transform_reduce') and len(args) == 4: return algo_inner(ex, args)
    if g == 'std::for_each' and len(args) == 3: return algo_each(ex, args)
    if g in ('std::count_if', 'std::count'): return algo_count(ex, g, args)
    if g in ('std::find_if', 'std::find', 'std::find_if_not', 'std::any_of', 'std::all_of', 'std::none_of'): return algo_find(ex, g, args)
    # ---------------------------------------------------------------- linear algebra
    if g in ('ublas::inner_prod', 'viennacl::linalg::inner_prod'):
        a, b = vals(ex, args)
        return dot(a, b) if is_vec(a) else long_inner(ex, a, b)
    if g in ('ublas::norm_2', 'viennacl::linalg::norm_2'):
        a, = vals(ex, args)
        return SQRT(dot(a, a)) if is_vec(a) else SQRT(long_inner(ex, a, a))
    if g == 'ublas::outer_prod':
        a, b = vals(ex, args)
        return Rec('mat', {i: Rec('vec', {j: mul_(a.f[i], b.f[j]) for j in b.f}) for i in a.f})
    if g in ('ublas::prod', 'viennacl::linalg::prod'):
        a, b = vals(ex, args)
        if is_mat(a) and is_vec(b): return Rec('vec', {i: dot(a.f[i], b) for i in a.f})
        if is_vec(a) and is_mat(b): return Rec('vec', {j: dot(a, Rec('vec', {i: b.f[i].f[j] for i in b.f})) for j in b.f['0'].f})
        if is_mat(a) and is_mat(b): return Rec('mat', {i: Rec('vec', {j: dot(a.f[i], Rec('vec', {k: b.f[k].f[j] for k in b.f})) for j in b.f['0'].f}) for i in a.f})
        if isinstance(a, Arr) and a.kind == 'lmat': return long_prod(ex, a, b)
        raise Unsupported('prod')
    if g == 'ublas::trans':
        a, = vals(ex, args)
        return Rec('mat', {j: Rec('vec', {i: a.f[i].f[j] for i in a.f}) for j in a.f['0'].f})
    if g in ('ublas::noalias', 'ublas::row'):
        if g.endswith('noalias'): return ex.ev(args[0])
    if g in ('ublas::operator+', 'ublas::operator-', 'ublas::operator*', 'ublas::operator/',
             'viennacl::operator+', 'viennacl::operator-', 'viennacl::operator*', 'viennacl::operator/'):
        v = vals(ex, args)
        if len(v) == 1: return vs(v[0], lambda x: -x) if not isinstance(v[0], Arr) else lvec_map([v[0]], lambda x: -x, lsize(v[0]))
        return arith(ex, n[8:], *v)
    if re.fullmatch(r'(ublas|viennacl)(::\w+)*::operator[-+*/]=', g):
        if this is not None: l = this; b, = vals(ex, args)
        else:
            b = ex.rv(args[1]); l = ex.lv(args[0])
        ex.st.set(l, arith(ex, n[8], ex.st.get(l), b))
        return l
    if g == 'viennacl::copy' or g == 'viennacl::fast_copy':
        s = ex.rv(args[0]); d = ex.lv(args[1])
        dv = ex.st.get(d)
        if g == 'viennacl::copy': ex.oblige('size-mismatch', mkAnd(*[mkOr(o == 0, o == w) for o, w in zip(dv.dims, s.dims)]))
        ex.st.set(d, Arr(dv.kind, s.dims, s.elem, dv.ar))
        return VOID
    # ---------------------------------------------------------------- operators on library objects
    if this is not None:
        return member(ex, ref, g, n, this, args, e)
    if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator-', 'operator+'):
        a, b = vals(ex, args)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return ex.ptr_binop(n[8:], a, b)
        if isinstance(a, z3.ExprRef) and a.sort() == STR and n in ('operator==', 'operator!='):
            return mkEq(a, b) if n == 'operator==' else mkNot(mkEq(a, b))
        if isinstance(a, Rec) and isinstance(b, Rec) and a.tag in ('pair', 'tuple') and n in ('operator==', 'operator!='):
            r = mkAnd(*[mkEq(a.f[k], b.f[k]) for k in a.f])
            return r if n == 'operator==' else mkNot(r)
    raise Unsupported('library function %s' % g)

def field_key(v, k):
    if v.tag == 'pair': return 'first' if k == 0 else 'second'
    return str(k)

def member(ex, ref, g, n, this, args, e):
    v = ex.st.get(this) if not partial(ex, this) else None
    if n == 'operator=' or ref.get('assign'):
        x = ex.rv(args[0])
        if isinstance(v, Arr) and isinstance(x, Arr):
            if g.startswith('viennacl::'):   # ViennaCL only assigns to empty or equally sized objects
                ex.oblige('size-mismatch', mkAnd(*[mkOr(o == 0, o == w) for o, w in zip(v.dims, x.dims)]))
            x = Arr(v.kind, x.dims, x.elem, v.ar)
        elif isinstance(v, z3.ExprRef) and isinstance(x, z3.ExprRef) and v.sort() == R: x = toReal(x)
        if isinstance(v, Rec) and isinstance(x, Rec) and v.tag != x.tag: raise Unsupported('assignment of different types')
        ex.st.set(this, x)
        return this
    if n == 'operator[]' or n == 'at':
        i = ex.rv(args[0])
        if isinstance(v, Rec) and v.tag == 'extents': return Rec('extents', dict(v.f, **{str(len(v.f)): i}))
        if isinstance(v, Ptr): return Ptr(Lval(v.lv.root, v.lv.path[:-1] + (('i', z3.simplify(ptr_i(v) + i)),))).lv
        if n == 'at' and isinstance(v, Arr) and v.kind == 'vector':
            ex.throw_if(mkNot(mkAnd(V(0) <= i, i < v.dims[0])), 'std::out_of_range')
        return index_array(ex, this, i)
    if n == 'operator()':
        if isinstance(v, Arr) and v.kind == 'lvec': return index_array(ex, this, ex.rv(args[0]))
        if isinstance(v, Arr) and v.kind == 'lmat':
            i, j = vals(ex, args)
            return index_array(ex, index_array(ex, this, i), j)
        if isinstance(v, Rec) and v.tag in ('mat',):
            i, j = vals(ex, args)
            return index_array(ex, index_array(ex, this, i), j)
        if isinstance(v, Rec) and v.tag == 'vec': return index_array(ex, this, ex.rv(args[0]))
    if n.startswith('operator ') and len(args) == 0: return this     # conversion
    if isinstance(v, Arr):
        if n == 'size' or n == 'size1': return v.dims[0]
        if n == 'size2': return v.dims[1]
        if n == 'empty': return mkEq(v.dims[0], V(0))
        if n == 'length': return v.dims[0]
        if n in ('begin', 'cbegin', 'data'): return Ptr(this.i(0))
        if n in ('end', 'cend'): return Ptr(this.i(v.dims[0]))
        if n == 'front':
            ex.oblige('bounds', v.dims[0] > 0); return this.i(0)
        if n == 'back':
            ex.oblige('bounds', v.dims[0] > 0); return this.i(v.dims[0] - 1)
        if n == 'shape': return Shape([x for x in v.dims])
        if n == 'num_elements':
            r = v.dims[0]
            for d in v.dims[1:]: r = r * d
            return r
        if n == 'clear':
            if v.kind == 'vector':
                ex.st.set(this, Arr(v.kind, [V(0)], v.elem, v.ar)); return VOID
            z = vmap(v.elem, lambda l: ConstCol(l.arity, dflt(l.sort)))
            ex.st.set(this, Arr(v.kind, v.dims, z, v.ar)); return VOID
        if n == 'reserve' or n == 'shrink_to_fit':
            for a in args: ex.rv(a)
            return VOID
        if n == 'resize':
            a = vals(ex, args)
            if v.kind == 'multi':
                ds = [a[0].f[str(i)] for i in range(len(v.dims))]
                old = v.dims
                def grow(l):
                    def rd(idx):
                        c = mkAnd(*[mkAnd(i < o) for i, o in zip(idx, old)])
                        return mkIf(c, cread(l, idx), dflt(l.sort))
                    return LamCol(l.arity, l.sort, rd)
                ex.st.set(this, Arr(v.kind, ds, vmap(v.elem, grow), v.ar)); return VOID
            if v.kind == 'vector':
                vector_resize(ex, this, a[0], a[1] if len(a) > 1 else None); return VOID
            if v.kind in ('lvec', 'lmat'):
                # contents are unspecified unless preserved (and new entries then are too)
                keep = a[-1] if len(a) > len(v.dims) else (T if not g.startswith('ublas') else T)
                keep = ex.tobool(keep)
                old, fr = v.dims, ex.mk_fresh('resized', v.elem.arity, R)
                def rd(idx):
                    c = mkAnd(keep, *[x < o for x, o in zip(idx, old)])
                    return mkIf(c, cread(v.elem, idx), cread(fr, idx))
                ex.st.set(this, Arr(v.kind, a[:len(v.dims)], fr if z3.is_false(keep) else LamCol(v.elem.arity, R, rd), v.ar)); return VOID
            raise Unsupported('resize of %s' % v.kind)
        if n == 'push_back':
            push_back(ex, this, ex.rv(args[0])); return VOID
        if n == 'emplace_back':
            a = vals(ex, args)
            el = v.elem
            if isinstance(el, Rec) and el.tag == 'pair' and len(a) == 2:
                fst = toReal(a[0]) if leafsort(el.f['first']) == R else a[0]
                snd = toReal(a[1]) if leafsort(el.f['second']) == R else a[1]
                x = Rec('pair', {'first': fst, 'second': snd})
            elif len(a) == 1: x = a[0]
            else: raise Unsupported('emplace_back')
            push_back(ex, this, x)
            return this.i(v.dims[0])
        if n == 'insert' and len(args) == 3 and v.kind == 'vector': return vector_insert(ex, this, args)
        if n == 'pop_back':
            ex.oblige('bounds', v.dims[0] > 0)
            ex.st.set(this, Arr(v.kind, [v.dims[0] - 1], v.elem, v.ar)); return VOID
        if n == 'assign' and v.kind == 'vector':
            a = vals(ex, args)
            if len(a) == 2 and isinstance(a[0], z3.ExprRef):
                ex.st.set(this, Arr(v.kind, [V(0)], v.elem, v.ar)); vector_resize(ex, this, a[0], a[1]); return VOID
    if isinstance(v, Ptr):
        if n == 'operator*': return deref(ex, v)
        if n == 'operator->': deref(ex, v); return v
        if n == 'operator++' or n == 'operator--':
            ex.st.set(this, ex.ptr_add(v, V(1 if n[-1] == '+' else -1)))
            return v if len(args) else this
        if n in ('operator+', 'operator-'):
            b = ex.rv(args[0])
            if isinstance(b, Ptr): return ex.ptr_binop('-', v, b)
            return ex.ptr_add(v, b if n[-1] == '+' else -b)
        if n in ('operator+=', 'operator-='):
            b = ex.rv(args[0]); ex.st.set(this, ex.ptr_add(v, b if n[8] == '+' else -b)); return this
        if n in ('operator==', 'operator!='): return ex.ptr_binop(n[8:], v, ex.rv(args[0]))
        if n in ('base', 'get'): return v
    if isinstance(v, Rec):
        if n == 'data' and v.tag == 'std::array': return Ptr(this.i(0))
        if n in ('begin', 'cbegin') and v.tag in ('std::array', 'ilist', 'carray'): return Ptr(this.i(0))
        if n in ('end', 'cend') and v.tag in ('std::array', 'ilist', 'carray'): return Ptr(this.i(len(v.f)))
        if n == 'size' and v.tag in ('std::array', 'vec', 'ilist', 'carray'): return V(len(v.f))
        if n == 'clear' and v.tag in ('vec', 'mat'):
            ex.st.set(this, vs(v, lambda x: z3.RealVal(0))); return VOID
        if n == 'operator==' and v.tag in ('pair', 'tuple'): 
            b = ex.rv(args[0]); return mkAnd(*[mkEq(v.f[k], b.f[k]) for k in v.f])
    if isinstance(v, z3.ExprRef) and v.sort() == STR:
        if n in ('size', 'length'): return z3.Function('strlen', STR, I)(v)
        if n == 'empty': return z3.Function('strlen', STR, I)(v) == 0
        if n in ('c_str', 'data'): return v
    if hasattr(v, 'd') and 'member' in v.d: return v.d['member'](ex, n, this, args, ref)
    if n.startswith('~'): return VOID
    raise Unsupported('library member %s' % g)

def leafsort(v): return v.sort() if isinstance(v, z3.ExprRef) else v.sort

def partial(ex, lv):
    try: ex.st.get(lv)
    except Unsupported: raise
    return False

class Shape:
    """pointer to the dimensions"""
    def __init__(self, dims): self.dims = dims

def vector_insert(ex, this, args):
    pos, b, e2 = vals(ex, args)
    v = ex.st.get(this)
    n = v.dims[0]
    ex.oblige('insert-at-end', ptr_i(pos) == n)
    if not z3.simplify(ptr_i(pos) == n).eq(T): raise Unsupported('insert not at the end')
    src = ex.st.get(ptr_base(b))
    lo, hi = ptr_i(b), ptr_i(e2)
    ex.oblige('bounds', mkAnd(V(0) <= lo, lo <= hi, hi <= src.dims[0]))
    def cat(l, s):
        return LamCol(l.arity, l.sort, lambda idx: mkIf(idx[0] < n, cread(l, idx), cread(s, [z3.simplify(idx[0] - n + lo)] + list(idx[1:]))))
    ne = vmap2(v.elem, src.elem, cat)
    ex.st.set(this, Arr(v.kind, [n + (hi - lo)], ne, v.ar))
    return Ptr(this.i(n))

def algo_copy(ex, args):
    b, e2, d = vals(ex, args)
    src, dl = ex.st.get(ptr_base(b)), ptr_base(d)
    lo, hi, dst = ptr_i(b), ptr_i(e2), ptr_i(d)
    dv = ex.st.get(dl)
    ex.oblige('bounds', mkAnd(V(0) <= lo, lo <= hi, hi <= src.dims[0], V(0) <= dst, dst + (hi - lo) <= dv.dims[0]))
    def cat(l, s):
        return LamCol(l.arity, l.sort, lambda idx: mkIf(mkAnd(dst <= idx[0], idx[0] < dst + (hi - lo)), cread(s, [z3.simplify(idx[0] - dst + lo)] + list(idx[1:])), cread(l, idx)))
    ex.st.set(dl, Arr(dv.kind, dv.dims, vmap2(dv.elem, src.elem, cat), dv.ar))
    return ex.ptr_add(d, hi - lo)

def algo_fill(ex, args):
    b, e2, val = vals(ex, args)
    dl = ptr_base(b)
    lo, hi = ptr_i(b), ptr_i(e2)
    dv = ex.st.get(dl)
    ex.oblige('bounds', mkAnd(V(0) <= lo, lo <= hi, hi <= dv.dims[0]))
    ne = vmap2(dv.elem, val, lambda l, s: LamCol(l.arity, l.sort, lambda idx: mkIf(mkAnd(lo <= idx[0], idx[0] < hi), cread(s, idx[1:]) if not isinstance(s, z3.ExprRef) else s, cread(l, idx))))
    ex.st.set(dl, Arr(dv.kind, dv.dims, ne, dv.ar))
    return VOID

def algo_loop(ex, first, last, body):
    """for(; first != last; ++first) body(first), under the loop rules"""
    it = ex.newroot(first, 'it')
    N = lambda f: {'k': 'native', 'fn': f}
    def inc(ex): ex.st.set(it, ex.ptr_add(ex.st.get(it), V(1)))
    o = ex.loop({'k': 'for', 'init': None, 'c': N(lambda ex: ex.ptr_binop('!=', ex.st.get(it), last)), 'inc': N(inc),
                 'body': {'k': 'expr', 'e': N(lambda ex: body(ex, ex.st.get(it).lv)), 'l': ex.cur_line}, 'l': ex.cur_line})
    if len(o) != 1 or o[0].kind != 'normal': raise Unsupported('algorithm with several ways out')
    ex.st = o[0].st
    return ex.st.get(it)

def scalar(ex, v):
    v = ex.load(v) if isinstance(v, Lval) else v
    if not isinstance(v, (z3.ExprRef, Rec)): raise Unsupported('algorithm over %r' % (v,))
    return v

def algo_accumulate(ex, args):
    b, e2, init = vals(ex, args[:3])
    f = ex.lv(args[3]) if len(args) > 3 else None
    acc = ex.newroot(init, 'acc')
    def body(ex, x):
        r = scalar(ex, ex.call_closure(f, [ex.st.get(acc), x])) if f is not None else ex.st.get(acc) + scalar(ex, x)
        o = ex.st.get(acc)
        if isinstance(r, z3.ExprRef) and r.sort() != o.sort():
            if o.sort() == R and r.sort() == I: r = toReal(r)
            else: raise Unsupported('accumulation changes the type')
        ex.st.set(acc, r)
    algo_loop(ex, b, e2, body)
    return ex.st.get(acc)

def algo_inner(ex, args):
    b, e2, b2, init = vals(ex, args)
    acc, it2 = ex.newroot(init, 'acc'), ex.newroot(b2, 'it')
    def body(ex, x):
        ex.st.set(acc, ex.st.get(acc) + scalar(ex, x) * scalar(ex, ex.st.get(it2).lv))
        ex.st.set(it2, ex.ptr_add(ex.st.get(it2), V(1)))
    if init.sort() != R: raise Unsupported('inner_product of integers')
    algo_loop(ex, b, e2, body)
    return ex.st.get(acc)

def algo_each(ex, args):
    b, e2 = vals(ex, args[:2])
    f = ex.lv(args[2])
    algo_loop(ex, b, e2, lambda ex, x: ex.call_closure(f, [x]))
    return ex.st.get(f)

def pred_of(ex, g, args):
    if g in ('std::count', 'std::find'):
        v = ex.rv(args[2])
        return lambda ex, x: mkEq(scalar(ex, x), v)
    f = ex.lv(args[2])
    return lambda ex, x: ex.tobool(scalar(ex, ex.call_closure(f, [x])))

def algo_count(ex, g, args):
    b, e2 = vals(ex, args[:2])
    p = pred_of(ex, g, args)
    acc = ex.newroot(V(0), 'cnt')
    algo_loop(ex, b, e2, lambda ex, x: ex.st.set(acc, ex.st.get(acc) + mkIf(p(ex, x), V(1), V(0))))
    return ex.st.get(acc)

def algo_find(ex, g, args):
    """first element with the property, by its defining conditions (the test has no side effects)"""
    b, e2 = vals(ex, args[:2])
    p0 = pred_of(ex, g, args)
    base, lo, hi = ptr_base(b), ptr_i(b), ptr_i(e2)
    neg = g in ('std::find_if_not', 'std::all_of')
    def p(k):
        st0 = ex.st
        ex.st = st0.clone(); ex.st.assume(mkAnd(lo <= k, k < hi))
        r = p0(ex, base.i(k))
        for key in st0.mem:
            if not vsame(st0.mem[key], ex.st.mem.get(key)): raise Unsupported('search with side effects')
        ex.st = st0
        return mkNot(r) if neg else r
    k = binder('fk')
    ex.bstack.append(k)
    try: pk = p(k)
    finally: ex.bstack.pop()
    ex.oblige('bounds', lo <= hi)
    m = ex.fresh_sym('found')
    ex.st.assume(mkAnd(lo <= m, m <= hi))
    ex.forall_fact(k, lo, m, mkNot(pk))
    ex.st.assume(mkImp(m < hi, deep_subst(pk, (k, m))))
    if 'find' in g: return Ptr(base.i(m))
    return m < hi if g == 'std::any_of' else m >= hi

def algo_transform(ex, args):
    b, e2, d = vals(ex, args[:3])
    clo = ex.lv(args[3])
    src_l, dl = ptr_base(b), ptr_base(d)
    src = ex.st.get(src_l)
    lo, hi, dst = ptr_i(b), ptr_i(e2), ptr_i(d)
    dv = ex.st.get(dl)
    ex.oblige('bounds', mkAnd(V(0) <= lo, lo <= hi, hi <= src.dims[0], V(0) <= dst, dst + (hi - lo) <= dv.dims[0]))
    k = binder('tr')
    st0 = ex.st
    ex.st = st0.clone(); ex.st.assume(mkAnd(lo <= k, k < hi))
    r = ex.call_closure(clo, [src_l.i(k)])
    if isinstance(r, Lval): r = ex.load(r)
    for key in st0.mem:
        if not vsame(st0.mem[key], ex.st.mem.get(key)): raise Unsupported('transform with side effects')
    ex.st = st0
    def cat(l, s):
        def rd(idx):
            c = mkAnd(dst <= idx[0], idx[0] < dst + (hi - lo))
            sv = s if isinstance(s, z3.ExprRef) else cread(s, idx[1:])
            return mkIf(c, deep_subst(sv, (k, z3.simplify(idx[0] - dst + lo))), cread(l, idx))
        return LamCol(l.arity, l.sort, rd)
    ex.st.set(dl, Arr(dv.kind, dv.dims, vmap2(dv.elem, r, cat), dv.ar))
    return ex.ptr_add(d, hi - lo)

def deep_subst(e, *pairs):
    return z3.substitute(e, *pairs)

def max_element(ex, g, args):
    """first element not less than any other under the given strict weak order"""
    b, e2 = vals(ex, args[:2])
    src_l = ptr_base(b)
    src = ex.st.get(src_l)
    lo, hi = ptr_i(b), ptr_i(e2)
    clo = ex.lv(args[2]) if len(args) > 2 else None
    def comp(x, y):
        st0 = ex.st
        ex.st = st0.clone()
        sv = ex.collect; ex.collect = False
        r = ex.call_closure(clo, [src_l.i(x), src_l.i(y)]) if clo is not None else ex.st.get(src_l.i(x)) < ex.st.get(src_l.i(y))
        ex.collect = sv
        ex.st = st0
        if isinstance(r, Lval): r = st0.get(r)
        return ex.tobool(r)
    m = ex.fresh_sym('argmax')
    k1, k2, k3 = binder('c1'), binder('c2'), binder('c3')
    c12, c23, c13, c21 = comp(k1, k2), comp(k2, k3), comp(k1, k3), comp(k2, k1)
    rng = mkAnd(*[mkAnd(lo <= k, k < hi) for k in (k1, k2, k3)])
    # strict weak ordering is an obligation
    ex.oblige('strict-weak-order', mkImp(rng, mkAnd(mkNot(mkAnd(c12, c21)), mkImp(mkAnd(c12, c23), c13), mkImp(mkAnd(mkNot(c12), mkNot(c23)), mkNot(c13)))), 'comparator')
    ex.st.assume(mkImp(lo < hi, mkAnd(lo <= m, m < hi)))
    ex.st.assume(mkImp(lo >= hi, m == hi))
    less = (lambda x, y: comp(x, y)) if g == 'std::max_element' else (lambda x, y: comp(y, x))
    kk = binder('mx')
    st = ex.st
    cond = mkNot(less(m, kk))
    ex.forall_fact(kk, lo, hi, cond)
    return Ptr(src_l.i(m))

# ------------------------------------------------------------------ constructors
def construct(ex, ref, cls, args, e):
    g = detemplate(cls)
    ex.lib_used[g + '()'] = ex.lib_used.get(g + '()', 0) + 1
    h = ex.ext_ctor.get(g)
    if h: return h(ex, ref, args, e)
    ty = e['ty']
    kind = ref.get('ctor')
    args = [a for a in args if not (isinstance(a, dict) and a.get('k') == '?')]
    if g in ('ublas::c_vector', 'ublas::c_matrix'):
        if not args: return ex.mkval(ty, ex.mk_fresh, 'undef')
        v = vals(ex, args)
        if len(v) == 1 and isinstance(v[0], Rec): return v[0]
        if len(v) <= 2 and all(isinstance(x, z3.ExprRef) for x in v) and g == 'ublas::c_vector':   # size [, value]
            if len(v) == 1: return ex.mkval(ty, ex.mk_fresh, 'undef')
            return ex.mkval(ty, lambda nm, ar, so: toReal(v[1]))
    if g == 'ublas::zero_vector':
        raise Unsupported('zero_vector')
    if g in ('std::tuple',):
        v = vals(ex, args)
        if len(v) == 1 and isinstance(v[0], Rec) and v[0].tag in ('tuple', 'pair') and len(ty['targs']) == len(v[0].f) : 
            v = list(v[0].f.values())
        if not v: return ex.mkval(ty, ex.mk_zero)
        out = []
        for x, t in zip(v, ty['targs']):
            if t.get('t') == 'float' and isinstance(x, z3.ExprRef) and x.sort() == I: x = toReal(x)
            if t.get('t') == 'int' and isinstance(x, z3.ExprRef) and x.sort() == R: x = ex.float_to_int(x)
            out.append(x)
        return tup(out)
    if g == 'std::pair':
        v = vals(ex, args)
        if not v: return ex.mkval(ty, ex.mk_zero)
        if len(v) == 1 and isinstance(v[0], Rec): return Rec('pair', dict(zip(('first', 'second'), v[0].f.values())))
        return Rec('pair', {'first': v[0], 'second': v[1]})
    if g == 'std::vector':
        t = [x for x in args]
        v = vals(ex, t)
        v = [x for x in v if not isinstance(x, Opq)]
        if not v:
            r = ex.mkval(ty, ex.mk_fresh, 'vec')
            return Arr(r.kind, [V(0)], r.elem, 0)
        if isinstance(v[0], z3.ExprRef) and v[0].sort() == I:
            r = ex.mkval(ty, ex.mk_zero, 'vec')
            if len(v) > 1:
                r2 = vmap2(r.elem, v[1], lambda l, s: ConstCol(l.arity, s if isinstance(s, z3.ExprRef) else None) if isinstance(s, z3.ExprRef) else LamCol(l.arity, l.sort, lambda idx: cread(s, idx[1:])))
                return Arr(r.kind, [v[0]], r2, 0)
            return Arr(r.kind, [v[0]], r.elem, 0)
        if isinstance(v[0], Ptr) and len(v) == 2:
            src = ex.st.get(ptr_base(v[0])); lo, hi = ptr_i(v[0]), ptr_i(v[1])
            ex.oblige('bounds', mkAnd(V(0) <= lo, lo <= hi, hi <= src.dims[0]))
            return Arr('vector', [z3.simplify(hi - lo)], vmap(src.elem, lambda s: LamCol(s.arity, s.sort, lambda idx: cread(s, [z3.simplify(idx[0] + lo)] + list(idx[1:])))), 0)
        if isinstance(v[0], Rec) and v[0].tag == 'ilist':
            r = ex.mkval(ty, ex.mk_zero, 'vec')
            lv = ex.newroot(Arr(r.kind, [V(0)], r.elem, 0), 'vec')
            for k in v[0].f: push_back(ex, lv, v[0].f[k])
            return ex.st.get(lv)
        if isinstance(v[0], Arr): return v[0]
    if g in ('viennacl::vector', 'ublas::vector'):
        v = vals(ex, args)
        v = [x for x in v if not isinstance(x, Opq)]
        if not v:
            r = ex.mkval(ty, ex.mk_fresh, 'lv'); return Arr('lvec', [V(0)], r.elem, 0)
        if isinstance(v[0], Arr): return Arr('lvec', v[0].dims, v[0].elem, 0)
        if g == 'viennacl::vector': return Arr('lvec', [v[0]], ConstCol(1, z3.RealVal(0)), 0)
        r = ex.mkval(ty, ex.mk_fresh, 'lv')
        return Arr('lvec', [v[0]], r.elem if len(v) == 1 else ConstCol(1, toReal(v[1])), 0)
    if g in ('viennacl::compressed_matrix', 'ublas::compressed_matrix'):
        v = vals(ex, args)
        v = [x for x in v if not isinstance(x, Opq)]
        if not v: return Arr('lmat', [V(0), V(0)], ConstCol(2, z3.RealVal(0)), 0)
        if isinstance(v[0], Arr): return Arr('lmat', v[0].dims, v[0].elem, 0)
        return Arr('lmat', [v[0], v[1]], ConstCol(2, z3.RealVal(0)), 0)
    if g == 'boost::multi_array':
        v = vals(ex, args)
        v = [x for x in v if not isinstance(x, Opq)]
        n = ty['targs'][1]['int']
        r = ex.mkval(ty, ex.mk_zero, 'ma')
        if not v: return Arr('multi', [V(0)] * n, r.elem, 0)
        if isinstance(v[0], Rec) and v[0].tag == 'extents': return Arr('multi', [v[0].f[str(i)] for i in range(n)], r.elem, 0)
        if isinstance(v[0], Arr): return v[0]
    if g in ('viennacl::context', 'std::allocator', 'std::locale', 'viennacl::scalar'): 
        if g == 'viennacl::scalar' and args: return vals(ex, args)[0]
        return Opq(g)
    if g == 'std::array':
        v = vals(ex, args)
        if not v: return ex.mkval(ty, ex.mk_zero)
        return v[0]
    if g in ('std::__wrap_iter', 'std::move_iterator', '__gnu_cxx::__normal_iterator', 'viennacl::scalar_expression', 'std::initializer_list') and len(args) == 1:
        return vals(ex, args)[0]
    if g == 'std::basic_string':
        v = [x for x in vals(ex, args) if isinstance(x, z3.ExprRef)]
        if not v: return lit('')
        if v[0].sort() == STR: return v[0]
    if kind in ('copy', 'move') and len(args) >= 1: return vals(ex, args[:1])[0]
    raise Unsupported('library constructor %s' % g)
