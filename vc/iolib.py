"""Contracts of the input/output operations the program uses: property trees, strings, streams, formats."""
from .terms import *
from .solve import *
from .execu import *
from . import lib
from .lib import vals, lit

SLOTS = 20

def type_text(t):
    k = t.get('t')
    if k == 'rec': return detemplate(strip_q(t.get('q', '?')))
    if k == 'int': return 'int'
    return '%s%s' % (k, t.get('bits', ''))

def text_of(v):
    """the text of a literal, or None"""
    if isinstance(v, z3.ExprRef) and v.sort() == STR and v.num_args() == 0 and str(v.decl().name()).startswith('str!'): return v.decl().name()[4:]
    return None
def lift(f, *a):
    """apply a function of literals, pushing it through conditionals"""
    for j, x in enumerate(a):
        if isinstance(x, z3.ExprRef) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            return mkIf(x.arg(0), lift(f, *a[:j], x.arg(1), *a[j + 1:]), lift(f, *a[:j], x.arg(2), *a[j + 1:]))
    return f(*a)
CONCAT = z3.Function('concat', STR, STR, STR)
def concat(a, b):
    x, y = text_of(a), text_of(b)
    if x is not None and y is not None: return lit(x + y)
    if x == '': return b
    if y == '': return a
    return CONCAT(a, b)
def param_type(ref, k):
    p = ref.get('ptypes') or []
    return p[k] if k < len(p) else {}
def is_char(t): return t.get('t') == 'int' and t.get('bits') == 8

# ------------------------------------------------------------------ boost::property_tree
def xml(ex, path, ty='float64'):
    return z3.Const('xml<%s>(%s)' % (ty, path), {'float64': R, 'int': I, 'std::basic_string': STR}[ty])
def present(path): return z3.Const('present(%s)' % path, B)
def readable(ty, path): return z3.Const('readable as %s(%s)' % (ty, path), B)
def ptree(ex):
    ex.xml_read = set()
    def read(ex, ref, a, ty):
        def one(k):
            p = text_of(k)
            if p is None: raise Unsupported('configuration path is not a literal')
            ex.xml_read.add((p, type_text(ty)))
            return ex.mkval({k: v for k, v in ty.items() if k != 'ref'}, ex.mk_named(''), 'xml<%s>(%s)' % (type_text(ty), p))
        x = lift(one, a[0]) if isinstance(a[0], z3.ExprRef) else one(a[0])
        p = text_of(a[0])
        if p is None: raise Unsupported('configuration path is not a literal')
        return x, mkAnd(present(p), readable(type_text(ty), p)), present(p)
    def get(ex, ref, this, args, e):
        a = [x for x in vals(ex, args) if not isinstance(x, Opq)]
        x, ok, there = read(ex, ref, a, ref['ret'])
        if len(a) > 1:
            d = a[1]
            if isinstance(x, z3.ExprRef) and isinstance(d, z3.ExprRef) and x.sort() != d.sort(): d = toReal(d)
            return mkIf(ok, x, d)
        ex.throw_if(mkNot(ok), 'boost::property_tree::ptree_error')
        return x
    ex.ext['boost::property_tree::basic_ptree::get'] = get
    ex.ext_ctor['boost::property_tree::string_path'] = lambda ex, ref, args, e: vals(ex, args)[0]
    ex.ext_ctor['boost::property_tree::id_translator'] = lambda ex, ref, args, e: Opq('translator')
    ex.ext_ctor['boost::property_tree::stream_translator'] = lambda ex, ref, args, e: Opq('translator')

# ------------------------------------------------------------------ strings
def strings(ex):
    ex.ext['std::operator+'] = lambda ex, ref, this, args, e: plus(ex, ref, args)
    def plus(ex, ref, args):
        a, b = vals(ex, args)
        if a.sort() == STR and b.sort() == STR: return lift(concat, a, b)
        raise Unsupported('operator+ on strings')
    def eq(ex, ref, this, args, e):
        neg = ref['n'].endswith('!=')
        a, b = vals(ex, args)
        if isinstance(a, Ptr) or isinstance(b, Ptr): return ex.ptr_binop(ref['n'][8:], a, b)
        if not (isinstance(a, z3.ExprRef) and a.sort() == STR): raise Unsupported(ref['n'])
        def f(x, y):
            s, t = text_of(x), text_of(y)
            if s is not None and t is not None: return V(s == t)
            return x == y
        r = lift(f, a, b)
        return mkNot(r) if neg else r
    ex.ext['std::operator=='] = eq
    ex.ext['std::operator!='] = eq
    def strcat(ex, ref, this, args, e):
        a, = vals(ex, args)
        if a.sort() != STR: raise Unsupported('append to a string')
        ex.st.set(this, lift(concat, ex.st.get(this), a))
        return this
    ex.ext['std::basic_string::operator+='] = strcat
    ex.ext['std::basic_string::append'] = strcat
    def to_string(ex, ref, this, args, e):
        a, = vals(ex, args)
        return z3.Function('decimal', R, STR)(toReal(a))
    ex.ext['std::to_string'] = to_string

# ------------------------------------------------------------------ text: splitting, removing characters, numbers
COUNT = z3.Function('fields', STR, STR, I)          # number of fields of a text between separators (at least one)
FIELD = z3.Function('field', STR, STR, I, STR)      # the k-th of them
STRLEN = z3.Function('strlen', STR, I)
BLANKS = z3.Function('without blanks', STR, STR)
def texts(ex):
    pr = ex.pr
    pr.add_fact(Fact(['fields'], lambda n: [n >= 1], 'a text has at least one field'))
    pr.add_fact(Fact(['strlen'], lambda n: [n >= 0], 'lengths are not negative'))
    ex.ext['boost::algorithm::is_any_of'] = lambda ex, ref, this, args, e: Opq('any of', {'set': vals(ex, args)[0]})
    def split(ex, ref, this, args, e):
        out = ex.lv(args[0]) if isinstance(args[0], dict) else args[0]
        s, p = vals(ex, args[1:3])
        if len(args) > 3 and isinstance(args[3], dict):
            m = args[3]
            mode = vals(ex, args[3:4])[0] if m.get('k') != '?' else V(0)
            if isinstance(mode, z3.ExprRef) and z3.is_int_value(z3.simplify(mode)) and z3.simplify(mode).as_long() != 1: raise Unsupported('split mode')
        if not isinstance(p, Opq) or 'set' not in p.d or s.sort() != STR: raise Unsupported('split')
        sep = p.d['set']
        v = ex.st.get(out)
        ex.st.set(out, Arr('vector', [COUNT(s, sep)], LamCol(1, STR, lambda idx: FIELD(s, sep, idx[0])), 0))
        return out
    ex.ext['boost::algorithm::split'] = split
    # s.erase(remove_if(s.begin(), s.end(), predicate), s.end())
    for n in ('begin', 'cbegin', 'end', 'cend'):
        ex.ext['std::basic_string::' + n] = lambda ex, ref, this, args, e, n=n: Opq('text ' + n.lstrip('c'), {'of': this})
    def remove_if(ex, ref, this, args, e):
        b, en = vals(ex, args[:2])
        clo = ex.lv(args[2]) if isinstance(args[2], dict) else args[2]
        if not (isinstance(b, Opq) and isinstance(en, Opq) and b.tag == 'text begin' and en.tag == 'text end' and same_lv(b.d['of'], en.d['of'])): raise Unsupported('remove_if')
        ch = z3.Const('character', I)
        st0 = ex.st
        ex.st = st0.clone()
        ex.st.assume(z3.And(-128 <= ch, ch <= 127))
        v = ex.call_closure(clo, [ch])
        if isinstance(v, Lval): v = ex.load(v)
        v = ex.tobool(v)
        ex.st = st0
        blank = z3.Or(ch == 32, ch == 9)
        return Opq('text removed', {'of': b.d['of'], 'by': BLANKS if pr.prove([z3.And(-128 <= ch, ch <= 127)], v == blank, 3000) else z3.Function('without ' + re_name(z3.simplify(v)), STR, STR)})
    ex.ext['std::remove_if'] = remove_if
    def erase(ex, ref, this, args, e):
        a, b = vals(ex, args)
        if not (isinstance(a, Opq) and isinstance(b, Opq) and a.tag == 'text removed' and b.tag == 'text end' and same_lv(a.d['of'], this) and same_lv(b.d['of'], this)): raise Unsupported('erase')
        ex.st.set(this, a.d['by'](ex.st.get(this)))
        return VOID
    ex.ext['std::basic_string::erase'] = erase
    for n, so in (('stoi', I), ('stol', I), ('stoll', I), ('stoul', I), ('stoull', I), ('stof', R), ('stod', R), ('stold', R)):
        def conv(ex, ref, this, args, e, n=n, so=so):
            a = vals(ex, args)
            if any(isinstance(x, Ptr) and x.lv is not None for x in a[1:]) or any(isinstance(x, z3.ExprRef) and not (z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 10) for x in a[1:]): raise Unsupported(n + ' with more arguments')
            ex.throw_if(mkNot(number(n, a[0])), 'std::invalid_argument')
            return value(n, a[0])
        ex.ext['std::' + n] = conv
def number(n, s): return z3.Function('is a number for ' + n, STR, B)(s)
def value(n, s): return z3.Function('number by ' + n, STR, I if n in ('stoi', 'stol', 'stoll', 'stoul', 'stoull') else R)(s)
def re_name(e): return ' '.join(str(e).split())

# ------------------------------------------------------------------ maps from a fixed set of texts
def maps(ex):
    def ty_map(ex, ty, mk, name, arity): raise Unsupported('map without entries')
    def build(ex, ref, args, e):
        v = [x for x in vals(ex, args) if isinstance(x, Rec)]
        if len(v) != 1: raise Unsupported('map')
        m = v[0]
        if m.tag == 'map': return m
        out = {}
        for k in sorted(m.f, key=int):
            p = m.f[k]
            key = text_of(p.f['first'])
            if key is None: raise Unsupported('key of a map is not a literal')
            if key in [text_of(q.f['first']) for q in out.values()]: continue
            out[str(len(out))] = p
        return Rec('map', out)
    ex.ext_ctor['std::unordered_map'] = build
    ex.ext_ctor['std::map'] = build
    def keyeq(a, b):
        s, t = text_of(a), text_of(b)
        return V(s == t) if s is not None and t is not None else a == b
    def position(ex, this, key):
        m = ex.st.get(this)
        r = z3.IntVal(len(m.f))
        for k in sorted(m.f, key=int, reverse=True): r = mkIf(keyeq(key, m.f[k].f['first']), z3.IntVal(int(k)), r)
        return z3.simplify(r)
    def isin(ex, this, key): return mkOr(*[keyeq(key, p.f['first']) for p in ex.st.get(this).f.values()])
    for q in ('std::unordered_map', 'std::map'):
        ex.ext[q + '::find'] = lambda ex, ref, this, args, e: Ptr(this.i(position(ex, this, ex.rv(args[0]))))
        ex.ext[q + '::count'] = lambda ex, ref, this, args, e: mkIf(isin(ex, this, ex.rv(args[0])), V(1), V(0))
        ex.ext[q + '::contains'] = lambda ex, ref, this, args, e: isin(ex, this, ex.rv(args[0]))
        ex.ext[q + '::size'] = lambda ex, ref, this, args, e: V(len(ex.st.get(this).f))
        for n in ('begin', 'cbegin'): ex.ext[q + '::' + n] = lambda ex, ref, this, args, e: Ptr(this.i(V(0)))
        for n in ('end', 'cend'): ex.ext[q + '::' + n] = lambda ex, ref, this, args, e: Ptr(this.i(V(len(ex.st.get(this).f))))
        def at(ex, ref, this, args, e):
            key = ex.rv(args[0])
            ex.throw_if(mkNot(isin(ex, this, key)), 'std::out_of_range')
            return this.i(position(ex, this, key)).f('second')
        ex.ext[q + '::at'] = at
        def index(ex, ref, this, args, e):
            key = ex.rv(args[0])
            # a new key would be added: outside this contract
            if not pr_quick(ex, isin(ex, this, key)): raise Unsupported('a key may be added to the map')
            return this.i(position(ex, this, key)).f('second')
        ex.ext[q + '::operator[]'] = index
    def pr_quick(ex, g): return z3.is_true(g) or bool(ex.pr.prove(list(ex.st.pc), g, 3000))
    for q in ('std::__hash_map_iterator', 'std::__hash_map_const_iterator', 'std::__map_iterator', 'std::__map_const_iterator'):
        def step(ex, ref, this, args, e):
            v = ex.st.get(this)
            ex.st.set(this, ex.ptr_add(v, V(1)))
            return v if args else this
        ex.ext[q + '::operator++'] = step
        ex.ext[q + '::operator*'] = lambda ex, ref, this, args, e: ex.st.get(this).lv
        ex.ext[q + '::operator->'] = lambda ex, ref, this, args, e: ex.st.get(this)
        ex.ext_ctor[q] = lambda ex, ref, args, e: vals(ex, args)[0]

# ------------------------------------------------------------------ boost::format
FMT_N = z3.Function('format%number', STR, R, STR)
FMT_S = z3.Function('format%text', STR, STR, STR)
def fmt_arg(f, x):
    if x.sort() == STR: return FMT_S(f, x)
    if x.sort() == B: return FMT_N(f, mkIf(x, z3.RealVal(1), z3.RealVal(0)))
    return FMT_N(f, toReal(x))
def formats(ex):
    ex.ext_ctor['boost::basic_format'] = lambda ex, ref, args, e: [x for x in vals(ex, args) if isinstance(x, z3.ExprRef)][0]
    def arg(ex, ref, this, args, e):
        a, = vals(ex, args)
        return fmt_arg(ex.st.get(this), a)
    ex.ext['boost::basic_format::operator%'] = arg
    ex.ext['boost::basic_format::str'] = lambda ex, ref, this, args, e: ex.st.get(this)
    ex.ext['boost::str'] = lambda ex, ref, this, args, e: vals(ex, args)[0]
    def ty_format(ex, ty, mk, name, arity): return mk(name, arity, STR)
    lib.TYPES['boost::basic_format'] = ty_format

# ------------------------------------------------------------------ streams
class StreamError(Exception): pass
def new_row(): return Rec('row', dict({'fmt': lit('')}, **{'a%d' % k: z3.RealVal(0) for k in range(SLOTS)}))
def new_stream(ex, name):
    cols = {'fmt': ConstCol(1, lit(''))}
    for k in range(SLOTS): cols['a%d' % k] = ConstCol(1, z3.RealVal(0))
    return Rec('stream', {'name': name, 'rows': Arr('vector', [V(0)], Rec('row', cols), 0), 'cur': new_row()})
def used_slots(f): return f.count('\x01')
def put_text(ex, lv, s):
    """append literal text to the current line"""
    parts = s.split('\n')
    for j, p in enumerate(parts):
        if j: end_line(ex, lv)
        if p:
            l = lv.f('cur').f('fmt')
            ex.st.set(l, lift(concat, ex.st.get(l), lit(p)))
def put_value(ex, lv, x, mark='\x01'):
    l = lv.f('cur').f('fmt')
    t = text_of(ex.st.get(l))
    if t is None: raise Unsupported('text of a line depends on a condition')
    k = used_slots(t)
    if k >= SLOTS: raise Unsupported('too many values in a line')
    ex.st.set(l, lit(t + mark))
    ex.st.set(lv.f('cur').f('a%d' % k), toReal(x))
def end_line(ex, lv):
    row = ex.st.get(lv.f('cur'))
    lib.push_back(ex, lv.f('rows'), row)
    ex.st.set(lv.f('cur'), new_row())
def is_stream(v): return isinstance(v, Rec) and v.tag == 'stream'

def streams(ex, on_console=None):
    con = Opq('console')
    con.d['console'] = True
    for n in ('std::cout', 'std::cerr', 'std::clog'): ex.libs['globals'][n] = lambda ex: con
    def open_(ex, ref, args, e):
        a = [x for x in vals(ex, args) if isinstance(x, z3.ExprRef) and x.sort() == STR]
        if len(a) != 1: raise Unsupported('output file')
        return new_stream(ex, a[0])
    ex.ext_ctor['std::basic_ofstream'] = open_
    def put(ex, ref, this, args, e):
        if this is None: s = ex.ev(args[0]) if isinstance(args[0], dict) else args[0]; rest = args[1:]; pt = param_type(ref, 1)
        else: s, rest, pt = this, args, param_type(ref, 0)
        if not isinstance(s, Lval): raise Unsupported('temporary stream')
        x = ex.ev(rest[0]) if isinstance(rest[0], dict) else rest[0]
        if isinstance(x, Lval): x = ex.load(x)
        v = ex.st.get(s)
        endl = isinstance(x, FnV) and x.ref.get('n') in ('endl',)
        flush = isinstance(x, FnV) and x.ref.get('n') in ('flush',)
        if isinstance(v, Opq) and v.d.get('console'):
            if on_console: on_console(ex, x)
            return s
        if not is_stream(v): raise Unsupported('stream')
        ex.streams.add(s.root)
        if endl: end_line(ex, s)
        elif flush: pass
        elif isinstance(x, FnV): raise Unsupported('stream manipulator')
        elif isinstance(x, z3.ExprRef) and x.sort() == STR:
            t = text_of(x)
            if t is None: raise Unsupported('computed text')
            put_text(ex, s, t)
        elif isinstance(x, z3.ExprRef) and is_char(pt):
            if not z3.is_int_value(z3.simplify(x)): raise Unsupported('computed character')
            put_text(ex, s, chr(z3.simplify(x).as_long()))
        elif isinstance(x, z3.ExprRef) and x.sort() in (I, R): put_value(ex, s, x)
        else: raise Unsupported('output of %r' % (x,))
        return s
    ex.streams = set()
    ex.ext['std::operator<<'] = put
    ex.ext['std::basic_ostream::operator<<'] = put
    ex.ext['boost::operator<<'] = put
    ex.ext['std::basic_ofstream::close'] = lambda ex, ref, this, args, e: VOID
    ex.ext['std::basic_ostream::flush'] = lambda ex, ref, this, args, e: this

def exceptions(ex):
    def make(ex, ref, args, e):
        a = [x for x in vals(ex, args) if isinstance(x, z3.ExprRef) and x.sort() == STR]
        return Opq('exception', {'what': a[0] if a else lit('')})
    for q in ex.STD_EXC: ex.ext_ctor[q] = make
    def what(ex, ref, this, args, e):
        v = ex.st.get(this)
        if isinstance(v, Opq) and 'what' in v.d: return v.d['what']
        raise Unsupported('what')
    for q in ['std::exception'] + list(ex.STD_EXC): ex.ext[q + '::what'] = what

def install(ex, on_console=None):
    exceptions(ex)
    ptree(ex); strings(ex); texts(ex); maps(ex); formats(ex); streams(ex, on_console)
