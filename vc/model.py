"""Vocabulary of the specifications: the Computer's state, its invariant, and the mathematical functions the contracts use."""
import json, os, sys, time, hashlib, subprocess
from .terms import *
from .solve import *
from .execu import *
from . import loops

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VC_REPO', '/repo')
SRC = REPO + '/src/OpenMps'
BUILD = VERIF + '/build'
VARIANTS = {'main': [], 'gc': ['-DMPS_GC='], 'gc3': ['-DMPS_GC=', '-DDIM3='], 'd3': ['-DDIM3=']}
FLUID, WALL, DUMMY, DISABLED = 0, 1, 2, 3

def src_hash():
    h = hashlib.sha256()
    for r, d, fs in sorted(os.walk(SRC)):
        if '/test' in r: continue
        for f in sorted(fs):
            if f.endswith(('.hpp', '.cpp', '.h', '.cc', '.inl', '.ipp')):
                h.update(f.encode()); h.update(open(os.path.join(r, f), 'rb').read())
    for f in (VERIF + '/tool/export.cpp',): h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

class ExtractError(Exception): pass

def export(variant):
    os.makedirs(BUILD + '/exp', exist_ok=True)
    tool = BUILD + '/cxxexport'
    if not os.path.exists(tool):
        subprocess.run(['bash', VERIF + '/setup.sh'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = '%s/exp/%s-%s.json' % (BUILD, variant, src_hash())
    if not os.path.exists(out):
        for f in os.listdir(BUILD + '/exp'):
            if f.startswith(variant + '-') and time.time() - os.path.getmtime(BUILD + '/exp/' + f) > 7200:
                try: os.unlink(BUILD + '/exp/' + f)
                except OSError: pass
        tmp = '%s.%d' % (out, os.getpid())
        p = subprocess.run([tool, REPO + '/src', tmp, 'Main.cpp', '--', '-std=c++17', '-stdlib=libc++', '-fopenmp=libomp', '-O0', '-w'] + VARIANTS[variant],
                           cwd=SRC, capture_output=True, text=True)
        if p.returncode != 0 or not os.path.exists(tmp): raise ExtractError('exporting %s: %s' % (variant, (p.stderr or '')[-2000:]))
        os.replace(tmp, out)
    return json.load(open(out))

_mods = {}
def module(variant):
    if variant not in _mods: _mods[variant] = Module(export(variant))
    return _mods[variant]

# ------------------------------------------------------------------ mathematical vocabulary
def real(x): return z3.RealVal(str(x))
def dot(a, b):
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]): r = r + x * y
    return r
def vsub(a, b): return [x - y for x, y in zip(a, b)]
def vadd(a, b): return [x + y for x, y in zip(a, b)]
def vscale(k, a): return [k * x for x in a]
def norm(a): return SQRT(dot(a, a))
def Wk(r, re): return z3.If(z3.And(0 < r, r < re), re / r - 1, real(0))
EPS = z3.RealVal('1/4503599627370496')

class Particle:
    """view of one particle"""
    def __init__(self, x, u, p, n, ty, idx): self.x, self.u, self.p, self.n, self.type, self.id = x, u, p, n, ty, idx

class View:
    """readable view of a Computer value"""
    def __init__(self, val, dim):
        self.v, self.dim = val, dim
    def col(self, *path):
        v = self.v
        for p in path: v = v.f[p]
        return v
    @property
    def n(self): return self.v.f['particles'].dims[0]
    def vec(self, rec, idx): return [cread(rec.f[str(k)], idx) for k in range(self.dim)]
    def part(self, i):
        e = self.v.f['particles'].elem.f
        return Particle(self.vec(e['x'], [i]), self.vec(e['u'], [i]), cread(e['p'], [i]), cread(e['n'], [i]), cread(e['type'], [i]), i)
    def cnt(self, i): return cread(self.v.f['neighbor'].elem, [i, V(0)])
    def nb(self, i, idx): return cread(self.v.f['neighbor'].elem, [i, 1 + idx])
    def arr(self, name, i):
        a = self.v.f[name]
        return self.vec(a.elem, [i]) if isinstance(a.elem, Rec) else cread(a.elem, [i])
    def env(self, name):
        v = self.v.f['environment'].f[name]
        return self.vec(v, []) if isinstance(v, Rec) else v

def spp(s, i, D, nspp=None):
    """the virtual partner of particle i: (condition, particle)"""
    re, n0 = s.env('R_e'), s.env('n0')
    pi = s.part(i)
    thisN = s.arr('nWithoutSpp', i) if nspp is None else nspp
    g = [nbsum(s, i, lambda p, k=k: Wk(norm(vsub(p.x, pi.x)), re) * (p.x[k] - pi.x[k])) / n0 for k in range(D)]
    rg = norm(g)
    rspp = re / ((n0 - thisN) + 1)
    c = z3.And(thisN < n0, rg > EPS)
    x = [pi.x[k] - (rspp / rg) * g[k] for k in range(D)]
    return c, Particle(x, pi.u, real(0), real(0), z3.IntVal(FLUID), z3.IntVal(-1))

def inrange(s, i, p, pi):
    re = s.env('R_e')
    d = vsub(p.x, pi.x)
    return z3.And(p.id != i, dot(d, d) < re * re)

def nbsum(s, i, f, zero=None):
    """sum over the stored neighbours of i that are closer than the influence radius"""
    k = binder('nb')
    pi = s.part(i)
    p = s.part(s.nb(i, k))
    b = f(p)
    return mk_sum(k, V(0), s.cnt(i), z3.If(inrange(s, i, p, pi), b, real(0) if b.sort() == R else V(0)))

def acc(s, i, D, f, nspp=None):
    """interaction sum: stored neighbours within the radius, plus the virtual partner where it acts"""
    r = nbsum(s, i, f)
    c, q = spp(s, i, D, nspp)
    return r + z3.If(c, f(q), real(0))

# ------------------------------------------------------------------ running functions under the class invariant
class Run:
    """symbolic execution of one method from an arbitrary state satisfying the invariant"""
    def __init__(self, variant='main', timeout=4000):
        self.variant = variant
        self.m = module(variant)
        self.D = 3 if variant in ('gc3', 'd3') else 2
        self.pr = Prover(timeout)
        self.ex = Exec(self.m, self.pr, self.D)
        self.ex.st = State()
        self.assumed = []
    def cls(self, name):
        for k, r in self.m.rec.items():
            if detemplate(strip_q(r['q'])) == name: return k, r
        raise Unsupported('class %s' % name)
    def make(self, name, prefix='C'):
        k, r = self.cls(name)
        ex = self.ex
        v = ex.mkval({'t': 'rec', 'q': r['q'], 'id': int(k)}, ex.mk_named(''), prefix)
        return ex.newroot(v, 'this')
    def computer(self, wf=True, enough_env=True):
        ex = self.ex
        self.this = self.make('Computer')
        v = ex.st.mem[self.this.root]
        # std::vector<Particle>::size etc. are natural numbers
        self.wall_hooks()
        v = ex.st.mem[self.this.root]
        self.pre = View(v, self.D)
        if wf: self.invariant()
        return self
    def wall_hooks(self):
        """the two user supplied functions are arbitrary"""
        ex, D = self.ex, self.D
        v = ex.st.mem[self.this.root]
        PW = [z3.Function('posWall.%d' % k, I, R, R, R) for k in range(D)]
        self.PW = PW
        def wall(ex, args):
            i, t, dt = [ex.rv(a) if isinstance(a, dict) else (ex.load(a) if isinstance(a, Lval) else a) for a in args]
            return Rec('vec', {str(k): PW[k](i, t, dt) for k in range(D)})
        TOK = z3.Function('prepared', I, R, R, I)
        self.TOK = TOK
        self.tok = ex.newroot(z3.IntVal(0), 'ghost.prepared')
        tok = self.tok
        def pre(ex, args):
            t, dt = [ex.rv(a) if isinstance(a, dict) else (ex.load(a) if isinstance(a, Lval) else a) for a in args]
            ex.st.set(tok, TOK(ex.st.get(tok), t, dt))
            return VOID
        ow, op = ex.newroot(Opq('wall', {'call': wall}), 'wall'), ex.newroot(Opq('wallpre', {'call': pre}), 'wallpre')
        ex.st.mem[self.this.root] = v.set('positionWall', RefV(ow)).set('positionWallPre', RefV(op))
    def requires(self, name, e):
        self.assumed.append(name)
        self.ex.st.assume(e)
    def fact(self, names, fn, text):
        self.assumed.append(text)
        self.pr.add_fact(Fact(names, fn, text))
    def invariant(self):
        s, ex = self.pre, self.ex
        n = s.n
        C = s.v
        self.requires('0 <= particle count', n >= 0)
        for nm in ('du', 'ecs', 'originalX', 'nWithoutSpp'):
            if nm in C.f: self.requires('%s has an entry per particle' % nm, C.f[nm].dims[0] == n)
        nbr = C.f['neighbor']
        self.requires('neighbour table has a row per particle', nbr.dims[0] == n)
        self.requires('neighbour rows have room for the count', nbr.dims[1] >= 1)
        g = C.f['grid'].f
        D = self.D
        MAXB = 3 ** D
        dd = g['data'].dims
        for k in range(D): self.requires('grid has at least two cells per axis', dd[k] >= 2)
        self.requires('cells have at least one slot', dd[D] >= 2)
        self.requires('neighbour rows hold all slots of the searched cells', nbr.dims[1] == 1 + (dd[D] - 1) * MAXB)
        self.requires('cell edge is the neighbour length', g['blockLength'] == s.env('NeighborLength'))
        for k in range(D):
            self.requires('grid origin is the lower corner', g['origin'].f[str(k)] == s.env('MinX')[k])
        for nm in ('R_e', 'n0', 'Rho', 'L_0', 'NeighborLength', 'MaxDx', 'MaxDt', 'dt'):
            self.requires('%s > 0' % nm, s.env(nm) > 0)
        self.requires('Nu >= 0', s.env('Nu') >= 0)
        self.requires('neighbour length >= influence radius', s.env('NeighborLength') >= s.env('R_e'))
        pp = C.f['ppe'].f
        m = pp['b'].dims[0]
        self.requires('0 <= size of the pressure system', m >= 0)
        for a in [pp['x'], pp['A'], pp['tempA'], pp['cg'].f['r'], pp['cg'].f['p'], pp['cg'].f['Ap'], pp['a_ij']]:
            for d in a.dims: self.requires('all parts of the pressure system have the same size', d == m)
        e = C.f['particles'].elem.f
        self.fact([e['type'].decl.name()], lambda a: [z3.And(0 <= a, a <= 3)], 'particle types are the declared enumerators')
        nd = nbr.elem.decl
        active = lambda i: z3.And(0 <= i, i < n, s.part(i).type != DISABLED)
        def nbfact(a):
            i, c = a.children()
            cnt = nd(i, V(0))
            out = [a >= 0]
            if z3.is_int_value(c) and c.as_long() == 0:
                out.append(z3.Implies(active(i), 1 + a <= nbr.dims[1]))
            else:
                out.append(z3.Implies(z3.And(active(i), 1 <= c, c < 1 + cnt),
                                      z3.And(0 <= a, a < n, a != i, s.part(a).type != DISABLED)))
            return out
        self.fact([nd.name()], nbfact, 'neighbour lists (contract of the search): entries are other, active, existing particles; counts fit the row')
    def method(self, name, args=(), pred=None, this='this'):
        f = self.m.find(name, pred)
        fr = Frame(f, {}, self.this)
        for p, a in zip(f['params'], args): fr.env[p['id']] = a if isinstance(a, Lval) else self.ex.newroot(a, p['n'] or 'p')
        ex = self.ex
        v = ex.run_body(f, fr, f['ref']['ret'])
        self.post = View(ex.st.mem[self.this.root], self.D)
        return v
    @property
    def hyps(self): return list(self.ex.st.pc)
    # -------------------------------------------------------------- frame conditions
    def frame(self, changed, hyps=None, only=None):
        """obligations: every leaf of the object not listed is the same as before. changed: set of path prefixes"""
        out = []
        for (p, a), (p2, b) in zip(loops.leaves(self.pre.v), loops.leaves(self.post.v)):
            nm = '.'.join(str(x[1]) if x[0] in 'fd' else '' for x in p).replace('..', '.').strip('.')
            if p and p[-1][0] == 'd': nm = nm.rsplit('.', 1)[0] + '.size' + nm.rsplit('.', 1)[-1]
            if any(nm == c or nm.startswith(c + '.') for c in changed): continue
            if only and not any(nm == c or nm.startswith(c + '.') for c in only): continue
            if loops.leaf_eq_(a, b): continue
            if not isinstance(a, (z3.ExprRef, Col)): raise Unsupported('opaque member %s changes' % nm)
            ar = 0 if isinstance(a, z3.ExprRef) else a.arity
            idx = [z3.Const('fr%d!%s' % (k, nm), I) for k in range(ar)]
            # elements inside the array's dimensions
            rng = []
            dims = self.dims_of(p)
            for x, d in zip(idx, dims): rng += [0 <= x, x < d]
            out.append(('unchanged:' + nm, rng, cread(a, idx) == cread(b, idx)))
        return out
    def dims_of(self, path):
        v, out = self.pre.v, []
        for p in path:
            if isinstance(v, Arr) and p[0] == 'e':
                out += v.dims
            v = loops.leaf_get(v, (p,))
        return out
def _bind(self, f, args):
    fr = Frame(f, {}, self.this)
    for p, a in zip(f['params'], args):
        fr.env[p['id']] = self.ex.newroot(a, p['n'] or 'p')
    return fr
Run.bind = _bind
Run.vec = lambda self, x: Rec('vec', {str(k): v for k, v in enumerate(x)})
def _particle(self, a):
    k, rec = self.cls('Particle')
    return Rec(strip_q(rec['q']), {'x': self.vec(a.x), 'u': self.vec(a.u), 'p': a.p, 'n': a.n, 'type': a.type}, int(k))
Run.particle = _particle
def _ctor(self, cls, args, pred=None):
    """run a constructor of the program on already evaluated arguments; returns the value"""
    f = self.m.find('%s::%s' % (cls, cls.split('::')[-1]), pred)
    v = self.ex.construct(f['ref'], list(args), None)
    return v
Run.ctor = _ctor
def _plain_call(self, f, args):
    """run a free or static function on already evaluated arguments"""
    fr = Frame(f, {}, None)
    for p, a in zip(f['params'], args): fr.env[p['id']] = a if isinstance(a, Lval) else self.ex.newroot(a, p['n'] or 'p')
    return self.ex.run_body(f, fr, f['ref']['ret'])
Run.plain_call = _plain_call
