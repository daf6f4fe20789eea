"""The properties as contracts: for each property the functions it is decided on and their postconditions."""
from .terms import *
from .solve import *
from .execu import *
from .model import *
from .driver import *
from .inv import *

SPECS = {}
HARNESS = {'C19': ('gc', 'gc3')}   # build variants the replay harness uses (default: main)
# build variants a property is decided on: those of the quick tier and those the thorough tier adds
GRADIENT = ('C03', 'C05', 'C09', 'C11', 'C18', 'C25', 'C28')      # reach the gradient phase, where MPS_GC changes the code
SLOW_D3 = ('C02', 'C03', 'C04', 'C05', 'C14', 'C18', 'C28')              # minutes rather than seconds in three dimensions
def variants_of(pid, tier):
    if pid == 'C19': return ('gc', 'gc3')
    q = ('main',) if pid in SLOW_D3 else ('main', 'd3')
    if tier == 'quick': return q
    return ('main', 'd3') + (('gc',) if pid in GRADIENT else ())

def spec(pid, tier='quick'):
    """one part of the contract of a property, applied to one build variant after the other; parts and variants fail to extract independently"""
    def deco(f):
        f.tier = tier
        SPECS.setdefault(pid, []).append(f)
        return f
    return deco

ix = lambda n: z3.Const(n, I)
def neither(p, *ts): return z3.And(*[p.type != t for t in ts])
def fluid(p): return p.type == FLUID
def live(p): return neither(p, DUMMY, DISABLED)

def vec_ob(c, r, name, hyps, got, want):
    for k, (a, b) in enumerate(zip(got, want)): c.ob(r, '%s[%d]' % (name, k), hyps, a == b)

# ------------------------------------------------------------------ C06
@spec('C06')
def c06(c, variants):
    for v in variants:
        r = c.exec('ComputeNeighborDensities', v)
        s, D = r.pre, r.D
        i = ix('i'); p, q = s.part(i), r.post.part(i)
        re, n0 = s.env('R_e'), s.env('n0')
        S = nbsum(s, i, lambda x: Wk(norm(vsub(x.x, p.x)), re))
        h = r.hyps + [0 <= i, i < s.n]
        c.vacuity(r, h + [live(p), S < n0], 'C06')
        c.ob(r, 'density is max(n0, kernel sum)', h, q.n == z3.If(live(p), z3.If(S >= n0, S, n0), p.n))
        c.ob(r, 'own density without the virtual particle', h, r.post.arr('nWithoutSpp', i) == z3.If(live(p), S, n0))
        c.frame(r, {'particles.n', 'nWithoutSpp'})
        c.structural(r)

# ------------------------------------------------------------------ C10, C11
def explicit_spec(r, i):
    s, D = r.pre, r.D
    re, n0, nu, dt, t = s.env('R_e'), s.env('n0'), s.env('Nu'), s.env('dt'), s.env('t')
    p = s.part(i)
    G = s.env('G')
    def term(k):
        def f(q):
            d = norm(vsub(q.x, p.x))
            return z3.If(q.type != DUMMY, nu * (5 - D) * re / n0 / (d * d * d) * (q.u[k] - p.u[k]), real(0))
        return f
    a = [acc(s, i, D, term(k)) + G[k] for k in range(D)]
    u = [p.u[k] + a[k] * dt for k in range(D)]
    x = [p.x[k] + u[k] * dt for k in range(D)]
    return u, x

@spec('C10')
def c10(c, variants):
    for v in variants:
        r = c.exec('ComputeExplicitForces', v)
        s, D = r.pre, r.D
        i = ix('i'); p, q = s.part(i), r.post.part(i)
        u, x = explicit_spec(r, i)
        h = r.hyps + [0 <= i, i < s.n, fluid(p)]
        c.vacuity(r, h, 'C10')
        vec_ob(c, r, 'fluid velocity after the predictor', h, q.u, u)
        vec_ob(c, r, 'fluid position after the predictor', h, q.x, x)
        c.frame(r, {'particles.x', 'particles.u', 'du'})
        c.structural(r)

@spec('C11')
def c11(c, variants):
    for v in variants:
        r = c.exec('ComputeExplicitForces', v)
        s, D = r.pre, r.D
        i = ix('i'); p, q = s.part(i), r.post.part(i)
        t, dt = s.env('t'), s.env('dt')
        h = r.hyps + [0 <= i, i < s.n, z3.Not(fluid(p))]
        c.vacuity(r, h, 'C11')
        w = [r.PW[k](i, t, dt) for k in range(D)]
        vec_ob(c, r, 'non-fluid position is the prescribed one', h, q.x, w)
        vec_ob(c, r, 'non-fluid velocity is displacement over dt', h, q.u, [(w[k] - p.x[k]) / dt for k in range(D)])
        c.ob(r, 'the preparation is called exactly once, with t and dt', r.hyps, r.ex.st.get(r.tok) == r.TOK(z3.IntVal(0), t, dt))
        c.structural(r)
        for m in ('ModifyByPressureGradient', 'DynamicStabilize'):
            r = c.exec(m, v)
            s = r.pre
            i = ix('i'); p, q = s.part(i), r.post.part(i)
            h = r.hyps + [0 <= i, i < s.n, z3.Not(fluid(p))]
            vec_ob(c, r, m + ' keeps non-fluid positions', h, q.x, p.x)
            vec_ob(c, r, m + ' keeps non-fluid velocities', h, q.u, p.u)
            c.structural(r)

# ------------------------------------------------------------------ C16
def gradient_spec(r, i):
    s, D = r.pre, r.D
    re, n0, rho, dt = s.env('R_e'), s.env('n0'), s.env('Rho'), s.env('dt')
    p = s.part(i)
    def term(k):
        def f(q):
            d = vsub(q.x, p.x)
            r2 = dot(d, d)
            return z3.If(q.type != DUMMY, (q.p + p.p) / r2 * Wk(SQRT(r2), re) * d[k], real(0))
        return f
    d = [-(dt * D) / (rho * n0) * acc(s, i, D, term(k)) for k in range(D)]
    return d

@spec('C16')
def c16(c, variants):
    for v in variants:
        r = c.exec('ModifyByPressureGradient', v)
        s, D = r.pre, r.D
        dt = s.env('dt')
        i = ix('i'); p, q = s.part(i), r.post.part(i)
        d = gradient_spec(r, i)
        h = r.hyps + [0 <= i, i < s.n]
        c.vacuity(r, h + [fluid(p)], 'C16')
        vec_ob(c, r, 'velocity change is the pressure gradient', h + [fluid(p)], q.u, [p.u[k] + d[k] for k in range(D)])
        vec_ob(c, r, 'position change is dt times the velocity change', h + [fluid(p)], q.x, [p.x[k] + dt * d[k] for k in range(D)])
        vec_ob(c, r, 'non-fluid velocity kept', h + [z3.Not(fluid(p))], q.u, p.u)
        vec_ob(c, r, 'non-fluid position kept', h + [z3.Not(fluid(p))], q.x, p.x)
        c.frame(r, {'particles.x', 'particles.u', 'du'})
        c.structural(r)
        # lemma over the contract: the pair term is antisymmetric
        A, B_ = pair('a', D), pair('b', D)
        re = s.env('R_e')
        def g(a, b, k):
            d = vsub(b.x, a.x); r2 = dot(d, d)
            return (b.p + a.p) / r2 * Wk(SQRT(r2), re) * d[k]
        for k in range(D): c.ob(r, 'lemma: pair term antisymmetric[%d]' % k, [], g(A, B_, k) == -g(B_, A, k), 'lemma')

def pair(nm, D):
    z = lambda x: z3.Const(nm + x, R)
    return Particle([z('x%d' % k) for k in range(D)], [z('u%d' % k) for k in range(D)], z('p'), z('n'), z3.Const(nm + 't', I), z3.Const(nm + 'i', I))

# ------------------------------------------------------------------ C17
@spec('C17')
def c17(c, variants):
    for v in variants:
        r = c.exec('DynamicStabilize', v)
        s, D = r.pre, r.D
        dt, n0 = s.env('dt'), s.env('n0')
        d = s.env('L_0') - s.env('MaxDx')
        i = ix('i'); p, q = s.part(i), r.post.part(i)
        def ds(a, b, xa, xb, k):
            dx0 = vsub(xb, xa)
            l0 = norm(dx0)
            return push(vsub(b.x, a.x), [y / l0 for y in dx0], k)
        def push(dx, e, k):
            par = dot(dx, e)
            perp = [dx[m] - par * e[m] for m in range(D)]
            return z3.If(dot(dx, dx) < d * d, (SQRT(d * d - dot(perp, perp)) - par) * e[k], real(0))
        def term(k):
            return lambda b: z3.If(z3.And(b.type != DUMMY, b.id >= 0), ds(p, b, s.arr('originalX', i), s.arr('originalX', b.id), k), real(0))
        # only stored neighbours take part: a sum without virtual partner
        ch = [-1 / (2 * dt * n0) * nbsum(s, i, term(k)) for k in range(D)]
        h = r.hyps + [0 <= i, i < s.n]
        c.vacuity(r, h + [fluid(p)], 'C17')
        vec_ob(c, r, 'velocity change', h + [fluid(p)], q.u, [p.u[k] + ch[k] for k in range(D)])
        vec_ob(c, r, 'position change', h + [fluid(p)], q.x, [p.x[k] + dt * ch[k] for k in range(D)])
        vec_ob(c, r, 'non-fluid velocity kept', h + [z3.Not(fluid(p))], q.u, p.u)
        vec_ob(c, r, 'non-fluid position kept', h + [z3.Not(fluid(p))], q.x, p.x)
        c.frame(r, {'particles.x', 'particles.u', 'du'})
        c.structural(r)
        # exchanging the two particles turns the distance and the direction round; the term then changes sign
        xa, xb = [z3.Const('xa%d' % k, R) for k in range(D)], [z3.Const('xb%d' % k, R) for k in range(D)]
        c.ob(r, 'lemma: both distances at the snapshot agree', [], norm(vsub(xb, xa)) == norm(vsub(xa, xb)), 'lemma')
        dx, e = [z3.Const('dx%d' % k, R) for k in range(D)], [z3.Const('e%d' % k, R) for k in range(D)]
        for k in range(D): c.ob(r, 'lemma: pair term antisymmetric[%d]' % k, [], push(dx, e, k) == -push([-y for y in dx], [-y for y in e], k), 'lemma')
        r = c.exec('SaveX', v)
        s = r.pre
        p = s.part(i)
        h = r.hyps + [0 <= i, i < s.n]
        vec_ob(c, r, 'snapshot of the position', h + [live(p)], r.post.arr('originalX', i), p.x)
        c.frame(r, {'originalX'})
        c.structural(r)

# ------------------------------------------------------------------ C26
def hs_speed(s, i, D):
    p = s.part(i)
    re, n0 = s.env('R_e'), s.env('n0')
    def f(q):
        dx, du = vsub(q.x, p.x), vsub(q.u, p.u)
        d = norm(dx)
        return dot(dx, du) / (d * d * d)
    return z3.If(s.arr('nWithoutSpp', i) < n0, real(0), -re * acc(s, i, D, f))

@spec('C26')
def c26(c, variants):
    for v in variants:
        r = c.exec('ComputeErrorCorrection', v)
        s, D = r.pre, r.D
        n0 = s.env('n0')
        i = ix('i'); p = s.part(i)
        sp = hs_speed(s, i, D)
        e = (p.n - n0) / n0
        ab = lambda x: z3.If(x >= 0, x, -x)
        h = r.hyps + [0 <= i, i < s.n]
        c.vacuity(r, h + [live(p)], 'C26')
        c.ob(r, 'error correction', h, r.post.arr('ecs', i) == z3.If(live(p), ab(e) * sp + ab(sp) * e, s.arr('ecs', i)))
        c.frame(r, {'ecs'})
        c.structural(r)
        r = c.run(v).computer(); r.func = 'NeighborDensityVariationSpeed'
        s = r.pre
        r.requires('an existing active particle', z3.And(0 <= i, i < s.n, s.part(i).type != DISABLED))
        val = r.method('Computer::NeighborDensityVariationSpeed', [i])
        c.ob(r, 'growth rate', r.hyps, val == hs_speed(s, i, D))
        c.frame(r, set())
        c.structural(r)

# ------------------------------------------------------------------ C01
@spec('C01')
def c01(c, variants):
    for v in variants:
        r = c.run(v).computer(); r.func = 'Particle::W'
        x, re = z3.Const('r', R), z3.Const('r_e', R)
        f = r.m.find('Particle::W')
        val = r.ex.run_body(f, r.bind(f, [x, re]), f['ref']['ret'])
        c.ob(r, 'W is the MPS kernel', r.hyps + [re > 0, x >= 0], val == Wk(x, re))
        c.structural(r)
        c.vacuity(r, r.hyps + [re > 0, x >= 0], 'C01')
        # lemmas over the contract
        y = z3.Const('r2', R)
        c.ob(r, 'lemma: W is never negative', [re > 0, x >= 0], Wk(x, re) >= 0, 'lemma')
        c.ob(r, 'lemma: W is strictly decreasing inside the radius', [re > 0, 0 < x, x < y, y < re], Wk(x, re) > Wk(y, re), 'lemma')
        c.ob(r, 'lemma: W is positive inside the radius', [re > 0, 0 < x, x < re], Wk(x, re) > 0, 'lemma')
        e = z3.Const('eps', R)
        c.ob(r, 'lemma: W goes to 0 at the radius', [re > 0, 0 < e, re / (1 + e) < x, x < re], Wk(x, re) < e, 'lemma')
        fs = r.m.find('Computer::R', many=True)
        for f in fs:
            r = c.run(v).computer(); r.func = 'Computer::R'
            a, b = pair('a', r.D), pair('b', r.D)
            args = [r.vec(a.x), r.vec(b.x)] if not f['params'][0]['type'].get('q', '').endswith('Particle') else [r.particle(a), r.particle(b)]
            val = r.ex.run_body(f, r.bind(f, args), f['ref']['ret'])
            c.ob(r, 'R is the Euclidean distance', r.hyps, val == norm(vsub(a.x, b.x)))
            c.ob(r, 'lemma: R symmetric', [], norm(vsub(a.x, b.x)) == norm(vsub(b.x, a.x)), 'lemma')
            z = vsub(a.x, b.x)
            same = z3.And(*[p == q for p, q in zip(a.x, b.x)])
            c.ob(r, 'lemma: R zero only for coincident points', [norm(z) == 0], same, 'lemma')
            c.ob(r, 'lemma: R zero for coincident points', [same], norm(z) == 0, 'lemma')
            c.structural(r)

# ------------------------------------------------------------------ C25
@spec('C25')
def c25(c, variants):
    """AccumulateNeighbor against an arbitrary contribution function: every phase's interaction sum has exactly this shape"""
    for v in variants:
        r = c.exec('ModifyByPressureGradient', v)
        # geometric lemmas over the contract of the virtual partner
        s, D = r.pre, r.D
        i = ix('i')
        cnd, q = spp(s, i, D)
        p = s.part(i)
        re, n0, N = s.env('R_e'), s.env('n0'), s.arr('nWithoutSpp', i)
        h = r.hyps + [0 <= i, i < s.n, cnd]
        g = [z3.Const('g%d' % k, R) for k in range(D)]
        rg = norm(g)
        rs = re / ((n0 - N) + 1)
        dx = [-(rs / rg) * gk for gk in g]
        base = [re > 0, n0 > 0, N < n0, rg > EPS]
        c.ob(r, 'lemma: virtual partner lies at r_e/(n0-n+1)', base, dot(dx, dx) == rs * rs, 'lemma')
        c.ob(r, 'lemma: inside the radius', base, z3.And(0 < rs, rs < re), 'lemma')
        c.ob(r, 'lemma: its weight is the missing density', base, Wk(rs, re) == n0 - N, 'lemma')
        c.ob(r, 'lemma: it lies opposite to the weighted centre', base, dot(dx, g) < 0, 'lemma')

# ------------------------------------------------------------------ vocabulary of the neighbour grid
def cell_of(s, x, D):
    """index of the search cell that contains position x"""
    bl = s.env('NeighborLength')
    mn = s.env('MinX')
    return [FLOOR((x[k] - mn[k]) / bl) for k in range(D)]
def grid_dims(s, D): return s.v.f['grid'].f['data'].dims[:D]
def covered(s, x, D):
    return z3.And(*[z3.And(0 <= c, c < d) for c, d in zip(cell_of(s, x, D), grid_dims(s, D))])

METHODS = ['SearchNeighbor', 'ComputeNeighborDensities', 'ComputeErrorCorrection', 'ComputeExplicitForces', 'SaveX',
           'SetPressurePoissonEquation', 'ModifyByPressureGradient', 'DynamicStabilize']
def no_overload(m): return None

def implicit_contracts(r):
    """ComputeImplicitForces against the contracts of building (C12, C13) and solving (C14) the pressure system"""
    ex = r.ex
    r.calls = []
    def pp(ex): return ex.st.get(r.this.f('ppe'))
    def build(ex, ref, this, args):
        n = ex.st.mem[r.this.root].f['particles'].dims[0]
        v = pp(ex)
        h = ex.havoc_like(v, 'built')
        def fix(name, k):
            nonlocal h
            h = h.set(name, Arr(h.f[name].kind, [n] * k, h.f[name].elem, h.f[name].ar))
        for nm, k in (('A', 2), ('x', 1), ('b', 1), ('tempA', 2)): fix(nm, k)
        cg = h.f['cg']
        for nm in cg.f: cg = cg.set(nm, Arr(cg.f[nm].kind, [n], cg.f[nm].elem, cg.f[nm].ar))
        h = h.set('cg', cg).set('a_ij', Arr(v.f['a_ij'].kind, [n], v.f['a_ij'].elem, v.f['a_ij'].ar)).set('allowableResidual', v.f['allowableResidual'])
        r.calls.append(('build', View(ex.st.mem[r.this.root], r.D), h))
        ex.st.set(r.this.f('ppe'), h)
        return VOID
    def solve(ex, ref, this, args):
        v = pp(ex)
        x = v.f['x']
        nx = Arr(x.kind, x.dims, Base(z3.Function('solved', I, R), 1, R), x.ar)
        cg = v.f['cg']
        hc = ex.havoc_like(cg, 'cg')
        hc = Rec(cg.tag, {k: Arr(cg.f[k].kind, cg.f[k].dims, hc.f[k].elem, cg.f[k].ar) for k in cg.f}, cg.ty)
        r.calls.append(('solve', View(ex.st.mem[r.this.root], r.D), v))
        ex.st.set(r.this.f('ppe'), v.set('x', nx).set('cg', hc))
        return VOID
    ex.contracts['Computer::SetPressurePoissonEquation'] = build
    ex.contracts['Computer::SolvePressurePoissonEquation'] = solve
    r.solved = z3.Function('solved', I, R)

# ------------------------------------------------------------------ C18
@spec('C18')
def c18(c, variants):
    for v in variants:
        for m in ('ComputeNeighborDensities', 'ComputeErrorCorrection', 'ComputeExplicitForces', 'ModifyByPressureGradient', 'DynamicStabilize', 'SaveX'):
            r = c.exec(m, v)
            c.take(r, RACE)
@spec('C18')
def c18_ppe(c, variants):
    for v in variants:
        r = c.exec('SetPressurePoissonEquation', v)
        c.take(r, RACE)
        r = c.exec('ComputeImplicitForces', v, prepare=implicit_contracts)
        c.take(r, RACE)
@spec('C18')
def c18_search(c, variants):
    for v in variants:
        r = c.exec('SearchNeighbor', v)
        c.take(r, RACE)

# ------------------------------------------------------------------ C03
@spec('C03')
def c03(c, variants):
    for v in variants:
        for m in METHODS:
            r = c.exec(m, v)
            c.take(r, MEMORY)
            if m == 'SearchNeighbor':
                # the only exception is the full cell, raised before anything is written
                c.nothrow(r, allow=('Grid::Exception',))
        r = c.exec('ComputeImplicitForces', v, prepare=implicit_contracts)
        c.take(r, MEMORY)
        r = c.exec('DetermineDt', v)
        c.take(r, MEMORY)

# ------------------------------------------------------------------ C04
@spec('C04')
def c04(c, variants):
    for v in variants:
        r = c.exec('SearchNeighbor', v)
        s, D = r.pre, r.D
        i = ix('i'); p, q = s.part(i), r.post.part(i)
        h = r.hyps + [0 <= i, i < s.n]
        c.vacuity(r, h, 'C04')
        c.ob(r, 'exactly the particles outside the covered cells are disabled', h,
             q.type == z3.If(z3.Or(p.type == DISABLED, covered(s, p.x, D)), p.type, DISABLED))
        c.ob(r, 'the number of particles is kept', r.hyps, r.post.n == s.n)
        c.frame(r, {'particles.type', 'neighbor', 'grid.data'})
        c.structural(r, allow=('Grid::Exception',))
        for m in [x for x in METHODS if x != 'SearchNeighbor'] + ['ComputeImplicitForces', 'DetermineDt']:
            r = c.exec(m, v, prepare=implicit_contracts if m == 'ComputeImplicitForces' else None)
            c.frame(r, set(), only=('particles.type', 'particles.size0'))
            c.structural(r)
@spec('C04')
def c04_grid(c, variants):
    """the covered region contains the configured domain"""
    for v in variants:
        r = c.run(v).computer(wf=False); r.func = 'Grid::Grid'
        D = r.D
        nl, l0 = z3.Const('nl', R), z3.Const('l0', R)
        mn, mx = [z3.Const('min%d' % k, R) for k in range(D)], [z3.Const('max%d' % k, R) for k in range(D)]
        for e in [nl > 0, l0 > 0] + [mn[k] < mx[k] for k in range(D)]: r.requires('positive lengths, a non-empty domain', e)
        g = r.ctor('Grid', [nl, l0, r.vec(mn), r.vec(mx)])
        x = [z3.Const('x%d' % k, R) for k in range(D)]
        inside = [z3.And(mn[k] <= x[k], x[k] <= mx[k]) for k in range(D)]
        for k in range(D):
            c.ob(r, 'the cells cover the domain, axis %d' % k, r.hyps + inside, z3.And(0 <= FLOOR((x[k] - mn[k]) / nl), FLOOR((x[k] - mn[k]) / nl) < g.f['data'].dims[k]))
            c.ob(r, 'origin, axis %d' % k, r.hyps, g.f['origin'].f[str(k)] == mn[k])
            c.ob(r, 'at least two cells, axis %d' % k, r.hyps, g.f['data'].dims[k] >= 2)
        c.ob(r, 'cell edge', r.hyps, g.f['blockLength'] == nl)
        c.ob(r, 'at least one slot', r.hyps, g.f['data'].dims[D] >= 2)
        c.structural(r)
        c.vacuity(r, r.hyps, 'C04 grid')

# ------------------------------------------------------------------ C08
@spec('C08')
def c08(c, variants):
    for v in variants:
        r = c.run(v).computer(); r.func = 'DetermineDt'
        s, D = r.pre, r.D
        dt = toReal(r.method('Computer::DetermineDt'))
        j = ix('j')
        p = s.part(j)
        mdt, mdx = s.env('MaxDt'), s.env('MaxDx')
        c.vacuity(r, r.hyps, 'C08')
        c.ob(r, 'positive', r.hyps, dt > 0)
        c.ob(r, 'at most the configured maximum', r.hyps, dt <= mdt)
        c.ob(r, 'no active particle moves farther than allowed', r.hyps + [0 <= j, j < s.n, p.type != DISABLED], norm(p.u) * dt <= mdx)
        k = binder('k')
        d2 = z3.Const('other_dt', R)
        pk = s.part(k)
        safe = mk_comp('all', k, [V(0), s.n, mkImp(pk.type != DISABLED, norm(pk.u) * d2 <= mdx)], B)
        c.ob(r, 'no larger step is safe', r.hyps + [0 < d2, d2 <= mdt, safe], d2 <= dt)
        c.frame(r, set())
        c.structural(r)

def environment(c, v):
    r = c.run(v).computer(wf=False); r.func = 'Environment::Environment'
    f = r.m.find('Environment::Environment', lambda f: len(f['params']) > 3)
    a = {p['n']: z3.Const('a.' + p['n'], R) for p in f['params']}
    for k in ('maxDt', 'courant', 'g', 'rho', 'r_eByl_0', 'l_0'): r.requires('%s > 0' % k, a[k] > 0)
    r.requires('nu >= 0', a['nu'] >= 0)
    r.env = r.ctor('Environment', [a[p['n']] for p in f['params']], lambda f: len(f['params']) > 3)
    return r, a

@spec('C08')
def c08_env(c, variants):
    for v in variants:
        r, a = environment(c, v)
        e = r.env.f
        m = toReal(e['MaxDt'])
        c.ob(r, 'maximum step positive', r.hyps, m > 0)
        c.ob(r, 'maximum step at most the configured one', r.hyps, m <= a['maxDt'])
        c.ob(r, 'gravity moves a particle at rest at most the Courant fraction', r.hyps, a['g'] * m * m <= 2 * a['courant'] * a['l_0'])
        c.ob(r, 'as large as both allow', r.hyps, z3.Or(m == a['maxDt'], a['g'] * m * m == 2 * a['courant'] * a['l_0']))
        c.ob(r, 'maximum displacement', r.hyps, e['MaxDx'] == a['courant'] * a['l_0'])
        c.structural(r)
        c.vacuity(r, r.hyps, 'C08 environment')

# ------------------------------------------------------------------ C07
@spec('C07')
def c07(c, variants):
    for v in variants:
        r, a = environment(c, v)
        D = r.D
        e = r.env.f
        l0, cr, ra, g = a['l_0'], a['courant'], a['r_eByl_0'], a['g']
        q = lambda nm, want: c.ob(r, nm, r.hyps, e[nm] == want)
        q('L_0', l0); q('MaxDx', cr * l0); q('R_e', ra * l0); q('NeighborLength', ra * l0 * (1 + 2 * cr)); q('Rho', a['rho']); q('Nu', a['nu'])
        q('t', z3.RealVal(0)); q('dt', z3.RealVal(0))
        t = SQRT(2 * cr * l0 / g)
        q('MaxDt', z3.If(t < a['maxDt'], t, a['maxDt']))
        ax = 'XYZ' if D == 3 else 'XZ'
        for k in range(D):
            c.ob(r, 'G[%d]' % k, r.hyps, e['G'].f[str(k)] == (-g if k == D - 1 else z3.RealVal(0)))
            c.ob(r, 'MinX[%d]' % k, r.hyps, e['MinX'].f[str(k)] == a['min' + ax[k]])
            c.ob(r, 'MaxX[%d]' % k, r.hyps, e['MaxX'].f[str(k)] == a['max' + ax[k]])
        # the reference density: the kernel sum over any box of lattice points that contains the influence radius
        M = z3.Const('M', I)
        bs = [binder('l%d' % k) for k in range(D)]
        x = [z3.ToReal(b) * l0 for b in bs]
        re = ra * l0
        body = z3.If(z3.And(*[b == 0 for b in bs]), z3.RealVal(0), Wk(norm(x), re))
        tot = body
        for b in reversed(bs): tot = mk_sum(b, -M, M + 1, tot)
        # monotonicity of the root, used for lattice points outside the radius
        r.pr.add_fact(Fact(['sqrt'], lambda n: [z3.Implies(z3.And(n.arg(0) >= re * re, re > 0), n >= re)], 'sqrt monotone'))
        far = lambda b: z3.Implies(z3.Or(z3.ToReal(b) >= ra, z3.ToReal(b) <= -ra), (z3.ToReal(b) * l0) * (z3.ToReal(b) * l0) >= re * re)
        b = z3.Const('b', I)
        c.ob(r, 'lemma: lattice points beyond the ratio are outside the radius', [l0 > 0, ra > 0], far(b), 'lemma')
        c.ob(r, 'n0 is the kernel sum over the lattice', r.hyps + [M >= FLOOR(ra) + 1], e['n0'] == tot)
        c.structural(r)
        c.vacuity(r, r.hyps, 'C07')

# ------------------------------------------------------------------ C20
@spec('C20')
def c20(c, variants):
    for v in variants:
        r = c.run(v).computer(wf=False); r.func = 'AddParticles'
        s, D = r.pre, r.D
        f = r.m.find('Computer::AddParticles')
        src = r.ex.mkval(f['params'][0]['type'], r.ex.mk_named(''), 'src')
        m = src.dims[0]
        C = s.v
        r.requires('sizes are natural numbers', z3.And(s.n >= 0, m >= 0))
        dd = C.f['grid'].f['data'].dims
        r.requires('cells have slots', dd[D] >= 2)
        sl = r.ex.newroot(src, 'src')
        r.method('Computer::AddParticles', [sl])
        n = s.n + m
        k = ix('k')
        P = r.post
        c.vacuity(r, r.hyps + [m > 0, s.n > 0], 'C20')
        c.ob(r, 'number of particles', r.hyps, P.n == n)
        sp = View(Rec('x', {'particles': src}), D)
        def same(nm, h, a, b):
            for z in ('x', 'u'): vec_ob(c, r, '%s: %s' % (nm, z), h, getattr(a, z), getattr(b, z))
            for z in ('p', 'n', 'type'): c.ob(r, '%s: %s' % (nm, z), h, getattr(a, z) == getattr(b, z))
        same('existing particle', r.hyps + [0 <= k, k < s.n], P.part(k), s.part(k))
        same('added particle', r.hyps + [0 <= k, k < m], P.part(s.n + k), sp.part(k))
        for nm in ('du', 'ecs', 'originalX', 'nWithoutSpp'):
            if nm in P.v.f: c.ob(r, '%s has an entry per particle' % nm, r.hyps, P.v.f[nm].dims[0] == n)
        nb = P.v.f['neighbor'].dims
        c.ob(r, 'a neighbour list per particle', r.hyps, nb[0] == n)
        c.ob(r, 'room for all slots of the searched cells', r.hyps, nb[1] == 1 + (dd[D] - 1) * 3 ** D)
        c.frame(r, {'particles', 'neighbor', 'du', 'ecs', 'originalX', 'nWithoutSpp'})
        c.structural(r)
        c.take(r, MEMORY)

# ------------------------------------------------------------------ C12, C13
def hl_coef(s, i, j, D):
    d = vsub(s.part(j).x, s.part(i).x)
    r = norm(d)
    return (5 - D) * s.env('R_e') / s.env('n0') / (r * r * r)

@spec('C12')
def c12(c, variants):
    for v in variants:
        r = c.exec('SetPressurePoissonEquation', v)
        s, D = r.pre, r.D
        pp = r.post.v.f['ppe'].f
        A = pp['A']
        i, j, w = ix('i'), ix('j'), ix('w')
        p, pj = s.part(i), s.part(j)
        at = lambda a, b: cread(A.elem, [a, b])
        re, n0 = s.env('R_e'), s.env('n0')
        h = r.hyps + [0 <= i, i < s.n, 0 <= j, j < s.n]
        c.vacuity(r, h + [live(p), 0 < s.cnt(i)], 'C12')
        for k in (0, 1): c.ob(r, 'one row and column per particle[%d]' % k, r.hyps, A.dims[k] == s.n)
        c.ob(r, 'identity row', h + [z3.Not(live(p))], at(i, j) == z3.If(i == j, real(1), real(0)))
        def t(q):
            d = norm(vsub(q.x, p.x))
            return z3.If(q.type != DUMMY, -((5 - D) * re / n0 / (d * d * d)), real(0))
        c.ob(r, 'diagonal is minus the sum of the coefficients', h + [live(p)], at(i, i) == acc(s, i, D, t))
        r.pr.witness = [w]
        l = s.nb(i, w); pl = s.part(l)
        c.ob(r, 'coefficient of a non-dummy partner', h + [live(p), 0 <= w, w < s.cnt(i), inrange(s, i, pl, p), pl.type != DUMMY, l != i], at(i, l) == hl_coef(s, i, l, D))
        k = binder('k')
        none = mk_comp('all', k, [V(0), s.cnt(i), z3.Not(z3.And(s.nb(i, k) == j, inrange(s, i, s.part(s.nb(i, k)), p), s.part(s.nb(i, k)).type != DUMMY))], B)
        c.ob(r, 'no other entry', h + [live(p), i != j, none], at(i, j) == 0)
        # lemmas over the contract
        c.ob(r, 'lemma: the coefficient is symmetric', [], hl_coef(s, i, j, D) == hl_coef(s, j, i, D), 'lemma')
        c.ob(r, 'lemma: the coefficient is positive', [re > 0, n0 > 0, norm(vsub(pj.x, p.x)) > 0], hl_coef(s, i, j, D) > 0, 'lemma')
        c.frame(r, {'ppe'})
        c.structural(r)

@spec('C13')
def c13(c, variants):
    for v in variants:
        r = c.exec('SetPressurePoissonEquation', v)
        s, D = r.pre, r.D
        pp = r.post.v.f['ppe'].f
        i = ix('i'); p = s.part(i)
        rho, n0, dt = s.env('Rho'), s.env('n0'), s.env('dt')
        h = r.hyps + [0 <= i, i < s.n]
        c.vacuity(r, h + [live(p)], 'C13')
        b, x = cread(pp['b'].elem, [i]), cread(pp['x'].elem, [i])
        e = s.arr('ecs', i)
        c.ob(r, 'right-hand side', h, b == z3.If(live(p), -(rho / (n0 * dt)) * (hs_speed(s, i, D) + e), real(0)))
        c.ob(r, 'start value', h, x == z3.If(live(p), p.p, real(0)))
        for nm, a in [(k, pp[k]) for k in ('x', 'b', 'A', 'a_ij') if k in pp] + [('cg.' + k, a) for k, a in pp['cg'].f.items()]:
            for k, d in enumerate(a.dims): c.ob(r, 'size of %s[%d]' % (nm, k), r.hyps, d == s.n)
        c.ob(r, 'allowed residual is kept', r.hyps, pp['allowableResidual'] == s.v.f['ppe'].f['allowableResidual'])
        c.frame(r, {'ppe'})
        c.structural(r)

# ------------------------------------------------------------------ C15
@spec('C15')
def c15(c, variants):
    for v in variants:
        r = c.exec('ComputeImplicitForces', v, prepare=implicit_contracts)
        s, D = r.pre, r.D
        i = ix('i'); p, q = s.part(i), r.post.part(i)
        X = r.solved
        h = r.hyps + [0 <= i, i < s.n]
        c.vacuity(r, h + [live(p)], 'C15')
        pres = lambda a: z3.If(live(s.part(a)), z3.If(X(a) < 0, real(0), X(a)), s.part(a).p)
        c.ob(r, 'pressure is the solved value, never negative', h, q.p == pres(i))
        c.ob(r, 'lemma: never negative', [live(p)], z3.If(X(i) < 0, real(0), X(i)) >= 0, 'lemma')
        c.ob(r, 'the system is built once, then solved once', r.hyps, z3.BoolVal([x[0] for x in r.calls] == ['build', 'solve']))
        if [x[0] for x in r.calls] == ['build', 'solve']:
            (_, s1, built), (_, s2, seen) = r.calls
            for nm in ('A', 'x', 'b'):
                k = [ix('k%d' % z) for z in range(len(built.f[nm].dims))]
                c.ob(r, 'the built %s is what is solved' % nm, r.hyps, cread(built.f[nm].elem, k) == cread(seen.f[nm].elem, k))
            for which, sv in (('build', s1), ('solve', s2)):
                for (pth, a), (_, b) in zip(loops.leaves(s.v), loops.leaves(sv.v)):
                    nm = '.'.join(str(x[1]) for x in pth if x[0] in 'f')
                    if nm.startswith('ppe') or loops.leaf_eq_(a, b): continue
                    ar = 0 if isinstance(a, z3.ExprRef) else a.arity
                    idx = [z3.Const('c%d' % z, I) for z in range(ar)]
                    c.ob(r, '%s happens on the state before the phase: %s' % (which, nm), r.hyps, cread(a, idx) == cread(b, idx))
        # the gradient of exactly these pressures moves the fluid
        s3 = View(s.v, D)
        class Q(View):
            def part(self, a):
                z = View.part(self, a)
                return Particle(z.x, z.u, pres(a), z.n, z.type, z.id)
        s3 = Q(s.v, D)
        class RR: pass
        rr = RR(); rr.pre, rr.D = s3, D
        d = gradient_spec(rr, i)
        dt = s.env('dt')
        vec_ob(c, r, 'velocity change is the gradient of the new pressures', h + [fluid(p)], q.u, [p.u[k] + d[k] for k in range(D)])
        vec_ob(c, r, 'position change is the gradient of the new pressures', h + [fluid(p)], q.x, [p.x[k] + dt * d[k] for k in range(D)])
        vec_ob(c, r, 'non-fluid position kept', h + [z3.Not(fluid(p))], q.x, p.x)
        c.frame(r, {'particles.x', 'particles.u', 'particles.p', 'du', 'ppe'})
        c.structural(r)

# ------------------------------------------------------------------ C28
def distinct_positions(r):
    """interacting particles are at different places, now and at the snapshot"""
    s, D = r.pre, r.D
    ox = s.v.f['originalX'].elem
    x0 = lambda a: [cread(ox.f[str(k)], [a]) for k in range(D)]
    def f(a):
        i, c = a.children()
        if z3.is_int_value(c) and c.as_long() == 0: return []
        d, d0 = vsub(s.part(a).x, s.part(i).x), vsub(x0(a), x0(i))
        return [z3.Implies(z3.And(0 <= i, i < s.n, s.part(i).type != DISABLED, 1 <= c, c < 1 + s.cnt(i)), z3.And(dot(d, d) > 0, dot(d0, d0) > 0))]
    r.fact([s.v.f['neighbor'].elem.decl.name()], f, 'listed neighbours are at different positions, now and at the snapshot (precondition of the property)')

def take_roots(c, r):
    """radicand of the stabilisation: d^2 minus the perpendicular part equals d^2-|dx|^2 plus the square of the parallel part"""
    s, D = r.pre, r.D
    nd = s.v.f['neighbor'].elem.decl
    d = s.env('L_0') - s.env('MaxDx')
    for o in r.ex.obls:
        if o.kind != 'sqrt-neg': continue
        X = None
        g = o.goal
        if z3.is_app(g) and g.num_args() == 2:
            if g.decl().kind() == z3.Z3_OP_GE: X = g.arg(0) - g.arg(1)
            elif g.decl().kind() == z3.Z3_OP_LE: X = g.arg(1) - g.arg(0)
        done = False
        if X is not None and not r.pr.z3check(o.hyps + [z3.Not(g)], 200)[0] == 'unsat':
            for a in apps([g], is_ufapp):
                if not a.decl().eq(nd) or z3.is_int_value(a.arg(1)): continue
                i = a.arg(0)
                p, q = s.part(i), s.part(a)
                dx, dx0 = vsub(q.x, p.x), vsub(s.arr('originalX', a), s.arr('originalX', i))
                par = dot(dx, dx0) / norm(dx0)
                A = d * d - dot(dx, dx)
                # change of variables: the neighbour is at the particle plus a difference, now and at the snapshot
                ch = []
                for k in range(D):
                    ch += [(q.x[k], p.x[k] + z3.Real('dx%d' % k)), (s.arr('originalX', a)[k], s.arr('originalX', i)[k] + z3.Real('dx0%d' % k))]
                X1, B1 = z3.substitute(X, *ch), z3.substitute(A + par * par, *ch)
                nf = NF()
                try:
                    df = nf.add(nf.nf(X1), nf.nf(B1), -1)
                    eq = not df or not nf.clear_inv(df)
                except Unsupported: eq = False
                if not eq: continue
                c.ob(r, o.name + ' (radicand = d^2-|dx|^2 + square)', [z3.substitute(x, *ch) for x in o.hyps], X1 == B1, 'sqrt-neg')
                c.ob(r, o.name, o.hyps, A >= 0, 'sqrt-neg')
                done = True
                break
        if not done: c.ob(r, o.name, o.hyps, o.goal, o.kind)

@spec('C28')
def c28(c, variants):
    for v in variants:
        for m in METHODS + ['ComputeImplicitForces', 'DetermineDt']:
            r = c.exec(m, v, prepare=implicit_contracts if m == 'ComputeImplicitForces' else None)
            distinct_positions(r)
            c.take(r, ARITH - {'sqrt-neg'})
            take_roots(c, r)
            if m == METHODS[1]: c.vacuity(r, r.hyps + [0 < r.pre.n, r.pre.part(V(0)).type == FLUID, r.pre.cnt(V(0)) > 0], 'C28')
@spec('C28')
def c28_env(c, variants):
    for v in variants:
        r, a = environment(c, v)
        c.take(r, ARITH)

# ------------------------------------------------------------------ C09
# what each phase may read and write; the write sets are the frame obligations of C02-C04, C06, C10, C11, C15-C17, C26, the read sets
# are those of their postconditions
PT = ('particles.x', 'particles.type')
PHASES = {
    'SearchNeighbor': (PT + ('grid', 'neighbor'), ('particles.type', 'grid', 'neighbor')),
    'ComputeNeighborDensities': (PT + ('particles.n', 'neighbor', 'nWithoutSpp'), ('particles.n', 'nWithoutSpp')),
    'ComputeErrorCorrection': (PT + ('particles.u', 'particles.n', 'neighbor', 'nWithoutSpp', 'ecs'), ('ecs',)),
    'ComputeExplicitForces': (PT + ('particles.u', 'neighbor', 'nWithoutSpp', 'environment.t', 'ghost'), ('particles.x', 'particles.u', 'du', 'ghost')),
    'SaveX': (PT + ('originalX',), ('originalX',)),
    'ComputeImplicitForces': (PT + ('particles.u', 'particles.p', 'particles.n', 'neighbor', 'nWithoutSpp', 'ecs', 'ppe'), ('particles.x', 'particles.u', 'particles.p', 'du', 'ppe')),
    'DynamicStabilize': (PT + ('particles.u', 'neighbor', 'nWithoutSpp', 'originalX'), ('particles.x', 'particles.u', 'du')),
}
ORDER = ('SearchNeighbor', 'ComputeNeighborDensities', 'ComputeErrorCorrection', 'ComputeExplicitForces', 'ComputeNeighborDensities', 'SaveX', 'ComputeImplicitForces', 'DynamicStabilize')
def leaf_name(p):
    nm = '.'.join(str(x[1]) for x in p if x[0] == 'f')
    return nm + ('.size' if p and p[-1][0] == 'd' else '')
def within(nm, sets): return any(nm == s or nm.startswith(s + '.') for s in sets)

class Phases:
    """every phase as a function of the fields it may read: called twice on equal fields it gives equal results"""
    def __init__(self, r):
        self.r, self.memo, self.log = r, [], []
        for m in PHASES: r.ex.contracts['Computer::' + m] = (lambda m: lambda ex, ref, this, args: self.apply(m))(m)
        self.dts = []
        r.ex.contracts['Computer::DetermineDt'] = lambda ex, ref, this, args: self.determine()
    def reads(self, v, ghost, rd):
        env = ('environment.',)
        out = []
        for p, a in loops.leaves(v):
            nm = leaf_name(p)
            if p and p[-1][0] == 'o': continue
            if nm == 'environment.t' and nm not in rd: continue
            if p and p[-1][0] == 'd' and nm == 'particles.size' or within(nm, rd) or nm.startswith('environment.'): out.append((nm, a))
        if 'ghost' in rd: out.append(('ghost', ghost))
        return out
    def same(self, a, b):
        if len(a) != len(b): return False
        for (n1, x), (n2, y) in zip(a, b):
            if n1 != n2: return False
            if loops.leaf_eq_(x, y): continue
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef) and self.r.pr.prove(self.r.hyps, x == y, 1000): continue
            return False
        return True
    def lookup(self, m, rd, make):
        for m2, rd2, out in self.memo:
            if m2 == m and self.same(rd, rd2): return out
        out = make()
        self.memo.append((m, rd, out))
        return out
    def apply(self, m):
        r, ex = self.r, self.r.ex
        v, g = ex.st.mem[r.this.root], ex.st.get(r.tok)
        rd, wr = PHASES[m]
        def make():
            o = {}
            for p, a in loops.leaves(v):
                nm = leaf_name(p)
                if p and p[-1][0] in 'od' and not nm.startswith('ppe'): continue
                if p and p[-1][0] == 'o': continue
                if within(nm, wr): o[p] = ex.fresh_leaf(m + '.' + nm, 0 if isinstance(a, z3.ExprRef) else a.arity, a.sort() if isinstance(a, z3.ExprRef) else a.sort)
            if 'ghost' in wr: o['ghost'] = ex.fresh_leaf('ghost', 0, I)
            return o
        out = self.lookup(m, self.reads(v, g, rd), make)
        for p, x in out.items():
            if p == 'ghost': ex.st.set(r.tok, x)
            else: v = loops.leaf_put(v, p, x)
        ex.st.mem[r.this.root] = v
        self.log.append(m)
        return VOID
    def determine(self):
        r, ex = self.r, self.r.ex
        v = ex.st.mem[r.this.root]
        out = self.lookup('DetermineDt', self.reads(v, None, ('particles.u', 'particles.type')), lambda: ex.fresh_leaf('dt', 0, R))
        return out

def whole_step(c, r, name, dt, run):
    """run the real step on the phases' contracts and compare it with the specified composition from the same state"""
    ex, D = r.ex, r.D
    ph = r.phases
    v0, g0, t0 = r.pre.v, ex.st.get(r.tok), r.pre.env('t')
    run()
    got, ggot = ex.st.mem[r.this.root], ex.st.get(r.tok)
    ran = list(ph.log)
    e = v0.f['environment']
    ex.st.mem[r.this.root] = v0.set('environment', e.set('t', toReal(t0) + dt).set('dt', dt))
    ex.st.set(r.tok, g0)
    for m in ORDER: ph.apply(m)
    want, gwant = ex.st.mem[r.this.root], ex.st.get(r.tok)
    c.ob(r, name + ': clock advances by exactly dt', r.hyps, toReal(got.f['environment'].f['t']) == t0 + dt)
    c.ob(r, name + ': the step used is dt', r.hyps, toReal(got.f['environment'].f['dt']) == dt)
    for (p, a), (_, b) in zip(loops.leaves(got), loops.leaves(want)):
        nm = leaf_name(p)
        if not (nm.startswith('particles') or nm.startswith('environment')) or nm in ('environment.t', 'environment.dt'): continue
        ar = 0 if isinstance(a, z3.ExprRef) else a.arity
        idx = [z3.Const('c9.%d' % k, I) for k in range(ar)]
        c.ob(r, '%s: %s is the composition of the phases in the specified order' % (name, nm), r.hyps, cread(a, idx) == cread(b, idx))
    c.ob(r, name + ': the wall preparation happens in the predictor only', r.hyps, ggot == gwant)
    c.notes.append('%s runs %s' % (name, ', '.join(ran)))
    c.structural(r)

@spec('C09')
def c09(c, variants):
    for v in variants:
        r = c.run(v).computer(); r.func = 'ForwardTime(dt)'
        r.phases = Phases(r)
        dt = z3.Const('step', R)
        r.requires('dt > 0', dt > 0)
        whole_step(c, r, 'ForwardTime(dt)', dt, lambda: r.method('Computer::ForwardTime', [dt], lambda f: len(f['params']) == 1))
        c.vacuity(r, r.hyps, 'C09')
        r = c.run(v).computer(); r.func = 'ForwardTime()'
        r.phases = Phases(r)
        dt = r.phases.determine()
        r.ex.st.assume(dt > 0)
        whole_step(c, r, 'ForwardTime()', dt, lambda: r.method('Computer::ForwardTime', [], lambda f: len(f['params']) == 0))

# ------------------------------------------------------------------ C05
def resolve(r, e, fn):
    """e with named columns replaced by their definitions, and fn applied to every remaining function application"""
    ex = r.ex
    cache = r.__dict__.setdefault('_resolve', {}).setdefault(fn, {})
    def f(n, ch):
        if is_uf(n) and n.decl().name() in ex.defs:
            return deep_rewrite(ex.defs[n.decl().name()](list(ch)), f, cache)
        return fn(n, ch)
    return deep_rewrite(e, f, cache)

def plain(n, ch): return None

def other_state(r):
    """the same state, except that the data of deactivated particles is arbitrary"""
    s, D = r.pre, r.D
    C = s.v.f
    pt = C['particles'].elem.f
    ty = pt['type'].decl
    prim = {}
    def add(col):
        for _, a in loops.leaves(col):
            if isinstance(a, Base) and a.arity == 1: prim[a.decl.name()] = z3.Function(a.decl.name() + "'", *([I] * a.arity), a.sort)
    for k in ('x', 'u', 'p', 'n'): add(pt[k])
    for k in ('nWithoutSpp', 'ecs', 'originalX', 'du'): add(C[k].elem)
    def fn(n, ch):
        if is_ufapp(n) and n.decl().name() in prim:
            return z3.If(ty(ch[0]) == DISABLED, prim[n.decl().name()](*ch), n.decl()(*ch))
        return None
    return fn

def not_influenced(c, r, m):
    s, D = r.pre, r.D
    fn = other_state(r)
    post = r.post
    for (p, a), (_, b) in zip(loops.leaves(s.v), loops.leaves(post.v)):
        nm = leaf_name(p)
        if loops.leaf_eq_(a, b) or nm == 'du' or nm.startswith('du.'): continue
        if not isinstance(b, (z3.ExprRef, Col)): continue
        ar = 0 if isinstance(b, z3.ExprRef) else b.arity
        idx = [z3.Const('q%d' % k, I) for k in range(ar)]
        h = list(r.hyps)
        for x, d in zip(idx, r.dims_of(p)): h += [0 <= x, x < d]
        if nm.split('.')[0] in ('particles', 'neighbor', 'nWithoutSpp', 'ecs', 'originalX'): h.append(post.part(idx[0]).type != DISABLED)
        if nm == 'neighbor' and ar == 2: h.append(idx[1] <= post.cnt(idx[0]))
        e = cread(b, idx)
        one, two = resolve(r, e, plain), resolve(r, e, fn)
        c.ob(r, '%s: %s of active particles does not depend on deactivated ones' % (m, nm), h, one == two)

@spec('C05')
def c05(c, variants):
    for v in variants:
        i, j = ix('i'), ix('j')
        for m in ('ComputeNeighborDensities', 'ComputeErrorCorrection', 'ComputeExplicitForces', 'SaveX', 'ModifyByPressureGradient', 'DynamicStabilize', 'ComputeImplicitForces'):
            r = c.exec(m, v, prepare=implicit_contracts if m == 'ComputeImplicitForces' else None)
            s = r.pre
            not_influenced(c, r, m)
            p, q = s.part(i), r.post.part(i)
            h = r.hyps + [0 <= i, i < s.n, p.type == DISABLED]
            c.ob(r, m + ': density of a deactivated particle is kept', h, q.n == p.n)
            c.ob(r, m + ': pressure of a deactivated particle is kept', h, q.p == p.p)
            c.ob(r, m + ': it stays deactivated', h, q.type == DISABLED)
            c.structural(r)
            if m == 'ComputeNeighborDensities': c.vacuity(r, h + [0 <= j, j < s.n, live(s.part(j))], 'C05')

@spec('C05')
def c05_system(c, variants):
    for v in variants:
        i, j = ix('i'), ix('j')
        r = c.exec('SetPressurePoissonEquation', v)
        s = r.pre
        fn = other_state(r)
        pp = r.post.v.f['ppe'].f
        at = lambda a, b: cread(pp['A'].elem, [a, b])
        h = r.hyps + [0 <= i, i < s.n, 0 <= j, j < s.n]
        for nm, e in (('A', at(i, j)), ('b', cread(pp['b'].elem, [i])), ('x', cread(pp['x'].elem, [i]))):
            c.ob(r, 'pressure system: %s does not depend on deactivated particles' % nm, h, e == resolve(r, e, fn))
        dead = s.part(j).type == DISABLED
        c.ob(r, 'pressure system: isolated row', h + [dead], at(j, i) == z3.If(i == j, real(1), real(0)))
        c.ob(r, 'pressure system: isolated column', h + [dead, i != j], at(i, j) == 0)
        c.ob(r, 'pressure system: right-hand side zero', h + [dead], cread(pp['b'].elem, [j]) == 0)
        c.frame(r, {'ppe'})
        c.structural(r)
        r = c.run(v).computer(); r.func = 'DetermineDt'
        dt = toReal(r.method('Computer::DetermineDt'))
        c.ob(r, 'the time step does not depend on deactivated particles', r.hyps, dt == resolve(r, dt, other_state(r)))
        c.frame(r, set())
        c.structural(r)

@spec('C05')
def c05_search(c, variants):
    for v in variants:
        r = c.exec('SearchNeighbor', v)
        not_influenced(c, r, 'SearchNeighbor')
        c.frame(r, {'particles.type', 'grid', 'neighbor'})
        i = ix('i'); s = r.pre
        c.ob(r, 'a deactivated particle stays deactivated', r.hyps + [0 <= i, i < s.n, s.part(i).type == DISABLED], r.post.part(i).type == DISABLED)

# ------------------------------------------------------------------ C02
def filtered(e, k):
    """the filtered list e(k) is read from"""
    l = [n for n in apps([e], is_comp) if COMP[n.decl().name()].kind == 'sel' and n.children()[-1].eq(k)]
    return l

@spec('C02')
def c02(c, variants):
    """Multiplicity of j in the list of i, counted through the two nested filtered lists (row <- cells <- particles):
    sum over a filtered list = sum over what it is filtered from, and a sum over a of [a==j and Q] is [Q]."""
    for v in variants:
        r = c.exec('SearchNeighbor', v)
        s, D = r.pre, r.D
        post = r.post
        i, j, k, t, a = ix('i'), ix('j'), ix('k'), ix('t'), ix('a')
        P_ = lambda x: post.part(x)
        col = post.v.f['neighbor'].elem
        nl = s.env('NeighborLength')
        h = r.hyps + [0 <= i, i < s.n, resolve(r, P_(i).type, plain) != DISABLED]
        c.vacuity(r, h, 'C02')
        N = resolve(r, cread(col, [i, V(0)]), plain)
        e = z3.simplify(resolve(r, cread(col, [i, 1 + k]), plain))
        outer = filtered(e, k)
        if len(outer) != 1: raise Unsupported('the row of a particle is not one filtered list')
        S = outer[0]
        c.ob(r, 'the row holds the filtered list', h + [0 <= k, k < N], e == S)
        segs = comp_inst(S, t)
        cnt = V(0)
        total = V(0)
        d = vsub(s.part(j).x, s.part(i).x)
        near = z3.And(j != i, norm(d) < nl)
        want = z3.And(resolve(r, P_(j).type, plain) != DISABLED, near)
        hj = h + [0 <= j, j < s.n]
        # cuts: plain and squared distance agree; particles in reach are in neighbouring cells
        cuts = []
        def cut(nm, g, hy):
            c.ob(r, 'lemma: ' + nm, hy, g, 'lemma'); cuts.append(g)
        cut('distance and squared distance compare alike', (norm(d) < nl) == (dot(d, d) < nl * nl), hj)
        ci, cj = cell_of(s, s.part(i).x, D), cell_of(s, s.part(j).x, D)
        for m in range(D):
            q = z3.Const('gap%d' % m, R)
            c.ob(r, 'lemma: in reach, each coordinate differs by less than the neighbour length[%d]' % m, hj + [norm(d) < nl], z3.And(d[m] < nl, -d[m] < nl), 'lemma')
            c.ob(r, 'lemma: then the cells differ by at most one[%d]' % m, [nl > 0, d[m] < nl, -d[m] < nl], z3.And(cj[m] - ci[m] <= 1, ci[m] - cj[m] <= 1), 'lemma')
            cuts.append(z3.Implies(norm(d) < nl, z3.And(cj[m] - ci[m] <= 1, ci[m] - cj[m] <= 1)))
        for z in range(0, len(segs), 4):
            lo, hi, cond, val = [z3.simplify(x) for x in segs[z:z + 4]]
            cnt = cnt + mk_sum(t, lo, hi, mkIf(cond, V(1), V(0)))
            inner = {tuple(n.children()[:-1]) + (n.decl(),): n for n in apps([val], is_comp)
                if COMP[n.decl().name()].kind == 'sel' and not binders_free(n.children()[-1], t) and binders_free(z3.And([T] + [x == x for x in n.children()[:-1]]), t)}
            if len(inner) != 1: raise Unsupported('a cell is not one filtered list')
            S2 = list(inner.values())[0]
            S2 = S2.decl()(*(S2.children()[:-1] + [t]))
            valid, len2 = T, hi
            if z3.is_app(hi) and hi.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(hi.arg(2)): valid, len2 = hi.arg(0), hi.arg(1)
            in2 = comp_inst(S2, a)
            l2 = V(0)
            for y in range(0, len(in2), 4): l2 = l2 + mk_sum(a, in2[y], in2[y + 1], mkIf(in2[y + 2], V(1), V(0)))
            nm = 'cell %d: ' % (z // 4)
            c.ob(r, nm + 'entries start at the first slot', h, lo == 0)
            c.ob(r, nm + 'all stored entries are visited', h + [valid], hi == l2)
            c.ob(r, nm + 'no entry where there is no cell', h + [mkNot(valid)], hi == 0)
            hv = h + [valid, lo <= t, t < hi]
            c.ob(r, nm + 'entries are the stored particles', hv, val == S2)
            # the test made on an entry depends on the entry only
            w = ix('entry')
            g = z3.substitute(cond, (val, w))
            if not binders_free(g, t): 
                g = z3.substitute(z3.simplify(z3.substitute(cond, (val, S2))), (S2, w))
                c.ob(r, nm + 'test on the entry', hv, cond == z3.substitute(g, (w, S2)))
            if not binders_free(g, t): raise Unsupported('test on an entry depends on its place')
            for y in range(0, len(in2), 4):
                lo2, hi2, c2, v2 = in2[y:y + 4]
                c.ob(r, nm + 'every stored particle is a particle', h + [valid, lo2 <= a, a < hi2, c2], z3.And(v2 == a, 0 <= a, a < s.n))
                c.ob(r, nm + 'every particle is offered to the cell', h + [valid, 0 <= a, a < s.n], z3.And(lo2 <= a, a < hi2))
                sub = lambda x: z3.substitute(x, (a, j))
                total = total + mkIf(z3.And(valid, sub(c2), z3.substitute(g, (w, j))), V(1), V(0))
        c.ob(r, 'the count is the length of the filtered list', h, N == cnt)
        if D < 3: c.ob(r, 'each other active particle in reach is listed exactly once', hj + cuts + [want], total == 1)
        else:
            gaps = list(itertools.product((-1, 0, 1), repeat=D))
            at = lambda g: [cj[m] == ci[m] + g[m] for m in range(D)]
            c.ob(r, 'a particle in reach is in a neighbouring cell', hj + cuts + [want], z3.Or(*[z3.And(*at(g)) for g in gaps]))
            tot = z3.simplify(total)
            fl, sub = apps([tot], lambda n: n.decl().name() == 'floor'), []
            gi, gj = [z3.Int('celli%d' % m) for m in range(D)], [z3.Int('cellj%d' % m) for m in range(D)]
            for q, x in enumerate(fl):      # the cells as the code computes them are those of the particles
                own = [(y, z) for m in range(D) for y, z, e in ((ci[m], gi[m], s.part(i).x[m]), (cj[m], gj[m], s.part(j).x[m])) if contains(x, lambda n: n.eq(e))]
                if len(own) != 1: raise Unsupported('another cell than those of the two particles')
                c.ob(r, 'lemma: cell coordinate %d' % q, hj, x == own[0][0], 'lemma')
                sub.append((x, own[0][1]))
            tot = z3.substitute(tot, *sub)
            for g in gaps:    # in the case at hand, the cell of j is written as that of i and the gap
                t_g = z3.simplify(z3.substitute(tot, *[(gj[m], gi[m] + g[m]) for m in range(D)]))
                c.ob(r, 'each other active particle in reach is listed exactly once (cell %+d%+d%+d)' % g, hj + cuts + [want] + at(g) + [gi[m] == ci[m] for m in range(D)], t_g == 1)
        c.ob(r, 'nothing else is listed', hj + cuts + [z3.Not(want)], total == 0)
        c.frame(r, {'particles.type', 'grid', 'neighbor'})
        c.take(r, STRUCT)

def binders_free(e, t): return not contains(e, lambda n: n.eq(t))

# ------------------------------------------------------------------ C14
@spec('C14')
def c14(c, variants):
    """conjugate gradients: the kept residual is the true one, whatever the step lengths are"""
    for v in variants:
        r = c.run(v).computer(); r.func = 'SolvePressurePoissonEquation'
        r.pr.unify_hyps = True
        ex, s = r.ex, r.pre
        P0 = s.v.f['ppe'].f
        n = P0['b'].dims[0]
        A, b = P0['A'].elem, P0['b'].elem
        root = r.this.root
        def ppe(st): return st.mem[root].f['ppe'].f
        def resid(st):
            x = ppe(st)['x'].elem
            def at(idx):
                k = binder('mv')
                return cread(b, idx) - mk_sum(k, 0, n, cread(A, [idx[0], k]) * cread(x, [k]))
            return at
        def square(fn):
            k = binder('sq')
            return mk_sum(k, 0, n, fn([k]) * fn([k]))
        eps = P0['allowableResidual']
        goal = square(resid(State({root: s.v}))) * eps * eps
        x0 = P0['x'].elem
        done = lambda st: z3.Or(square(resid(st)) < goal, goal == 0)
        def propose(lp):
            xp = (root, (('f', 'ppe'), ('f', 'x'), ('e',)))
            if xp not in lp.changed: return None
            lp.watch = [xp]
            out = [Inv('nothing to do: the start value is kept', 'is', lambda st: (lambda idx, X=lp.get(st, xp): z3.If(goal == 0, cread(x0, idx), cread(X, idx))), xp)]
            vecs = []
            for pl in lp.changed:
                e = lp.get(lp.entry, pl)
                nm = leaf_name(pl[1]) or 'local'
                if isinstance(e, z3.ExprRef):
                    if pl == lp.its: continue
                    if e.sort() == I:
                        out.append(Inv(nm + ' counts up', 'is', lambda st, e=e: e + lp.get(st, lp.its), pl))
                        out.append(Inv(nm + ' counts down', 'is', lambda st, e=e: e - lp.get(st, lp.its), pl))
                        out.append(Inv(nm + ' is unchanged', 'is', lambda st, e=e: e, pl))
                    elif e.sort() == B:
                        cur = lambda st, pl=pl: lp.get(st, pl)
                        out.append(Inv(nm + ' only when done', 'holds', lambda st, cur=cur: z3.Implies(cur(st), done(st)), pl))
                        out.append(Inv(nm + ' from the start when there is nothing to do', 'holds', lambda st, cur=cur: z3.Implies(goal == 0, cur(st)), pl))
                        out.append(Inv(nm + ' whenever done', 'holds', lambda st, cur=cur: z3.Implies(z3.And(lp.get(st, lp.its) > 0, square(resid(st)) < goal), cur(st)), pl))
                        out.append(Inv(nm + ' unless done', 'holds', lambda st, cur=cur: z3.Or(cur(st), done(st)), pl))
                    else: out.append(Inv(nm + ' is the squared residual', 'is', lambda st: square(resid(st)), pl))
                elif e.arity == 1 and pl != xp: out.append(Inv(nm + ' is the residual', 'is', resid, pl))
            out.append(Inv('iterations are bounded', 'holds', lambda st: lp.get(st, lp.its) <= n))
            return out
        lc = LoopContract(c, r, 'SolvePressurePoissonEquation', propose, bound=lambda lp, st: n)
        ex.loop_hooks.append(lc)
        r.method('Computer::SolvePressurePoissonEquation')
        k = ix('k')
        for z, st in enumerate(ex.paths):
            c.ob(r, 'a normal return has a small enough residual (way out %d)' % z, list(st.pc), done(st))
            c.ob(r, 'nothing to do: the start value is returned (way out %d)' % z, list(st.pc) + [0 <= k, k < n, goal == 0], cread(ppe(st)['x'].elem, [k]) == cread(x0, [k]))
        for t in ex.throws:
            pc = [p for p in t.st.pc if not z3.is_false(p)]
            c.ob(r, 'failure is reported only when the residual is still too large', pc, z3.Not(done(t.st)))
        c.frame(r, {'ppe.x', 'ppe.cg'})
        c.vacuity(r, r.hyps, 'C14')
        c.take(r, STRUCT | {'size-mismatch'})
        if not lc.used: raise Unsupported('no loop that updates the unknowns')
        c.notes.append('loop invariants kept: ' + '; '.join(i.name for i in lc.kept))

# ------------------------------------------------------------------ C19
GC = {'gc': 2, 'gc3': 3}
def det(m):
    if len(m) == 1: return m[0][0]
    return sum([(-1) ** j * m[0][j] * det([[row[k] for k in range(len(m)) if k != j] for row in m[1:]]) for j in range(1, len(m))], m[0][0] * det([[row[k] for k in range(1, len(m))] for row in m[1:]]))

@spec('C19')
def c19_inverse(c, variants):
    """Detail::InvertMatrix: a true inverse whenever the determinant is not zero, the given multiple of the identity otherwise"""
    for v in variants:
        r = c.run(v); r.func = 'InvertMatrix'
        D = r.D
        a = [[z3.Const('a%d%d' % (x, y), R) for y in range(D)] for x in range(D)]
        val = z3.Const('val', R)
        arg = Rec('mat', {str(x): Rec('vec', {str(y): a[x][y] for y in range(D)}) for x in range(D)})
        f = r.m.find('Detail::InvertMatrix', lambda f: len(f['params']) == 2)
        out = r.plain_call(f, [arg, val])
        o = [[out.f[str(x)].f[str(y)] for y in range(D)] for x in range(D)]
        dd = z3.Const('det', R)
        eq = [dd == det(a)]
        for x in range(D):
            for y in range(D):
                e = sum([a[x][k] * o[k][y] for k in range(1, D)], a[x][0] * o[0][y])
                c.ob(r, 'matrix times result[%d,%d]' % (x, y), r.hyps + [det(a) != 0], e == (1 if x == y else 0))
                e = sum([o[x][k] * a[k][y] for k in range(1, D)], o[x][0] * a[0][y])
                c.ob(r, 'result times matrix[%d,%d]' % (x, y), r.hyps + [det(a) != 0], e == (1 if x == y else 0))
                c.ob(r, 'multiple of the identity[%d,%d]' % (x, y), r.hyps + [det(a) == 0], o[x][y] == (val if x == y else 0))
        c.vacuity(r, r.hyps + [det(a) != 0], 'C19')
        c.vacuity(r, r.hyps + [det(a) == 0], 'C19')
        c.take(r, {'div-zero', 'bounds'})
        c.nothrow(r)

def partner_dyads(s, i, D):
    re, p = s.env('R_e'), s.part(i)
    def dyad(x, y):
        def f(q):
            d = vsub(q.x, p.x)
            return Wk(norm(d), re) / dot(d, d) * (d[x] * d[y])
        return f
    return [acc(s, i, D, dyad(x, y)) for x in range(D) for y in range(D)]
def corrected_gradient(s, i, D, C):
    re, n0, rho, dt = s.env('R_e'), s.env('n0'), s.env('Rho'), s.env('dt')
    p = s.part(i)
    def term(k):
        def f(q):
            d = vsub(q.x, p.x)
            return z3.If(q.type != DUMMY, (q.p + p.p) / dot(d, d) * Wk(norm(d), re) * d[k], real(0))
        return f
    g = [acc(s, i, D, term(k)) for k in range(D)]
    return [-(dt * p.n) / (rho * n0) * sum([C[x][y] * g[y] for y in range(1, D)], C[x][0] * g[0]) for x in range(D)]

def under(pr, hyps, e):
    """e with the outer case distinctions the hypotheses decide resolved"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        if pr.entails(hyps, e.arg(0)): return under(pr, hyps, e.arg(1))
        if pr.entails(hyps, mkNot(e.arg(0))): return under(pr, hyps, e.arg(2))
        return e
    if z3.is_add(e) or z3.is_mul(e): return e.decl()(*[under(pr, hyps, x) for x in e.children()])
    return e

@spec('C19')
def c19(c, variants):
    """the corrector against the contract of the inversion: what is inverted, and what is done with the inverse"""
    for v in variants:
        r = c.run(v).computer(); r.func = 'ModifyByPressureGradient'
        s, D = r.pre, r.D
        inv = {(x, y): z3.Function('inverse.%d%d' % (x, y), *([R] * (D * D + 1)), R) for x in range(D) for y in range(D)}
        place = {f.name(): k for k, f in inv.items()}
        def inverse(ex, ref, this, args):
            m, val = [ex.rv(a) if isinstance(a, dict) else (ex.load(a) if isinstance(a, Lval) else a) for a in args]
            a = [m.f[str(x)].f[str(y)] for x in range(D) for y in range(D)] + [toReal(val)]
            return Rec(m.tag, {str(x): Rec('vec', {str(y): inv[x, y](*a) for y in range(D)}) for x in range(D)})
        r.ex.contracts['Detail::InvertMatrix'] = inverse
        r.method('Computer::ModifyByPressureGradient')
        i = ix('i'); p, q = s.part(i), r.post.part(i)
        dt, n0 = s.env('dt'), s.env('n0')
        base = r.hyps + [0 <= i, i < s.n]
        calls = {}
        def fn(n, ch):
            if is_ufapp(n) and n.decl().name() in place:
                z = calls.setdefault(tuple(x.get_id() for x in ch), (len(calls), ch))[0]
                return z3.Const('inverse%d.%d%d' % ((z,) + place[n.decl().name()]), R)
            return None
        h = base + [fluid(p)]
        c.vacuity(r, h, 'C19')
        after = lambda hy, e: resolve(r, under(r.pr, hy, z3.simplify(resolve(r, e, plain))), fn)
        got = [after(h, e) for e in q.u + q.x]
        if len(calls) != 1: raise Unsupported('the corrective matrix is not computed by one Detail::InvertMatrix')
        (_, a), = calls.values()
        for k, (x, y) in enumerate(zip(a, partner_dyads(s, i, D))): c.ob(r, 'the matrix inverted is the sum of the partner dyads[%d]' % k, h, x == y)
        c.ob(r, 'the fallback is D/n0', h, a[-1] == real(D) / n0)
        C = [[z3.Const('inverse0.%d%d' % (x, y), R) for y in range(D)] for x in range(D)]
        d = corrected_gradient(s, i, D, C)
        vec_ob(c, r, 'velocity change is the corrected pressure gradient', h, got[:D], [p.u[k] + d[k] for k in range(D)])
        vec_ob(c, r, 'position change is dt times the velocity change', h, [got[D + k] - p.x[k] for k in range(D)], [dt * (got[k] - p.u[k]) for k in range(D)])
        h = base + [z3.Not(fluid(p))]
        vec_ob(c, r, 'non-fluid velocity and position kept', h, [after(h, e) for e in q.u + q.x], p.u + p.x)
        c.frame(r, {'particles.x', 'particles.u', 'du'})
        c.structural(r)

from . import specs_io
