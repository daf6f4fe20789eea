"""Loop contracts given by the specification: candidate invariants are offered, the largest inductive subset is kept
(every member is proved on entry and after an arbitrary iteration), and the code after the loop sees only those."""
from .terms import *
from .solve import *
from . import loops

class Inv:
    """one candidate.  kind 'is': the place (root, path) equals fn(view) ; kind 'holds': fn(view) is true"""
    def __init__(self, name, kind, fn, place=None): self.name, self.kind, self.fn, self.place = name, kind, fn, place

class LoopContract:
    """propose(loop) -> list of Inv;  loop.entry: state on entry, loop.changed: the places the loop changes,
    loop.get(state, place), loop.its: ghost number of completed iterations (a place)"""
    def __init__(self, ctx, run, name, propose, bound=None, once=True, ghosts=()):
        self.once, self.ghosts = once, list(ghosts)
        self.ctx, self.run, self.name, self.propose, self.bound = ctx, run, name, propose, bound
        self.used = 0
        self.watch = []
    def get(self, st, place): return loops.leaf_get(st.mem[place[0]], place[1])
    def put(self, st, place, x): st.mem[place[0]] = loops.leaf_put(st.mem[place[0]], place[1], x)
    def discovered(self, ex, s, st):
        """inside the search for the changed places of an outer loop: everything this loop changes becomes unknown"""
        sm = loops.Summary(ex, s, st.clone(), None)
        sm.discover()
        for k, h in sm.hv.items(): self.put(st, k, h)
        c, post, others, thr, npc = sm.iterate(st.clone())
        for o in others: o.kind = 'normal' if o.kind == 'break' else o.kind
        ex.st = st
        return [loops.Outcome_('normal', st)] + others
    def __call__(self, ex, s, st, omp):
        if omp or (ex.discovering or self.used) and self.once: return None
        self.ex, r = ex, self.run
        if not self.once:
            c0 = z3.simplify(loops.quiet(ex, lambda: loops.eval_cond(ex, s, st.clone()))[0])
            ex.st = st
            if z3.is_true(c0) or z3.is_false(c0): return None      # a loop over a fixed set: unrolled
        if ex.discovering: return self.discovered(ex, s, st)
        g = ex.newroot(V(0), 'ghost.iterations')
        st.mem[g.root] = V(0)
        self.its = (g.root, ())
        sm = loops.Summary(ex, s, st, None)
        self.entry = st.clone()
        sm.discover()
        self.changed = list(sm.hv) + [self.its]
        hv = dict(sm.hv); hv[self.its] = z3.Const('iterations!%d' % next(ex.uid), I)
        base = st.clone()
        for k, h in hv.items(): self.put(base, k, h)
        base.assume(hv[self.its] >= 0)
        invs = self.propose(self)
        if invs is None: return None
        self.used = 1
        entry, changed, its = self.entry, self.changed, self.its     # (nested loops use this object again)
        pr = r.pr
        def eqs(st, iv):
            """the obligations that iv holds in st"""
            if iv.kind == 'holds': return [V(iv.fn(st))]
            cur, want = self.get(st, iv.place), iv.fn(st)
            if is_scalar(cur): return [cur == want]
            idx = [z3.Const('at%d' % k, I) for k in range(cur.arity)]
            return [cread(cur, idx) == want(idx)]
        is_scalar = lambda x: isinstance(x, z3.ExprRef)
        def holds(hyps, iv, st):
            try: return all(pr.prove(hyps, e, 3000) for e in eqs(st, iv))
            except Unsupported: return False
        first = [iv for iv in invs if holds(entry.pc, iv, entry)]
        kept = first
        def assumed(kept):
            s1 = base.clone()
            for iv in kept:
                if iv.kind == 'is':
                    w = iv.fn(s1)
                    cur = self.get(s1, iv.place)
                    self.put(s1, iv.place, w if is_scalar(cur) else LamCol(cur.arity, cur.sort, w))
            for iv in kept:
                if iv.kind == 'holds': s1.assume(iv.fn(s1))
            return s1
        def iterate(s1):
            s1 = s1.clone()
            c, post, others, thr, npc = sm.iterate(s1)
            if post is not None: self.put(post, its, self.get(post, its) + 1)
            return c, post, others, thr
        def choose(l):
            """one definition per place"""
            done, out = set(), []
            for iv in l:
                if iv.kind == 'is':
                    if iv.place in done: continue
                    done.add(iv.place)
                out.append(iv)
            return out
        kept = choose(first)
        while True:
            s1 = assumed(kept)
            env = dict(ex.frame.env)
            self.entry, self.changed, self.its = entry, changed, its
            c, post, others, thr = loops.quiet(ex, lambda: iterate(s1))
            ex.frame.env = env
            ok = kept if post is None else [iv for iv in kept if holds(post.pc, iv, post)]
            if len(ok) == len(kept): break
            lost = [iv for iv in kept if iv not in ok and iv.kind == 'is']
            if any(iv.kind == 'is' and iv.place == l.place and iv is not l for l in lost for iv in first):
                # another definition of that place: start again with it
                first = [iv for iv in first if iv not in lost]
                kept = choose(first)
            else: kept = ok
        self.kept = kept
        self.entry, self.changed, self.its = entry, changed, its
        for iv in (kept if ex.collect else []):
            for e in eqs(entry, iv): self.ctx.ob(r, '%s/invariant "%s" on entry' % (self.name, iv.name), list(self.entry.pc), e, 'loop-invariant')
            if post is not None:
                for e in eqs(post, iv): self.ctx.ob(r, '%s/invariant "%s" kept by an iteration' % (self.name, iv.name), list(post.pc), e, 'loop-invariant')
        # the iteration once more, recording its obligations
        s1 = assumed(kept)
        c, post, others, thr = iterate(s1)
        if self.bound is not None and ex.collect:
            # an iteration counts when it completes or leaves the loop after changing a watched place
            its = self.get(s1, self.its) + 1
            for o in ([post] if post is not None else []) + [o.st for o in others if any(k in self.watch for k in sm.diff(s1, o.st))]:
                self.ctx.ob(r, '%s/no more iterations than the bound' % self.name, list(o.pc), its <= self.bound(self, self.entry), 'loop-bound')
        # after the loop
        out = []
        s2 = s1.clone()
        c2, s2 = loops.eval_cond(ex, s, s2)
        s2.assume(mkNot(c2))
        if ex.feasible(s2): out.append(loops.Outcome_('normal', s2))
        for o in others:
            if o.kind == 'break': out.append(loops.Outcome_('normal', o.st))
            else: out.append(o)
        if len(out) > 1: ex.split_paths = True
        return out
