"""Mathematical functions used in contracts, and lemmas about them.

Fn: a function defined by primitive recursion over its last argument.  Its defining equation is available as
instances (unfold); nothing else is assumed about it.  Lemma: a statement proved by induction (or directly) in
its own obligations; instances may then be used as facts.
"""
import z3
from .core import Int, Real, Bool, intv, realv

A_I = z3.ArraySort(Int, Int)
A_R = z3.ArraySort(Int, Real)
AA_I = z3.ArraySort(Int, A_I)
AA_R = z3.ArraySort(Int, A_R)

_depth = [0]


def _quant(Q, sorts, body, pats):
    vs = []
    for k, s in enumerate(sorts):
        vs.append(z3.Const(f'q{_depth[0]}_{k}!', s))
    _depth[0] += 1
    try:
        b = body(*vs)
        ps = []
        for p in pats:
            t = p(*vs)
            ps.append(list(t) if isinstance(t, (list, tuple)) else [t])
    finally:
        _depth[0] -= 1
    if z3.is_true(b):
        return b
    good = []
    for ts in ps:
        # a pattern must mention every bound variable
        c = set()
        for t in ts:
            c |= collect(t)
        if all(ok_pat(t) for t in ts) and all(v.get_id() in c for v in vs):
            good.append(z3.MultiPattern(*ts) if len(ts) > 1 else ts[0])
    return Q(vs, b, patterns=good) if good else Q(vs, b)


def collect(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return seen


def ok_pat(t):
    """patterns must be applications of uninterpreted functions or selects, without interpreted arithmetic on top"""
    if not z3.is_app(t) or t.num_args() == 0:
        return False
    k = t.decl().kind()
    if k not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT):
        return False
    # no logical connectives or if-then-else inside
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE) or z3.is_store(x):
            return False
        todo.extend(x.children())
    return True


def qall(sorts, body, *pats):
    return _quant(z3.ForAll, sorts, body, pats)


def qex(sorts, body, *pats):
    return _quant(z3.Exists, sorts, body, ())


def forall_range(lo, hi, body, *pats):
    return qall([Int], lambda i: z3.Implies(z3.And(lo <= i, i < hi), body(i)), *pats)


def key_id(s):
    """a number for a literal string"""
    return int.from_bytes(s.encode(), 'big') + 1


rng_u01 = z3.Function('rng_u01', Int, Real)
rng_next = z3.Function('rng_next', Int, Int)
rng_uint = z3.Function('rng_uint', Int, Int, Int, Int)
rng_nrm = z3.Function('rng_nrm', Int, Int, Real)
rng_seed = z3.Function('rng_seed', Int, Int)
fn_pow = z3.Function('pow', Real, Real, Real)
fn_log = z3.Function('log', Real, Real)
fn_exp = z3.Function('exp', Real, Real)
fn_tanh = z3.Function('tanh', Real, Real)
fn_erf = z3.Function('erf', Real, Real)
fn_sqrt = z3.Function('sqrt', Real, Real)
fn_log1p = z3.Function('log1p', Real, Real)

no_draw_is_zero = z3.Const('no_draw_is_zero', Bool)  # hypothesis used by C09: no uniform draw is exactly 0


KNOWN = {}  # ids of terms that hold by definition or by a proved lemma


def known(t):
    KNOWN[t.get_id()] = t
    return t


def is_known(t):
    return t.get_id() in KNOWN


FRESH = [0]


def general(name, sorts, f, pat, stages=lambda *a: [], using=None):
    """proof of a general statement about any values: obligations about new constants (that nothing else speaks of), and then
    what they amount to.  To be used where the obligations are raised in this order."""
    FRESH[0] += 1
    cs = [z3.Const(f'any{i}!{FRESH[0]}', s) for i, s in enumerate(sorts)]
    first = stages(*cs)
    if using == 'stages':
        using = [x[1] for x in first]
    return [(f'{name}: {x[0]}',) + tuple(x[1:]) for x in first] + [(name, f(*cs), using), ('', known(qall(sorts, f, pat)))]


class Fn:
    """f(params.., n): base(params) for n <= 0, step(params, n-1, f(params, n-1)) for n > 0"""
    all = {}

    def __init__(self, name, sorts, ret, base, step):
        self.name, self.sorts, self.ret, self.base, self.step = name, sorts, ret, base, step
        self.f = z3.Function(name, *sorts, Int, ret)
        Fn.all[name] = self

    def __call__(self, *a):
        return self.f(*a)

    def unfold(self, *a):
        """defining equation at these arguments"""
        *ps, n = a
        n1 = z3.simplify(n - 1) if z3.is_int_value(z3.simplify(n)) else n - 1
        return known(z3.And(z3.Implies(n <= 0, self.f(*ps, n) == self.base(*ps)),
                            z3.Implies(n > 0, self.f(*ps, n) == self.step(*ps, n1, self.f(*ps, n1)))))

    def unfold_succ(self, *a):
        """defining equation at n+1 (n >= 0), stated without n-1"""
        *ps, n = a
        return known(z3.Implies(n >= 0, self.f(*ps, n + 1) == self.step(*ps, n, self.f(*ps, n))))

    def axiom(self):
        """the defining equation for all arguments (triggered by the function)"""
        vs = [z3.Const(f'{self.name}_{i}!', s) for i, s in enumerate(self.sorts)]
        n = z3.Const(f'{self.name}_n!', Int)
        return z3.ForAll(vs + [n], self.unfold(*vs, n), patterns=[self.f(*vs, n)])


class Lemma:
    """forall vars: hyps -> concl;  proved by induction over the variable `ind` (from its lower bound `lo`), or
    directly.  `using`: facts available in the proof, as a function of the variables (and, in the step, of the
    induction hypothesis' variables): definitional unfoldings and instances of earlier lemmas."""
    all = {}

    def __init__(self, name, vars, hyps, concl, ind=None, lo=0, using=None, gen=(), ih=None):
        self.name, self.vars, self.hyps, self.concl = name, vars, hyps, concl
        self.ind, self.lo, self.using, self.gen, self.ih = ind, lo, using, gen, ih
        self.used = False
        self.no = len(Lemma.all)
        Lemma.all[name] = self

    def consts(self, suffix=''):
        return {n: z3.Const(f'{self.name}.{n}{suffix}', s) for n, s in self.vars}

    def statement(self, c):
        h = self.hyps(**c)
        g = self.concl(**c)
        return z3.Implies(h, g)

    def __call__(self, *a, **kw):
        """an instance"""
        self.used = True
        Lemma.pending.add(self.name)
        c = {n: v for (n, _), v in zip(self.vars, a)}
        c.update(kw)
        return known(self.statement(c))

    pending = set()

    def forall(self, fixed, *pats):
        """an instance that stays quantified over the variables that are not fixed"""
        self.used = True
        Lemma.pending.add(self.name)
        c = {n: z3.Const(f'{self.name}.{n}!q', s) for n, s in self.vars if n not in fixed}
        bound = list(c.values())
        c.update(fixed)
        ps = [p(**c) for p in pats]
        return known(z3.ForAll(bound, self.statement(c),
                               patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps]))

    def quant(self, *pats):
        self.used = True
        Lemma.pending.add(self.name)
        c = self.consts('!')
        ps = [p(**c) for p in pats]
        return known(z3.ForAll(list(c.values()), self.statement(c),
                               patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps]))

    def obligations(self):
        """[(name, assumptions, goal)]"""
        c = self.consts()
        out = []
        before = set(Lemma.pending)
        if self.ind is None:
            us = self.using(**c) if self.using else []
            out.append((f'lemma {self.name}', [self.hyps(**c)] + list(us), self.concl(**c)))
        else:
            n = c[self.ind]
            base = dict(c)
            us = self.using(**c) if self.using else []
            out.append((f'lemma {self.name} (base)', [n <= self.lo, self.hyps(**c)] + list(us), self.concl(**c)))
            prev = dict(c)
            prev[self.ind] = n - 1
            gv = [(x, s) for x, s in self.vars if x in self.gen]
            if self.ih:
                # explicit instances of the induction hypothesis, all at n-1
                parts = []
                for inst in self.ih(**c):
                    q = dict(prev)
                    q.update(inst)
                    q[self.ind] = n - 1
                    parts.append(self.statement(q))
                ih = z3.And(*parts)
            elif gv:
                bound = {x: z3.Const(f'{self.name}.{x}!b', s) for x, s in gv}
                prev.update(bound)
                ih = z3.ForAll(list(bound.values()), self.statement(prev))
            else:
                ih = self.statement(prev)
            out.append((f'lemma {self.name} (step)', [n > self.lo, self.hyps(**c), ih] + list(us), self.concl(**c)))
        self.uses = Lemma.pending - before
        return out


def lemmas_closure(names):
    """obligations of these lemmas and of all lemmas used in their proofs"""
    done, todo, obs = set(), list(names), []
    while todo:
        n = todo.pop()
        if n in done:
            continue
        done.add(n)
        saved = set(Lemma.pending)
        Lemma.pending.clear()
        obs += [(n,) + o for o in Lemma.all[n].obligations()]
        for u in Lemma.pending:
            # a proof may only rest on earlier lemmas
            assert Lemma.all[u].no < Lemma.all[n].no, (u, n)
        todo += list(Lemma.pending)
        Lemma.pending.clear()
        Lemma.pending |= saved
    return obs
