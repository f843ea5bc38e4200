"""Contracts of the Deffuant models (C11, C12, C13)."""
from cxv import exec as X
from .net import *
from .degroot import model_base

R = z3.RealSort()
D = 'Seldon::DeffuantModelAbstract::'


def cls_has(x):
    return lambda p, g: x in p.tstr(g['cls'])


def absv(x):
    return z3.If(x >= 0, x, -x)


def add(reg):
    def nets(c):
        lv = c.ref_any(is_network, 'the network')
        return Net(read(c.ex, c.pre, lv)), Net(read(c.ex, c.post, lv)), lv

    # ---- C11: one real opinion ---------------------------------------------------------------------------------
    Lhull = Lemma('towards', [('m', R), ('d', R)], lambda m, d: z3.And(m >= 0, m <= 1),
                  lambda m, d: z3.And(z3.Implies(d >= 0, z3.And(0 <= m * d, m * d <= d)), z3.Implies(d <= 0, z3.And(d <= m * d, m * d <= 0))))

    def post_rule(c):
        a, b, a1, b1 = (x.data.opinion for x in (c.arg(0), c.arg(1), c.argp(0), c.argp(1)))
        mu, thr = c.this.mu, c.this.homophily_threshold
        close = absv(a - b) < thr
        lo, hi = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
        return [('close agents move towards each other by mu times the difference', z3.Implies(close, z3.And(
                    a1 == a + mu * (b - a), b1 == b + mu * (a - b)))),
                ('distant agents stay', z3.Implies(z3.Not(close), z3.And(a1 == a, b1 == b))),
                ('the sum is preserved', a1 + b1 == a + b),
                ('inside the old interval', z3.Implies(z3.And(mu >= 0, mu <= 1), z3.And(lo <= a1, a1 <= hi, lo <= b1, b1 <= hi)))]

    def facts_rule(c):
        a, b = c.arg(0).data.opinion, c.arg(1).data.opinion
        return [('towards', Lhull(c.this.mu, a - b))]

    def opinions(c):
        return [c.lv(0).f('data').f('opinion'), c.lv(1).f('data').f('opinion')]

    def count(c):
        """the ghost record of an interaction"""
        ghost = {'interactions': None, 'legitimate': None}
        if not c.has_ghost('interactions'):
            return {}
        net = c.ref_any(is_network, 'the network')
        n = Net(read(c.ex, c.pre, net))
        ix = []
        for k in (0, 1):
            lv = c.lv(k)
            if lv.root != net.root or lv.path[:len(net.path)] != net.path or len(lv.path) != len(net.path) + 2 or \
                    lv.path[len(net.path)] != ('f', 'agents') or lv.path[-1][0] != 'i':
                ix = None
                break
            ix.append(lv.path[-1][1])
        if ix is None:
            ok = z3.BoolVal(False)
        else:
            i, j = ix
            ok = z3.And(i >= 0, i < n.agents.n, j >= 0, j < n.agents.n,
                        z3.If(c.this.use_network, qex([I], lambda k: z3.And(k >= 0, k < n.nlen[i], n.el[i][k] == j)),
                              z3.Implies(n.agents.n >= 2, i != j)))
        return {'interactions': c.ghost('interactions') + 1, 'legitimate': z3.And(c.ghost('legitimate'), ok)}

    simple, vector = cls_has('SimpleAgent'), cls_has('DiscreteVectorAgent')
    reg.add(Contract(D + 'update_rule', match=simple, no_alias=True, modifies=opinions, facts=facts_rule, post=post_rule, nonlin=True,
                     effect=count, alias_post=lambda c: [('nothing changes', c.argp(0).data.opinion == c.arg(0).data.opinion)]))

    def net_ops(c, k=None):
        a, b, lv = nets(c)
        return a, b, lv

    def inv_init(L):
        a, b, _ = nets(L.fn.at(L.st))
        o = b.agents.leaf('data', 'opinion')
        return [('opinions so far', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), o[i] == z3.ToReal(i) / z3.ToReal(b.agents.n)),
                                         lambda i: o[i])), ('number of agents', b.agents.n == a.agents.n)]

    def post_init(c):
        a, b, _ = nets(c)
        o = b.agents.leaf('data', 'opinion')
        return [('number of agents', b.agents.n == a.agents.n),
                ('agent i of n starts with i/n', qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < a.agents.n), o[i] == z3.ToReal(i) / z3.ToReal(a.agents.n)), lambda i: o[i]))]
    reg.add(Contract(D + 'initialize_agents', match=simple, modifies=lambda c: [nets(c)[2].f('agents')], post=post_init,
                     loops={0: LoopSpec(inv_init)}))

    # ---- C12: binary vectors -----------------------------------------------------------------------------------------
    ham = Fn('hamming', [A_I, A_I], I, lambda a, b: intv(0), lambda a, b, n, r: r + z3.If(a[n] != b[n], intv(1), intv(0)))
    Lham = Lemma('hamming_bounds', [('a', A_I), ('b', A_I), ('n', I)], lambda a, b, n: n >= 0,
                 lambda a, b, n: z3.And(ham(a, b, n) >= 0, ham(a, b, n) <= n), ind='n', using=lambda a, b, n: [ham.unfold(a, b, n)])

    def is_int(s):
        return s.kind == 'int'

    def inv_ham(L):
        a, b = L.fn.arg(0), L.fn.arg(1)
        d = L.local(is_int, 'the distance')
        return [('distance so far', d == ham(a.arr, b.arr, L.it)), ('progress', L.it <= b.n)]

    reg.add(Contract(
        'Seldon::hamming_distance', pre=lambda c: [('sizes', z3.And(c.arg(0).n < 2 ** 31, c.arg(1).n < 2 ** 31))],
        throws=lambda c: c.arg(0).n != c.arg(1).n,
        post=lambda c: [('the number of differing entries', c.result == ham(c.arg(0).arr, c.arg(1).arr, c.arg(0).n)),
                        ('at most all', z3.And(c.result >= 0, c.result <= c.arg(0).n))],
        facts=lambda c: [('b', ham.unfold(c.arg(0).arr, c.arg(1).arr, c.arg(0).n)), ('bounds', Lham(c.arg(0).arr, c.arg(1).arr, c.arg(0).n))],
        loops={0: LoopSpec(inv_ham, entry=lambda L: [('start', ham.unfold(L.fn.arg(0).arr, L.fn.arg(1).arr, intv(0)))],
                           step=lambda L: [('next', ham.unfold_succ(L.fn.arg(0).arr, L.fn.arg(1).arr, L.at_head.it)),
                                           ('bounds', Lham(L.fn.arg(0).arr, L.fn.arg(1).arr, L.at_head.it))],
                           hints=lambda L: [('bounds', Lham(L.fn.arg(0).arr, L.fn.arg(1).arr, L.it))])}))

    def vecs(c):
        return [x.data.opinion for x in (c.arg(0), c.arg(1), c.argp(0), c.argp(1))]

    def merged(a, b, a1, b1, lo, hi):
        """entries lo.. below hi of both are the same one of the old values"""
        return qall([I], lambda i: z3.Implies(z3.And(i >= lo, i < hi), z3.And(
            a1.arr[i] == b1.arr[i], z3.Or(a1.arr[i] == a.arr[i], a1.arr[i] == b.arr[i]))), lambda i: a1.arr[i], lambda i: b1.arr[i])

    def kept(a, b, a1, b1, lo):
        return qall([I], lambda i: z3.Implies(i >= lo, z3.And(a1.arr[i] == a.arr[i], b1.arr[i] == b.arr[i])),
                    lambda i: a1.arr[i], lambda i: b1.arr[i])

    def inv_vrule(L):
        a, b, a1, b1 = vecs(L.fn.at(L.st))
        return [('lengths', z3.And(a1.n == a.n, b1.n == b.n)), ('merged so far', merged(a, b, a1, b1, 0, L.it)),
                ('rest', qall([I], lambda i: z3.Implies(z3.And(i >= L.it, i < a.n), z3.And(a1.arr[i] == a.arr[i], b1.arr[i] == b.arr[i])),
                              lambda i: a1.arr[i], lambda i: b1.arr[i]))]

    def post_vrule(c):
        a, b, a1, b1 = vecs(c)
        d = ham(a.arr, b.arr, a.n)
        far = z3.ToReal(d) >= c.this.homophily_threshold
        same = qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), z3.And(a1.arr[i] == a.arr[i], b1.arr[i] == b.arr[i])),
                    lambda i: a1.arr[i], lambda i: b1.arr[i])
        return [('dimensions kept', z3.And(a1.n == a.n, b1.n == b.n)),
                ('distant agents stay', z3.Implies(far, same)),
                ('close agents agree afterwards', z3.Implies(z3.Not(far), qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < a.n), a1.arr[i] == b1.arr[i]), lambda i: a1.arr[i], lambda i: b1.arr[i]))),
                ('every entry is one of the two values held before', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), z3.And(
                    z3.Or(a1.arr[i] == a.arr[i], a1.arr[i] == b.arr[i]), z3.Or(b1.arr[i] == a.arr[i], b1.arr[i] == b.arr[i]))),
                    lambda i: a1.arr[i], lambda i: b1.arr[i])),
                ('entries in agreement are kept', qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < a.n, a.arr[i] == b.arr[i]), z3.And(a1.arr[i] == a.arr[i], b1.arr[i] == b.arr[i])),
                    lambda i: a1.arr[i], lambda i: b1.arr[i]))]

    def alias_v(c):
        a, a1 = c.arg(0).data.opinion, c.argp(0).data.opinion
        return [('nothing changes', z3.And(a1.n == a.n, qall([I], lambda i: z3.Implies(
            z3.And(i >= 0, i < a.n), a1.arr[i] == a.arr[i]), lambda i: a1.arr[i])))]
    reg.add(Contract(
        D + 'update_rule', match=vector, no_alias=True, modifies=lambda c: opinions(c) + [c.ref_lv('gen')], post=post_vrule,
        pre=lambda c: [('dimension', z3.And(c.arg(0).data.opinion.n < 2 ** 31, c.arg(1).data.opinion.n < 2 ** 31))],
        throws=lambda c: c.arg(0).data.opinion.n != c.arg(1).data.opinion.n,
        alias_post=alias_v, effect=count, loops={0: LoopSpec(inv_vrule)}))

    def ops(n):
        """lengths and entries of all opinion vectors"""
        fs = [(p, t) for (p, b, d, rg), t in zip(n.agents.v.shape.leaves, n.agents.v.terms) if p[:3] == ('[]', 'data', 'opinion')]
        if len(fs) != 2:
            raise Unsupported('opinion vectors')
        return fs[0][1], fs[1][1]

    def binary(ln, en, dim, hi):
        return qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < hi), ln[i] == dim), lambda i: ln[i]), \
            qall([I, I], lambda i, k: z3.Implies(z3.And(i >= 0, i < hi, k >= 0, k < dim), z3.Or(en[i][k] == 0, en[i][k] == 1)),
                 lambda i, k: en[i][k])

    def inv_vi(inner):
        def inv(L):
            a, b, _ = nets(L.fn.at(L.st))
            ln, en = ops(b)
            dim = L.fn.arg(0)
            i = L.outer(0) if inner else L.it
            x, y = binary(ln, en, dim, i)
            out = [('number of agents', z3.And(b.agents.n == a.agents.n, i <= a.agents.n)), ('dimension', x), ('entries', y)]
            if inner:
                out += [('this agent', z3.And(ln[i] == dim, qall([I], lambda k: z3.Implies(z3.And(
                    k >= 0, k < L.it), z3.Or(en[i][k] == 0, en[i][k] == 1)), lambda k: en[i][k])))]
            return out
        return inv

    def post_vi(c):
        a, b, _ = nets(c)
        ln, en = ops(b)
        x, y = binary(ln, en, c.arg(0), a.agents.n)
        return [('number of agents', b.agents.n == a.agents.n), ('the configured dimension', x), ('entries are 0 or 1', y)]
    reg.add(Contract(
        D + 'initialize_agents', match=vector, modifies=lambda c: [nets(c)[2].f('agents'), c.ref_lv('gen')], post=post_vi,
        pre=lambda c: [('dimension', c.arg(0) <= MAXLEN)],
        loops={0: LoopSpec(inv_vi(False)), 1: LoopSpec(inv_vi(True))}))

    # ---- C13: who interacts ---------------------------------------------------------------------------------------------
    def counter_lv(c):
        s = c.this
        fs = [n for n, x in s.v.shape.fields.items() if x.kind == 'int' and not getattr(x, 'enum', None)]
        if len(fs) != 1:
            raise Unsupported('cannot identify the iteration counter among the members')
        return c.obj.f(fs[0])

    def usable(c, a):
        """what a legitimate network looks like"""
        return both(a.wf(), a.inrange(), [('with a network everyone has a neighbour', z3.Implies(c.this.use_network, qall(
            [I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), a.nlen[i] >= 1), lambda i: a.nlen[i])))])

    def legit(c, a, i, j):
        return z3.If(c.this.use_network, qex([I], lambda k: z3.And(k >= 0, k < a.nlen[i], a.el[i][k] == j)),
                     z3.Implies(a.agents.n >= 2, i != j))

    def post_pair(c):
        a = nets(c)[0]
        r = c.result
        i, j = r.arr[0], r.arr[1]
        return [('two partners', r.n == 2), ('first partner is an agent', z3.And(i >= 0, i < a.agents.n)),
                ('second partner is an agent', z3.And(j >= 0, j < a.agents.n)),
                ('legitimate', legit(c, a, i, j))]
    reg.add(Contract(D + 'select_interacting_agent_pair', modifies=lambda c: [c.ref_lv('gen')], post=post_pair,
                     pre=lambda c: usable(c, nets(c)[0]) + [('there are agents', nets(c)[0].agents.n >= 1)]))

    def state_it(c, vec):
        """what an iteration keeps, besides the opinions themselves"""
        a, b, _ = nets(c)
        out = [('number of agents', b.agents.n == a.agents.n)] + b.same_lists(a) + b.same_dir(a)
        if vec:
            l0, l1 = ops(a)[0], ops(b)[0]
            out.append(('dimensions', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.agents.n), l1[i] == l0[i]), lambda i: l1[i])))
        return out

    def inv_it(vec):
        def inv(L):
            c = L.fn.at(L.st)
            return state_it(c, vec) + [('interactions so far', z3.And(L.ghost('interactions') == L.it, L.ghost('legitimate'))),
                                       ('progress', L.it <= nets(c)[0].agents.n)]
        return inv

    def same_dim(c):
        a = nets(c)[0]
        ln, _ = ops(a)
        return [('all opinions have the same dimension', qall([I], lambda i: z3.Implies(
            z3.And(i >= 0, i < a.agents.n), z3.And(ln[i] == ln[0], ln[i] < 2 ** 31, ln[i] >= 0)), lambda i: ln[i]))]

    for m, vec in ((simple, False), (vector, True)):
        def post_it(c, vec=vec):
            a = nets(c)[0]
            m0, m1 = model_base(c.this), model_base(c.thisp)
            return state_it(c, vec) + [
                ('one more iteration', m1[2] == (m0[2] + 1) % 2 ** 64),
                ('as many interactions as agents', c.ghostp('interactions') == a.agents.n),
                ('all between legitimate partners', c.ghostp('legitimate'))]
        reg.add(Contract(
            D + 'iteration', match=m, ghosts=dict(interactions=intv(0), legitimate=z3.BoolVal(True)),
            pre=lambda c, vec=vec: usable(c, nets(c)[0]) + (same_dim(c) if vec else []), post=post_it,
            modifies=lambda c: [counter_lv(c), nets(c)[2].f('agents'), c.ref_lv('gen')],
            loops={0: LoopSpec(inv_it(vec))}))

    # construction: the integer root of the number of agents (defined for every n >= 0 by  r*r <= n < (r+1)*(r+1))
    isqrt = z3.Function('isqrt', I, I)
    Lroot = Lemma('integer_root', [('e', I), ('s', R), ('n', I)],
                  lambda e, s, n: z3.And(e >= 0, n >= 0, s >= 0, s * s == z3.ToReal(n), z3.ToReal(e) <= s, s < z3.ToReal(e) + 1),
                  lambda e, s, n: z3.And(e * e <= n, n < (e + 1) * (e + 1)))
    Luniq = Lemma('integer_root_unique', [('e', I), ('m', I), ('n', I)],
                  lambda e, m, n: z3.And(e >= 0, m >= 0, e * e <= n, n < (e + 1) * (e + 1), m * m <= n, n < (m + 1) * (m + 1)),
                  lambda e, m, n: e == m)
    Lsmall = Lemma('integer_root_small', [('e', I), ('n', I)], lambda e, n: z3.And(e >= 0, e * e <= n, n <= 2 ** 60),
                   lambda e, n: e <= 2 ** 30)
    # a square is what the integer root says it is (used for reading the contract, not by any proof below)
    Lsq = Lemma('square_iff_root', [('e', I), ('m', I), ('n', I)],
                lambda e, m, n: z3.And(e >= 0, e * e <= n, n < (e + 1) * (e + 1), m >= 0, m * m == n), lambda e, m, n: e * e == n,
                using=lambda e, m, n: [Luniq(e, m, n)])

    def net_arg(c):
        for k in range(len(c.args)):
            lv = c.lv(k)
            if isinstance(lv, X.LV) and is_network(c.ex.shape_of(c.pre, lv)):
                return lv
        raise Unsupported('the network parameter')

    def settings_arg(c):
        for k in range(len(c.args)):
            lv = c.lv(k)
            if isinstance(lv, X.LV) and lv.root in c.pre.mem:
                s = c.ex.shape_of(c.pre, lv)
                if s.kind == 'struct' and 'homophily_threshold' in s.fields:
                    return read(c.ex, c.pre, lv)
        raise Unsupported('the settings parameter')

    def setup_ctor(ex, st, obj, args):
        for lv in args:
            if isinstance(lv, X.LV) and is_network(ex.shape_of(st, lv)):
                n = Net(read(ex, st, lv)).agents.n
        s = fn_sqrt(z3.ToReal(n))
        e, r = z3.ToInt(s), isqrt(n)
        for t in (z3.Implies(n >= 0, z3.And(r >= 0, r * r <= n, n < (r + 1) * (r + 1))), Lroot(e, s, n), Luniq(e, r, n), Lsmall(e, n),
                  Lsq(r, r, n), Lsmall(r, n)):
            st.assume(t)

    def post_ctor(c):
        lv = net_arg(c)
        a, b = Net(read(c.ex, c.pre, lv)), Net(read(c.ex, c.post, lv))
        n = a.agents.n
        s, m = settings_arg(c), c.thisp
        e = isqrt(n)
        k0, k1 = s, model_base(m)
        same = z3.And(*[t for _, t in b.same_lists(a) + b.same_dir(a) + b.same_agents(a)])
        lattice = [(f'with a network: {x}', z3.Implies(s.use_network, t)) for x, t in b.wf() + b.inrange()] + [(
            'with a network it is the square lattice', z3.Implies(s.use_network, qall([I], lambda x: z3.Implies(z3.And(x >= 0, x < n), reg.site(b, x, e, None)), lambda x: b.nlen[x], lambda x: b.el[x])))]
        return [('parameters taken from the settings', z3.And(m.mu == s.mu, m.homophily_threshold == s.homophily_threshold,
                                                              m.use_network == s.use_network)),
                ('limit', z3.And(k1[0] == s.max_iterations.has, z3.Implies(k1[0], k1[1] == s.max_iterations.val % 2 ** 64))),
                ('no iterations yet', k1[2] == 0),
                ('number of agents', b.agents.n == n),
                ('without a network nothing changes', z3.Implies(z3.Not(s.use_network), same))] + lattice
    def facts_ctor(c):
        lv = net_arg(c)
        n = Net(read(c.ex, c.pre, lv)).agents.n
        s = fn_sqrt(z3.ToReal(n))
        e, r = z3.ToInt(s), isqrt(n)
        b = Net(read(c.ex, c.post, lv))
        use = settings_arg(c).use_network
        return [('the root', z3.Implies(use, e == r)), ('lattice', known(z3.Implies(e == r, qall([I], lambda x: z3.Implies(
                reg.site(b, x, e, None), reg.site(b, x, r, None)), lambda x: b.nlen[x], lambda x: b.el[x]))))]  # equals for equals
    reg.add(Contract(
        D + 'DeffuantModelAbstract', facts=facts_ctor, setup=setup_ctor, modifies=lambda c: [net_arg(c)], post=post_ctor,
        pre=lambda c: Net(read(c.ex, c.pre, net_arg(c))).wf(),
        throws=lambda c: z3.And(settings_arg(c).use_network, isqrt(Net(read(c.ex, c.pre, net_arg(c))).agents.n) * isqrt(
            Net(read(c.ex, c.pre, net_arg(c))).agents.n) != Net(read(c.ex, c.pre, net_arg(c))).agents.n)))
