"""Contracts of Seldon::Network (properties C01, C02, C03)."""
from .net import *

Q = 'Seldon::Network::'


def this_net(c):
    return Net(c.this)


def netp(c):
    return Net(c.thisp)


def pnames(p, g):
    return [p.tstr(x['t']) for x in g['params']]


def in_bounds(c, k):
    n = this_net(c)
    i = c.arg(k)
    return [('the agent exists', z3.And(i >= 0, i < n.n))]


def add(reg):
    # ---- editing one agent (C03) ------------------------------------------------------------------
    def eq_prefix(n, name, arr, f):
        return [(name, qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), arr[k] == f(k)), lambda k: arr[k]))]

    def frame1(c, i):
        a, b = netp(c), this_net(c)
        return both(a.same_agents(b), a.same_dir(b), a.same_others(b, i), a.wf())

    def view_sep(c, k):
        return []

    reg.add(Contract(
        Q + 'set_weights', pre=lambda c: both(this_net(c).wf(), in_bounds(c, 0)),
        throws=lambda c: c.arg(1).n != this_net(c).nlen[c.arg(0)],
        modifies=lambda c: [c.obj],
        post=lambda c: both(
            frame1(c, c.arg(0)),
            [('neighbours kept', z3.And(netp(c).nlen[c.arg(0)] == this_net(c).nlen[c.arg(0)],
                                        netp(c).el[c.arg(0)] == this_net(c).el[c.arg(0)]))],
            [('as many weights as given', netp(c).wlen[c.arg(0)] == c.arg(1).n)],
            eq_prefix(c.arg(1).n, 'the given weights are stored', netp(c).w[c.arg(0)], lambda k: c.arg(1)[k]))))
    reg.add(Contract(
        Q + 'set_neighbours_and_weights', match=lambda p, g: 'span' in pnames(p, g)[2],
        pre=lambda c: both(this_net(c).wf(), in_bounds(c, 0)),
        throws=lambda c: c.arg(1).n != c.arg(2).n, modifies=lambda c: [c.obj],
        post=lambda c: both(
            frame1(c, c.arg(0)),
            [('as many as given', z3.And(netp(c).nlen[c.arg(0)] == c.arg(1).n,
                                         netp(c).wlen[c.arg(0)] == c.arg(1).n))],
            eq_prefix(c.arg(1).n, 'the given neighbours are stored', netp(c).el[c.arg(0)], lambda k: c.arg(1)[k]),
            eq_prefix(c.arg(1).n, 'the given weights are stored', netp(c).w[c.arg(0)], lambda k: c.arg(2)[k]))))
    reg.add(Contract(
        Q + 'set_neighbours_and_weights', match=lambda p, g: 'span' not in pnames(p, g)[2],
        pre=lambda c: both(this_net(c).wf(), in_bounds(c, 0)), modifies=lambda c: [c.obj],
        post=lambda c: both(
            frame1(c, c.arg(0)),
            [('as many as given', z3.And(netp(c).nlen[c.arg(0)] == c.arg(1).n,
                                         netp(c).wlen[c.arg(0)] == c.arg(1).n))],
            eq_prefix(c.arg(1).n, 'the given neighbours are stored', netp(c).el[c.arg(0)], lambda k: c.arg(1)[k]),
            eq_prefix(c.arg(1).n, 'every weight is the given one', netp(c).w[c.arg(0)], lambda k: c.arg(2)))))
    reg.add(Contract(
        Q + 'push_back_neighbour_and_weight', pre=lambda c: both(
            this_net(c).wf(), in_bounds(c, 0),
            [('room for one more', this_net(c).nlen[c.arg(0)] < MAXLEN)]),
        modifies=lambda c: [c.obj],
        post=lambda c: both(
            frame1(c, c.arg(0)),
            [('one more edge', netp(c).nlen[c.arg(0)] == this_net(c).nlen[c.arg(0)] + 1),
             ('the earlier edges, then the new one', z3.And(
                 netp(c).el[c.arg(0)] == z3.Store(this_net(c).el[c.arg(0)], this_net(c).nlen[c.arg(0)], c.arg(1)),
                 netp(c).w[c.arg(0)] == z3.Store(this_net(c).w[c.arg(0)], this_net(c).nlen[c.arg(0)], c.arg(2))))])))
    # ---- number of edges -----------------------------------------------------------------------------
    total = Fn('edges_of_first', [A_I], I, lambda a: intv(0), lambda a, n, r: r + a[n])
    Lpos = Lemma('edges_of_first_monotone', [('a', A_I), ('m', I), ('n', I)],
                 lambda a, m, n: z3.And(0 <= m, m <= n, qall([I], lambda i: z3.Implies(
                     z3.And(i >= 0, i < n), a[i] >= 0), lambda i: a[i])),
                 lambda a, m, n: z3.And(total(a, m) <= total(a, n), total(a, m) >= 0), ind='n', gen=('m',))
    reg.total = total

    def inv_edges(L):
        net = Net(L.fn.this)
        try:
            acc = L.hid('acc')
        except Unsupported:  # a loop instead of transform_reduce
            acc = L.local(lambda s: s.kind == 'int' and s.w == 64, 'the sum')
        return [('sum of the lists seen', acc == total(net.nlen, L.it)),
                ('position', L.it <= net.n)]
    reg.add(Contract(
        Q + 'n_edges', pre=lambda c: both(this_net(c).wf(), [
            ('the agent exists', z3.Implies(c.arg(0).has, z3.And(c.arg(0).val >= 0, c.arg(0).val < this_net(c).n))),
            ('fewer than 2^64 edges', total(this_net(c).nlen, this_net(c).n) < 2 ** 64)]),
        post=lambda c: [
            ('the number of stored edges', c.result == z3.If(
                c.arg(0).has, this_net(c).nlen[c.arg(0).val], total(this_net(c).nlen, this_net(c).n)))],
        loops={0: LoopSpec(inv_edges, hints=lambda L: [
            ('bound', Lpos(Net(L.fn.this).nlen, L.it + 1, Net(L.fn.this).n)),
            ('bound0', Lpos(Net(L.fn.this).nlen, intv(0), L.it))])}))
    # ---- observers, construction ----------------------------------------------------------------------
    def post_view(arr, n):
        return lambda c: [
            ('the length of the list', c.result.n == n(this_net(c))[c.arg(0)]),
            ('the elements of the list', qall([I], lambda k: z3.Implies(
                z3.And(k >= 0, k < c.result.n), c.result[k] == arr(this_net(c))[c.arg(0)][k])))]
    reg.add(Contract(Q + 'get_neighbours', modular=False, pre=lambda c: both(this_net(c).wf(), in_bounds(c, 0)),
                     post=post_view(lambda n: n.el, lambda n: n.nlen)))
    reg.add(Contract(Q + 'get_weights', modular=False, pre=lambda c: both(this_net(c).wf(), in_bounds(c, 0)),
                     post=post_view(lambda n: n.w, lambda n: n.wlen)))
    reg.add(Contract(Q + 'n_agents', modular=False,
                     post=lambda c: [('the number of agents', c.result == c.this.agents.n)]))
    reg.add(Contract(Q + 'direction', modular=False,
                     post=lambda c: [('the stored direction', c.result == this_net(c).dir)]))

    def fresh_agents(a):
        """C18: agents that nobody has given a reluctance have reluctance 1"""
        sh = a.agents.v.shape.elem
        if reg.pid != 'C18' or 'reluctance' not in sh.fields['data'].fields:
            return []
        r = a.agents.leaf('data', 'reluctance')
        return [('new agents have reluctance 1', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.agents.n), r[i] == 1), lambda i: r[i]))]

    def post_ctor(c):
        a = netp(c)
        k = [p.get('name') for p in c.g['params']]
        no_edges = [('no edges', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), z3.And(
            a.nlen[i] == 0, a.wlen[i] == 0)), lambda i: a.nlen[i], lambda i: a.wlen[i]))]
        if not k:
            return both(a.wf(), [('empty', a.n == 0), ('incoming edges', a.dir == INCOMING)])
        x = c.arg(0)
        if len(k) == 1:
            n = x if z3.is_expr(x) else x.n
            r = both(a.wf(), no_edges, [('the number of agents', a.n == n), ('incoming edges', a.dir == INCOMING)])
            if z3.is_expr(x):
                r += fresh_agents(a)
            else:
                r += [('the given agents', z3.And(*[s == t for s, t in zip(a.agents.v.terms, x.v.terms)]))]
            return r
        y = c.arg(1)
        return [('the number of agents', a.agents.n == x.n),
                ('the given lists', z3.And(*[s == t for s, t in zip(a.nb.v.terms + a.wt.v.terms, x.v.terms + y.v.terms)])),
                ('the given direction', a.dir == c.arg(2))] + fresh_agents(a)

    def pre_ctor(c):
        if c.g['params'] and z3.is_expr(c.arg(0)):
            return [('size', c.arg(0) <= MAXLEN)]
        return []

    def pre_ctor_ti(p, g):
        # copies and moves are left to the language
        return not (len(g['params']) == 1 and p.name(g['params'][0]['t']) == 'Seldon::Network')
    reg.add(Contract(Q + 'Network', match=pre_ctor_ti, modular=False, pre=pre_ctor, modifies=lambda c: [c.obj],
                     post=post_ctor))
    # ---- clear ------------------------------------------------------------------------------------------
    def inv_clear(L):
        a, b, e = Net(L.fn.thisp), Net(L.fn.this), Net(wrap(L.ex.get(L.entry, L.fn.obj)))
        t = L.touched(L.fn.obj)
        out = [('numbers of lists', z3.And(a.nb.n == b.nb.n, a.wt.n == b.wt.n))]
        for names, cur, before in ((a.nb_name, a.nlen, e.nlen), (a.wt_name, a.wlen, e.wlen)):
            if t & set(names):
                out.append(('cleared so far', qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < a.n), cur[i] == z3.If(i < L.it, intv(0), before[i])), lambda i: cur[i])))
        return out
    reg.add(Contract(
        Q + 'clear', pre=lambda c: this_net(c).wf(), modifies=lambda c: [c.obj],
        loops={0: LoopSpec(inv_clear), 1: LoopSpec(inv_clear)},
        post=lambda c: both(
            netp(c).same_agents(this_net(c)), netp(c).same_dir(this_net(c)), netp(c).wf(),
            [('no edges', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < netp(c).n), z3.And(
                netp(c).nlen[i] == 0, netp(c).wlen[i] == 0)), lambda i: netp(c).nlen[i], lambda i: netp(c).wlen[i]))])))
    # ---- direction flag -----------------------------------------------------------------------------------
    reg.add(Contract(
        Q + 'switch_direction_flag', modifies=lambda c: [c.obj],
        post=lambda c: both(netp(c).same_agents(this_net(c)), netp(c).same_lists(this_net(c)),
                            [('the direction is flipped', netp(c).dir == 1 - this_net(c).dir)])))
    # ---- changing the representation (C01) -----------------------------------------------------------------
    R = z3.RealSort()
    cnt = Fn('edge_count', [A_I, A_R, I, R], I, lambda a, w, j, u: intv(0),
             lambda a, w, j, u, n, r: r + z3.If(z3.And(a[n] == j, w[n] == u), intv(1), intv(0)))
    reg.cnt = cnt
    Lframe = Lemma('edge_count_frame', [('a', A_I), ('w', A_R), ('b', A_I), ('v', A_R), ('j', I), ('u', R), ('n', I)],
                   lambda a, w, b, v, j, u, n: qall([I], lambda k: z3.Implies(
                       z3.And(k >= 0, k < n), z3.And(a[k] == b[k], w[k] == v[k])), lambda k: a[k], lambda k: b[k]),
                   lambda a, w, b, v, j, u, n: cnt(a, w, j, u, n) == cnt(b, v, j, u, n), ind='n')
    Lpush = Lemma('edge_count_push', [('a', A_I), ('w', A_R), ('n', I), ('e', I), ('x', R), ('j', I), ('u', R)],
                  lambda a, w, n, e, x, j, u: n >= 0,
                  lambda a, w, n, e, x, j, u: cnt(z3.Store(a, n, e), z3.Store(w, n, x), j, u, n + 1) ==
                  cnt(a, w, j, u, n) + z3.If(z3.And(e == j, x == u), intv(1), intv(0)),
                  using=lambda a, w, n, e, x, j, u: [
                      cnt.unfold_succ(z3.Store(a, n, e), z3.Store(w, n, x), j, u, n),
                      Lframe(a, w, z3.Store(a, n, e), z3.Store(w, n, x), j, u, n)])
    Ltot = Lemma('edges_of_first_update', [('a', A_I), ('i', I), ('v', I), ('n', I)],
                 lambda a, i, v, n: z3.And(0 <= i),
                 lambda a, i, v, n: total(z3.Store(a, i, v), n) == total(a, n) + z3.If(i < n, v - a[i], intv(0)),
                 ind='n')

    def tr(L):
        return (L.v('neighbour_list_transpose', is_vv('int')), L.v('weight_list_transpose', is_vv('real')))

    def inv_toggle(L):
        nt, wt = tr(L)
        o = Net(L.fn.this)
        i0 = L.outer(0)
        k0 = L.it if L.no == 1 else intv(0)

        def spec(x, j, u):
            return z3.If(x < i0, cnt(o.el[x], o.w[x], j, u, o.nlen[x]),
                         z3.If(x == i0, cnt(o.el[x], o.w[x], j, u, k0), intv(0)))
        tl, te, tw = nt.v.terms[1], nt.v.terms[2], wt.v.terms[2]
        return [('sizes', z3.And(nt.n == o.n, wt.n == o.n)),
                ('progress', z3.And(i0 <= o.n, z3.Implies(i0 < o.n, k0 <= o.nlen[i0]), k0 >= 0)),
                ('lists have equal lengths', qall([I], lambda j: z3.Implies(z3.And(j >= 0, j < o.n), z3.And(
                    tl[j] == wt.v.terms[1][j], tl[j] >= 0, tl[j] <= MAXLEN)),
                    lambda j: tl[j], lambda j: wt.v.terms[1][j])),
                ('indices in range', qall([I, I], lambda j, k: z3.Implies(
                    z3.And(j >= 0, j < o.n, k >= 0, k < tl[j]), z3.And(te[j][k] >= 0, te[j][k] < o.n)),
                    lambda j, k: te[j][k])),
                ('number of edges', total(tl, o.n) == total(o.nlen, i0) + k0),
                ('edges handled so far', qall([I, I, R], lambda x, j, u: z3.Implies(
                    z3.And(x >= 0, x < o.n, j >= 0, j < o.n),
                    cnt(te[j], tw[j], x, u, tl[j]) == spec(x, j, u)),
                    lambda x, j, u: cnt(te[j], tw[j], x, u, tl[j]), lambda x, j, u: cnt(o.el[x], o.w[x], j, u, o.nlen[x])))]

    def step_toggle(L):
        H = L.at_head
        nt, wt = tr(H)
        o = Net(L.fn.this)
        i0, k0 = L.outer(0), H.it
        nb, u0 = o.el[i0][k0], o.w[i0][k0]
        tl, te, tw = nt.v.terms[1], nt.v.terms[2], wt.v.terms[2]
        nt2, _ = tr(L)
        return [('the neighbour is an agent', z3.And(nb >= 0, nb < o.n)),
                ('one more list entry', nt2.v.terms[1] == z3.Store(tl, nb, tl[nb] + 1)),
                ('push', Lpush.forall(dict(a=te[nb], w=tw[nb], n=tl[nb], e=i0, x=u0),
                                      lambda a, w, n, e, x, j, u: cnt(z3.Store(a, n, e), z3.Store(w, n, x), j, u, n + 1))),
                ('total', Ltot(tl, nb, tl[nb] + 1, o.n))] + [
                ('total0', Ltot(tl, nb, tl[nb] + 1, o.n)),
                ('one more edge looked at', qall([I, R], lambda j, u: cnt(o.el[i0], o.w[i0], j, u, k0 + 1) ==
                    cnt(o.el[i0], o.w[i0], j, u, k0) + z3.If(z3.And(nb == j, u0 == u), intv(1), intv(0)),
                    lambda j, u: cnt(o.el[i0], o.w[i0], j, u, k0 + 1)))]

    Lzero = Lemma('edges_of_first_zero', [('n', I)], lambda n: z3.BoolVal(True),
                  lambda n: total(z3.K(I, intv(0)), n) == 0, ind='n')
    reg.Lzero = Lzero

    def entry_toggle(L):
        return [('empty lists', Lzero(Net(L.fn.this).n)),
                ('none', qall([A_I, A_R, I, R], lambda a, w, j, u: cnt(a, w, j, u, intv(0)) == 0,
                              lambda a, w, j, u: cnt(a, w, j, u, intv(0))))]

    def rev_edges(a, b):
        return [('every edge is kept, stored at its other end', qall([I, I, R], lambda x, j, u: z3.Implies(
            z3.And(x >= 0, x < a.n, j >= 0, j < a.n),
            cnt(a.el[j], a.w[j], x, u, a.nlen[j]) == cnt(b.el[x], b.w[x], j, u, b.nlen[x])),
            lambda x, j, u: cnt(a.el[j], a.w[j], x, u, a.nlen[j]),
            lambda x, j, u: cnt(b.el[x], b.w[x], j, u, b.nlen[x])))]

    reg.add(Contract(
        Q + 'toggle_incoming_outgoing', pre=lambda c: both(this_net(c).wf(), this_net(c).inrange()),
        modifies=lambda c: [c.obj],
        loops={0: LoopSpec(inv_toggle, entry=entry_toggle), 1: LoopSpec(inv_toggle, step=step_toggle)},
        post=lambda c: both(
            netp(c).same_agents(this_net(c)), netp(c).wf(), netp(c).inrange(),
            [('the direction is flipped', netp(c).dir == 1 - this_net(c).dir),
             ('as many edges', total(netp(c).nlen, netp(c).n) == total(this_net(c).nlen, this_net(c).n))],
            rev_edges(netp(c), this_net(c)))))
    reg.add(Contract(
        Q + 'transpose', pre=lambda c: both(this_net(c).wf(), this_net(c).inrange()),
        modifies=lambda c: [c.obj],
        post=lambda c: both(
            netp(c).same_agents(this_net(c)), netp(c).same_dir(this_net(c)), netp(c).wf(), netp(c).inrange(),
            [('as many edges', total(netp(c).nlen, netp(c).n) == total(this_net(c).nlen, this_net(c).n))],
            rev_edges(netp(c), this_net(c)))))
    # ---- merging duplicates (C02) ----------------------------------------------------------------------------
    def family(name, ret, zero, term):
        """f(el, w, j, n) = sum of term over k < n with el[k] = j;  g: the same sum in the order s[0], s[1], ..."""
        f = Fn(name, [A_I, A_R, I], ret, lambda a, w, j: zero,
               lambda a, w, j, n, r: r + z3.If(a[n] == j, term(w, n), zero))
        g = Fn(name + '_by', [A_I, A_R, A_I, I], ret, lambda a, w, s, j: zero,
               lambda a, w, s, j, n, r: r + z3.If(a[s[n]] == j, term(w, s[n]), zero))
        upd = Lemma(name + '_by_update', [('a', A_I), ('w', A_R), ('s', A_I), ('j', I), ('p', I), ('v', I), ('n', I)],
                    lambda a, w, s, j, p, v, n: p >= 0,
                    lambda a, w, s, j, p, v, n: g(a, w, z3.Store(s, p, v), j, n) == g(a, w, s, j, n) + z3.If(
                        p < n, z3.If(a[v] == j, term(w, v), zero) - z3.If(a[s[p]] == j, term(w, s[p]), zero), zero),
                    ind='n')

        def isperm(s, q, n):
            rng = lambda i: z3.And(i >= 0, i < n)
            return qall([I], lambda i: z3.Implies(rng(i), z3.And(
                rng(s[i]), q[s[i]] == i, rng(q[i]), s[q[i]] == i)), lambda i: s[i], lambda i: q[i])
        perm = Lemma(name + '_permutation', [('a', A_I), ('w', A_R), ('s', A_I), ('q', A_I), ('j', I), ('n', I)],
                     lambda a, w, s, q, j, n: isperm(s, q, n),
                     lambda a, w, s, q, j, n: g(a, w, s, j, n) == f(a, w, j, n), ind='n',
                     ih=lambda a, w, s, q, j, n: [
                         dict(), dict(s=z3.Store(s, q[n - 1], s[n - 1]), q=z3.Store(q, s[n - 1], q[n - 1]))],
                     using=lambda a, w, s, q, j, n: [
                         upd(a, w, s, j, q[n - 1], s[n - 1], n - 1)])
        frame = Lemma(name + '_frame', [('a', A_I), ('w', A_R), ('b', A_I), ('v', A_R), ('j', I), ('n', I)],
                      lambda a, w, b, v, j, n: qall([I], lambda k: z3.Implies(
                          z3.And(k >= 0, k < n), z3.And(a[k] == b[k], w[k] == v[k])), lambda k: a[k], lambda k: b[k]),
                      lambda a, w, b, v, j, n: f(a, w, j, n) == f(b, v, j, n), ind='n')
        push = Lemma(name + '_push', [('a', A_I), ('w', A_R), ('n', I), ('e', I), ('x', R), ('j', I)],
                     lambda a, w, n, e, x, j: n >= 0,
                     lambda a, w, n, e, x, j: f(z3.Store(a, n, e), z3.Store(w, n, x), j, n + 1) ==
                     f(a, w, j, n) + z3.If(e == j, term(z3.Store(w, n, x), n), zero),
                     using=lambda a, w, n, e, x, j: [
                         f.unfold_succ(z3.Store(a, n, e), z3.Store(w, n, x), j, n),
                         frame(a, w, z3.Store(a, n, e), z3.Store(w, n, x), j, n)])
        return f, g, perm, push, isperm
    wsum, wsum_by, wperm, wpush, isperm = family('weight_of', R, realv(0), lambda w, k: w[k])
    num, num_by, nperm, npush, _ = family('times_listed', I, intv(0), lambda w, k: intv(1))
    reg.wsum, reg.num = wsum, num
    Lw = Lemma('weight_of_change', [('a', A_I), ('w', A_R), ('p', I), ('x', R), ('j', I), ('n', I)],
               lambda a, w, p, x, j, n: p >= 0,
               lambda a, w, p, x, j, n: wsum(a, z3.Store(w, p, x), j, n) == wsum(a, w, j, n) + z3.If(
                   z3.And(p < n, a[p] == j), x - w[p], realv(0)), ind='n')
    Ln = Lemma('times_listed_ignores_weights', [('a', A_I), ('w', A_R), ('v', A_R), ('j', I), ('n', I)],
               lambda a, w, v, j, n: z3.BoolVal(True),
               lambda a, w, v, j, n: num(a, w, j, n) == num(a, v, j, n), ind='n')
    Lnone = Lemma('not_listed_yet', [('a', A_I), ('w', A_R), ('s', A_I), ('j', I), ('n', I)],
                  lambda a, w, s, j, n: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), a[s[k]] < j), lambda k: s[k]),
                  lambda a, w, s, j, n: num_by(a, w, s, j, n) == 0, ind='n')
    Lpos2 = Lemma('times_listed_positive', [('a', A_I), ('w', A_R), ('s', A_I), ('j', I), ('n', I)],
                  lambda a, w, s, j, n: z3.BoolVal(True),
                  lambda a, w, s, j, n: num_by(a, w, s, j, n) >= 0, ind='n')

    def is_vi(s):
        return s.kind == 'vec' and s.elem.kind == 'int' and not s.elem.char

    def is_vr(s):
        return s.kind == 'vec' and s.elem.kind == 'real'

    def is_opt(s):
        return s.kind == 'struct' and s.tag == 'opt'

    def ascending(a, n):
        return qall([I, I], lambda x, y: z3.Implies(z3.And(0 <= x, x < y, y < n), a[x] < a[y]),
                    lambda x, y: (a[x], a[y]))

    def merged(a_el, a_w, a_n, b_el, b_w, b_n):
        return z3.And(
            ascending(a_el, a_n),
            qall([I], lambda j: wsum(a_el, a_w, j, a_n) == wsum(b_el, b_w, j, b_n), lambda j: wsum(a_el, a_w, j, a_n)),
            qall([I], lambda j: num(a_el, a_w, j, a_n) == z3.If(num(b_el, b_w, j, b_n) > 0, intv(1), intv(0)),
                 lambda j: num(a_el, a_w, j, a_n)))

    def inv_rdc0(L):
        a, b = Net(L.fn.thisp), Net(L.fn.this)
        return both(a.wf(), [
            ('number of lists', z3.And(a.nb.n == b.nb.n, a.wt.n == b.wt.n)),
            ('lists still to do', qall([I], lambda i: z3.Implies(
                z3.And(i >= L.it, i < a.n), z3.And(a.nlen[i] == b.nlen[i], a.el[i] == b.el[i], a.w[i] == b.w[i])),
                lambda i: a.nlen[i], lambda i: a.el[i], lambda i: a.w[i])),
            ('ascending lists', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), ascending(a.el[i], a.nlen[i])),
                                     lambda i: a.nlen[i])),
            ('sums', qall([I, I], lambda i, j: z3.Implies(
                z3.And(i >= 0, i < L.it), wsum(a.el[i], a.w[i], j, a.nlen[i]) == wsum(b.el[i], b.w[i], j, b.nlen[i])),
                lambda i, j: wsum(a.el[i], a.w[i], j, a.nlen[i]), lambda i, j: wsum(b.el[i], b.w[i], j, b.nlen[i]))),
            ('same neighbours', qall([I, I], lambda i, j: z3.Implies(
                z3.And(i >= 0, i < L.it), num(a.el[i], a.w[i], j, a.nlen[i]) == z3.If(
                    num(b.el[i], b.w[i], j, b.nlen[i]) > 0, intv(1), intv(0))),
                lambda i, j: num(a.el[i], a.w[i], j, a.nlen[i]), lambda i, j: num(b.el[i], b.w[i], j, b.nlen[i])))])

    def rdc_vars(L):
        a = Net(L.fn.thisp)
        i0 = L.outer(0)
        s = L.v('sorting_indices').arr
        nc, wc = L.v('neighbours_copy'), L.v('weights_copy')
        last = L.v('last_neighbour_index', is_opt)
        return a.el[i0], a.w[i0], a.nlen[i0], s, nc, wc, last

    def inv_rdc1(L):
        el, w, n, s, nc, wc, last = rdc_vars(L)
        m, k = nc.n, L.it
        return [('progress', z3.And(k <= n, nc.n == wc.n, m <= k, m >= 0)),
                ('nonempty', (k > 0) == (m > 0)),
                ('last neighbour', z3.And(last.has == (k > 0), z3.Implies(k > 0, z3.And(
                    last.val == el[s[k - 1]], nc.arr[m - 1] == el[s[k - 1]])))),
                ('ascending', ascending(nc.arr, m)),
                ('sums so far', qall([I], lambda j: wsum(nc.arr, wc.arr, j, m) == wsum_by(el, w, s, j, k),
                                     lambda j: wsum(nc.arr, wc.arr, j, m), lambda j: wsum_by(el, w, s, j, k))),
                ('neighbours so far', qall([I], lambda j: num(nc.arr, wc.arr, j, m) == z3.If(
                    num_by(el, w, s, j, k) > 0, intv(1), intv(0)),
                    lambda j: num(nc.arr, wc.arr, j, m), lambda j: num_by(el, w, s, j, k)))]

    def entry_rdc1(L):
        el, w, n, s, nc, wc, last = rdc_vars(L)
        ip = L.st.gh.get('sort_iperm')
        if ip is None:
            raise Unsupported('no sort before the loop')
        return [('the order is a permutation', isperm(s, ip, n)),
                ('sorted', qall([I, I], lambda x, y: z3.Implies(z3.And(x >= 0, x < y, y < n), el[s[x]] <= el[s[y]]),
                                lambda x, y: (s[x], s[y]))),
                ('empty', qall([I], lambda j: z3.And(wsum(nc.arr, wc.arr, j, intv(0)) == 0, num(nc.arr, wc.arr, j, intv(0)) == 0,
                                                    wsum_by(el, w, s, j, intv(0)) == 0, num_by(el, w, s, j, intv(0)) == 0),
                               lambda j: wsum(nc.arr, wc.arr, j, intv(0)), lambda j: num(nc.arr, wc.arr, j, intv(0)),
                               lambda j: wsum_by(el, w, s, j, intv(0)), lambda j: num_by(el, w, s, j, intv(0))))]

    def step_rdc1(L):
        H = L.at_head
        el, w, n, s, nc, wc, last = rdc_vars(H)
        el2, w2, n2, s2, nc2, wc2, last2 = rdc_vars(L)
        m, k = nc.n, H.it
        e, x = el[s[k]], w[s[k]]
        q = lambda f, j: f
        new = nc2.n == m + 1
        m2 = nc2.n
        return [
            ('in range', z3.And(s[k] >= 0, s[k] < n)),
            ('earlier neighbours are not larger', z3.Implies(k > 0, qall([I], lambda t: z3.Implies(
                z3.And(t >= 0, t < k), el[s[t]] <= el[s[k - 1]]), lambda t: s[t]))),
            ('the last neighbour is not larger', z3.Implies(k > 0, el[s[k - 1]] <= e)),
            ('a new neighbour is larger', z3.Implies(z3.And(new, k > 0), el[s[k - 1]] < e)),
            ('all smaller', z3.Implies(new, qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < k), el[s[t]] < e), lambda t: s[t]))),
            ('none yet', Lnone(el, w, s, e, k)),
            ('next in order', qall([I], lambda j: z3.And(
                wsum_by(el, w, s, j, k + 1) == wsum_by(el, w, s, j, k) + z3.If(e == j, x, realv(0)),
                num_by(el, w, s, j, k + 1) == num_by(el, w, s, j, k) + z3.If(e == j, intv(1), intv(0))),
                lambda j: wsum_by(el, w, s, j, k + 1), lambda j: num_by(el, w, s, j, k + 1))),
            ('not negative', Lpos2.forall(dict(a=el, w=w, s=s, n=k), lambda a, w, s, j, n: num_by(a, w, s, j, n))),
            ('not negative before', Lpos2(el, w, s, e, k - 1)),
            ('already listed', z3.Implies(z3.Not(new), num_by(el, w, s, e, k) > 0)),
            ('push w', wpush.forall(dict(a=nc.arr, w=wc.arr, n=m, e=e, x=x),
                                    lambda a, w, n, e, x, j: wsum(z3.Store(a, n, e), z3.Store(w, n, x), j, n + 1))),
            ('push n', npush.forall(dict(a=nc.arr, w=wc.arr, n=m, e=e, x=x),
                                    lambda a, w, n, e, x, j: num(z3.Store(a, n, e), z3.Store(w, n, x), j, n + 1))),
            ('add w', Lw.forall(dict(a=nc.arr, w=wc.arr, p=m - 1, x=wc.arr[m - 1] + x, n=m),
                                lambda a, w, p, x, j, n: wsum(a, z3.Store(w, p, x), j, n))),
            ('add n', Ln.forall(dict(a=nc.arr, w=wc2.arr, v=wc.arr, n=m),
                                lambda a, w, v, j, n: num(a, w, j, n))),
        ]

    def exit_rdc1(L):
        el, w, n, s, nc, wc, last = rdc_vars(L)
        ip = L.st.gh['sort_iperm']
        return [('all', L.it == n),
                ('order does not matter for sums', wperm.forall(dict(a=el, w=w, s=s, q=ip, n=n),
                                                                lambda a, w, s, q, j, n: wsum(a, w, j, n),
                                                                lambda a, w, s, q, j, n: wsum_by(a, w, s, j, n))),
                ('order does not matter for membership', nperm.forall(dict(a=el, w=w, s=s, q=ip, n=n),
                                                                      lambda a, w, s, q, j, n: num(a, w, j, n),
                                                                      lambda a, w, s, q, j, n: num_by(a, w, s, j, n)))]

    def post_rdc(c):
        a, b = netp(c), this_net(c)
        return both(a.same_agents(b), a.same_dir(b), a.wf(), [
            ('ascending lists', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), ascending(a.el[i], a.nlen[i])),
                                     lambda i: a.nlen[i])),
            ('the weight of a neighbour is the sum of its weights', qall([I, I], lambda i, j: z3.Implies(
                z3.And(i >= 0, i < a.n), wsum(a.el[i], a.w[i], j, a.nlen[i]) == wsum(b.el[i], b.w[i], j, b.nlen[i])),
                lambda i, j: wsum(a.el[i], a.w[i], j, a.nlen[i]))),
            ('exactly the neighbours as before, once', qall([I, I], lambda i, j: z3.Implies(
                z3.And(i >= 0, i < a.n), num(a.el[i], a.w[i], j, a.nlen[i]) == z3.If(
                    num(b.el[i], b.w[i], j, b.nlen[i]) > 0, intv(1), intv(0))),
                lambda i, j: num(a.el[i], a.w[i], j, a.nlen[i])))])
    reg.add(Contract(
        Q + 'remove_double_counting', pre=lambda c: this_net(c).wf(), modifies=lambda c: [c.obj],
        loops={0: LoopSpec(inv_rdc0), 1: LoopSpec(inv_rdc1, entry=entry_rdc1, step=step_rdc1, exit=exit_rdc1)},
        post=post_rdc))
