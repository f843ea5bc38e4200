"""Contracts of the DeGroot model (C10)."""
from .net import *

R = z3.RealSort()
D = 'Seldon::DeGrootModel::'


def model_base(s):
    """(has, value) of the iteration limit and the iteration counter"""
    m = s.max_iterations
    if '_n_iterations' in s.v.shape.fields:
        return m.has, m.val, s._n_iterations
    return m.has, m.val, s.field_of_shape(lambda x: x.kind == 'int' and not getattr(x, 'enum', None), 'the iteration counter')


def add_base(reg):
    """Seldon::Model<AgentT>: iteration counts, finished checks the limit"""
    M = 'Seldon::Model::'

    def post_it(c):
        a, b = model_base(c.this), model_base(c.thisp)
        return [('one more iteration', b[2] == (a[2] + 1) % 2 ** 64), ('limit kept', z3.And(b[0] == a[0], b[1] == a[1]))]
    reg.add(Contract(M + 'iteration', modular=False, modifies=lambda c: [c.obj], post=post_it))
    reg.add(Contract(M + 'finished', modular=False, post=lambda c: [(
        'finished when the limit is reached', c.result == z3.And(model_base(c.this)[0], model_base(c.this)[1] <= model_base(c.this)[2]))]))
    reg.add(Contract(M + 'n_iterations', modular=False, post=lambda c: [('the counter', c.result == model_base(c.this)[2])]))
    reg.add(Contract(M + 'initialize_iterations', modular=False, modifies=lambda c: [c.obj], post=lambda c: [
        ('no iterations yet', model_base(c.thisp)[2] == 0),
        ('limit kept', z3.And(model_base(c.thisp)[0] == model_base(c.this)[0], model_base(c.thisp)[1] == model_base(c.this)[1]))]))


def add(reg):
    add_base(reg)
    # sum of w[k] * op[el[k]] over k < n
    wsum = Fn('weighted_sum', [A_I, A_R, A_R], R, lambda el, w, op: realv(0), lambda el, w, op, n, r: r + w[n] * op[el[n]])
    reg.wsum = wsum
    rsum = reg.rsum
    Lterm = Lemma('weighted_term', [('w', R), ('x', R), ('lo', R), ('hi', R)],
                  lambda w, x, lo, hi: z3.And(w >= 0, lo <= x, x <= hi), lambda w, x, lo, hi: z3.And(lo * w <= w * x, w * x <= hi * w))
    Lhull = Lemma('weighted_average', [('el', A_I), ('w', A_R), ('op', A_R), ('lo', R), ('hi', R), ('n', I)],
                  lambda el, w, op, lo, hi, n: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(
                      w[k] >= 0, op[el[k]] >= lo, op[el[k]] <= hi)), lambda k: w[k], lambda k: el[k]),
                  lambda el, w, op, lo, hi, n: z3.And(lo * rsum(w, n) <= wsum(el, w, op, n), wsum(el, w, op, n) <= hi * rsum(w, n)),
                  ind='n', using=lambda el, w, op, lo, hi, n: [
                      wsum.unfold(el, w, op, n), rsum.unfold(w, n), Lterm(w[n - 1], op[el[n - 1]], lo, hi)])
    lo, hi = z3.Real('lowest_opinion'), z3.Real('highest_opinion')

    def op(agents):
        return agents.leaf('data', 'opinion')

    def is_net_ref(s):
        return is_network(s)

    def nets(c):
        lv = c.ref_any(is_network, 'the network')
        return Net(read(c.ex, c.pre, lv)), Net(read(c.ex, c.post, lv)), lv

    def copy_len(c, st):
        s = read(c.ex, st, c.obj)
        return s.field_of_shape(lambda x: x.kind == 'vec' and x.elem.kind == 'struct', 'the copy of the agents')

    def maxdiff(s):
        fs = [n for n, x in s.v.shape.fields.items() if x.kind == 'struct' and x.tag == 'opt' and x.fields['val'].kind == 'real']
        if len(fs) != 1:
            raise Unsupported('cannot identify the largest opinion change among the members')
        return getattr(s, fs[0])

    def pre_it(c):
        a, _, _ = nets(c)
        return both(a.wf(), a.inrange(), [('the working copy has one entry per agent', copy_len(c, c.pre).n == a.agents.n)])

    def old_ops(L):
        return op(nets(L.fn)[0].agents)

    def copies(L):
        """the array of opinions the new values are collected in"""
        return copy_len(L.fn, L.st).leaf('data', 'opinion')

    def inv_agents(L):
        a = nets(L.fn)[0]
        o = old_ops(L)
        cp = copies(L)
        return [('length of the copy', copy_len(L.fn, L.st).n == a.n), ('agents done', qall([I], lambda i: z3.Implies(
            z3.And(i >= 0, i < L.it), cp[i] == wsum(a.el[i], a.w[i], o, a.nlen[i])), lambda i: cp[i])),
            ('progress', L.it <= a.n)]

    def inv_neigh(L):
        a = nets(L.fn)[0]
        o, i, j = old_ops(L), L.outer(0), L.it
        cp = copies(L)
        cp0 = copies(L.at_entry)
        here = wsum(a.el[i], a.w[i], o, j)
        if L.touched(L.fn.obj):
            acc = cp[i]
            others = qall([I], lambda k: z3.Implies(k != i, cp[k] == cp0[k]), lambda k: cp[k], lambda k: cp0[k])
        else:
            acc, others = L.local(lambda s: s.kind == 'real', 'the running sum'), z3.BoolVal(True)
        return [('length of the copy', copy_len(L.fn, L.st).n == a.n), ('sum so far', acc == here), ('other agents kept', others)]

    def inv_upd(L):
        a, b, _ = nets(L.fn.at(L.st))
        o, n = old_ops(L), op(b.agents)
        cp = copies(L)
        if L.touched(L.fn.obj):
            d = maxdiff(read(L.ex, L.st, L.fn.obj))
            has, val = d.has, d.val
        else:
            has, val = z3.BoolVal(True), L.local(lambda s: s.kind == 'real', 'the largest change so far')
        new = lambda i: wsum(a.el[i], a.w[i], o, a.nlen[i])
        ab = lambda x: z3.If(x >= 0, x, -x)
        return [('progress', L.it <= a.n), ('number of agents', z3.And(b.agents.n == a.agents.n, copy_len(L.fn, L.st).n == a.n)),
                ('updated', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), n[i] == new(i)), lambda i: n[i])),
                ('not yet', qall([I], lambda i: z3.Implies(i >= L.it, n[i] == o[i]), lambda i: n[i])),
                ('has a value', has), ('not negative', val >= 0),
                ('at least every change', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), val >= ab(o[i] - new(i))),
                                               lambda i: o[i], lambda i: n[i])),
                ('some change', z3.Or(val == 0, qex([I], lambda i: z3.And(i >= 0, i < L.it, val == ab(o[i] - new(i))))))]

    def facts_it(c):
        a, b, _ = nets(c)
        o = op(a.agents)
        return [('unfold', z3.BoolVal(True)),
                ('averages', Lhull.forall(dict(op=o, lo=lo, hi=hi), lambda el, w, op, lo, hi, n: wsum(el, w, op, n)))]

    def post_it(c):
        a, b, _ = nets(c)
        o, n = op(a.agents), op(b.agents)
        d = maxdiff(c.thisp)
        m0, m1 = model_base(c.this), model_base(c.thisp)
        new = lambda i: wsum(a.el[i], a.w[i], o, a.nlen[i])
        ab = lambda x: z3.If(x >= 0, x, -x)
        rng = lambda i: z3.And(i >= 0, i < a.n)
        avg = z3.And(qall([I], lambda i: z3.Implies(rng(i), z3.And(lo <= o[i], o[i] <= hi)), lambda i: o[i]),
                     qall([I, I], lambda i, k: z3.Implies(z3.And(rng(i), k >= 0, k < a.nlen[i]), a.w[i][k] >= 0),
                          lambda i, k: a.w[i][k]),
                     qall([I], lambda i: z3.Implies(rng(i), rsum(a.w[i], a.nlen[i]) == 1), lambda i: a.w[i]))
        return both(
            [('number of agents', b.agents.n == a.agents.n),
             ('every opinion is the weighted sum of the old ones', qall([I], lambda i: z3.Implies(
                 rng(i), n[i] == new(i)), lambda i: n[i], lambda i: a.nlen[i])),
             ('averages stay in the old range', z3.Implies(avg, qall([I], lambda i: z3.Implies(
                 rng(i), z3.And(lo <= n[i], n[i] <= hi)), lambda i: n[i])))],
            b.same_lists(a), b.same_dir(a),
            [('one more iteration', m1[2] == (m0[2] + 1) % 2 ** 64), ('limit kept', z3.And(m1[0] == m0[0], m1[1] == m0[1])),
             ('the largest change is recorded', d.has),
             ('no change is larger', qall([I], lambda i: z3.Implies(rng(i), d.val >= ab(o[i] - n[i])), lambda i: o[i], lambda i: n[i])),
             ('some agent changed by that much', z3.Or(
                 z3.And(d.val == 0), qex([I], lambda i: z3.And(rng(i), d.val == ab(o[i] - n[i]))))),
             ('the working copy keeps its size', copy_len(c, c.post).n == b.agents.n)])
    reg.add(Contract(
        D + 'iteration', pre=pre_it, facts=facts_it, post=post_it,
        modifies=lambda c: [c.obj, nets(c)[2].f('agents')],
        loops={0: LoopSpec(inv_agents),
               1: LoopSpec(inv_neigh, step=lambda L: [('next', wsum.unfold_succ(
                   nets(L.fn)[0].el[L.outer(0)], nets(L.fn)[0].w[L.outer(0)], old_ops(L), L.at_head.it))]),
               2: LoopSpec(inv_upd)}))
    reg.add(Contract(D + 'finished', post=lambda c: [(
        'finished at the limit or when converged', c.result == z3.Or(
            z3.And(model_base(c.this)[0], model_base(c.this)[1] <= model_base(c.this)[2]),
            z3.And(maxdiff(c.this).has, maxdiff(c.this).val < c.this.convergence_tol)))]))

    # construction
    def inv_init(L):
        b = Net(read(L.ex, L.st, L.fn.lv(1)))
        o = op(b.agents)
        return [('opinions so far', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), o[i] == z3.ToReal(i) / z3.ToReal(b.agents.n)),
                                         lambda i: o[i])), ('number of agents', b.agents.n == Net(L.fn.arg(1)).agents.n)]

    def post_ctor(c):
        a, b = Net(c.arg(1)), Net(c.argp(1))
        o = op(b.agents)
        m = model_base(c.thisp)
        s = c.arg(0)
        return both([('opinions i/n', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.agents.n), o[i] == z3.ToReal(i) / z3.ToReal(a.agents.n)),
                                           lambda i: o[i])),
                     ('number of agents', b.agents.n == a.agents.n)], b.same_lists(a), b.same_dir(a),
                    [('limit', z3.And(m[0] == s.max_iterations.has, z3.Implies(m[0], m[1] == s.max_iterations.val % 2 ** 64))), ('no iterations yet', m[2] == 0),
                     ('tolerance', c.thisp.convergence_tol == s.convergence_tol),
                     ('no change recorded yet', z3.Not(maxdiff(c.thisp).has)),
                     ('one entry of the working copy per agent', copy_len(c, c.post).n == a.agents.n)])
    reg.add(Contract(D + 'DeGrootModel', pre=lambda c: both(Net(c.arg(1)).wf(), Net(c.arg(1)).inrange()), post=post_ctor,
                     modifies=lambda c: [c.lv(1).f('agents')],
                     loops={0: LoopSpec(inv_init)}))
