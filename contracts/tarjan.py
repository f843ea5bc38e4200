"""Contracts of the strongly connected components (C04)."""
from .net import *

B = z3.BoolSort()
A_B = z3.ArraySort(I, B)
T = 'Seldon::TarjanConnectivityAlgo::'


class TJ:
    """the members of the algorithm object"""

    def __init__(self, s):
        self.s = s
        self.C = s.scc_list
        self.cn, self.cl, self.ce = self.C.v.terms[0], self.C.lens, self.C.elems
        self.adj = s.adjacency_list
        self.n, self.L, self.A = self.adj.v.terms[0], self.adj.lens, self.adj.elems
        self.N, self.lw = s.num.arr, s.lowest.arr
        self.V, self.P = s.visited.arr, s.processed.arr
        self.S, self.sp = s.stack.arr, s.stack.n
        self.ic = s.index_counter


def add_reach(reg):
    # reach within n steps of the graph with L[u] neighbours A[u][k]
    rk = Fn('reach_in', [A_I, AA_I, I, I], B, lambda L, A, u, v: u == v,
            lambda L, A, u, v, n, r: qex([I, I], lambda w, k: z3.And(rk.f(L, A, u, w, n), k >= 0, k < L[w], A[w][k] == v)))
    reach = z3.Function('reach', A_I, AA_I, I, I, B)
    step_ = z3.Function('reach_steps', A_I, AA_I, I, I, I)  # a witness for reach

    def rdef(L, A, u, v):
        """definition of reach: in some number of steps"""
        n = z3.Int('n!reach')
        return known(z3.And(z3.Implies(reach(L, A, u, v), z3.And(step_(L, A, u, v) >= 0, rk(L, A, u, v, step_(L, A, u, v)))),
                            z3.ForAll([n], z3.Implies(z3.And(n >= 0, rk(L, A, u, v, n)), reach(L, A, u, v)),
                                      patterns=[rk(L, A, u, v, n)])))
    G = [('L', A_I), ('A', AA_I)]
    Ltr = Lemma('reach_in_transitive', G + [('u', I), ('v', I), ('w', I), ('n', I), ('m', I)],
                lambda L, A, u, v, w, n, m: z3.And(n >= 0, m >= 0, rk(L, A, u, v, n), rk(L, A, v, w, m)),
                lambda L, A, u, v, w, n, m: rk(L, A, u, w, n + m), ind='m', gen=('w',),
                using=lambda L, A, u, v, w, n, m: [rk.unfold(L, A, v, w, m), rk.unfold(L, A, u, w, n + m)])
    Lcl = Lemma('reach_in_closed_set', G + [('s', A_B), ('u', I), ('v', I), ('n', I)],
                lambda L, A, s, u, v, n: z3.And(closed(L, A, s), s[u], rk(L, A, u, v, n)),
                lambda L, A, s, u, v, n: s[v], ind='n', gen=('v',),
                using=lambda L, A, s, u, v, n: [rk.unfold(L, A, u, v, n)])

    def closed(L, A, s):
        return qall([I, I], lambda x, k: z3.Implies(z3.And(s[x], k >= 0, k < L[x]), s[A[x][k]]), lambda x, k: A[x][k])
    reg.closed = closed
    reg.reach = reach
    reg.Rrefl = Lemma('reach_reflexive', G + [('u', I)], lambda L, A, u: z3.BoolVal(True), lambda L, A, u: reach(L, A, u, u),
                      using=lambda L, A, u: [rdef(L, A, u, u), rk.unfold(L, A, u, u, intv(0))])
    reg.Rstep = Lemma('reach_step', G + [('u', I), ('w', I), ('k', I)],
                      lambda L, A, u, w, k: z3.And(reach(L, A, u, w), k >= 0, k < L[w]),
                      lambda L, A, u, w, k: reach(L, A, u, A[w][k]),
                      using=lambda L, A, u, w, k: [rdef(L, A, u, w), rdef(L, A, u, A[w][k]),
                                                   rk.unfold_succ(L, A, u, A[w][k], step_(L, A, u, w))])
    reg.Rtrans = Lemma('reach_transitive', G + [('u', I), ('v', I), ('w', I)],
                       lambda L, A, u, v, w: z3.And(reach(L, A, u, v), reach(L, A, v, w)),
                       lambda L, A, u, v, w: reach(L, A, u, w),
                       using=lambda L, A, u, v, w: [rdef(L, A, u, v), rdef(L, A, v, w), rdef(L, A, u, w), Ltr(
                           L, A, u, v, w, step_(L, A, u, v), step_(L, A, v, w))])
    reg.Rclosed = Lemma('reach_stays_in_closed_sets', G + [('s', A_B), ('u', I), ('v', I)],
                        lambda L, A, s, u, v: z3.And(closed(L, A, s), s[u], reach(L, A, u, v)),
                        lambda L, A, s, u, v: s[v],
                        using=lambda L, A, s, u, v: [rdef(L, A, u, v), Lcl(L, A, s, u, v, step_(L, A, u, v))])


# x is an entry of one of the first cn lists; (listno, entryno) is a witness
listed = z3.Function('listed', I, A_I, AA_I, I, B)
listno, entryno = z3.Function('list_of', I, A_I, AA_I, I, I), z3.Function('entry_of', I, A_I, AA_I, I, I)


def listed_if(cn, cl, ce, c, k):
    """definition of listed: every entry is listed"""
    return z3.Implies(z3.And(c >= 0, c < cn, k >= 0, k < cl[c]), listed(cn, cl, ce, ce[c][k]))


def listed_then(cn, cl, ce, x):
    """definition of listed: what is listed is an entry"""
    c, k = listno(cn, cl, ce, x), entryno(cn, cl, ce, x)
    return z3.Implies(listed(cn, cl, ce, x), z3.And(c >= 0, c < cn, k >= 0, k < cl[c], ce[c][k] == x))


def add(reg):
    add_reach(reg)
    reach = reg.reach
    # position of x among the first n entries of the stack, -1 if it is not there
    pos = Fn('position', [A_I, I], I, lambda S, x: intv(-1), lambda S, x, n, r: z3.If(S[n] == x, n, r))
    Lpos1 = Lemma('position_holds', [('S', A_I), ('x', I), ('n', I)], lambda S, x, n: n >= 0,
                  lambda S, x, n: z3.And(pos(S, x, n) >= -1, pos(S, x, n) < n, z3.Implies(pos(S, x, n) >= 0, S[pos(S, x, n)] == x)),
                  ind='n')
    Lpos2 = Lemma('position_found', [('S', A_I), ('x', I), ('k', I), ('n', I)],
                  lambda S, x, k, n: z3.And(k >= 0, k < n, S[k] == x), lambda S, x, k, n: pos(S, x, n) >= k, ind='n',
                  using=lambda S, x, k, n: [Lpos1(S, x, n - 1)])
    Lpos3 = Lemma('position_in_equal_stacks', [('S', A_I), ('Z', A_I), ('x', I), ('n', I)],
                  lambda S, Z, x, n: qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < n), S[i] == Z[i]), lambda i: S[i], lambda i: Z[i]),
                  lambda S, Z, x, n: pos(S, x, n) == pos(Z, x, n), ind='n')
    cnt = Fn('count', [A_B], I, lambda V: intv(0), lambda V, n, r: r + z3.If(V[n], intv(1), intv(0)))
    Lcnt1 = Lemma('count_bounds', [('V', A_B), ('n', I)], lambda V, n: n >= 0, lambda V, n: z3.And(cnt(V, n) >= 0, cnt(V, n) <= n), ind='n')
    Lcnt2 = Lemma('count_one_more', [('V', A_B), ('p', I), ('n', I)], lambda V, p, n: z3.And(z3.Not(V[p]), p >= 0),
                  lambda V, p, n: cnt(z3.Store(V, p, z3.BoolVal(True)), n) == cnt(V, n) + z3.If(p < n, intv(1), intv(0)), ind='n')
    Lcnt3 = Lemma('count_not_all', [('V', A_B), ('p', I), ('n', I)], lambda V, p, n: z3.And(z3.Not(V[p]), p >= 0, p < n),
                  lambda V, p, n: cnt(V, n) < n, ind='n', using=lambda V, p, n: [Lcnt1(V, n - 1)])

    def pos_facts(t, n=None, name=''):
        n = t.sp if n is None else n
        return [('positions hold' + name, Lpos1.forall(dict(S=t.S, n=n), lambda S, x, n: pos(S, x, n))),
                ('positions are found' + name, Lpos2.forall(dict(S=t.S, n=n), lambda S, x, k, n: (pos(S, x, n), S[k])))]

    def pos_found(t, n=None):
        """every stack entry has a position"""
        n = t.sp if n is None else n
        return ('stack entries have positions', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < n), pos(t.S, t.S[i], n) == i),
                                                     lambda i: t.S[i]))

    def graph_facts(t):
        L, A = t.L, t.A
        return [('reflexive', reg.Rrefl.forall(dict(L=L, A=A), lambda L, A, u: reach(L, A, u, u))),
                ('steps', reg.Rstep.forall(dict(L=L, A=A), lambda L, A, u, w, k: (reach(L, A, u, w), A[w][k]))),
                ('transitive', reg.Rtrans.forall(dict(L=L, A=A), lambda L, A, u, v, w: (reach(L, A, u, v), reach(L, A, v, w))))]

    def graph(t):
        return [('neighbours are nodes', qall([I, I], lambda x, k: z3.Implies(
            z3.And(x >= 0, x < t.n, k >= 0, k < t.L[x]), z3.And(t.A[x][k] >= 0, t.A[x][k] < t.n)), lambda x, k: t.A[x][k])),
            ('lengths', qall([I], lambda x: z3.Implies(z3.And(x >= 0, x < t.n), z3.And(t.L[x] >= 0, t.L[x] <= MAXLEN)), lambda x: t.L[x])),
            ('size', z3.And(t.n >= 0, t.n <= MAXLEN))]

    def sizes(t):
        s = t.s
        return [('sizes', z3.And(s.num_nodes == t.n, s.num.n == t.n, s.lowest.n == t.n, s.visited.n == t.n, s.processed.n == t.n))]

    def node(t, x):
        return z3.And(x >= 0, x < t.n)

    def stack_inv(t):
        S = t.S
        return [('stack entries are open nodes', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < t.sp), z3.And(
                    node(t, S[i]), t.V[S[i]], z3.Not(t.P[S[i]]), t.N[S[i]] < t.ic)), lambda i: S[i])),
                ('stack is in order of numbers', qall([I, I], lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < t.sp), t.N[S[i]] < t.N[S[j]]),
                                                      lambda i, j: (S[i], S[j]))),
                ('open nodes are on the stack', qall([I], lambda x: z3.Implies(z3.And(node(t, x), t.V[x], z3.Not(t.P[x])),
                                                                               pos(S, x, t.sp) >= 0), lambda x: t.V[x], lambda x: t.P[x])),
                ('processed nodes are visited nodes', qall([I], lambda x: z3.Implies(t.P[x], z3.And(node(t, x), t.V[x])), lambda x: t.P[x])),
                ('visited nodes are nodes', qall([I], lambda x: z3.Implies(t.V[x], node(t, x)), lambda x: t.V[x])),
                ('stack is not longer than the count', z3.And(t.sp >= 0, t.sp <= t.ic))]

    def comps(C, P, t):
        """the components found so far"""
        cn, cl, ce = C
        mem = lambda c, k: z3.And(c >= 0, c < cn, k >= 0, k < cl[c])
        mut = lambda x, y: z3.And(reach(t.L, t.A, x, y), reach(t.L, t.A, y, x))
        return [('components are not empty', z3.And(cn >= 0, qall([I], lambda c: z3.Implies(z3.And(c >= 0, c < cn), cl[c] >= 1), lambda c: cl[c]))),
                ('components contain processed nodes', qall([I, I], lambda c, k: z3.Implies(mem(c, k), z3.And(P(ce[c][k]), node(t, ce[c][k]))), lambda c, k: ce[c][k])),
                ('every processed node is in a component', qall([I], lambda x: z3.Implies(z3.And(node(t, x), P(x)), listed(cn, cl, ce, x)), lambda x: listed(cn, cl, ce, x))),
                ('a node appears only once', qall([I, I, I, I], lambda c, k, d, m: z3.Implies(
                    z3.And(mem(c, k), mem(d, m), ce[c][k] == ce[d][m]), z3.And(c == d, k == m)), lambda c, k, d, m: (ce[c][k], ce[d][m]))),
                ('same component iff mutually reachable', qall([I, I, I, I], lambda c, k, d, m: z3.Implies(
                    z3.And(mem(c, k), mem(d, m)), (c == d) == mut(ce[c][k], ce[d][m])), lambda c, k, d, m: (ce[c][k], ce[d][m])))]

    def inv(t):
        return both(sizes(t), stack_inv(t), [
            ('count', t.ic == cnt(t.V, t.n)),
            ('processed nodes lead to processed nodes only', reg.closed(t.L, t.A, t.P))],
            comps((t.cn, t.cl, t.ce), lambda x: t.P[x], t))

    def grown(a, b):
        """what one visit preserves"""
        return [('visited grows', qall([I], lambda x: z3.Implies(a.V[x], b.V[x]), lambda x: a.V[x], lambda x: b.V[x])),
                ('processed grows by newly visited nodes', qall([I], lambda x: z3.And(
                    z3.Implies(a.P[x], b.P[x]), z3.Implies(z3.And(b.P[x], z3.Not(a.P[x])), z3.Not(a.V[x]))), lambda x: b.P[x], lambda x: a.P[x])),
                ('numbers kept', qall([I], lambda x: z3.Implies(a.V[x], b.N[x] == a.N[x]), lambda x: a.N[x], lambda x: b.N[x])),
                ('stack kept', z3.And(b.sp >= a.sp, qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.sp), b.S[i] == a.S[i]),
                                                         lambda i: a.S[i], lambda i: b.S[i]))),
                ('new stack entries are newly visited', qall([I], lambda i: z3.Implies(z3.And(i >= a.sp, i < b.sp), z3.Not(a.V[b.S[i]])), lambda i: b.S[i])),
                ('count grows', b.ic >= a.ic)]

    def same_graph(a, b):
        return [('graph', z3.And(b.s.num_nodes == a.s.num_nodes, *[x == y for x, y in zip(a.adj.v.terms, b.adj.v.terms)]))]

    def post(c):
        a, b, v = TJ(c.this), TJ(c.thisp), c.arg(0)
        R = lambda x, y: reach(a.L, a.A, x, y)
        return both(inv(b), grown(a, b), [
            ('lowest values of earlier nodes kept', qall([I], lambda x: z3.Implies(a.V[x], b.lw[x] == a.lw[x]), lambda x: a.lw[x], lambda x: b.lw[x])),
            ('visited', z3.And(b.V[v], b.N[v] == a.ic)),
            ('newly visited nodes lead to visited nodes', qall([I, I], lambda x, k: z3.Implies(
                z3.And(b.V[x], z3.Not(a.V[x]), k >= 0, k < a.L[x]), b.V[a.A[x][k]]), lambda x, k: a.A[x][k])),
            ('a processed node leaves the stack as it was', z3.Implies(b.P[v], z3.And(b.sp == a.sp, b.lw[v] == b.N[v]))),
            ('an open node stays on the stack', z3.Implies(z3.Not(b.P[v]), z3.And(b.sp > a.sp, b.S[a.sp] == v, b.lw[v] < b.N[v], qex(
                [I], lambda i: z3.And(i >= 0, i < a.sp, b.N[b.S[i]] == b.lw[v], R(v, b.S[i])))))),
            ('lowest is a lower bound', qall([I, I], lambda i, k: z3.Implies(
                z3.And(i >= a.sp, i < b.sp, k >= 0, k < a.L[b.S[i]], pos(a.S, a.A[b.S[i]][k], a.sp) >= 0),
                b.lw[v] <= a.N[a.A[b.S[i]][k]]), lambda i, k: a.A[b.S[i]][k])),
            ('new stack entries are connected with the node', qall([I], lambda i: z3.Implies(
                z3.And(i >= a.sp, i < b.sp), z3.And(R(v, b.S[i]), R(b.S[i], v))), lambda i: b.S[i]))])

    def pre(c):
        a, v = TJ(c.this), c.arg(0)
        return both(graph(a), inv(a), [('an unvisited node', z3.And(node(a, v), z3.Not(a.V[v]))),
                                       ('the stack leads to the node', qall([I], lambda i: z3.Implies(
                                           z3.And(i >= 0, i < a.sp), reach(a.L, a.A, a.S[i], v)), lambda i: a.S[i]))])

    # loop over the neighbours of v
    def inv_nb(L):
        a, b, v = TJ(L.fn.this), TJ(read(L.ex, L.st, L.fn.obj)), L.fn.arg(0)
        R = lambda x, y: reach(a.L, a.A, x, y)
        base = a.sp
        return both(inv(b), grown(a, b), [
            ('lowest values of earlier nodes kept', qall([I], lambda x: z3.Implies(a.V[x], b.lw[x] == a.lw[x]), lambda x: a.lw[x], lambda x: b.lw[x])),
            ('position', L.it <= a.L[v]),
            ('this node', z3.And(b.V[v], z3.Not(b.P[v]), b.N[v] == a.ic, b.sp > base, b.S[base] == v)),
            ('newly visited nodes lead to visited nodes', qall([I, I], lambda x, k: z3.Implies(
                z3.And(b.V[x], z3.Not(a.V[x]), k >= 0, k < z3.If(x == v, L.it, a.L[x])), b.V[a.A[x][k]]), lambda x, k: a.A[x][k])),
            ('lowest', z3.And(b.lw[v] <= b.N[v], qex([I], lambda i: z3.And(i >= 0, i < b.sp, b.N[b.S[i]] == b.lw[v], R(v, b.S[i]))))),
            ('lowest is a lower bound', qall([I, I], lambda i, k: z3.Implies(
                z3.And(i >= base, i < b.sp, k >= 0, k < z3.If(b.S[i] == v, L.it, a.L[b.S[i]]), pos(a.S, a.A[b.S[i]][k], base) >= 0),
                b.lw[v] <= a.N[a.A[b.S[i]][k]]), lambda i, k: a.A[b.S[i]][k])),
            ('new stack entries are connected with the node', qall([I], lambda i: z3.Implies(
                z3.And(i >= base, i < b.sp), z3.And(R(v, b.S[i]), R(b.S[i], v))), lambda i: b.S[i])),
            ('the stack leads to the node', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < b.sp), R(b.S[i], v)), lambda i: b.S[i]))])

    def entry_nb(L):
        a, b, v = TJ(L.fn.this), TJ(read(L.ex, L.st, L.fn.obj)), L.fn.arg(0)
        return both(graph_facts(a), pos_facts(a), pos_facts(b, None, ' (2)'), pos_facts(b, a.sp, ' (3)'),
                    [('pushed', known(z3.ForAll([z3.Int('x!p')], pos.unfold_succ(b.S, z3.Int('x!p'), a.sp), patterns=[pos(b.S, z3.Int('x!p'), a.sp + 1)]))),
                     ('below', Lpos3.forall(dict(S=b.S, Z=a.S, n=a.sp), lambda S, Z, x, n: pos(S, x, n))),
                     ('counted', Lcnt2(a.V, v, a.n)), ('not all', Lcnt3(a.V, v, a.n))])

    def hints_nb(L):
        a, b, v = TJ(L.fn.this), TJ(read(L.ex, L.st, L.fn.obj)), L.fn.arg(0)
        return both(graph_facts(a), pos_facts(a), pos_facts(b, None, ' (2)'), [('bounds', Lcnt1(b.V, b.n)), pos_found(b)])

    def step_nb(L):
        a, h, b, v = TJ(L.fn.this), TJ(read(L.ex, L.head, L.fn.obj)), TJ(read(L.ex, L.st, L.fn.obj)), L.fn.arg(0)
        out = pos_facts(b)
        return both(out, [pos_found(b)])

    def exit_nb(L):
        a, b = TJ(L.fn.this), TJ(read(L.ex, L.st, L.fn.obj))
        L.ex.ghost(L.st, 'before popping', b)
        mem = lambda c, k: z3.And(c >= 0, c < b.cn, k >= 0, k < b.cl[c])
        return both(graph_facts(a), pos_facts(a), pos_facts(b, None, ' (2)'), [pos_found(b)], [
            ('closed', reg.Rclosed.forall(dict(L=a.L, A=a.A, s=b.P), lambda L, A, s, u, v: reach(L, A, u, v))),
            ('components do not lead to the stack', qall([I, I, I], lambda c, k, i: z3.Implies(
                z3.And(mem(c, k), i >= 0, i < b.sp), z3.Not(reach(a.L, a.A, b.ce[c][k], b.S[i]))), lambda c, k, i: (b.ce[c][k], b.S[i])))])

    # popping the component: by a loop that tests the popped node first, last or in between
    def inv_pop(L):
        b, e = TJ(read(L.ex, L.st, L.fn.obj)), TJ(read(L.ex, L.entry, L.fn.obj))
        g = L.st.gh.get('before popping')
        if g is None:
            raise Unsupported('no loop over the neighbours')
        v, base, top = L.fn.arg(0), TJ(L.fn.this).sp, g.sp
        isvec = lambda s: s.kind == 'vec' and s.elem.kind == 'int'
        scc, scc0 = L.v('scc', isvec), L.e('scc', isvec)
        c = L.ex.loop_nodes[L.no].get('c')
        ends = c is not None and c.get('k') != 'Bool'  # the loop has a condition
        try:
            x = L.v('scc_vertex', lambda s: s.kind == 'int')
        except Unsupported:
            x = None
        out = [('position', z3.And(b.sp >= base, b.sp <= top)),
               ('popped nodes go to the component', scc.n + b.sp == scc0.n + e.sp),
               ('component so far', qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < scc.n), scc.arr[k] == g.S[top - 1 - k]), lambda k: scc.arr[k])),
               ('processed so far', qall([I], lambda y: b.P[y] == z3.Or(g.P[y], pos(g.S, y, top) >= b.sp), lambda y: b.P[y], lambda y: g.P[y]))]
        if x is None or not ends:
            return out + [('the node is still there', b.sp > base)]
        try:
            first = L.hid('first')
        except Unsupported:
            first = z3.BoolVal(False)
        return out + [('current', z3.Implies(b.sp < top, x == g.S[b.sp])), ('one is popped', z3.If(first, b.sp == e.sp, b.sp < top))]

    def facts(c):
        a, b, v = TJ(c.this), TJ(c.thisp), c.arg(0)
        h = c.post.gh.get('before popping')
        out = pos_facts(b)
        if h is None or h.cn.eq(b.cn):
            return out
        d, top = h.cn, h.sp - 1
        m = b.cl[d]
        mem = lambda c, k: z3.And(c >= 0, c < h.cn, k >= 0, k < h.cl[c])
        return both(out, [
            ('one more component', z3.And(b.cn == h.cn + 1, m == h.sp - a.sp, m >= 1)),
            ('the new component', qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < m), b.ce[d][k] == h.S[top - k]), lambda k: b.ce[d][k])),
            ('where the popped nodes are', qall([I], lambda x: z3.Implies(pos(h.S, x, h.sp) >= a.sp, b.ce[d][top - pos(h.S, x, h.sp)] == x),
                                                lambda x: pos(h.S, x, h.sp))),
            ('earlier components kept', qall([I], lambda e: z3.Implies(z3.And(e >= 0, e < d), z3.And(b.ce[e] == h.ce[e], b.cl[e] == h.cl[e])),
                                             lambda e: b.ce[e], lambda e: h.ce[e])),
            ('earlier nodes', z3.And(*[t for nm, t in comps((h.cn, h.cl, h.ce), lambda x: h.P[x], h) if 'every processed' in nm])),
            ('listed (earlier)', known(qall([I], lambda x: listed_then(h.cn, h.cl, h.ce, x), lambda x: h.P[x]))),
            ('listed (earlier, now)', known(qall([I], lambda x: listed_if(b.cn, b.cl, b.ce, listno(h.cn, h.cl, h.ce, x), entryno(h.cn, h.cl, h.ce, x)),
                                                 lambda x: h.P[x]))),
            ('listed (new)', known(qall([I], lambda x: listed_if(b.cn, b.cl, b.ce, d, top - pos(h.S, x, h.sp)), lambda x: pos(h.S, x, h.sp)))),
            ('processed before or popped now', qall([I], lambda x: b.P[x] == z3.Or(h.P[x], pos(h.S, x, h.sp) >= a.sp), lambda x: b.P[x])),
            ('the new component is connected', qall([I, I], lambda k, q: z3.Implies(z3.And(k >= 0, k < m, q >= 0, q < m), z3.And(
                reach(a.L, a.A, b.ce[d][k], b.ce[d][q]), reach(a.L, a.A, b.ce[d][q], b.ce[d][k]))), lambda k, q: (b.ce[d][k], b.ce[d][q]))),
            ('earlier components do not lead here', qall([I, I, I], lambda e, k, q: z3.Implies(
                z3.And(mem(e, k), q >= 0, q < m), z3.Not(reach(a.L, a.A, h.ce[e][k], b.ce[d][q]))), lambda e, k, q: (h.ce[e][k], b.ce[d][q]))),
            ('earlier components are right', z3.And(*[t for nm, t in comps((h.cn, h.cl, h.ce), lambda x: h.P[x], h) if 'same component' in nm]))])
    fields = ('num', 'lowest', 'visited', 'processed', 'stack', 'index_counter', 'scc_list')
    reg.add(Contract(T + 'depth_first_search', pre=pre, post=post, facts=facts, modifies=lambda c: [c.obj.f(x) for x in fields],
                     dec=lambda c: TJ(c.this).n - cnt(TJ(c.this).V, TJ(c.this).n),
                     loops={0: LoopSpec(inv_nb, entry=entry_nb, hints=hints_nb, step=step_nb, exit=exit_nb),
                            1: LoopSpec(inv_pop, dec=lambda L: TJ(read(L.ex, L.st, L.fn.obj)).sp - TJ(L.fn.this).sp)}))

    # ---- the constructor and Network::strongly_connected_components -----------------------------------------------
    class GView:
        """a graph given as lists of neighbours"""

        def __init__(self, s):
            self.n, self.L, self.A = s.v.terms[0], s.lens, s.elems

    def exactly_components(g, cn, cl, ce):
        return comps((cn, cl, ce), lambda x: z3.BoolVal(True), g)

    def inv_run(L):
        b = TJ(read(L.ex, L.st, L.fn.obj))
        a = TJ(read(L.ex, L.entry, L.fn.obj))
        return both(inv(b), same_graph(a, b), [
            ('visited so far', z3.And(L.it <= b.n, qall([I], lambda x: z3.Implies(z3.And(x >= 0, x < L.it), b.V[x]), lambda x: b.V[x]))),
            ('empty stack', b.sp == 0)])

    def entry_run(L):
        b = TJ(read(L.ex, L.st, L.fn.obj))
        return both(pos_facts(b), [('nothing visited', LcntF(b.V, b.n))])
    LcntF = Lemma('count_none', [('V', A_B), ('n', I)], lambda V, n: qall([I], lambda x: z3.Implies(z3.And(x >= 0, x < n), z3.Not(V[x])), lambda x: V[x]),
                  lambda V, n: cnt(V, n) == 0, ind='n')

    def hints_run(L):
        b = TJ(read(L.ex, L.st, L.fn.obj))
        return both(pos_facts(b), graph_facts(b))

    def step_run(L):
        b = TJ(read(L.ex, L.st, L.fn.obj))
        return pos_facts(b)

    def post_ctor(c):
        g, b = GView(c.arg(0)), TJ(c.thisp)
        return exactly_components(g, b.cn, b.cl, b.ce)

    def facts_ctor(c):
        b = TJ(c.thisp)
        return pos_facts(b)

    def pre_ctor(c):
        return graph(GView(c.arg(0)))
    reg.add(Contract(T + 'TarjanConnectivityAlgo', pre=pre_ctor, post=post_ctor, facts=facts_ctor,
                     loops={0: LoopSpec(inv_run, entry=entry_run, hints=hints_run, step=step_run, exit=step_run)}))

    def post_scc(c):
        g = GView(Net(c.this).nb)
        r = c.result
        return exactly_components(g, r.v.terms[0], r.lens, r.elems)
    reg.add(Contract('Seldon::Network::strongly_connected_components', pre=lambda c: both(Net(c.this).wf(), Net(c.this).inrange()),
                     post=post_scc))
