"""Contracts of the network generators (C05, C06, C07)."""
from .net import *

R = z3.RealSort()
G = 'Seldon::NetworkGeneration::'


def is_vi(s):
    return s.kind == 'vec' and s.elem.kind == 'int' and not s.elem.char


def is_vr(s):
    return s.kind == 'vec' and s.elem.kind == 'real'


def is_real(s):
    return s.kind == 'real'


def add_sums(reg):
    """rsum(a, n) = a[0] + ... + a[n-1]"""
    rsum = Fn('sum', [A_R], R, lambda a: realv(0), lambda a, n, r: r + a[n])
    reg.rsum = rsum
    reg.Lrset = Lemma('sum_change', [('a', A_R), ('p', I), ('x', R), ('n', I)], lambda a, p, x, n: p >= 0,
                      lambda a, p, x, n: rsum(z3.Store(a, p, x), n) == rsum(a, n) + z3.If(p < n, x - a[p], realv(0)), ind='n')
    reg.Lrscale = Lemma('sum_scaled', [('v', A_R), ('w', A_R), ('s', R), ('n', I)],
                        lambda v, w, s, n: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), v[k] * s == w[k]),
                                                lambda k: v[k], lambda k: w[k]),
                        lambda v, w, s, n: rsum(v, n) * s == rsum(w, n), ind='n')
    nonneg = lambda a, n: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), a[k] >= 0), lambda k: a[k])
    reg.nonneg = nonneg
    reg.Lrnonneg = Lemma('sum_not_negative', [('a', A_R), ('n', I)], lambda a, n: nonneg(a, n),
                         lambda a, n: rsum(a, n) >= 0, ind='n')
    reg.Lrelem = Lemma('sum_bounds_elements', [('a', A_R), ('p', I), ('n', I)],
                       lambda a, p, n: z3.And(nonneg(a, n), p >= 0, p < n),
                       lambda a, p, n: z3.And(rsum(a, n) >= 0, a[p] <= rsum(a, n)), ind='n',
                       using=lambda a, p, n: [reg.Lrnonneg(a, n - 1)])


def add(reg):
    add_sums(reg)
    rsum = reg.rsum
    drawn = z3.Function('total_drawn_for', I, R)  # ghost: the sum of the weights drawn for an agent

    def good_row(w, n, i):
        """weights in [0,1] with sum 1, unless all were drawn as zero (or there are none)"""
        return z3.Or(drawn(i) == 0, z3.And(rsum(w, n) == 1, qall([I], lambda k: z3.Implies(
            z3.And(k >= 0, k < n), z3.And(w[k] >= 0, w[k] <= 1)), lambda k: w[k])))

    def lists(L):
        nl = L.v('neighbour_list', is_vv('int'))
        wl = L.v('weight_list', is_vv('real'))
        return nl, wl

    def rows_n(f):
        """invariant of the loop over agents: f(i, length, neighbours, weights length, weights)"""
        def inv(L):
            nl, wl = lists(L)
            t = L.it
            return [('one list per agent', z3.And(nl.n == t, wl.n == t))] + [
                (name, qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < t), g(i, nl.lens[i], nl.elems[i], wl.lens[i], wl.elems[i])),
                            lambda i: nl.lens[i], lambda i: nl.elems[i], lambda i: wl.lens[i], lambda i: wl.elems[i]))
                for name, g in f(L.fn)]
        return inv

    def post_rows(f):
        def post(c):
            r = Net(c.result)
            n = c.arg(0)
            return r.wf() + [('incoming edges', r.dir == INCOMING), ('number of agents', r.n == n)] + [
                (name, qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < n), g(i, r.nlen[i], r.el[i], r.wlen[i], r.w[i])),
                            lambda i: r.nlen[i], lambda i: r.el[i], lambda i: r.wlen[i], lambda i: r.w[i]))
                for name, g in f(c)]
        return post

    def distinct(a, n):
        return qall([I, I], lambda x, y: z3.Implies(z3.And(x >= 0, x < y, y < n), a[x] != a[y]), lambda x, y: (a[x], a[y]))

    def inrange(a, m, n):
        return qall([I], lambda x: z3.Implies(z3.And(x >= 0, x < m), z3.And(a[x] >= 0, a[x] < n)), lambda x: a[x])

    # drawing and normalising the weights of one agent
    def inv_drawing(L):
        w, s = L.v('incoming_neighbour_weights', is_vr), L.v('outgoing_norm_weight', is_real)
        return [('the norm is the sum so far', s == rsum(w.arr, L.it)),
                ('weights are in [0,1)', qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < L.it), z3.And(
                    w.arr[k] >= 0, w.arr[k] < 1)), lambda k: w.arr[k]))]

    def step_drawing(L):
        a = L.at_head.v('incoming_neighbour_weights', is_vr).arr
        b = L.v('incoming_neighbour_weights', is_vr).arr
        k = L.at_head.it
        return [('next', rsum.unfold_succ(b, k)), ('kept', reg.Lrset.forall(
            dict(a=a, p=k, n=k), lambda a, p, x, n: rsum(z3.Store(a, p, x), n)))]

    def entry_norm(outer):
        def entry(L):
            w, s = L.v('incoming_neighbour_weights', is_vr), L.v('outgoing_norm_weight', is_real)
            n = w.n
            i0 = L.outer(outer)
            return [('change', reg.Lrset.forall(dict(), lambda a, p, x, n: rsum(z3.Store(a, p, x), n))),
                    ('norm', s == rsum(w.arr, n)),
                    ('not negative', reg.nonneg(w.arr, n)),
                    ('ghost: the total drawn for this agent', known(drawn(i0) == rsum(w.arr, n)))]
        return entry

    def inv_norm(L):
        w, w0 = L.v('incoming_neighbour_weights', is_vr), L.e('incoming_neighbour_weights', is_vr)
        s = L.e('outgoing_norm_weight', is_real)
        return [('normalised so far', z3.Implies(s != 0, qall([I], lambda k: z3.Implies(
                    z3.And(k >= 0, k < L.it), w.arr[k] * s == w0.arr[k]), lambda k: w.arr[k], lambda k: w0.arr[k]))),
                ('still to do', qall([I], lambda k: z3.Implies(k >= L.it, w.arr[k] == w0.arr[k]),
                                     lambda k: w.arr[k], lambda k: w0.arr[k])),
                ('number of weights', w.n == w0.n)]

    def exit_norm(L):
        w, w0 = L.v('incoming_neighbour_weights', is_vr).arr, L.e('incoming_neighbour_weights', is_vr).arr
        n = L.v('incoming_neighbour_weights', is_vr).n
        s = L.e('outgoing_norm_weight', is_real)
        return [('all done', L.it == n),
                ('scaled', reg.Lrscale(w, w0, s, n)),
                ('scaled sum', z3.Implies(s != 0, rsum(w, n) * s == s)),
                ('sum', z3.Implies(s != 0, rsum(w, n) == 1)),
                ('bounds', reg.Lrelem.forall(dict(a=w0, n=n), lambda a, p, n: w0[p])),
                ('total not negative', reg.Lrnonneg(w0, n)),
                ('fractions', z3.Implies(s != 0, qall([I], lambda k: z3.Implies(
                    z3.And(k >= 0, k < n), z3.And(w[k] >= 0, w[k] <= 1)), lambda k: w[k])))]

    # ---- n connections (C05) -------------------------------------------------------------------------------------
    def rows_conn(c):
        n, k, self_ = c.arg(0), c.arg(1), c.arg(2)
        m = z3.If(k < n - 1, k, n - 1)
        one = z3.If(self_, intv(1), intv(0))
        return [('min(k, n-1) neighbours, and itself if requested', lambda i, ln, el, wn, w: z3.And(ln == m + one, wn == ln)),
                ('neighbours are agents', lambda i, ln, el, wn, w: inrange(el, ln, n)),
                ('neighbours are distinct', lambda i, ln, el, wn, w: distinct(el, ln)),
                ('an agent is not its own neighbour unless requested',
                 lambda i, ln, el, wn, w: qall([I], lambda x: z3.Implies(z3.And(
                     x >= 0, x < z3.If(self_, m, ln)), el[x] != i), lambda x: el[x])),
                ('itself if requested', lambda i, ln, el, wn, w: z3.Implies(self_, el[ln - 1] == i)),
                ('weights are normalised', lambda i, ln, el, wn, w: good_row(w, wn, i))]
    reg.add(Contract(
        G + 'generate_n_connections', pre=lambda c: [('sizes', z3.And(c.arg(0) <= MAXLEN, c.arg(1) <= MAXLEN))],
        modifies=lambda c: [c.lv(3)], post=post_rows(rows_conn),
        loops={0: LoopSpec(rows_n(rows_conn)), 1: LoopSpec(inv_drawing, step=step_drawing),
               2: LoopSpec(inv_norm, entry=entry_norm(0), exit=exit_norm)}))

    # ---- fully connected (C06) -----------------------------------------------------------------------------------
    def iota_inv(L):
        b = L.v('incoming_neighbour_buffer', is_vi)
        return [('everyone so far', qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < L.it), b.arr[k] == k), lambda k: b.arr[k]))]

    def rows_full(c):
        n = c.arg(0)
        return [('n neighbours', lambda i, ln, el, wn, w: z3.And(ln == n, wn == n)),
                ('neighbours are agents', lambda i, ln, el, wn, w: inrange(el, ln, n)),
                ('neighbours are distinct', lambda i, ln, el, wn, w: distinct(el, ln))] + ([
                    ('in order', lambda i, ln, el, wn, w: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < ln), el[k] == k), lambda k: el[k]))]
                    if reg.pid in ('C14', 'C17', 'C18') else [])

    def rows_const(c):
        return rows_full(c) + [('constant weights', lambda i, ln, el, wn, w: qall([I], lambda k: z3.Implies(
            z3.And(k >= 0, k < wn), w[k] == c.arg(1)), lambda k: w[k]))]

    def rows_rand(c):
        return rows_full(c) + [('weights are normalised', lambda i, ln, el, wn, w: good_row(w, wn, i))]
    isgen = lambda p, g: p.ty(g['params'][1]['t'])['k'] == 'ref'
    reg.add(Contract(
        G + 'generate_fully_connected', match=lambda p, g: not isgen(p, g),
        pre=lambda c: [('sizes', c.arg(0) <= MAXLEN)], post=post_rows(rows_const),
        loops={0: LoopSpec(iota_inv), 1: LoopSpec(rows_n(rows_const))}))
    reg.add(Contract(
        G + 'generate_fully_connected', match=isgen, tag='random',
        pre=lambda c: [('sizes', c.arg(0) <= MAXLEN)], modifies=lambda c: [c.lv(1)], post=post_rows(rows_rand),
        loops={0: LoopSpec(iota_inv), 1: LoopSpec(rows_n(rows_rand)), 2: LoopSpec(inv_drawing, step=step_drawing),
               3: LoopSpec(inv_norm, entry=entry_norm(1), exit=exit_norm)}))

    # ---- square lattice (C07) ----------------------------------------------------------------------------------
    col, row = z3.Function('column', I, I, I), z3.Function('row', I, I, I)
    Ldiv = Lemma('lattice_position', [('c', I), ('n', I)], lambda c, n: z3.And(n > 0, c >= 0, c < n * n),
                 lambda c, n: z3.And(c == c % n + n * (c / n), c % n >= 0, c % n < n, c / n >= 0, c / n < n))
    Lpos = Lemma('lattice_index', [('i', I), ('j', I), ('n', I)], lambda i, j, n: z3.And(i >= 0, i < n, j >= 0),
                 lambda i, j, n: z3.And((i + n * j) % n == i, (i + n * j) / n == j, z3.Implies(j < n, i + n * j < n * n),
                                        i + n * j >= 0))
    reg.col, reg.row = col, row

    def defs(n):
        return known(qall([I], lambda c: z3.And(col(c, n) == c % n, row(c, n) == c / n), lambda c: col(c, n),
                          lambda c: row(c, n)))

    def position(n):
        return qall([I], lambda c: z3.Implies(z3.And(c >= 0, c < n * n), z3.And(
            c == col(c, n) + n * row(c, n), col(c, n) >= 0, col(c, n) < n, row(c, n) >= 0, row(c, n) < n)),
            lambda c: col(c, n), lambda c: row(c, n))

    def periodic(k, n):
        return z3.If(k < 0, k + n, z3.If(k >= n, k - n, k))

    def four(c, n):
        x, y = col(c, n), row(c, n)
        return [periodic(x - 1, n) + n * y, periodic(x + 1, n) + n * y, x + n * periodic(y - 1, n), x + n * periodic(y + 1, n)]
    reg.four = four

    def site(r, c, n, weight):
        """the lists of agent c: exactly its four periodic neighbours, in any order"""
        ts = four(c, n)
        count = lambda t, xs: z3.Sum([z3.If(t == x, intv(1), intv(0)) for x in xs])
        el = [r.el[c][k] for k in range(4)]
        return z3.And(r.nlen[c] == 4, r.wlen[c] == 4, *[count(t, el) == count(t, ts) for t in ts],
                      *([] if weight is None else [r.w[c][k] == weight for k in range(4)]))

    reg.site = site

    # rows(L): the order in which the sites are visited: 'ij' (i outside, j inside), 'ji', or 'c' (one loop over the sites)
    def lat_inv(inner, order='ij'):
        def inv(L):
            n, weight = L.fn.arg(0), L.fn.arg(1)
            net = L.v('network', is_network) if inner is not None else None
            r = Net(net)
            i = L.outer(0) if inner else L.it
            j = L.it if inner else intv(0)
            seen = {'ij': lambda c: z3.Or(col(c, n) < i, z3.And(col(c, n) == i, row(c, n) < j)),
                    'ji': lambda c: z3.Or(row(c, n) < i, z3.And(row(c, n) == i, col(c, n) < j)), 'c': lambda c: c < i}[order]
            return r.wf() + [('n*n agents', r.n == n * n), ('incoming edges', r.dir == INCOMING), ('progress', i <= (n * n if order == 'c' else n)),
                             ('sites done', qall([I], lambda c: z3.Implies(
                                 z3.And(c >= 0, c < n * n, seen(c)),
                                 site(r, c, n, weight)), lambda c: r.nlen[c], lambda c: r.el[c], lambda c: r.wlen[c],
                                 lambda c: r.w[c], lambda c: col(c, n)))]
        return inv

    def lat_entry(L):
        n = L.fn.arg(0)
        return [('coordinates', defs(n)), ('div', Ldiv.forall(dict(n=n), lambda c, n: col(c, n), lambda c, n: row(c, n))),
                ('positions', position(n))]

    def lat_hint(L, order='ij'):
        n = L.fn.arg(0)
        i, j = (L.outer(0), L.it) if order == 'ij' else (L.it, L.outer(0))
        if order == 'c':
            i, j = col(L.it, n), row(L.it, n)
            return [('the site', z3.And(i >= 0, i < n, j >= 0, j < n, L.it == i + n * j)), ('index', Lpos(i, j, n)),
                    ('neighbour indices fit', z3.And(n * j <= n * n - n, n * j >= 0, n * n <= MAXLEN))]
        c = i + n * j
        return [('index', Lpos(i, j, n)), ('here', z3.And(col(c, n) == i, row(c, n) == j)),
                ('neighbour indices fit', z3.And(n * j <= n * n - n, n * j >= 0, n * n <= MAXLEN))]

    # four lists of four numbers with the same multiset: the members of one are among the other's
    def multi(xs, ts):
        count = lambda t, xs: z3.Sum([z3.If(t == x, intv(1), intv(0)) for x in xs])
        return z3.And(*[count(t, xs) == count(t, ts) for t in ts])
    xs_ = [(f'x{k}', I) for k in range(4)]
    ts_ = [(f't{k}', I) for k in range(4)]
    Lmulti = Lemma('same_four', xs_ + ts_, lambda **v: multi([v[n] for n, _ in xs_], [v[n] for n, _ in ts_]),
                   lambda **v: z3.And(*[z3.Or(*[v[x] == v[t] for t, _ in ts_]) for x, _ in xs_]))
    Lper = Lemma('periodic_in_range', [('i', I), ('j', I), ('n', I)], lambda i, j, n: z3.And(i >= 0, i < n, j >= 0, j < n),
                 lambda i, j, n: z3.And(i + n * j < n * n, i + n * j >= 0))
    A4 = z3.ArraySort(I, I)
    Lsite = Lemma('sites_are_in_range', [('el', A4), ('c', I), ('n', I)],
                  lambda el, c, n: z3.And(n > 0, c >= 0, c < n * n, col(c, n) >= 0, col(c, n) < n, row(c, n) >= 0, row(c, n) < n,
                                          multi([el[k] for k in range(4)], four(c, n))),
                  lambda el, c, n: z3.And(*[z3.And(el[k] >= 0, el[k] < n * n) for k in range(4)]),
                  using=lambda el, c, n: [Lmulti(*([el[k] for k in range(4)] + four(c, n)))] + [
                      Lper(x, y, n) for x, y in ((periodic(col(c, n) - 1, n), row(c, n)), (periodic(col(c, n) + 1, n), row(c, n)),
                                                 (col(c, n), periodic(row(c, n) - 1, n)), (col(c, n), periodic(row(c, n) + 1, n)))])

    def lat_facts(c):
        r, n = Net(c.result), c.arg(0)
        return [('coordinates', defs(n)), ('div', Ldiv.forall(dict(n=n), lambda c, n: col(c, n), lambda c, n: row(c, n))),
                ('positions', position(n)), ('sites', qall([I], lambda x: z3.Implies(
                    z3.And(x >= 0, x < n * n), site(r, x, n, c.arg(1))), lambda x: r.nlen[x], lambda x: r.el[x])),
                ('range', known(qall([I], lambda x: Lsite.statement(dict(el=r.el[x], c=x, n=n)), lambda x: r.el[x], lambda x: r.nlen[x]))),
                ('use', Lsite(r.el[intv(0)], intv(0), n))]

    def lat_post(c):
        r, n = Net(c.result), c.arg(0)
        return r.wf() + [('neighbours are agents', qall([I, I], lambda i, k: z3.Implies(
            z3.And(i >= 0, i < r.n, k >= 0, k < r.nlen[i]), z3.And(r.el[i][k] >= 0, r.el[i][k] < r.n)), lambda i, k: r.el[i][k]))] + [('n*n agents', r.n == n * n), ('incoming edges', r.dir == INCOMING),
                         ('exactly the four periodic neighbours', qall([I], lambda x: z3.Implies(
                             z3.And(x >= 0, x < n * n), site(r, x, n, c.arg(1))), lambda x: r.nlen[x], lambda x: r.el[x],
                             lambda x: r.wlen[x], lambda x: r.w[x]))]
    reg.add(Contract(
        G + 'generate_square_lattice',
        pre=lambda c: [('sizes', z3.And(c.arg(0) <= 2 ** 30, c.arg(0) * c.arg(0) <= MAXLEN))], post=lat_post, facts=lat_facts,
        loops={0: LoopSpec(lat_inv(False), entry=lat_entry, dec=lambda L: L.fn.arg(0) - L.it), 1: LoopSpec(lat_inv(True), hints=lat_hint)},
        alts=[{0: LoopSpec(lat_inv(False, 'ji'), entry=lat_entry, dec=lambda L: L.fn.arg(0) - L.it), 1: LoopSpec(
            lat_inv(True, 'ji'), hints=lambda L: lat_hint(L, 'ji'))},
              {0: LoopSpec(lat_inv(False, 'c'), entry=lat_entry, hints=lambda L: lat_hint(L, 'c'))}]))
