"""Contracts of the sampling functions in util/math.hpp (C08, C09)."""
from .net import *

R = z3.RealSort()


def allowed(ign, n):
    """how many indices below n may be drawn"""
    return n - z3.If(z3.And(ign.has, ign.val < n), intv(1), intv(0))


def add(reg):
    def seq_iterator(c, st, f):
        ign, n = c.arg(0), c.arg(2)
        val = lambda j: j + z3.If(z3.And(ign.has, j >= ign.val), intv(1), intv(0))

        def inv(s, j):
            pos = s.field_of_shape(lambda x: x.kind == 'int', 'the position')
            g = s.field_of_shape(lambda x: x.kind == 'struct' and x.tag == 'opt', 'the ignored index')
            return z3.And(pos == val(j), g.has == ign.has, z3.Implies(ign.has, g.val == ign.val))
        return allowed(ign, n), inv, val

    def post_draw(c):
        ign, k, n, b = c.arg(0), c.arg(1), c.arg(2), c.argp(3)
        N = allowed(ign, n)
        return [('min(k, number of allowed indices) are drawn', b.n == z3.If(k < N, k, N)),
                ('drawn indices are below n', qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < b.n), z3.And(b.arr[i] >= 0, b.arr[i] < n)), lambda i: b.arr[i])),
                ('the ignored index is not drawn', qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < b.n, ign.has), b.arr[i] != ign.val), lambda i: b.arr[i])),
                ('drawn indices are distinct', qall([I, I], lambda x, y: z3.Implies(
                    z3.And(x >= 0, x < y, y < b.n), b.arr[x] != b.arr[y]), lambda x, y: (b.arr[x], b.arr[y])))]
    reg.add(Contract(
        'Seldon::draw_unique_k_from_n',
        pre=lambda c: [('sizes', z3.And(c.arg(1) <= MAXLEN, c.arg(2) <= MAXLEN))],
        modifies=lambda c: [c.lv(3), c.lv(4)], post=post_draw, iterator=seq_iterator))

    # ---- weighted reservoir sampling (C09) -----------------------------------------------------------------
    cpos = Fn('positive_entries', [A_R], I, lambda a: intv(0), lambda a, n, r: r + z3.If(a[n] > 0, intv(1), intv(0)))
    reg.cpos = cpos
    Lbound = Lemma('positive_entries_bounds', [('a', A_R), ('p', I), ('n', I)], lambda a, p, n: n >= 0,
                   lambda a, p, n: z3.And(cpos(a, n) >= 0, cpos(a, n) <= n - z3.If(
                       z3.And(p >= 0, p < n, a[p] <= 0), intv(1), intv(0))), ind='n',
                   using=lambda a, p, n: [cpos.unfold(a, n)])
    Lset = Lemma('positive_entries_change', [('a', A_R), ('p', I), ('x', R), ('n', I)],
                 lambda a, p, x, n: p >= 0,
                 lambda a, p, x, n: cpos(z3.Store(a, p, x), n) == cpos(a, n) + z3.If(
                     p < n, z3.If(x > 0, intv(1), intv(0)) - z3.If(a[p] > 0, intv(1), intv(0)), intv(0)), ind='n')
    NZ = no_draw_is_zero

    def is_pq(s):
        return s.kind == 'vec' and s.tag == 'pq' and s.elem.kind == 'struct'

    def is_real(s):
        return s.kind == 'real'

    def queue(L):
        H = L.v('H', is_pq)
        idx, key = H.arrs
        return H.n, idx, key

    def items(c, m, F, K, n, W):
        return [('items are seen indices', qall([I], lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(
                    F[a] >= 0, F[a] < n)), lambda a: F[a])),
                ('keys are in [0,1)', qall([I], lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(
                    K[a] >= 0, K[a] < 1)), lambda a: K[a])),
                ('items of weight zero have key zero', qall([I], lambda a: z3.Implies(z3.And(
                    a >= 0, a < m, W[F[a]] == 0), K[a] == 0), lambda a: K[a])),
                ('other items have a positive key', qall([I], lambda a: z3.Implies(z3.And(
                    a >= 0, a < m, NZ, W[F[a]] > 0), K[a] > 0), lambda a: K[a])),
                ('items are distinct', qall([I, I], lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < m), F[a] != F[b]),
                                            lambda a, b: (F[a], F[b])))]

    def weights(c):
        return c.fn(2, lambda j: z3.And(j >= 0, j < c.arg(1)), 'weight')

    def inv_fill(L):
        m, F, K = queue(L)
        W, n = weights(L.fn), L.fn.arg(1)
        return items(L.fn, m, F, K, L.it, W) + [
            ('one item per index', z3.And(m == L.it, L.it <= n, L.it <= L.fn.arg(0))),
            ('positive keys', z3.Implies(NZ, cpos(K, m) == cpos(W, L.it)))]

    def step_fill(L):
        m, F, K = queue(L.at_head)
        m2, F2, K2 = queue(L)
        W = weights(L.fn)
        return [('count w', cpos.unfold_succ(W, m)), ('count keys', cpos.unfold_succ(K2, m)),
                ('push', Lset.forall(dict(a=K, p=m, n=m), lambda a, p, x, n: cpos(z3.Store(a, p, x), n)))]

    def inv_replace(L):
        m, F, K = queue(L)
        W, n, k = weights(L.fn), L.fn.arg(1), L.fn.arg(0)
        m0 = L.at_entry.v('H', is_pq).n
        x = L.v('X', is_real)
        done = m0 + L.it
        return items(L.fn, m, F, K, done, W) + [
            ('as many items as before', z3.And(m == m0, done <= n)),
            ('zero keys only while positive weights are missing', z3.Implies(NZ, z3.Or(
                qall([I], lambda a: z3.Implies(z3.And(a >= 0, a < m), K[a] > 0), lambda a: K[a]),
                z3.And(x <= 0, cpos(K, m) == cpos(W, done)))))]

    def step_replace(L):
        m, F, K = queue(L.at_head)
        m2, F2, K2 = queue(L)
        W = weights(L.fn)
        done = m + L.at_head.it
        out = [('count', cpos.unfold_succ(W, done)), ('last', cpos.unfold_succ(K, m - 1)),
               ('new', cpos.unfold_succ(K2, m - 1))]
        # the queue after one pop and one push: K with entry t replaced by the last one, then the new key at the end
        out.append(('change', Lset.forall(dict(n=m - 1), lambda a, p, x, n: cpos(z3.Store(a, p, x), n))))
        return out

    def exit_replace(L):
        m, F, K = queue(L)
        W, n, k = weights(L.fn), L.fn.arg(1), L.fn.arg(0)
        return [('bounds', Lbound.forall(dict(a=K, n=m), lambda a, p, n: K[p])), ('bound', Lbound(W, intv(-1), n))]

    def enough(c):
        W, n, k = weights(c), c.arg(1), c.arg(0)
        return z3.And(NZ, cpos(W, n) >= k)

    def inv_take(L):
        m, F, K = queue(L)
        W, n, k = weights(L.fn), L.fn.arg(1), L.fn.arg(0)
        b, b0 = L.fn.argp(3), read(L.ex, L.entry, L.fn.lv(3))
        i = L.it
        total = z3.If(k < n, k, n)
        # the buffer was given its size before, or grows
        return [('items left', z3.And(m + i == total, b.n == z3.If(b0.n == 0, i, total))),
                ('items are indices', qall([I], lambda a: z3.Implies(z3.And(a >= 0, a < m), z3.And(
                    F[a] >= 0, F[a] < n)), lambda a: F[a])),
                ('items are distinct', qall([I, I], lambda a, b: z3.Implies(z3.And(a >= 0, a < b, b < m), F[a] != F[b]),
                                            lambda a, b: (F[a], F[b]))),
                ('items have positive weight', z3.Implies(enough(L.fn), qall([I], lambda a: z3.Implies(
                    z3.And(a >= 0, a < m), W[F[a]] > 0), lambda a: F[a]))),
                ('taken items are indices', qall([I], lambda a: z3.Implies(z3.And(a >= 0, a < i), z3.And(
                    b.arr[a] >= 0, b.arr[a] < n)), lambda a: b.arr[a])),
                ('taken items are distinct', qall([I, I], lambda x, y: z3.Implies(
                    z3.And(x >= 0, x < y, y < i), b.arr[x] != b.arr[y]), lambda x, y: (b.arr[x], b.arr[y]))),
                ('taken items are gone', qall([I, I], lambda x, a: z3.Implies(
                    z3.And(x >= 0, x < i, a >= 0, a < m), b.arr[x] != F[a]), lambda x, a: (b.arr[x], F[a]))),
                ('taken items have positive weight', z3.Implies(enough(L.fn), qall([I], lambda a: z3.Implies(
                    z3.And(a >= 0, a < i), W[b.arr[a]] > 0), lambda a: b.arr[a])))]

    def post_res(c):
        k, n, b, W = c.arg(0), c.arg(1), c.argp(3), weights(c)
        return [('min(k, n) items', b.n == z3.If(k < n, k, n)),
                ('indices below n', qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < b.n), z3.And(b.arr[i] >= 0, b.arr[i] < n)), lambda i: b.arr[i])),
                ('distinct indices', qall([I, I], lambda x, y: z3.Implies(
                    z3.And(x >= 0, x < y, y < b.n), b.arr[x] != b.arr[y]), lambda x, y: (b.arr[x], b.arr[y]))),
                ('no item of weight zero while enough weights are positive', z3.Implies(enough(c), qall(
                    [I], lambda i: z3.Implies(z3.And(i >= 0, i < b.n), W[b.arr[i]] > 0), lambda i: b.arr[i])))]
    reg.add(Contract(
        'Seldon::reservoir_sampling_A_ExpJ', generic='cxv_weight_callback',
        callbacks={'cxv_weight_callback': lambda ex, st, vals, e: V(
            REAL, [z3.Const('callback:cxv_weight_callback', A_R)[ex.load(st, vals[0]).t]])},
        pre=lambda c: [('sizes', z3.And(c.arg(0) <= MAXLEN, c.arg(1) <= MAXLEN)),
                       ('weights are not negative', qall([I], lambda i: z3.Implies(
                           z3.And(i >= 0, i < c.arg(1)), weights(c)[i] >= 0), lambda i: weights(c)[i]))],
        modifies=lambda c: [c.lv(3), c.lv(4)], post=post_res, nonlin=True,
        loops={0: LoopSpec(inv_fill, step=step_fill), 1: LoopSpec(inv_replace, step=step_replace, exit=exit_replace),
               2: LoopSpec(inv_take)}))
