"""Contracts of the file formats (C19, C20).

A file is described by functions: line l occupies the positions [lo(l), hi(l)) of its text and a '\\n' ends every line but
the last; cnt(l) is the number of agents in the lines before l; cell c of line l occupies [co(l,c), co(l,c+1) - 1), and a
comma or the end of the line follows it.  `table` says that a text is such a file for given data.  The writers are proved
to produce it (with the positions they use), the readers to deliver the data of any text that is one (positions arbitrary):
what is read back from a written file is therefore what was written."""
import z3
from cxv import stdlib as SL
from cxv import filemodel as FM
from cxv import exec as X
from .net import *

A_CH = z3.ArraySort(I, I)
R = z3.RealSort()
COMMA, NL, HASH, BLANK, NPOS = 44, 10, 35, 32, 2 ** 64 - 1
SUB = SL.SUB
tl_i, tc_i = z3.Function('text_of_int#len', I, I), z3.Function('text_of_int#chars', I, A_CH)
tl_r, tc_r = z3.Function('text_of_real#len', R, I), z3.Function('text_of_real#chars', R, A_CH)
ok_i, val_i = z3.Function('stoi_ok', I, A_CH, z3.BoolSort()), z3.Function('stoi', I, A_CH, I)
ok_r, val_r = z3.Function('stod_ok', I, A_CH, z3.BoolSort()), z3.Function('stod', I, A_CH, R)


def text_laws():
    """what fmt prints for a number: not empty, and no blank, comma, line break or '#'"""
    out = []
    for tl, tc, s in ((tl_i, tc_i, I), (tl_r, tc_r, R)):
        v, i = z3.Const('v!', s), z3.Const('i!', I)
        out.append(known(z3.ForAll([v], z3.And(tl(v) >= 1, tl(v) <= 400), patterns=[tl(v)])))
        c = tc(v)[i]
        out.append(known(z3.ForAll([v, i], z3.Implies(z3.And(i >= 0, i < tl(v)), z3.And(
            c != COMMA, c != NL, c != HASH, c != BLANK, c >= 0, c <= 127)), patterns=[c])))
    return out


def parse_law(v, k, n, A):
    """std::stoi / std::stod of a text of n characters that consists of k blanks, the printed number v and nothing more, or a
    comma and anything"""
    if v.sort() == I:
        tl, tc, ok, val, rg = tl_i, tc_i, ok_i, val_i, z3.And(v >= -2 ** 31, v < 2 ** 31)
    else:
        tl, tc, ok, val, rg = tl_r, tc_r, ok_r, val_r, z3.BoolVal(True)
    blanks = qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < k), A[i] == BLANK), lambda i: A[i])
    number = qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < tl(v)), A[k + i] == tc(v)[i]), lambda i: tc(v)[i])
    return [('blanks come first', blanks), ('then the number', number), ('', known(z3.Implies(z3.And(
        rg, k >= 0, blanks, number, z3.Or(n == k + tl(v), z3.And(n > k + tl(v), A[k + tl(v)] == COMMA))),
        z3.And(ok(n, A), val(n, A) == v))))]


def is_i(A, p, m, v):
    return z3.And(ok_i(m, SUB(A, p, m)), val_i(m, SUB(A, p, m)) == v)


def is_r(A, p, m, v):
    return z3.And(ok_r(m, SUB(A, p, m)), val_r(m, SUB(A, p, m)) == v)


PADDED = z3.Function('padded', I, I, A_CH, A_CH)
W5, W25 = z3.Function('width_of_int', I, I), z3.Function('width_of_real', R, I)
KINDS = {I: (tl_i, tc_i, W5, 5, is_i), R: (tl_r, tc_r, W25, 25, is_r)}


def width(v):
    """the field that a number is printed in"""
    tl, tc, W, n, _ = KINDS[v.sort()]
    return known(W(v) == z3.If(tl(v) >= n, tl(v), intv(n)))


def width_bounds():
    i, x = z3.Const('i!', I), z3.Const('x!', R)
    return [known(z3.ForAll([i], z3.And(W5(i) >= 5, W5(i) <= 400), patterns=[W5(i)])),
            known(z3.ForAll([x], z3.And(W25(x) >= 25, W25(x) <= 400), patterns=[W25(x)]))]


def padded(v):
    tl, tc, W, n, _ = KINDS[v.sort()]
    return PADDED(intv(n), tl(v), tc(v))


def sub_chars(A, p, m):
    r = SUB(A, p, m)
    return known(qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < m), r[i] == A[p + i]), lambda i: r[i]))


def cell_lemma(srt, name):
    """a blank and a padded number at position p are a cell that reads as the number"""
    tl, tc, W, n, is_v = KINDS[srt]

    def using(A, p, v):
        P, k = padded(v), W(v) - tl(v)
        return text_laws() + [width(v), sub_chars(A, p, W(v) + 1), known(qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < W(v)), P[
            i] == z3.If(i < k, intv(BLANK), tc(v)[i - k])), lambda i: P[i])), known(qall([I], lambda i: z3.Implies(z3.And(
                i >= 0, i < tl(v)), P[i + k] == tc(v)[i]), lambda i: tc(v)[i])), parse_law(v, 1 + k, W(v) + 1, SUB(A, p, W(v) + 1))[-1][1]]
    chars = lambda A, p, v: qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < W(v)), A[p + 1 + i] == padded(v)[i]), lambda i: padded(v)[i])
    rg = lambda v: z3.And(v >= 0, v < 2 ** 31) if srt == I else z3.BoolVal(True)
    clean = lambda A, p, v: qall([I], lambda t: z3.Implies(z3.And(t >= p, t < p + W(v) + 1), z3.And(
        A[t] != COMMA, A[t] != NL)), lambda t: A[t])
    Lc = Lemma(f'{name}_is_clean', [('A', A_CH), ('p', I), ('v', srt)], lambda A, p, v: z3.And(p >= 0, A[p] == BLANK, chars(A, p, v)),
               clean, using=lambda A, p, v: using(A, p, v) + [known(qall([I], lambda t: z3.Implies(z3.And(t >= p + 1, t < p + 1 + W(v)), A[
                   t] == padded(v)[t - p - 1]), lambda t: A[t]))] if False else using(A, p, v))
    Lv = Lemma(f'{name}_reads_back', [('A', A_CH), ('p', I), ('v', srt)],
               lambda A, p, v: z3.And(p >= 0, rg(v), A[p] == BLANK, chars(A, p, v)), lambda A, p, v: is_v(A, p, W(v) + 1, v), using=using)
    return Lc, Lv, chars


pos_n = Fn('width_of_neighbours', [A_I], I, lambda a: intv(0), lambda a, n, r: r + W5(a[n]) + 2)
pos_w = Fn('width_of_weights', [A_R], I, lambda a: intv(0), lambda a, n, r: r + W25(a[n]) + 2)


def head(i, n):
    """width of the first two cells of a row and what separates them"""
    return W5(i) + 1 + 1 + W5(n) + 1


def row_len(nl, el, wt, i):
    return head(i, nl[i]) + pos_n(el[i], nl[i]) + pos_w(wt[i], nl[i])


row_pos = Fn('row_position', [A_I, AA_I, AA_R], I, lambda nl, el, wt: intv(0), lambda nl, el, wt, n, r: r + row_len(nl, el, wt, n))


def first_cells(A, o, i, n):
    """the first two cells of the row of agent i with n neighbours at position o"""
    q = o + W5(i) + 1
    return z3.And(A[o] != HASH, A[q - 1] == COMMA, is_i(A, q, W5(n) + 1, n))


def no_comma(A, p, m, t):
    return z3.Implies(z3.And(t >= p, t < p + m), A[t] != COMMA)


def add(reg):
    if reg.pid not in ('C19', 'C20'):
        return

    def setup(ex, st, obj, args):
        FM.ghost_file(st, ex)

    def net_of(c):
        return Net(c.arg(0))

    def small(N):
        return [('fewer than 2^31 agents', N.n < 2 ** 31),
                ('neighbours are agents', qall([I, I], lambda i, k: z3.Implies(
                    z3.And(i >= 0, i < N.n, k >= 0, k < N.nlen[i]), z3.And(N.el[i][k] >= 0, N.el[i][k] < 2 ** 31)),
                    lambda i, k: N.el[i][k])),
                ('short lists', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < N.n), N.nlen[i] < 2 ** 31), lambda i: N.nlen[i]))]

    def content(L):
        return S(L.st.mem[FM.FILE])

    is_str = lambda s: s.kind == 'vec' and getattr(s, 'tag', '') == 'string'

    # ---- network_to_file --------------------------------------------------------------------------------------
    qall_ = qall

    def rows_done(A, T, H, N, upto, last_open, one=None, only=None):
        """the rows of the agents below upto, the first one at position H; last_open: no line break after the last one"""
        at = lambda i: H + row_pos(N.nlen, N.el, N.w, i)
        base = lambda i: head(i, N.nlen[i])
        rng = lambda i: z3.And(i >= 0, i < upto) if only is None else i == only

        def qall(sorts, f, pat):
            if one is None:
                return qall_(sorts, f, pat)
            return qall_(sorts[1:], lambda *a: f(one, *a), lambda *a: pat(one, *a)) if sorts[1:] else f(one)
        rl = lambda i: row_len(N.nlen, N.el, N.w, i)
        P, Q = (lambda i, k: pos_n(N.el[i], k)), (lambda i, k: pos_w(N.w[i], k))
        cn = lambda i, k: at(i) + base(i) + P(i, k)
        cw = lambda i, k: at(i) + base(i) + P(i, N.nlen[i]) + Q(i, k)
        rp = lambda i: row_pos(N.nlen, N.el, N.w, i)
        n = lambda i: N.nlen[i]
        return [
            ('rows lie one behind the other', qall([I], lambda i: z3.Implies(rng(i), z3.And(
                rp(i) >= 0, rp(i + 1) == rp(i) + rl(i), at(i) + rl(i) <= at(upto), rl(i) >= base(i))), lambda i: rp(i))),
            ('first cells', qall([I], lambda i: z3.Implies(rng(i), z3.And(
                first_cells(A, at(i), i, n(i)), z3.Implies(n(i) == 0, A[at(i) + base(i) - 1] == NL),
                z3.Implies(n(i) > 0, A[at(i) + base(i) - 1] == COMMA))), lambda i: rp(i))),
            ('no comma in the first cells', qall([I, I], lambda i, t: z3.Implies(rng(i), z3.And(
                no_comma(A, at(i), W5(i), t), no_comma(A, at(i) + W5(i) + 1, W5(n(i)) + 1, t))), lambda i, t: (rp(i), A[t]))),
            ('neighbour cells', qall([I, I], lambda i, k: z3.Implies(z3.And(rng(i), k >= 0, k < n(i)), z3.And(
                is_i(A, cn(i, k), W5(N.el[i][k]) + 1, N.el[i][k]), A[cn(i, k) + W5(N.el[i][k]) + 1] == COMMA,
                P(i, k) >= 0, P(i, k + 1) == P(i, k) + W5(N.el[i][k]) + 2, P(i, k + 1) <= P(i, n(i)))), lambda i, k: P(i, k))),
            ('no comma in neighbour cells', qall([I, I, I], lambda i, k, t: z3.Implies(z3.And(rng(i), k >= 0, k < n(i)), no_comma(
                A, cn(i, k), W5(N.el[i][k]) + 1, t)), lambda i, k, t: (P(i, k), A[t]))),
            ('weight cells', qall([I, I], lambda i, k: z3.Implies(z3.And(rng(i), k >= 0, k < n(i)), z3.And(
                is_r(A, cw(i, k), W25(N.w[i][k]) + 1, N.w[i][k]),
                z3.Implies(k + 1 < n(i), A[cw(i, k) + W25(N.w[i][k]) + 1] == COMMA),
                Q(i, k) >= 0, Q(i, k + 1) == Q(i, k) + W25(N.w[i][k]) + 2, Q(i, k + 1) <= Q(i, n(i)))), lambda i, k: Q(i, k))),
            ('no comma in weight cells', qall([I, I, I], lambda i, k, t: z3.Implies(z3.And(rng(i), k >= 0, k < n(i)), no_comma(
                A, cw(i, k), W25(N.w[i][k]) + 1, t)), lambda i, k, t: (Q(i, k), A[t]))),
            ('line breaks between rows', qall([I], lambda i: z3.Implies(z3.And(rng(i), z3.Or(
                z3.Not(last_open), i + 1 < upto)), A[at(i) + rl(i) - 1] == NL), lambda i: rp(i))),
            ('no line break inside a row', qall([I, I], lambda i, t: z3.Implies(z3.And(
                rng(i), t >= at(i), t < at(i) + rl(i) - 1), A[t] != NL), lambda i, t: (rp(i), A[t]))),
        ]

    def header(A, H):
        return [('header', z3.And(H >= 2, A[0] == HASH, A[H - 1] == NL)),
                ('header is one line', qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < H - 1), A[t] != NL), lambda t: A[t]))]

    def hlen(L):
        return L.outer(0, L.entry) if False else S(L.entry.mem[FM.FILE]).n

    def inv_rows(L):
        N, F, k = net_of(L.fn), content(L), L.it
        H = S(L.entry.mem[FM.FILE]).n if L.no == 0 else None
        rp = row_pos(N.nlen, N.el, N.w, k)
        open_ = z3.And(k == N.n, k > 0, N.nlen[k - 1] > 0)
        return both([('a file is open', L.st.mem[FM.OPEN].t), ('agents', z3.And(k >= 0, k <= N.n, rp >= 0)),
                     ('length', F.n == H + rp - z3.If(open_, 1, 0))],
                    header(F.arr, H), rows_done(F.arr, F.n, H, N, k, open_))

    def cells_n(A, T, N, i, upto):
        base = head(i, N.nlen[i])
        P = lambda k: pos_n(N.el[i], k)
        v = lambda k: N.el[i][k]
        rng = lambda k: z3.And(k >= 0, k < upto)
        return [('neighbour cells', qall([I], lambda k: z3.Implies(rng(k), z3.And(
                    is_i(A, base + P(k), W5(v(k)) + 1, v(k)), A[base + P(k) + W5(v(k)) + 1] == COMMA,
                    P(k) >= 0, P(k + 1) == P(k) + W5(v(k)) + 2, P(k + 1) <= P(upto))), lambda k: P(k))),
                ('no comma in neighbour cells', qall([I, I], lambda k, t: z3.Implies(rng(k), no_comma(
                    A, base + P(k), W5(v(k)) + 1, t)), lambda k, t: (P(k), A[t])))]

    def cells_w(A, T, N, i, upto):
        base = head(i, N.nlen[i]) + pos_n(N.el[i], N.nlen[i])
        P = lambda k: pos_w(N.w[i], k)
        v = lambda k: N.w[i][k]
        rng = lambda k: z3.And(k >= 0, k < upto)
        return [('weight cells', qall([I], lambda k: z3.Implies(rng(k), z3.And(
                    is_r(A, base + P(k), W25(v(k)) + 1, v(k)), z3.Implies(k + 1 < N.nlen[i], A[base + P(k) + W25(v(k)) + 1] == COMMA),
                    P(k) >= 0, P(k + 1) == P(k) + W25(v(k)) + 2, P(k + 1) <= P(upto))), lambda k: P(k))),
                ('no comma in weight cells', qall([I, I], lambda k, t: z3.Implies(rng(k), no_comma(
                    A, base + P(k), W25(v(k)) + 1, t)), lambda k, t: (P(k), A[t])))]

    def row_start(A, T, N, i):
        n = N.nlen[i]
        return [('first cells', z3.And(first_cells(A, intv(0), i, n), A[head(i, n) - 1] == z3.If(n == 0, intv(NL), intv(COMMA)))),
                ('no comma in the first cells', qall([I], lambda t: z3.And(
                    no_comma(A, intv(0), W5(i), t), no_comma(A, W5(i) + 1, W5(n) + 1, t)), lambda t: A[t]))]

    def one_line(A, T):
        return [('no line break', qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < T), A[t] != NL), lambda t: A[t]))]

    def row(L):
        return L.v('row', is_str)

    def inv_n(L):
        N, r, k, i = net_of(L.fn), row(L), L.it, L.outer(0)
        n = N.nlen[i]
        return both([('neighbours', z3.And(k >= 0, k <= n, pos_n(N.el[i], k) >= 0)),
                     ('length', z3.Implies(n > 0, z3.And(r.n == head(i, n) + 1 + pos_n(N.el[i], k), r.arr[r.n - 1] == BLANK))),
                     ('length of an empty row', z3.Implies(n == 0, r.n == head(i, n))),
                     ('no line break', qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < z3.If(n == 0, r.n - 1, r.n)), r.arr[t] != NL), lambda t: r.arr[t]))],
                    row_start(r.arr, r.n, N, i), cells_n(r.arr, r.n, N, i, k))

    def inv_w(L):
        N, r, k, i = net_of(L.fn), row(L), L.it, L.outer(0)
        n = N.nlen[i]
        end = z3.And(k == n)
        last = i == N.n - 1
        base = head(i, n) + pos_n(N.el[i], n)
        return both([('weights', z3.And(k >= 0, k <= n, pos_w(N.w[i], k) >= 0, pos_n(N.el[i], n) >= 0)),
                     ('length', z3.Implies(n > 0, r.n == base + pos_w(N.w[i], k) + z3.If(k < n, intv(1), z3.If(last, intv(-1), intv(0))))),
                     ('length of an empty row', z3.Implies(n == 0, r.n == base)),
                     ('a blank comes first', z3.Implies(k < n, r.arr[r.n - 1] == BLANK)),
                     ('line break', z3.Implies(z3.And(k == n, n > 0, z3.Not(last)), r.arr[r.n - 1] == NL)),
                     ('no line break', qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < z3.If(k < n, r.n, base + pos_w(N.w[i], n) - 1)),
                                                                       r.arr[t] != NL), lambda t: r.arr[t]))],
                    row_start(r.arr, r.n, N, i), cells_n(r.arr, r.n, N, i, n), cells_w(r.arr, r.n, N, i, k))

    (Ln, Lnv, chars_n), (Lw, Lwv, chars_w) = cell_lemma(I, 'padded_int'), cell_lemma(R, 'padded_real')

    def new_cell(A, p, v):
        Lc, Lv, chars = (Ln, Lnv, chars_n) if v.sort() == I else (Lw, Lwv, chars_w)
        return [('', width(v)), ('the padded number', z3.And(A[p] == BLANK, chars(A, p, v))), ('', Lc(A, p, v)), ('', Lv(A, p, v)),
                ('the new cell', KINDS[v.sort()][4](A, p, KINDS[v.sort()][2](v) + 1, v))]

    def step_n(L):
        N, r, i, k = net_of(L.fn), row(L), L.outer(0), L.at_head.it
        p = head(i, N.nlen[i]) + pos_n(N.el[i], k)
        return [('', pos_n.unfold_succ(N.el[i], k))] + new_cell(r.arr, p, N.el[i][k])

    def step_w(L):
        N, r, i, k = net_of(L.fn), row(L), L.outer(0), L.at_head.it
        p = head(i, N.nlen[i]) + pos_n(N.el[i], N.nlen[i]) + pos_w(N.w[i], k)
        return [('', pos_w.unfold_succ(N.w[i], k))] + new_cell(r.arr, p, N.w[i][k])

    Lfirst = Lemma('padded_int_is_clean_at_start', [('A', A_CH), ('v', I)], lambda A, v: qall([I], lambda i: z3.Implies(z3.And(
        i >= 0, i < W5(v)), A[i] == padded(v)[i]), lambda i: A[i]), lambda A, v: z3.And(A[0] != HASH, qall([I], lambda t: z3.Implies(
            z3.And(t >= 0, t < W5(v)), z3.And(A[t] != COMMA, A[t] != NL)), lambda t: A[t])),
        using=lambda A, v: text_laws() + [width(v), known(qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < W5(v)), padded(v)[
            i] == z3.If(i < W5(v) - tl_i(v), intv(BLANK), tc_i(v)[i - (W5(v) - tl_i(v))])), lambda i: padded(v)[i]))])

    def entry_n(L):
        N, r, i = net_of(L.fn), row(L), L.outer(0)
        A, n = r.arr, N.nlen[i]
        return [('', pos_n.unfold(N.el[i], intv(0))), ('', width(i)), ('the padded index', qall([I], lambda t: z3.Implies(z3.And(
            t >= 0, t < W5(i)), A[t] == padded(i)[t]), lambda t: A[t])), ('', Lfirst(A, i))] + new_cell(A, W5(i) + 1, n)

    def entry_w(L):
        N, i = net_of(L.fn), L.outer(0)
        return [('', pos_w.unfold(N.w[i], intv(0)))]

    def step_rows(L):
        N, k = net_of(L.fn), L.at_head.it
        F0, F1, r = S(L.head.mem[FM.FILE]), content(L), row(L)
        moved = qall([I, I], lambda p, m: z3.Implies(z3.And(p >= 0, m >= 0, p + m <= r.n), SUB(F1.arr, F0.n + p, m) == SUB(r.arr, p, m)),
                     lambda p, m: SUB(r.arr, p, m))
        n, base = N.nlen[k], head(k, N.nlen[k])
        cell = lambda kind, p, v: KINDS[v.sort()][4](F1.arr, F0.n + p, KINDS[v.sort()][2](v) + 1, v)
        Pn, Pw = (lambda q: pos_n(N.el[k], q)), (lambda q: pos_w(N.w[k], q))
        inrow = lambda q: z3.And(q >= 0, q < n)
        stage = [
            ('the row starts where the file ended', F0.n == S(L.entry.mem[FM.FILE]).n + row_pos(N.nlen, N.el, N.w, k)),
            ('the row in the file', moved),
            ('its neighbour cells', qall([I], lambda q: z3.Implies(inrow(q), cell(0, base + Pn(q), N.el[k][q])), lambda q: Pn(q))),
            ('its weight cells', qall([I], lambda q: z3.Implies(inrow(q), cell(0, base + Pn(n) + Pw(q), N.w[k][q])), lambda q: Pw(q))),
            ('its second cell', is_i(F1.arr, F0.n + W5(k) + 1, W5(n) + 1, n)),
            ('its start', z3.And(F1.arr[F0.n] == r.arr[0], F1.arr[F0.n + W5(k)] == COMMA, F1.arr[F0.n + base - 1] == r.arr[base - 1])),
            ('', row_pos.unfold_succ(N.nlen, N.el, N.w, k)), ('', pos_n.unfold(N.el[k], intv(0))), ('', pos_w.unfold(N.w[k], intv(0)))]
        new = lambda hi_open: rows_done(F1.arr, F1.n, S(L.entry.mem[FM.FILE]).n, N, k + 1, hi_open, k)
        old = rows_done(F1.arr, F1.n, S(L.entry.mem[FM.FILE]).n, N, k, z3.BoolVal(False))
        open_ = z3.And(k + 1 == N.n, N.nlen[k] > 0)
        return stage + [(f'{name} (old)', t) for name, t in old] + [(f'{name} (new)', t) for name, t in new(open_)] + [
            # the same about every i that is k (Leibniz: nothing to prove)
            ('', known(z3.Implies(t, u))) for (_, t), (name, u) in zip(new(open_), rows_done(
                F1.arr, F1.n, S(L.entry.mem[FM.FILE]).n, N, k + 1, open_, None, k)) if 'cells' in name]

    def entry_rows(L):
        N = net_of(L.fn)
        return [('', row_pos.unfold(N.nlen, N.el, N.w, intv(0)))]

    # ---- what a file looks like ----------------------------------------------------------------------------------
    class Table:
        """the text A of length T has nlines lines; agent i has ncells(i) cells; value(i, c, p, m): what it takes for the m
        characters at p to be cell c of agent i"""

        def __init__(self, A, T, nlines, lo, hi, cnt, co, n, ncells, value):
            self.A, self.T, self.nlines, self.lo, self.hi, self.cnt, self.co, self.n = A, T, nlines, lo, hi, cnt, co, n
            self.ncells, self.value = ncells, value

        def isrow(self, l):
            return z3.And(l >= 0, l < self.nlines, self.lo(l) < self.hi(l), self.A[self.lo(l)] != HASH)

        def cells(self, guard):
            A, T, lo, cnt, co, n, hi, isrow = self.A, self.T, self.lo, self.cnt, self.co, self.n, self.hi, self.isrow
            return qall([I, I], lambda l, c: z3.Implies(z3.And(isrow(l), c >= 0, c < self.ncells(cnt(l)), guard(cnt(l), c)), z3.And(
                co(l, c) >= lo(l), co(l, c) < co(l, c + 1), co(l, c + 1) <= hi(l) + 1,
                z3.Implies(c + 1 < self.ncells(cnt(l)), A[co(l, c + 1) - 1] == COMMA))), lambda l, c: co(l, c))

        def facts(self):
            # the patterns keep the solver from running along the lines: what is said about hi(l) may name lo(l + 1), not the reverse
            A, T, lo, cnt, co, n, hi, isrow = self.A, self.T, self.lo, self.cnt, self.co, self.n, self.hi, self.isrow
            m = self.nlines - 1
            nc = lambda l: self.ncells(cnt(l))
            cell = lambda l, c: z3.And(isrow(l), c >= 0, c < nc(l))
            return [
                ('first line', z3.And(m >= 0, lo(intv(0)) == 0, cnt(intv(0)) == 0, T >= 0, lo(m) <= T, hi(m) == T)),
                ('lines', qall([I], lambda l: z3.Implies(z3.And(l >= 0, l < m), z3.And(
                    hi(l) == lo(l + 1) - 1, lo(l) < hi(l), hi(l) < T, lo(l) >= 0, A[hi(l)] == NL)), lambda l: hi(l))),
                ('no line break inside a line', qall([I, I], lambda l, t: z3.Implies(z3.And(
                    l >= 0, l <= m, t >= lo(l), t < hi(l)), A[t] != NL), lambda l, t: (hi(l), A[t]))),
                ('agents are counted', qall([I], lambda l: z3.Implies(z3.And(l >= 0, l < m), z3.And(
                    cnt(l) >= 0, cnt(l + 1) == cnt(l) + z3.If(A[lo(l)] == HASH, 0, 1))), lambda l: lo(l))),
                ('every agent has a line', z3.And(cnt(m) >= 0, n == cnt(m) + z3.If(z3.Or(lo(m) == T, A[lo(m)] == HASH), 0, 1))),
                ('no more lines than agents', qall([I], lambda l: z3.Implies(isrow(l), z3.And(
                    cnt(l) >= 0, cnt(l) < n, nc(l) >= 1)), lambda l: hi(l))),
                ('first and last cell', qall([I], lambda l: z3.Implies(isrow(l), z3.And(
                    co(l, intv(0)) == lo(l), co(l, nc(l)) == hi(l) + 1)), lambda l: hi(l))),
                ('cells', self.cells(lambda i, c: z3.BoolVal(True))),
                ('no comma inside a cell', qall([I, I, I], lambda l, c, t: z3.Implies(z3.And(
                    cell(l, c), t >= co(l, c), t < co(l, c + 1) - 1), A[t] != COMMA), lambda l, c, t: (co(l, c), A[t])))] + [
                (name, qall([I, I], lambda l, c: z3.Implies(z3.And(cell(l, c), rg(cnt(l), c)), val(
                    cnt(l), c, co(l, c), co(l, c + 1) - 1 - co(l, c), hi(l))), lambda l, c: co(l, c))) for name, rg, val in self.value]

    def net_values(A, nl, el, wt):
        return [('number of neighbours', lambda i, c: c == 1, lambda i, c, p, m, e: is_i(A, p, m, nl[i])),
                ('neighbours', lambda i, c: z3.And(c >= 2, c < 2 + nl[i]), lambda i, c, p, m, e: is_i(A, p, m, el[i][c - 2])),
                ('weights', lambda i, c: c >= 2 + nl[i], lambda i, c, p, m, e: is_r(A, p, m, wt[i][c - 2 - nl[i]]))]

    Wlo, Whi, Wco = z3.Function('written_line_start', I, I), z3.Function('written_line_end', I, I), z3.Function('written_cell_start', I, I, I)

    def written_net(c):
        N, F, H = net_of(c), S(c.post.mem[FM.FILE]), c.post.gh['header']
        last = N.n - 1
        open_ = z3.And(N.n > 0, N.nlen[last] > 0)
        T = Table(F.arr, F.n, z3.If(open_, N.n + 1, N.n + 2), Wlo, Whi, lambda l: z3.If(l == 0, intv(0), l - 1), Wco, N.n,
                  lambda i: 2 + 2 * N.nlen[i], net_values(F.arr, N.nlen, N.el, N.w))
        return N, F, H, T, open_

    def exit_rows(L):
        L.st.gh['header'] = S(L.entry.mem[FM.FILE]).n
        return []

    def facts_written(c):
        """where the lines and cells of the file start"""
        N, F, H, T, open_ = written_net(c)
        A = F.arr
        rp = lambda i: row_pos(N.nlen, N.el, N.w, i)
        rl = lambda i: row_len(N.nlen, N.el, N.w, i)
        n = lambda i: N.nlen[i]
        P, Q = (lambda i, k: pos_n(N.el[i], k)), (lambda i, k: pos_w(N.w[i], k))
        base = lambda i: head(i, n(i))
        cell = lambda i, c: z3.If(c == 0, intv(0), z3.If(c == 1, W5(i) + 1, z3.If(c <= 2 + n(i), base(i) + P(i, c - 2),
                                  base(i) + P(i, n(i)) + Q(i, c - 2 - n(i)))))
        m = T.nlines - 1
        line = lambda l: z3.Implies(z3.And(l >= 1, l <= N.n), z3.And(
            T.isrow(l), Wlo(l) == H + rp(l - 1), Wlo(l) >= H, Whi(l) == Wlo(l) + rl(l - 1) - 1, Whi(l) <= F.n, rl(l - 1) >= base(l - 1), A[Wlo(l)] != HASH,
            z3.Implies(l < m, z3.And(Whi(l) == Wlo(l + 1) - 1, Whi(l) < F.n, A[Whi(l)] == NL))))

        def stages_line(l):
            return [('its row', z3.Implies(z3.And(l >= 1, l <= N.n), z3.And(
                        rp(l - 1) >= 0, rp(l) == rp(l - 1) + rl(l - 1), rl(l - 1) >= base(l - 1), base(l - 1) >= 13, A[H + rp(l - 1)] != HASH,
                        H + rp(l) <= H + rp(N.n), z3.Implies(l < m, A[H + rp(l) - 1] == NL)))),
                    ('its start', z3.Implies(l >= 1, Wlo(l) == H + rp(l - 1))), ('the next start', z3.Implies(l >= 0, Wlo(l + 1) == H + rp(l)))]

        inrow = lambda l, c: z3.And(l >= 1, l <= N.n, c >= 0, c < 2 + 2 * n(l - 1))

        def val(l, c):
            i = l - 1
            p, w = Wco(l, c), Wco(l, c + 1) - 1 - Wco(l, c)
            return z3.If(c == 0, z3.BoolVal(True), z3.If(c == 1, is_i(A, p, w, n(i)), z3.If(
                c < 2 + n(i), is_i(A, p, w, N.el[i][c - 2]), is_r(A, p, w, N.w[i][c - 2 - n(i)]))))

        def cells(l, c):
            return z3.Implies(inrow(l, c), z3.And(
                Wco(l, c) >= Wlo(l), Wco(l, c) < Wco(l, c + 1), Wco(l, c + 1) <= Whi(l) + 1,
                z3.Implies(c + 1 < 2 + 2 * n(l - 1), A[Wco(l, c + 1) - 1] == COMMA), val(l, c)))

        def stages_cell(l, c):
            i, k, q = l - 1, c - 2, c - 2 - n(l - 1)
            at = H + rp(i)
            s = lambda g, t: z3.Implies(z3.And(inrow(l, c), g), t)
            tr = z3.BoolVal(True)
            start = lambda t: s(tr, Wco(l, t) == at + cell(i, t))
            v, w = N.el[i][k], N.w[i][q]
            cn, cw = at + base(i) + P(i, k), at + base(i) + P(i, n(i)) + Q(i, q)
            nb, wt = z3.And(c >= 2, c < 2 + n(i)), c >= 2 + n(i)
            return [
                ('its row', s(tr, z3.And(i >= 0, i < N.n, rp(i) >= 0, Wlo(l) == at, Whi(l) == at + rl(i) - 1, n(i) >= 0,
                                         rl(i) == base(i) + P(i, n(i)) + Q(i, n(i)), P(i, intv(0)) == 0, Q(i, intv(0)) == 0, W5(i) >= 5, W5(n(i)) >= 5))),
                ('its start', start(c)), ('the start of the next one', start(c + 1)),
                ('neighbours take space', s(n(i) > 0, z3.And(P(i, n(i) - 1) >= 0, P(i, n(i)) >= 0, Q(i, n(i) - 1) >= 0, Q(i, n(i)) >= 0))),
                ('the first cells', s(tr, z3.And(first_cells(A, at, i, n(i)), z3.Implies(n(i) > 0, A[at + base(i) - 1] == COMMA)))),
                ('its neighbour', s(nb, z3.And(is_i(A, cn, W5(v) + 1, v), A[cn + W5(v) + 1] == COMMA, W5(v) >= 5, P(i, k) >= 0,
                                               P(i, k + 1) == P(i, k) + W5(v) + 2, P(i, k + 1) <= P(i, n(i))))),
                ('its weight', s(wt, z3.And(is_r(A, cw, W25(w) + 1, w), z3.Implies(q + 1 < n(i), A[cw + W25(w) + 1] == COMMA), W25(w) >= 25,
                                            Q(i, q) >= 0, Q(i, q + 1) == Q(i, q) + W25(w) + 2, Q(i, q + 1) <= Q(i, n(i))))),
                ('first', s(c == 0, cells(l, c))), ('second', s(c == 1, cells(l, c))),
                ('of a neighbour', s(nb, z3.And(Wco(l, c) == cn, Wco(l, c + 1) == cn + W5(v) + 2, cells(l, c)))),
                ('of a weight', s(wt, z3.And(Wco(l, c) == cw, Wco(l, c + 1) == cw + W25(w) + 2, cells(l, c))))]
        return [('', known(qall([I], lambda l: Wlo(l) == z3.If(l == 0, intv(0), H + rp(l - 1)), lambda l: Wlo(l)))),
                ('', known(qall([I], lambda l: Whi(l) == z3.If(l == m, F.n, Wlo(l + 1) - 1), lambda l: Whi(l)))),
                ('', known(qall([I, I], lambda l, c: Wco(l, c) == Wlo(l) + cell(l - 1, c), lambda l, c: Wco(l, c)))),
                ('', row_pos.unfold(N.nlen, N.el, N.w, intv(0))),
                ('', known(qall([I], lambda i: z3.And(P(i, intv(0)) == 0, Q(i, intv(0)) == 0), lambda i: rp(i))))] + general(
            'line of an agent', [I], line, lambda l: Whi(l), stages_line) + [
                ('only agents have lines', qall([I], lambda l: z3.Implies(T.isrow(l), z3.And(l >= 1, l <= N.n)), lambda l: Whi(l)))] + general(
            'cell', [I, I], cells, lambda l, c: Wco(l, c), stages_cell)

    def post_written(c):
        return [('the file', z3.And(*[a == b for a, b in zip(c.post.mem[FM.PATH].terms, c.arg(1).v.terms)]))] + written_net(c)[3].facts()

    Flo, Fhi, Fcnt, Fco = z3.Function('line_start', I, I), z3.Function('line_end', I, I), z3.Function('agents_before_line', I, I), z3.Function('cell_start', I, I, I)
    Cnl, Cel, Cw = z3.Const('given_lens', A_I), z3.Const('given_neighbours', AA_I), z3.Const('given_weights', AA_R)
    Cn, Cm = z3.Int('given_agents'), z3.Int('given_lines')

    def path(c, k=0):
        return c.arg(k).v.terms

    def file_of(c):
        p = path(c)
        return FM.file_chars(*p), FM.file_len(*p)

    def readable(c):
        p = path(c)
        return [('the file is there', z3.And(FM.file_there(*p), FM.file_readable(*p), FM.file_len(*p) >= 0, FM.file_len(*p) <= MAXLEN))]

    def algebra(ex, st, obj, args):
        ex.algebra = True

    def given_net(c):
        A, T = file_of(c)
        return Table(A, T, Cm, Flo, Fhi, Fcnt, Fco, Cn, lambda i: 2 + 2 * Cnl[i], net_values(A, Cnl, Cel, Cw))

    def good_data(n, nl, el):
        return [('fewer than 2^31 agents', z3.And(n >= 0, n < 2 ** 31)),
                ('short lists', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(nl[i] >= 0, nl[i] < 2 ** 31)), lambda i: nl[i])),
                ('indices', qall([I, I], lambda i, k: z3.Implies(z3.And(i >= 0, i < n, k >= 0, k < nl[i]), z3.And(
                    el[i][k] >= 0, el[i][k] < 2 ** 31)), lambda i, k: el[i][k]))]

    def lists(L):
        nb, wt = L.v('neighbour_list', is_vv('int')), L.v('weight_list', is_vv('real'))
        return nb, wt

    def rows_read(nb, wt, upto):
        return [('rows read', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < upto), z3.And(
                    nb.v.terms[1][i] == Cnl[i], wt.v.terms[1][i] == Cnl[i])), lambda i: nb.v.terms[1][i], lambda i: wt.v.terms[1][i])),
                ('neighbours read', qall([I, I], lambda i, k: z3.Implies(z3.And(i >= 0, i < upto, k >= 0, k < Cnl[i]), nb.v.terms[
                    2][i][k] == Cel[i][k]), lambda i, k: nb.v.terms[2][i][k])),
                ('weights read', qall([I, I], lambda i, k: z3.Implies(z3.And(i >= 0, i < upto, k >= 0, k < Cnl[i]), wt.v.terms[
                    2][i][k] == Cw[i][k]), lambda i, k: wt.v.terms[2][i][k]))]

    def inv_lines(L):
        t = given_net(L.fn)
        l, fin, s = L.it, L.v('finished'), L.v('start_of_line')
        nb, wt = lists(L)
        done = z3.If(fin, Cn, Fcnt(l))
        return [('lines', z3.And(l >= 0, l <= t.nlines, fin == (l == t.nlines), z3.Implies(z3.Not(fin), s == Flo(l)))),
                ('one list per agent', z3.And(nb.n == done, wt.n == done, done >= 0, done <= Cn))] + rows_read(nb, wt, done)

    def inv_cells(L):
        t = given_net(L.fn)
        l, c, fin = L.outer(0), L.it, L.v('finished_row')
        i = Fcnt(l)
        nb, wt = lists(L)
        n = Cnl[i]
        clamp = lambda x: z3.If(x <= 0, intv(0), z3.If(x >= n, n, x))
        nbl, wtl = nb.v.terms[1][i], wt.v.terms[1][i]
        return [('cells', z3.And(c >= 0, c <= 2 + 2 * n, fin == (c == 2 + 2 * n), L.v('idx_column') == c,
                                 z3.Implies(z3.Not(fin), L.v('start_of_column') == Fco(l, c) - Flo(l)))),
                ('number of neighbours', L.v('n_neighbours') == z3.If(c >= 2, n, intv(0))),
                ('one list per agent', z3.And(nb.n == i + 1, wt.n == i + 1)),
                ('what is read so far', z3.And(nbl == clamp(c - 2), wtl == clamp(c - 2 - n))),
                ('neighbours so far', qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < nbl), nb.v.terms[2][i][k] == Cel[i][k]), lambda k: nb.v.terms[2][i][k])),
                ('weights so far', qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < wtl), wt.v.terms[2][i][k] == Cw[i][k]), lambda k: wt.v.terms[2][i][k]))
                ] + rows_read(nb, wt, i)

    def hints_lines(L):
        t, l = given_net(L.fn), L.it
        A, T = file_of(L.fn)
        return [('the line at hand', z3.And(l < Cm, Fhi(l) >= Flo(l), Fhi(l) <= T, Flo(l) >= 0, L.v('start_of_line') == Flo(l))),
                ('it ends with the file or a line break', z3.If(l == Cm - 1, Fhi(l) == T, A[Fhi(l)] == NL)),
                ('no line break in it', qall([I], lambda i: z3.Implies(z3.And(i >= Flo(l), i < Fhi(l)), A[i] != NL), lambda i: A[i]))]

    def hints_cells(L):
        t = given_net(L.fn)
        l, c, q = L.outer(0), L.it, L.v('start_of_column')
        ln = L.v('line', is_str)
        e = Fco(l, c + 1) - 1 - Flo(l)
        return [('the line at hand', z3.And(ln.n == t.hi(l) - Flo(l), q == Fco(l, c) - Flo(l), q >= 0, q <= e, e <= ln.n)),
                ('the cell ends with the line or a comma', z3.If(c + 1 < 2 + 2 * Cnl[Fcnt(l)], z3.And(e < ln.n, ln.arr[e] == COMMA), e == ln.n)),
                ('no comma in the cell', qall([I], lambda i: z3.Implies(z3.And(i >= q, i < e), ln.arr[i] != COMMA), lambda i: ln.arr[i])),
                ('agent', z3.And(Fcnt(l) >= 0, Fcnt(l) < Cn))] + [
            (name, z3.Implies(rg(Fcnt(l), c), val(Fcnt(l), c, Fco(l, c), e - q, t.hi(l)))) for name, rg, val in t.value]

    def post_read(c):
        N = Net(c.result)
        return [('number of agents', z3.And(N.n == Cn, N.wt.n == Cn, N.agents.n == Cn)), ('incoming edges', N.dir == INCOMING)] + rows_read(N.nb, N.wt, Cn)

    reg.add(Contract(
        'Seldon::get_file_contents', setup=algebra, modular=False,
        pre=lambda c: [('', z3.And(FM.file_len(*path(c)) >= 0, FM.file_len(*path(c)) <= MAXLEN))],
        throws=lambda c: z3.Not(z3.And(FM.file_there(*path(c)), FM.file_readable(*path(c)))),
        post=lambda c: [('the whole file', z3.And(c.result.n == FM.file_len(*path(c)), qall([I], lambda i: z3.Implies(z3.And(
            i >= 0, i < c.result.n), c.result.arr[i] == FM.file_chars(*path(c))[i]), lambda i: c.result.arr[i])))]))
    if reg.pid == 'C19':
        reg.add(Contract(
            'Seldon::NetworkGeneration::generate_from_file', setup=algebra, modular=False,
            pre=lambda c: both(readable(c), good_data(Cn, Cnl, Cel), given_net(c).facts()),
            loops={0: LoopSpec(inv_lines, hints=hints_lines, dec=lambda L: Cm - L.it),
                   1: LoopSpec(inv_cells, hints=hints_cells, dec=lambda L: 2 + 2 * Cnl[Fcnt(L.outer(0))] - L.it)},
            post=post_read))
    if reg.pid == 'C19':
        reg.add(Contract(
            'Seldon::network_to_file', setup=setup, modular=False,
            pre=lambda c: both(net_of(c).wf(), small(net_of(c)), [('', t) for t in width_bounds()]),
            loops={0: LoopSpec(inv_rows, entry=entry_rows, step=step_rows, exit=exit_rows), 1: LoopSpec(inv_n, entry=entry_n, step=step_n),
                   2: LoopSpec(inv_w, entry=entry_w, step=step_w)},
            facts=facts_written, post=post_written))
        # (DOT)
        reg.add(Contract(
            'Seldon::network_to_dot_file', setup=setup, modular=False,
            pre=lambda c: both(net_of(c).wf(), small(net_of(c))),
            loops={0: LoopSpec(lambda L: [('a file is open', L.st.mem[FM.OPEN].t), ('not empty', content(L).n > 0)])},
            post=lambda c: [('the file', z3.And(*[a == b for a, b in zip(c.post.mem[FM.PATH].terms, c.arg(1).v.terms)])),
                            ('is written', S(c.post.mem[FM.FILE]).n > 0)]))

    # ---- agents -------------------------------------------------------------------------------------------------------
    Cc = z3.Function('given_cells', I, I)  # cells of the row of an agent, its number included
    Cr = [z3.Function(f'given_value_{k}', I, R) for k in range(4)]
    Ci = z3.Function('given_opinion', I, I, I)
    # the data in the order in which they are printed
    KIND = {'SimpleAgentData': ['opinion'], 'ActivityAgentData': ['opinion', 'activity', 'reluctance'],
            'InertialAgentData': ['opinion', 'velocity', 'activity', 'reluctance'], 'DiscreteVectorAgentData': None}

    def kind_of(p, g):
        t = p.targ_str(g)
        for k in KIND:
            if k in t:
                return k
        return None

    def reads(A, p, m, e, v):
        """the text from p on reads as v, whatever follows the cell of m characters"""
        return qall([I, I], lambda o, q: z3.Implies(z3.And(o == p, q >= m, o + q <= e), is_r(A, o, q, v)), lambda o, q: SUB(A, o, q))

    def agent_values(kind, A, rv, iv):
        """rv(i, k): number k of agent i; iv(i, k): opinion k of agent i"""
        names = KIND[kind]
        if names is None:
            return [('opinions', lambda i, c: c >= 1, lambda i, c, p, m, e: is_i(A, p, m, iv(i, c - 1)))]
        return [(x, (lambda k: lambda i, c: c == k + 1)(k), (lambda k: lambda i, c, p, m, e: reads(A, p, m, e, rv(i, k)))(k))
                for k, x in enumerate(names)]

    def given_agents(c, kind):
        A, T = file_of(c)
        names = KIND[kind]
        nc = (lambda i: Cc(i)) if kind in ('DiscreteVectorAgentData', 'ActivityAgentData') else (lambda i: intv(1 + len(names)))
        return Table(A, T, Cm, Flo, Fhi, Fcnt, Fco, Cn, nc, agent_values(kind, A, lambda i, k: Cr[k](i), Ci))

    def good_agents(kind):
        out = [('fewer than 2^31 agents', z3.And(Cn >= 0, Cn < 2 ** 31))]
        if kind == 'ActivityAgentData':
            out += [('two or three numbers', qall([I], lambda i: z3.Or(Cc(i) == 3, Cc(i) == 4), lambda i: Cc(i)))]
        if kind == 'DiscreteVectorAgentData':
            out += [('opinions', qall([I], lambda i: z3.And(Cc(i) >= 2, Cc(i) < 2 ** 31), lambda i: Cc(i))),
                    ('they are ints', qall([I, I], lambda i, k: z3.And(Ci(i, k) >= -2 ** 31, Ci(i, k) < 2 ** 31), lambda i, k: Ci(i, k)))]
        return out

    def agents_read(v, kind, upto):
        names = KIND[kind]
        if names is None:
            ls, el = v.leaf('data', 'opinion', 'len'), v.leaf('data', 'opinion', '[]')
            return [('number of opinions', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < upto), ls[i] == Cc(i) - 1), lambda i: ls[i])),
                    ('opinions', qall([I, I], lambda i, k: z3.Implies(z3.And(i >= 0, i < upto, k >= 0, k < Cc(i) - 1), el[i][k] == Ci(i, k)),
                                      lambda i, k: el[i][k]))]
        out = []
        for k, x in enumerate(names):
            a = v.leaf('data', x)
            given = (lambda i: z3.If(Cc(i) == 3, realv(1), Cr[2](i))) if (kind, x) == ('ActivityAgentData', 'reluctance') else (
                lambda i, k=k: Cr[k](i))
            out.append((x, qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < upto), a[i] == given(i)), lambda i: a[i])))
        return out

    def reader(kind):
        is_agents = lambda s: s.kind == 'vec' and s.elem.kind == 'struct' and 'data' in s.elem.fields

        def agents(L):
            return L.v('agents', is_agents)

        def inv(L):
            t = given_agents(L.fn, kind)
            l, fin, v = L.it, L.v('finished'), agents(L)
            done = z3.If(fin, Cn, Fcnt(l))
            return [('lines', z3.And(l >= 0, l <= t.nlines, fin == (l == t.nlines), z3.Implies(z3.Not(fin), L.v('start_of_line') == Flo(l)))),
                    ('one agent per row', z3.And(v.n == done, done >= 0, done <= Cn))] + agents_read(v, kind, done)

        def hints(L):
            t, l = given_agents(L.fn, kind), L.it
            A = t.A
            row = t.isrow(l)
            ln = SUB(A, Flo(l), Fhi(l) - Flo(l))
            p1 = Fco(l, intv(1))
            tail = SUB(A, p1, Fhi(l) - p1)
            out = hints_lines(L) + [('', sub_chars(A, Flo(l), Fhi(l) - Flo(l))), ('', sub_chars(A, p1, Fhi(l) - p1))]
            for c in range(1 + (len(KIND[kind] or [1]))):
                has = z3.And(row, t.ncells(Fcnt(l)) > c)
                p, e = Fco(l, intv(c)), Fco(l, intv(c) + 1) - 1
                out += [(f'cell {c}', z3.Implies(has, z3.And(p >= Flo(l), p <= e, e <= Fhi(l),
                                                             z3.If(c + 1 < t.ncells(Fcnt(l)), A[e] == COMMA, e == Fhi(l))))),
                        (f'end of cell {c}', z3.Implies(z3.And(has, c + 1 < t.ncells(Fcnt(l))), z3.And(ln[e - Flo(l)] == COMMA, tail[e - p1] == COMMA) if c else ln[e - Flo(l)] == COMMA)),
                        (f'no comma in cell {c}', z3.Implies(has, qall([I], lambda i: z3.Implies(z3.And(i >= p, i < e), A[i] != COMMA), lambda i: A[i])))]
                if KIND[kind] and c:  # (the position may be written in any way)
                    v = Cr[c - 1](Fcnt(l))
                    out += [(f'value of cell {c}', z3.Implies(has, qall([I, I], lambda o, q: z3.Implies(z3.And(
                        o == p, q >= e - p, o + q <= Fhi(l)), is_r(A, o, q, v)), lambda o, q: SUB(A, o, q))))]
            return out

        def agent(L):
            return L.v('res', lambda s: s.kind == 'struct' and 'data' in s.fields).data

        def inv_list(L):
            t, l, k = given_agents(L.fn, kind), L.outer(0), L.it
            i, d = Fcnt(l), agent(L)
            n = t.ncells(i) - 1
            out = [('cells', z3.And(k >= 0, k < n, L.v('idx_entry', lambda s: s.kind == 'int' and s.w == 32) == k,
                                 L.v('pos_cur', lambda s: s.kind == 'int' and s.w == 64) == Fco(l, k + 1) - Fco(l, intv(1))))]
            if KIND[kind] is None:
                o = d.opinion
                return out + [('opinions so far', z3.And(o.n == k, qall([I], lambda j: z3.Implies(z3.And(j >= 0, j < k), o.arr[j] == Ci(i, j)),
                                                                        lambda j: o.arr[j])))]
            return out + [(x, z3.Implies(k > j, getattr(d, x) == Cr[j](i))) for j, x in enumerate(KIND[kind])]

        def hints_list(L):
            t, l, k = given_agents(L.fn, kind), L.outer(0), L.it
            i, A = Fcnt(l), t.A
            p1, p, e = Fco(l, intv(1)), Fco(l, k + 1), Fco(l, k + 2) - 1
            tail = SUB(A, p1, Fhi(l) - p1)
            last = k + 2 == t.ncells(i)
            out = [('', sub_chars(A, p1, Fhi(l) - p1)),
                   ('the cell at hand', z3.And(i >= 0, i < Cn, p >= p1, p <= e, e <= Fhi(l), z3.If(last, e == Fhi(l), tail[e - p1] == COMMA))),
                   ('no comma in it', qall([I], lambda q: z3.Implies(z3.And(q >= p - p1, q < e - p1), tail[q] != COMMA), lambda q: tail[q]))]
            if KIND[kind] is None:
                return out + [('its value', qall([I, I], lambda o, q: z3.Implies(z3.And(o == p, q == e - p), is_i(A, o, q, Ci(i, k))),
                                                 lambda o, q: SUB(A, o, q)))]
            return out + [(f'value {j}', z3.Implies(k == j, qall([I, I], lambda o, q: z3.Implies(z3.And(
                o == p, q >= e - p, o + q <= Fhi(l)), is_r(A, o, q, Cr[j](i))), lambda o, q: SUB(A, o, q)))) for j in range(len(KIND[kind]))]
        return Contract(
            'Seldon::agents_from_file', match=lambda p, g: kind_of(p, g) == kind, setup=algebra, modular=False,
            pre=lambda c: both(readable(c), good_agents(kind), given_agents(c, kind).facts()),
            loops={0: LoopSpec(inv, hints=hints, dec=lambda L: Cm - L.it),
                   1: LoopSpec(inv_list, hints=hints_list, dec=lambda L: given_agents(L.fn, kind).ncells(Fcnt(L.outer(0))) - L.it)},
            post=lambda c: [('number of agents', c.result.n == Cn)] + agents_read(c.result, kind, Cn))

    # what agents_to_file writes: per agent the length of its row and the positions of its cells in the row
    RL, PD = z3.Const('row_lengths', A_I), z3.Function('padding', I, I)
    CS, CE = z3.Function('cell_from', I, I, I), z3.Function('cell_to', I, I, I)
    arow = Fn('agent_row_position', [A_I], I, lambda a: intv(0), lambda a, n, r: r + a[n])
    TX = Fn('text_position', [A_I], I, lambda a: intv(0), lambda a, n, r: r + tl_i(a[n]) + 2)

    def blanks(A, p, k):
        return qall([I], lambda t: z3.Implies(z3.And(t >= p, t < p + k), A[t] == BLANK), lambda t: A[t])

    def chars(A, p, v):
        tl, tc = KINDS[v.sort()][:2]
        return qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < tl(v)), A[p + t] == tc(v)[t]), lambda t: tc(v)[t])

    def clean(A, p, q):
        return qall([I], lambda t: z3.Implies(z3.And(t >= p, t < q), z3.And(A[t] != COMMA, A[t] != NL)), lambda t: A[t])

    def printed(srt, name):
        tl, tc, _, _, is_v = KINDS[srt]
        hyp = lambda A, p, k, v: z3.And(p >= 0, k >= 0, blanks(A, p, k), chars(A, p + k, v))
        at = lambda A, p, k, v: [known(qall([I], lambda t: z3.Implies(z3.And(t >= p + k, t < p + k + tl(v), chars(A, p + k, v)),
                                                                       A[t] == tc(v)[t - p - k]), lambda t: A[t]))]
        rg = lambda v: z3.And(v >= -2 ** 31, v < 2 ** 31) if srt == I else z3.BoolVal(True)
        Lc = Lemma(f'{name}_text_is_clean', [('A', A_CH), ('p', I), ('k', I), ('v', srt)], hyp,
                   lambda A, p, k, v: clean(A, p, p + k + tl(v)), using=lambda A, p, k, v: text_laws() + at(A, p, k, v))
        Lv = Lemma(f'{name}_text_reads_back', [('A', A_CH), ('p', I), ('k', I), ('v', srt), ('q', I)],
                   lambda A, p, k, v, q: z3.And(hyp(A, p, k, v), rg(v), z3.Or(q == k + tl(v), z3.And(q > k + tl(v), A[p + k + tl(v)] == COMMA))),
                   lambda A, p, k, v, q: is_v(A, p, q, v),
                   using=lambda A, p, k, v, q: text_laws() + [sub_chars(A, p, q)] + at(A, p, k, v) + [
                       known(z3.Implies(chars(A, p + k, v), qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < tl(v)), A[
                           p + (k + t)] == tc(v)[t]), lambda t: tc(v)[t]))), parse_law(v, k, q, SUB(A, p, q))[-1][1]])
        return Lc, Lv

    Lci, Lvi = printed(I, 'int')
    Lcr, Lvr = printed(R, 'real')

    Lidx = Lemma('row_number_is_clean', [('A', A_CH), ('o', I), ('v', I)], lambda A, o, v: qall([I], lambda i: z3.Implies(z3.And(
        i >= 0, i < W5(v)), A[o + i] == padded(v)[i]), lambda i: padded(v)[i]), lambda A, o, v: z3.And(A[o] != HASH, clean(A, o, o + W5(v))),
        using=lambda A, o, v: text_laws() + [width(v), known(z3.ForAll([z3.Const('w!', I)], W5(z3.Const('w!', I)) >= 5, patterns=[W5(z3.Const('w!', I))])),
            known(qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < W5(v)), padded(v)[
                i] == z3.If(i < W5(v) - tl_i(v), intv(BLANK), tc_i(v)[i - (W5(v) - tl_i(v))])), lambda i: padded(v)[i])),
            known(z3.Implies(qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < W5(v)), A[o + i] == padded(v)[i]), lambda i: padded(v)[i]),
                             qall([I], lambda t: z3.Implies(z3.And(t >= o, t < o + W5(v)), A[t] == padded(v)[t - o]), lambda t: A[t])))])

    def writer(kind):
        names = KIND[kind]

        class Data:
            def __init__(self, c):
                self.N = Net(c.arg(0))
                v = self.N.agents
                self.n = self.N.agents.n
                if names is None:
                    self.ln, self.el = v.leaf('data', 'opinion', 'len'), v.leaf('data', 'opinion', '[]')
                    self.nc = lambda i: 1 + self.ln[i]
                else:
                    self.D = [v.leaf('data', x) for x in names]
                    self.nc = lambda i: intv(1 + len(names))

            def val(self, i, k):
                return self.el[i][k] if names is None else self.D[k][i]

            def text(self, i, j):
                """where number j starts in the text of agent i"""
                if names is None:
                    return TX(self.el[i], j)
                r = intv(0)
                for k in range(j):
                    r = r + tl_r(self.D[k][i]) + 2
                return r

            def tlen(self, i):
                return self.text(i, self.ln[i] if names is None else len(names)) - 2

            def start(self, i):
                """where the text starts in the row"""
                return W5(i) + 2 + PD(i)

            def defs(self):
                end = lambda i, c: W5(i)
                if names is None:
                    ce = lambda i, c: z3.If(c == 0, W5(i), self.start(i) + self.text(i, c) - 2)
                    cs = lambda i, c: z3.If(c == 0, intv(0), z3.If(c == 1, W5(i) + 1, self.start(i) + self.text(i, c - 1) - 1))
                else:
                    def ce(i, c):
                        r = W5(i)
                        for k in range(len(names)):
                            r = z3.If(c == k + 1, self.start(i) + self.text(i, k + 1) - 2, r)
                        return r

                    def cs(i, c):
                        r = z3.If(c == 1, W5(i) + 1, intv(0))
                        for k in range(1, len(names) + 1):
                            r = z3.If(c == k + 1, self.start(i) + self.text(i, k) - 1, r)
                        return r
                j = z3.Const('v!', I)
                return width_bounds() + text_laws() + [
                    known(qall([I], lambda i: PD(i) == z3.If(self.tlen(i) >= 25, intv(0), 25 - self.tlen(i)), lambda i: PD(i))),
                    known(qall([I], lambda i: RL[i] == self.start(i) + self.tlen(i) + 1, lambda i: RL[i])),
                    known(qall([I, I], lambda i, c: CE(i, c) == ce(i, c), lambda i, c: CE(i, c))),
                    known(qall([I, I], lambda i, c: CS(i, c) == cs(i, c), lambda i, c: CS(i, c)))]

        def nonempty(d):
            if names is not None:
                return []
            return [('opinions are not empty', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < d.n), z3.And(d.ln[i] >= 1, d.ln[i] < 2 ** 31)),
                                                    lambda i: d.ln[i])),
                    ('opinions are ints', qall([I, I], lambda i, k: z3.Implies(z3.And(i >= 0, i < d.n, k >= 0, k < d.ln[i]), z3.And(
                        d.el[i][k] >= -2 ** 31, d.el[i][k] < 2 ** 31)), lambda i, k: d.el[i][k]))]

        def rows(d, A, H, upto, low=intv(0)):
            """facts about the rows low.. (below upto) of the file A, the first of which starts at H"""
            rp = lambda i: arow(RL, i)
            at = lambda i: H + rp(i)
            rng = lambda i: z3.And(i >= low, i < upto)
            cell = lambda i, c: z3.And(rng(i), c >= 0, c < d.nc(i))
            vals = agent_values(kind, A, d.val, d.val)
            return [
                ('rows lie one behind the other', [I], lambda i: z3.Implies(rng(i), z3.And(
                    rp(i) >= 0, RL[i] >= 8, rp(i + 1) == rp(i) + RL[i], at(i) + RL[i] <= H + arow(RL, upto), A[at(i)] != HASH,
                    A[at(i) + RL[i] - 1] == NL)), lambda i: RL[i]),
                ('no line break inside a row', [I, I], lambda i, t: z3.Implies(z3.And(
                    rng(i), t >= at(i), t < at(i) + RL[i] - 1), A[t] != NL), lambda i, t: (RL[i], A[t])),
                ('cells', [I, I], lambda i, c: z3.Implies(cell(i, c), z3.And(
                    CS(i, c) >= 0, CS(i, c) <= CE(i, c), CE(i, c) < RL[i], z3.If(c + 1 < d.nc(i), A[at(i) + CE(i, c)] == COMMA, CE(i, c) == RL[i] - 1))),
                    lambda i, c: CE(i, c)),
                ('no comma inside a cell', [I, I, I], lambda i, c, t: z3.Implies(z3.And(
                    cell(i, c), t >= at(i) + CS(i, c), t < at(i) + CE(i, c)), A[t] != COMMA), lambda i, c, t: (CE(i, c), A[t]))] + [
                (name, [I, I], lambda i, c, rg=rg, val=val: z3.Implies(z3.And(cell(i, c), rg(i, c)), val(
                    i, c, at(i) + CS(i, c), CE(i, c) - CS(i, c), at(i) + RL[i] - 1)), lambda i, c: CE(i, c)) for name, rg, val in vals]

        def data(L):
            return Data(L.fn)

        def inv_header(L):
            h = L.v('header', is_str)
            return [('a comment', z3.And(h.n >= 1, h.arr[0] == HASH)),
                    ('of one line', qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < h.n), h.arr[t] != NL), lambda t: h.arr[t]))]

        def inv(L):
            d, F, k = data(L), content(L), L.it
            H = S(L.entry.mem[FM.FILE]).n
            return both([('a file is open', L.st.mem[FM.OPEN].t), ('agents', z3.And(k >= 0, k <= d.n, arow(RL, k) >= 0)),
                         ('length', F.n == H + arow(RL, k))], header(F.arr, H),
                        [(n, qall_(so, f, pat)) for n, so, f, pat in rows(d, F.arr, H, k)])

        def entry(L):
            return [('', arow.unfold(RL, intv(0)))]

        def exit(L):
            H = L.st.gh['header'] = S(L.entry.mem[FM.FILE]).n
            d, F, k = data(L), content(L), L.it
            return [('all agents are written', k == d.n)] + [(n + ' (all)', qall_(so, f, pat), [qall_(so, g, pat), k == d.n]) for (n, so, f, pat), (
                _, _, g, _) in zip(rows(d, F.arr, H, d.n), rows(d, F.arr, H, k))]

        def step(L):
            d, k = data(L), L.at_head.it
            F0, F1 = S(L.head.mem[FM.FILE]), content(L)
            A, o, H = F1.arr, F0.n, S(L.entry.mem[FM.FILE]).n
            at = o + d.start(k)
            keep = [qall_(so, f, pat) for _, so, f, pat in rows(d, F0.arr, H, k)] + [
                o == H + arow(RL, k), H >= 2,
                qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < o), A[t] == F0.arr[t]), lambda t: A[t]),
                qall([I, I], lambda p, q: z3.Implies(z3.And(p >= 0, q >= 0, p + q <= o), SUB(A, p, q) == SUB(F0.arr, p, q)), lambda p, q: SUB(A, p, q))]
            grown = z3.And(arow(RL, k + 1) == arow(RL, k) + RL[k], RL[k] >= 8)
            first = [('the header is there', H >= 2), ('the row starts where the file ended', o == H + arow(RL, k)), ('', arow.unfold_succ(RL, k)),
                     ('what was there stays', qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < o), A[t] == F0.arr[t]), lambda t: A[t])),
                     ('its parts stay', qall([I, I], lambda p, q: z3.Implies(z3.And(p >= 0, q >= 0, p + q <= o), SUB(A, p, q) == SUB(F0.arr, p, q)),
                                             lambda p, q: SUB(A, p, q))), ('all of the header', H <= o)]
            stays = qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < o), A[t] == F0.arr[t]), lambda t: A[t])
            first += [(n + ' (kept)', t, [stays, t0, H >= 2, H <= o]) for (n, t), (_, t0) in zip(header(A, H), header(F0.arr, H))]
            out = [('', width(k)),
                   ('length of the row', z3.And(F1.n == o + RL[k], RL[k] == W5(k) + 2 + PD(k) + d.tlen(k) + 1, PD(k) >= 0, d.tlen(k) >= 1)),
                   ('the rows grow', grown),
                   ('the number', qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < W5(k)), A[o + t] == padded(k)[t]), lambda t: padded(k)[t])),
                   ('', Lidx(A, o, k)),
                   ('around the text', z3.And(A[o + W5(k)] == COMMA, A[o + RL[k] - 1] == NL)),
                   ('padding', blanks(A, o + W5(k) + 1, 1 + PD(k))), ('sizes', sizes(k, o))]
            text = step_text(L, d, k, A, o, at)
            new = rows(d, A, H, k + 1, k)
            old = rows(d, A, H, k)
            out += text
            for (n, so, f, pat), (_, _, g, _), (_, _, h, _) in zip(new, old, rows(d, A, H, k + 1)):
                first += [(n + ' (old)', qall_(so, g, pat), keep)]
                if len(so) == 1:
                    new_ = [(n + ' (new)', f(k))]
                elif names is not None and so == [I, I] and n != 'no line break inside a row':
                    new_ = [(f'{n} (new, {c})', f(k, intv(c))) for c in range(len(names) + 1)]
                elif names is not None and len(so) == 3:
                    new_ = [(f'{n} (new, {c})', qall_([I], lambda t: f(k, intv(c), t), lambda t: A[t])) for c in range(len(names) + 1)]
                elif names is None and n != 'no line break inside a row':
                    new_ = general(n + ' (new)', so[1:], lambda *a: f(k, *a), lambda *a: pat(k, *a), lambda c, *t: [('the cell', z3.Implies(
                        z3.And(c >= 1, c < d.nc(k)), z3.And(o + CS(k, c) == at + TX(d.el[k], c - 1) - z3.If(c == 1, 1 + PD(k), intv(1)), o + CE(
                            k, c) == at + TX(d.el[k], c - 1) + tl_i(d.el[k][c - 1])))), ('the first cell', z3.And(CS(k, intv(0)) == 0, CE(
                                k, intv(0)) == W5(k)))] + (ends_of_cell(L, d, k, A, o, at, c) if n == 'cells' else value_of_cell(
                                    L, d, k, A, o, at, c) if n == 'opinions' else []), 'stages' if n in ('cells', 'opinions') else None)
                else:
                    new_ = [(n + ' (new)', qall_(so[1:], lambda *a: f(k, *a), lambda *a: pat(k, *a)))]
                out += new_ + general(n, so, h, pat, using=[qall_(so, g, pat), grown] + [x[1] for x in new_])
            return first + out

        def texts(d, k, A, at):
            a, n = d.el[k], d.ln[k]
            kb, p = (lambda j: z3.If(j == 0, 1 + PD(k), intv(1))), (lambda j: at + TX(a, j) - z3.If(j == 0, 1 + PD(k), intv(1)))
            rng = lambda j: z3.And(j >= 0, j < n)
            good = lambda j: z3.Implies(rng(j), z3.And(clean(A, p(j), p(j) + kb(j) + tl_i(a[j])), is_i(A, p(j), kb(j) + tl_i(a[j]), a[j])))
            return a, n, kb, p, rng, good

        def value_of_cell(L, d, k, A, o, at, c):
            a, n, kb, p, rng, good = texts(d, k, A, at)
            s = lambda t: z3.Implies(z3.And(c >= 1, c < d.nc(k)), t)
            return [('its number', s(z3.And(o + CS(k, c) == p(c - 1), CE(k, c) - CS(k, c) == kb(c - 1) + tl_i(a[c - 1])))),
                    ('it reads back', s(is_i(A, p(c - 1), kb(c - 1) + tl_i(a[c - 1]), a[c - 1])), [
                        qall([I], good, lambda j: a[j])]),
                    ('the row', o == S(L.entry.mem[FM.FILE]).n + arow(RL, k))]

        def ends_of_cell(L, d, k, A, o, at, c):
            a, n = d.el[k], d.ln[k]
            posn = lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(*positions(A, at, a, j, n)))
            pos = qall([I], posn, lambda j: a[j])
            size = z3.And(d.tlen(k) == TX(a, n) - 2, RL[k] == W5(k) + 2 + PD(k) + TX(a, n) - 1, at == o + W5(k) + 2 + PD(k), W5(k) >= 0, PD(k) >= 0)
            s = z3.Implies(z3.And(c >= 1, c <= n), z3.And(CS(k, c) == W5(k) + 1 + PD(k) + TX(a, c - 1) + 1 - z3.If(
                c == 1, 1 + PD(k), intv(1)), CE(k, c) == W5(k) + 2 + PD(k) + TX(a, c) - 2))
            last = z3.Implies(c == n, CE(k, c) == RL[k] - 1)
            more = z3.Implies(z3.And(c >= 1, c < n), A[o + CE(k, c)] == COMMA)
            less = z3.Implies(z3.And(c >= 1, c <= n), z3.And(CS(k, c) >= 0, CS(k, c) <= CE(k, c), CE(k, c) < RL[k]))
            n1 = n >= 1
            zero = z3.Implies(c == 0, z3.And(CS(k, c) == 0, CE(k, c) == W5(k), CE(k, c) < RL[k], A[o + CE(k, c)] == COMMA))
            return [('one number', posn(c - 1), [pos]), ('the next', posn(c), [pos]), ('size', size), ('its place', s), ('the last', last),
                    ('a comma behind', more, [s, posn(c), size]), ('its size', less, [s, posn(c - 1), posn(c), size]), ('the number', zero),
                    ('some', n1), ('the row', o == S(L.entry.mem[FM.FILE]).n + arow(RL, k))]

        def sizes(k, o):
            return z3.And(PD(k) >= 0, W5(k) >= 0, o >= 2)

        def step_text(L, d, k, A, o, at):
            out = []
            if names is not None:
                for j in range(len(names)):
                    v = d.val(k, j)
                    if j:
                        out += [(f'before number {j}', z3.And(A[at + d.text(k, j) - 2] == COMMA, A[at + d.text(k, j) - 1] == BLANK))]
                    kb = intv(1) if j else 1 + PD(k)
                    p = at + d.text(k, j) - kb
                    out += [(f'number {j}', chars(A, at + d.text(k, j), v)), ('', Lcr(A, p, kb, v)),
                            (f'no comma in number {j}', clean(A, p, p + kb + tl_r(v))),
                            ('', known(qall([I], lambda q: Lvr(A, p, kb, v, q), lambda q: SUB(A, p, q)))),
                            (f'number {j} reads back', qall([I, I], lambda x, q: z3.Implies(z3.And(
                                x == p, q >= kb + tl_r(v), x + q <= o + RL[k] - 1), is_r(A, x, q, v)), lambda x, q: SUB(A, x, q)))]
                return out
            a, n, kb, p, rng, good = texts(d, k, A, at)
            pos = qall([I], lambda j: z3.Implies(rng(j), z3.And(*positions(A, at, a, j, n))), lambda j: a[j])
            r = L.st.gh.get('~text')
            if r is None:
                raise Unsupported('the text of an agent is not put together in a loop')
            same = qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < r.n), A[at + t] == r.arr[t]), lambda t: r.arr[t])
            return [('the text', same), ('put together', text_done(a, n, r)), ('no line break in the text', qall([I], lambda t: z3.Implies(z3.And(t >= at, t < at + TX(a, n) - 2), A[t] != NL), lambda t: A[t])),
                    ('positions', pos, [same, text_done(a, n, r)]),
                    ('numbers', qall([I, I], lambda j, t: z3.Implies(z3.And(rng(j), t >= 0, t < tl_i(a[j])), A[at + TX(a, j) + t] == tc_i(a[j])[t]),
                                     lambda j, t: tc_i(a[j])[t])), ('', TX.unfold(a, intv(0)))] + general('opinion', [I], good, lambda j: a[j], lambda j: [
                        ('position', z3.Implies(rng(j), z3.And(TX(a, j) >= 0, z3.Implies(j >= 1, A[at + TX(a, j) - 1] == BLANK))), [pos]),
                        ('blanks', z3.Implies(rng(j), z3.And(p(j) >= 0, blanks(A, p(j), kb(j)))), [
                            z3.Implies(rng(j), z3.And(TX(a, j) >= 0, z3.Implies(j >= 1, A[at + TX(a, j) - 1] == BLANK))),
                            blanks(A, o + W5(k) + 1, 1 + PD(k)), sizes(k, o), TX.unfold(a, intv(0))]),
                        ('characters', z3.Implies(rng(j), chars(A, p(j) + kb(j), a[j]))),
                        ('', Lci(A, p(j), kb(j), a[j])), ('', Lvi(A, p(j), kb(j), a[j], kb(j) + tl_i(a[j]))),
                        ('an int', z3.Implies(rng(j), z3.And(a[j] >= -2 ** 31, a[j] < 2 ** 31)))])

        def positions(A, at, a, j, n):
            return [TX(a, j) >= 0, TX(a, j + 1) == TX(a, j) + tl_i(a[j]) + 2, TX(a, j + 1) <= TX(a, n), tl_i(a[j]) >= 1,
                    z3.Implies(j >= 1, z3.And(A[at + TX(a, j) - 2] == COMMA, A[at + TX(a, j) - 1] == BLANK, TX(a, j) >= 3))]

        def text_done(a, n, r):
            return z3.And(r.n == TX(a, n) - 2, qall([I], lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(*positions(r.arr, intv(0), a, j, n))),
                                                    lambda j: a[j]))

        def exit_text(L):
            d, i = data(L), L.outer(1)
            r = L.st.gh['~text'] = L.v('res', is_str)
            inv = [t for _, t in inv_text(L)]
            all_ = L.it + 1 == d.ln[i]
            return [('all numbers', all_), ('the text of an agent', text_done(d.el[i], d.ln[i], r), [all_, inv[0], inv[1], inv[3]])]

        def inv_text(L):
            d, r, k, i = data(L), L.v('res', is_str), L.it, L.outer(1)
            a = d.el[i]
            rng = lambda j: z3.And(j >= 0, j <= k)
            return [('numbers', z3.And(k >= 0, k + 1 <= d.ln[i], TX(a, k + 1) >= 3)), ('length', r.n == TX(a, k + 1) - 2),
                    ('no line break', qall([I], lambda t: z3.Implies(z3.And(t >= 0, t < r.n), r.arr[t] != NL), lambda t: r.arr[t])),
                    ('positions', qall([I], lambda j: z3.Implies(rng(j), z3.And(*positions(r.arr, intv(0), a, j, k + 1))), lambda j: a[j])),
                    ('characters', qall([I, I], lambda j, t: z3.Implies(z3.And(rng(j), t >= 0, t < tl_i(a[j])), r.arr[TX(a, j) + t] == tc_i(a[j])[t]),
                                        lambda j, t: tc_i(a[j])[t]))]

        def entry_text(L):
            a = data(L).el[L.outer(1)]
            return [('', TX.unfold(a, intv(0))), ('', TX.unfold(a, intv(1)))]

        def step_text_loop(L):
            a = data(L).el[L.outer(1)]
            return [('', TX.unfold_succ(a, L.at_head.it + 1))]

        def table(c):
            d, F, H = Data(c), S(c.post.mem[FM.FILE]), c.post.gh['header']
            return d, F, H, Table(F.arr, F.n, d.n + 2, Wlo, Whi, lambda l: z3.If(l == 0, intv(0), l - 1), Wco, d.n, d.nc,
                                  agent_values(kind, F.arr, d.val, d.val))

        def facts(c):
            d, F, H, T = table(c)
            A, N = F.arr, d.n
            rp = lambda i: arow(RL, i)
            isl = lambda l: z3.And(l >= 1, l <= N)
            line = lambda l: z3.Implies(isl(l), z3.And(
                T.isrow(l), Wlo(l) == H + rp(l - 1), Wlo(l) >= H, Whi(l) == Wlo(l) + RL[l - 1] - 1, Whi(l) == Wlo(l + 1) - 1, Whi(l) < F.n,
                A[Wlo(l)] != HASH, A[Whi(l)] == NL))
            cell = lambda l, c: z3.And(isl(l), c >= 0, c < d.nc(l - 1))

            def stages_line(l):
                i = l - 1
                return [('its row', z3.Implies(isl(l), z3.And(rp(i) >= 0, rp(l) == rp(i) + RL[i], RL[i] >= 8, H + rp(i) + RL[i] <= H + rp(N),
                                                              A[H + rp(i)] != HASH, A[H + rp(i) + RL[i] - 1] == NL)), [qall_(
                                                                  so, f, pat) for n, so, f, pat in rows(d, A, H, N)[:1]]),
                        ('its start', z3.Implies(l >= 1, Wlo(l) == H + rp(i))), ('the next start', z3.Implies(l >= 0, Wlo(l + 1) == H + rp(l)))]

            def inside(l, c):
                return z3.Implies(cell(l, c), z3.And(
                    Wco(l, c) >= Wlo(l), Wco(l, c) < Wco(l, c + 1), Wco(l, c + 1) <= Whi(l) + 1,
                    Wco(l, c) == H + rp(l - 1) + CS(l - 1, c), Wco(l, c + 1) == H + rp(l - 1) + CE(l - 1, c) + 1,
                    z3.Implies(c + 1 < d.nc(l - 1), A[Wco(l, c + 1) - 1] == COMMA)))

            def stages_cell(l, c):
                i = l - 1
                s = lambda t: z3.Implies(cell(l, c), t)
                return [('its row', s(z3.And(i >= 0, i < N, Wlo(l) == H + rp(i), Whi(l) == Wlo(l) + RL[i] - 1))),
                        ('its ends', s(z3.And(CS(i, c) >= 0, CS(i, c) <= CE(i, c), CE(i, c) < RL[i], z3.If(
                            c + 1 < d.nc(i), A[H + rp(i) + CE(i, c)] == COMMA, CE(i, c) == RL[i] - 1))), [qall_(so, f, pat) for n, so, f, pat in rows(
                                d, A, H, N) if n == 'cells']),
                        ('the next cell', s(z3.Implies(c + 1 < d.nc(i), CS(i, c + 1) == CE(i, c) + 1)))]
            dlo = known(qall([I], lambda l: Wlo(l) == z3.If(l == 0, intv(0), H + rp(l - 1)), lambda l: Wlo(l)))
            lines = qall([I], line, lambda l: Whi(l))
            inrow = [qall_(so, f, pat) for n, so, f, pat in rows(d, A, H, N) if n == 'no line break inside a row'][0]
            starts = qall([I], lambda l: z3.Implies(isl(l), z3.And(A[Wlo(l)] != HASH, Wlo(l) < Whi(l))), lambda l: Wlo(l))
            only = qall([I], lambda l: z3.Implies(T.isrow(l), isl(l)), lambda l: Whi(l))
            order = [qall_(so, f, pat) for n, so, f, pat in rows(d, A, H, N)][0]
            hd = [t for _, t in header(A, H)]
            ends = z3.And(Wlo(intv(0)) == 0, Wlo(intv(1)) == H, F.n >= H, Whi(intv(0)) == H - 1, Wlo(N + 1) == F.n, Whi(N + 1) == F.n, H >= 2, N >= 0)
            rl = lambda l: RL[l - 1]
            seen = lambda l, t: z3.Implies(z3.And(isl(l), t >= Wlo(l), t < Whi(l)), z3.And(rl(l) >= 8, A[t] != NL))
            one = [t for n, t in T.facts() if n == 'no line break inside a line'][0]
            return [('', dlo),
                    ('', known(qall([I], lambda l: Whi(l) == z3.If(l == N + 1, F.n, Wlo(l + 1) - 1), lambda l: Whi(l)))),
                    ('', known(qall([I, I], lambda l, c: Wco(l, c) == Wlo(l) + z3.If(c == d.nc(l - 1), RL[l - 1], CS(l - 1, c)), lambda l, c: Wco(l, c)))),
                    ('', arow.unfold(RL, intv(0)))] + general('line of an agent', [I], line, lambda l: Whi(l), stages_line) + [
                    ('only agents have lines', only)] + general(
                'cell', [I, I], inside, lambda l, c: Wco(l, c), stages_cell) + [
                    ('first and last line', ends)] + general(
                'rows are one line each', [I, I], seen, lambda l, t: (Whi(l), A[t]), using=[lines, inrow, order]) + [
                    ('no line break inside a line', one, hd + [ends, qall([I, I], seen, lambda l, t: (Whi(l), A[t]))])] + [
                    ('rows are no comments', starts, [lines])] + [
                    (n, t, [starts, ends, lines] + hd) for n, t in T.facts() if n in ('lines', 'agents are counted')] + [
                    (n, t, [lines, only, qall([I, I], inside, lambda l, c: Wco(l, c))] + [qall_(so, f, pat) for m, so, f, pat in rows(d, A, H, N)
                                                                                          if m in (n, 'cells', 'rows lie one behind the other')])
                    for n, t in T.facts() if n not in ('first line', 'lines', 'no line break inside a line', 'agents are counted', 'every agent has a line',
                                                       'no more lines than agents', 'first and last cell')]

        return Contract(
            'Seldon::agents_to_file', match=lambda p, g: kind_of(p, g) == kind, setup=setup, modular=False,
            pre=lambda c: [('agents', z3.And(Data(c).n >= 0, Data(c).n < 2 ** 31))] + nonempty(Data(c)) + [('', t) for t in Data(c).defs()],
            loops={0: LoopSpec(inv_header), 1: LoopSpec(inv, entry=entry, step=step, exit=exit), 2: LoopSpec(inv_text, entry=entry_text, step=step_text_loop, exit=exit_text)},
            facts=facts, post=lambda c: [('the file', z3.And(*[a == b for a, b in zip(c.post.mem[FM.PATH].terms, c.arg(1).v.terms)]))] + table(c)[3].facts())

    if reg.pid == 'C20':
        for k in KIND:
            reg.add(reader(k))
            reg.add(writer(k))
