"""Contract of parse_comma_separated_list (C26), in terms of two ghost variables: the position in the string up to which
fields have been handed out, and how many have been."""
from .net import *

COMMA = 44


def add(reg):
    def on_field(ex, st, vals, e):
        """what every call of the callback has to satisfy, and what it does to the ghost variables"""
        c = ex.cctx
        s = ex.get(c.pre, c.lv(0))
        n, ch = s.len, s.terms[1]
        line = e.get('l')
        pos, cnt = st.mem['ghost:pos'].t, st.mem['ghost:count'].t
        idx, f = ex.load(st, vals[0]), ex.load(st, vals[1])
        F, m = f.terms[1], f.len
        ex.oblige(st, idx.t == cnt, 'callback', line, 'the callback gets the number of the field')
        ex.oblige(st, z3.And(m >= 0, pos >= 0, pos + m <= n), 'callback', line, 'the field lies inside the string')
        ex.oblige(st, qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < m), F[i] == ch[pos + i]), lambda i: F[i]),
                  'callback', line, 'the callback gets the characters of the field')
        ex.oblige(st, qall([I], lambda i: z3.Implies(z3.And(i >= pos, i < pos + m), ch[i] != COMMA), lambda i: ch[i]),
                  'callback', line, 'no comma inside the field')
        ex.oblige(st, z3.Or(pos + m == n, ch[pos + m] == COMMA), 'callback', line,
                  'the field ends at a comma or at the end of the string')
        ex.put(st, X.LV('ghost:pos'), V(GHOST, [pos + m + 1]))
        ex.put(st, X.LV('ghost:count'), V(GHOST, [cnt + 1]))
        # the callback may change the field it was given
        if isinstance(vals[1], X.LV):
            ex.invalidate_deep(st, vals[1])
            ex.put(st, vals[1], ex.fresh_val(st, 'field', f.shape))
        return None

    def inv(L):
        n = L.fn.arg(0).n
        pos, cnt = L.ghost('pos'), L.ghost('count')
        size = lambda s: s.kind == 'int' and getattr(s, 'w', 0) == 64 and not s.signed
        i32 = lambda s: s.kind == 'int' and getattr(s, 'w', 0) == 32
        return [('position', z3.And(pos >= 0, pos <= n, L.local(size, 'the position') == pos)),
                ('number of the field', z3.And(cnt >= 0, cnt <= pos, L.local(i32, 'the number of the field') == cnt))]

    reg.add(Contract(
        'Seldon::parse_comma_separated_list', generic='cxv_field_callback', modular=False,
        ghosts=dict(pos=intv(0), count=intv(0)), callbacks={'cxv_field_callback': on_field},
        pre=lambda c: [('the string has fewer than 2^31 characters', z3.And(c.arg(0).n >= 0, c.arg(0).n < 2 ** 31 - 1))],
        loops={0: LoopSpec(inv, dec=lambda L: L.fn.arg(0).n + 1 - L.ghost("pos"))},
        post=lambda c: [('the fields cover the whole string', c.ghostp('pos') == c.arg(0).n + 1)]))
