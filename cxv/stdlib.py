"""Contracts of the C++ standard library functions (and of fmt / toml++) that seldon calls.

These are assumptions of the verification ("trusted" in the evidence): they restate what the C++ standard
says about a call in terms of the values of core.py.  double is treated as the real numbers; the functions of
<cmath> are uninterpreted and come with the axioms given here or in theory.py.
"""
import re
import z3
from .core import *
from . import exec as X
from .theory import (rng_u01, rng_next, rng_uint, rng_nrm, rng_seed, fn_pow, fn_log, fn_exp, fn_tanh, fn_erf, fn_sqrt,
                     fn_log1p, qall, key_id, no_draw_is_zero)


def LVof(ex, st, v, hint='tmp'):
    if isinstance(v, X.ItVar) or isinstance(v, X.It):
        v = ex.deref(st, v, None)
    if isinstance(v, V):
        return ex.new_root(st, hint, v)
    return v


def obj_and_args(ex, st, e):
    if 'obj' in e:
        return ex.ev(st, e['obj']), e['args']
    if e.get('opm') or e.get('op'):
        return ex.ev(st, e['args'][0]), e['args'][1:]
    return None, e['args']


# ---- helpers over ranges ---------------------------------------------------------------------------------
def rng_of(ex, st, a, b):
    """(base value V, offset, length, base LV or None) of an iterator pair"""
    if not (isinstance(a, X.It) and isinstance(b, X.It)):
        raise Unsupported('iterator range')
    if isinstance(a.base, V):
        return a.base, a.idx, z3.simplify(b.idx - a.idx), None
    if not ex.same_base(a.base, b.base):
        raise Unsupported('iterator range over two containers')
    ex.check_vid(st, a.vid, None)
    return ex.load(st, a.base), a.idx, simp(b.idx - a.idx), a.base


def simp(t):
    return z3.simplify(t)


def is0(t):
    return z3.is_int_value(t) and t.as_long() == 0


def slice_terms(ex, st, v, off, n, hint='slice'):
    """element arrays of v[off .. off+n)"""
    off = simp(off)
    if is0(off):
        return list(v.terms[1:])
    out = []
    for t in v.terms[1:]:
        a = ex.fresh(st, hint, t.sort())
        st.assume(qall([Int], lambda i: z3.Implies(z3.And(i >= 0, i < n), a[i] == t[i + off]), lambda i: a[i]))
        out.append(a)
    return out


def full(ex, st, off, n, v):
    return is0(simp(off)) and (simp(n - v.len).eq(intv(0)) or ex.entails(st, n == v.len))


# ---- vector ----------------------------------------------------------------------------------------------
def vec_resize(ex, st, lv, n, fill, line):
    v = ex.load(st, lv, line)
    ex.oblige(st, z3.And(n >= 0, n <= MAXLEN), 'length', line, 'resize: length within max_size')
    st.assume(z3.And(n >= 0, n <= MAXLEN))
    st.assume(v.len >= 0)
    if ex.entails(st, v.len == 0):
        new = const_elems(fill)
    elif ex.entails(st, n <= v.len):
        new = list(v.terms[1:])
    else:
        new = []
        for t, c in zip(v.terms[1:], fill.terms):
            a = ex.fresh(st, 'resized', t.sort())
            st.assume(qall([Int], lambda i: z3.And(z3.Implies(i < v.len, a[i] == t[i]),
                                                   z3.Implies(i >= v.len, a[i] == c)), lambda i: a[i]))
            new.append(a)
    if not ex.entails(st, n == v.len):
        ex.invalidate(st, lv)
    ex.put(st, lv, V(v.shape, [n] + new), line)


def elem_ti(ex, e_t):
    t = ex.p.ty(ex.p.strip(e_t))
    return t['args'][0]['t']


def vector_call(ex, st, e, f, m):
    line = e.get('l')
    o, args = obj_and_args(ex, st, e)
    if o is None:
        raise Unsupported(f'std::vector::{m} without object')
    o = LVof(ex, st, o, 'vec')
    if isinstance(o, X.ItVar):
        o = ex.load(st, o)
    if isinstance(o, X.It):
        o = ex.deref(st, o, line)
    if m == 'operator[]':
        i = ex.term(st, args[0])
        return ex.elem(st, o, i, line)
    if m == 'at':
        i = ex.term(st, args[0])
        n = ex.len_of(st, o, line)
        if ex.choose(st, [z3.And(i >= 0, i < n), z3.Not(z3.And(i >= 0, i < n))]) == 1:
            raise X.ThrowExc('std::out_of_range')
        return LV_i(o, i)
    if m == 'size':
        return V(SIZE, [ex.len_of(st, o, line)])
    if m == 'empty':
        return ex.boolv(ex.len_of(st, o, line) == 0)
    if m in ('push_back', 'emplace_back'):
        sh = ex.shape_of(st, o)
        if len(args) == 0:
            x = ex.default(st, elem_ti(ex, e['obj']['t']))
        elif len(args) == 1:
            x = ex.rv(st, args[0])
        else:
            raise Unsupported('emplace_back with several arguments')
        if not isinstance(x, V):
            x = coerce(ex, st, x, sh.elem)
        if m == 'emplace_back' and sh.elem.kind == 'vec' and sh.elem.tag == 'vector' and isinstance(x, V) and x.shape.kind == 'int':
            n = x.t
            ex.oblige(st, z3.And(n >= 0, n <= MAXLEN), 'bounds', line, 'emplace_back: a size')
            z = default_value(sh.elem.elem)  # vector(n): n value-initialised numbers
            if sh.elem.elem.kind == 'struct':
                raise Unsupported('emplace_back(n) of a vector of classes')
            x = V(sh.elem, [n] + const_elems(z))
        x = ex.convert(st, x, sh.elem, line)
        v = ex.load(st, o, line)
        st.assume(z3.And(v.len >= 0, v.len <= MAXLEN))
        # std: length_error beyond max_size; memory is exhausted long before
        st.assume(v.len < MAXLEN)
        n = v.len
        ex.invalidate(st, o)
        ex.put(st, o, v.with_at(n, x).with_len(n + 1), line)
        return LV_i(o, n) if m == 'emplace_back' else None
    if m == 'pop_back':
        v = ex.load(st, o, line)
        ex.oblige(st, v.len > 0, 'bounds', line, 'pop_back on a non-empty vector')
        st.assume(v.len > 0)
        ex.put(st, o, v.with_len(v.len - 1), line)
        return None
    if m in ('back', 'front'):
        n = ex.len_of(st, o, line)
        ex.oblige(st, n > 0, 'bounds', line, f'{m} of a non-empty vector')
        st.assume(n > 0)
        return LV_i(o, n - 1 if m == 'back' else intv(0))
    if m == 'clear':
        v = ex.load(st, o, line)
        ex.invalidate(st, o)
        ex.put(st, o, V(v.shape, [intv(0)] + list(v.terms[1:])), line)
        return None
    if m == 'resize':
        n = ex.term(st, args[0])
        sh = ex.shape_of(st, o)
        if len(args) > 1:
            fill = ex.convert(st, ex.rv(st, args[1]), sh.elem, line)
        elif e['obj'].get('t') is not None and ex.p.ty(ex.p.strip(e['obj']['t'])).get('args'):
            fill = ex.default(st, elem_ti(ex, e['obj']['t']))
        else:
            fill = default_value(sh.elem)
        vec_resize(ex, st, o, n, fill, line)
        return None
    if m == 'reserve':
        ex.rv(st, args[0])
        ex.invalidate(st, o)
        return None
    if m == 'assign':
        if len(args) == 2:
            a, b = ex.rv(st, args[0]), ex.rv(st, args[1])
            if isinstance(a, X.It):
                v, off, n, base = rng_of(ex, st, a, b)
                if base is not None:
                    al = ex.alias(base, o)
                    if al is not None:
                        ex.oblige(st, z3.Not(al), 'alias', line, 'assign: the source range is not part of the vector')
                sh = ex.shape_of(st, o)
                new = slice_terms(ex, st, v, off, n, 'assigned')
                ex.oblige(st, n >= 0, 'bounds', line, 'assign: valid range')
                ex.invalidate(st, o)
                ex.put(st, o, V(sh, [n] + new), line)
                return None
            n, x = a.t, ex.convert(st, b, ex.shape_of(st, o).elem, line)
            ex.invalidate(st, o)
            ex.put(st, o, V(ex.shape_of(st, o), [n] + const_elems(x)), line)
            return None
    if m == 'operator=':
        src = ex.ev(st, args[0])
        sh = ex.shape_of(st, o)
        if isinstance(src, X.Elems):
            v = ex.mk_vec(sh, [ex.convert(st, x, sh.elem, line) for x in src.vals])
        else:
            v = ex.load(st, src, line)
            if not isinstance(v, V):
                v = coerce(ex, st, v, sh)
        ex.invalidate_deep(st, o)
        ex.put(st, o, V(sh, v.terms), line)
        pt = ex.p.ty(f['params'][0])
        if isinstance(src, X.LV) and pt.get('rv'):
            ex.moved_from(st, src)
        return o
    if m in ('begin', 'cbegin', 'data'):
        if m == 'data' and ex.shape_of(st, o).kind != 'vec':
            raise Unsupported('data()')
        return X.It(o, intv(0), ex.new_vid(st, o))
    if m in ('end', 'cend'):
        return X.It(o, ex.len_of(st, o, line), ex.new_vid(st, o))
    if m in ('rbegin', 'crbegin'):
        return X.It(o, intv(0), ex.new_vid(st, o), True)
    if m in ('rend', 'crend'):
        return X.It(o, ex.len_of(st, o, line), ex.new_vid(st, o), True)
    if m == 'erase' and len(args) == 2:
        a, b = ex.rv(st, args[0]), ex.rv(st, args[1])
        v = ex.load(st, o, line)
        ex.oblige(st, z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= v.len), 'bounds', line, 'erase: valid range')
        st.assume(z3.And(a.idx >= 0, a.idx <= b.idx, b.idx <= v.len))
        ex.invalidate(st, o)
        if ex.entails(st, b.idx == v.len):
            ex.put(st, o, v.with_len(a.idx), line)
            return X.It(o, a.idx, ex.new_vid(st, o))
        new, d = [], b.idx - a.idx
        for t in v.terms[1:]:
            arr = ex.fresh(st, 'erased', t.sort())
            st.assume(qall([Int], lambda i: arr[i] == z3.If(i < a.idx, t[i], t[i + d]), lambda i: arr[i]))
            new.append(arr)
        ex.put(st, o, V(v.shape, [v.len - d] + new), line)
        return X.It(o, a.idx, ex.new_vid(st, o))
    if m == 'swap':
        other = ex.ev(st, args[0])
        x, y = ex.load(st, o), ex.load(st, other)
        ex.invalidate_deep(st, o)
        ex.invalidate_deep(st, other)
        ex.put(st, o, y)
        ex.put(st, other, x)
        return None
    if m == 'insert' and len(args) == 3:
        pos, a, b = ex.rv(st, args[0]), ex.rv(st, args[1]), ex.rv(st, args[2])
        v = ex.load(st, o, line)
        if isinstance(a, X.It) and ex.entails(st, pos.idx == v.len):
            src, off, n, base = rng_of(ex, st, a, b)
            new = []
            for t, s in zip(v.terms[1:], src.terms[1:]):
                arr = ex.fresh(st, 'inserted', t.sort())
                st.assume(qall([Int], lambda i: arr[i] == z3.If(i < v.len, t[i], s[i - v.len + off]), lambda i: arr[i]))
                new.append(arr)
            ex.invalidate(st, o)
            ex.put(st, o, V(v.shape, [v.len + n] + new), line)
            return None
    raise Unsupported(f'std::vector::{m} (line {line})')


def LV_i(o, i):
    return X.LV(o.root, o.path + (('i', i),), o.vid)


# ---- span --------------------------------------------------------------------------------------------------
def to_view(ex, st, v, line=None):
    v = ex.load(st, v) if not isinstance(v, X.LV) else v
    if isinstance(v, X.View):
        return v
    if isinstance(v, X.LV):
        sh = ex.shape_of(st, v)
        if sh.kind == 'vec':
            return X.View(v, intv(0), ex.len_of(st, v, line), ex.new_vid(st, v))
    if isinstance(v, V) and v.shape.kind == 'vec':
        lv = ex.new_root(st, 'spanned', v)
        return X.View(lv, intv(0), v.len, ex.new_vid(st, lv))
    raise Unsupported('std::span of an unknown range')


def span_call(ex, st, e, f, m):
    line = e.get('l')
    o, args = obj_and_args(ex, st, e)
    o = ex.load(st, o)
    if isinstance(o, (X.LV, V)):
        o = to_view(ex, st, o, line)
    if not isinstance(o, X.View):
        raise Unsupported('std::span object')
    if m == 'size':
        return V(SIZE, [o.len])
    if m == 'empty':
        return ex.boolv(o.len == 0)
    if m in ('operator[]', 'back', 'front'):
        i = ex.term(st, args[0]) if m == 'operator[]' else o.len - 1 if m == 'back' else intv(0)
        ex.oblige(st, z3.And(i >= 0, i < o.len), 'bounds', line, 'span index in bounds')
        st.assume(z3.And(i >= 0, i < o.len))
        ex.check_vid(st, o.vid, line)
        j = i if is0(o.off) else o.off + i
        r = ex.elem(st, o.base, j, line, 'span stays inside its container')
        return X.LV(r.root, r.path, o.vid)
    if m in ('begin', 'cbegin', 'data'):
        return X.It(o.base, o.off, o.vid)
    if m in ('end', 'cend'):
        return X.It(o.base, simp(o.off + o.len), o.vid)
    raise Unsupported(f'std::span::{m}')


# ---- strings -----------------------------------------------------------------------------------------------
NPOS = 2 ** 64 - 1


def as_string(ex, st, v):
    """a std::string / string_view / literal / char as a string value"""
    v = ex.load(st, v)
    if isinstance(v, V):
        if v.shape.kind == 'vec':
            return V(STRING, v.terms)
        if v.shape.kind == 'int':
            return ex.mk_vec(STRING, [v])
        if v.shape.kind == 'opaque':
            f = z3.Function('opaque_str_len', Int, Int)
            g = z3.Function('opaque_str', Int, z3.ArraySort(Int, Int))
            st.assume(z3.And(f(v.t) >= 0, f(v.t) <= MAXLEN))
            return V(STRING, [f(v.t), g(v.t)])
    raise Unsupported('string expected')


A_CH = z3.ArraySort(Int, Int)
CAT = z3.Function('text_concat', Int, A_CH, Int, A_CH, A_CH)
# SUB(A, p, m): the m characters of A from p on, zero behind them (so that equal texts are equal arrays)
SUB = z3.Function('substring', A_CH, Int, Int, A_CH)


def substring(ex, st, v, pos, n):
    """the array of the n characters of v from pos on (pos + n <= length)"""
    A = v.terms[1]
    if z3.is_app(A) and A.decl().name() == 'substring':
        # a part of a part (inside of it, as v.len is the length of that part) is a part of the whole
        B, p0, n0 = A.children()
        if ex.entails(st, z3.And(v.len <= n0, pos + n <= v.len)):
            A, pos = B, simp(p0 + pos)
    r = SUB(A, pos, n)
    st.assume(qall([Int], lambda i: z3.Implies(z3.And(i >= 0, i < n), r[i] == A[pos + i]), lambda i: r[i]))
    return r


def lit_codes(v):
    """the characters of a string value, if they are all known"""
    n = simp(v.len)
    if not z3.is_int_value(n) or n.as_long() > 4000:
        return None
    cs = [simp(sel(v.terms[1], intv(i))) for i in range(n.as_long())]
    return [c.as_long() for c in cs] if all(z3.is_int_value(c) for c in cs) else None


def pieces(ex, v):
    k = (v.len.get_id(), v.terms[1].get_id())
    got = ex.__dict__.setdefault('str_pieces', {}).get(k)
    if got is not None:
        return got[1]
    cs = lit_codes(v)
    if cs is not None:
        return [cs] if cs else []
    return [v]


def concat(ex, st, *vs):
    """concatenation, built from the left out of maximal literal pieces: equal sequences of pieces give equal terms"""
    ps = []
    for v in vs:
        for p in pieces(ex, v):
            if isinstance(p, list) and ps and isinstance(ps[-1], list):
                ps[-1] = ps[-1] + p
            else:
                ps.append(p)
    if not ps:
        return ex.str_val([])
    r = None
    for p in ps:
        pv = ex.str_val([c & 255 for c in p]) if isinstance(p, list) else p
        if r is None:
            r = pv
            continue
        arr = CAT(r.len, r.terms[1], pv.len, pv.terms[1])
        la, A, lb, B = r.len, r.terms[1], pv.len, pv.terms[1]
        st.assume(qall([Int], lambda i: z3.Implies(z3.And(i >= 0, i < la), arr[i] == A[i]), lambda i: arr[i]))
        if isinstance(p, list):
            for i, c in enumerate(p):
                st.assume(arr[la + i if i else la] == c)
        else:
            st.assume(qall([Int], lambda i: z3.Implies(z3.And(i >= la, i < la + lb), arr[i] == B[i - la]), lambda i: arr[i]))
        if ex.__dict__.get('algebra'):
            st.assume(qall([Int, Int], lambda a, m: z3.Implies(z3.And(a >= 0, m >= 0, a + m <= la), SUB(arr, a, m) == SUB(A, a, m)),
                           lambda a, m: SUB(arr, a, m)))
            st.assume(qall([Int, Int], lambda a, m: z3.Implies(z3.And(a >= la, m >= 0, a + m <= la + lb), SUB(
                arr, a, m) == SUB(B, a - la, m)), lambda a, m: SUB(arr, a, m)))
        r = V(STRING, [la + lb, arr])
    ex.str_pieces[(r.len.get_id(), r.terms[1].get_id())] = (r, ps)
    return r


def str_eq(a, b):
    """equality of strings (b usually a literal)"""
    for x, y in ((a, b), (b, a)):
        n = simp(y.len)
        if z3.is_int_value(n):
            cs = [x.len == n]
            for i in range(n.as_long()):
                cs.append(sel(x.terms[1], intv(i)) == sel(y.terms[1], intv(i)))
            return z3.And(*cs)
    return z3.And(a.len == b.len,
                  qall([Int], lambda i: z3.Implies(z3.And(i >= 0, i < a.len), a.terms[1][i] == b.terms[1][i]),
                       lambda i: a.terms[1][i]))


def string_call(ex, st, e, f, m):
    line = e.get('l')
    o, args = obj_and_args(ex, st, e)
    if m in ('begin', 'end', 'cbegin', 'cend', 'push_back', 'pop_back', 'back', 'front', 'clear', 'reserve', 'at',
             'data'):
        return vector_call(ex, st, e, f, m)
    o = LVof(ex, st, o, 'str')
    if m in ('size', 'length'):
        return V(SIZE, [ex.len_of(st, o, line)])
    if m == 'empty':
        return ex.boolv(ex.len_of(st, o, line) == 0)
    if m == 'operator[]':
        i = ex.term(st, args[0])
        n = ex.len_of(st, o, line)
        ex.oblige(st, z3.And(i >= 0, i <= n), 'bounds', line, 'string index in bounds')
        st.assume(z3.And(i >= 0, i <= n))
        if ex.p.ty(f['ret']).get('k') == 'ref' and ex.addr_of is not e:
            # s[size()] is the terminating zero
            v = ex.load(st, o)
            if not ex.entails(st, i < n):
                return V(CHAR, [z3.If(i < n, sel(v.terms[1], i), intv(0))])
        return LV_i(o, i)
    if m == 'resize':
        n = ex.term(st, args[0])
        vec_resize(ex, st, o, n, V(CHAR, [intv(0)]), line)
        return None
    if m == 'operator basic_string_view' or m.startswith('operator basic_string_view'):
        return V(STRING, ex.load(st, o).terms)
    if m == 'operator+=' or m == 'append':
        a = ex.load(st, o, line)
        b = as_string(ex, st, ex.ev(st, args[0]))
        ex.invalidate(st, o)
        ex.put(st, o, concat(ex, st, a, b), line)
        return o
    if m == 'operator=':
        b = as_string(ex, st, ex.ev(st, args[0]))
        ex.invalidate(st, o)
        ex.put(st, o, b, line)
        return o
    if m in ('find', 'find_first_of'):
        v = ex.load(st, o)
        st.assume(z3.And(v.len >= 0, v.len <= MAXLEN))
        pat = as_string(ex, st, ex.ev(st, args[0]))
        pos = ex.term(st, args[1]) if len(args) > 1 else intv(0)
        n = simp(pat.len)
        if not z3.is_int_value(n):
            raise Unsupported('find of an unknown pattern')
        n = n.as_long()
        chars = [sel(pat.terms[1], intv(i)) for i in range(n)]
        arr = v.terms[1]
        if m == 'find_first_of':
            hit = lambda i: z3.Or(*[arr[i] == c for c in chars])
            last = v.len - 1
        else:
            hit = lambda i: z3.And(*[arr[i + k if k else i] == c for k, c in enumerate(chars)])
            last = v.len - n
        r = ex.fresh(st, 'found', Int)
        st.assume(z3.Or(r == NPOS, z3.And(r >= pos, r <= last, hit(r))))
        lim = z3.If(r == NPOS, last + 1, r)
        st.assume(qall([Int], lambda i: z3.Implies(z3.And(i >= pos, i < lim), z3.Not(hit(i))), lambda i: arr[i]))
        return V(SIZE, [r])
    if m == 'substr':
        v = ex.load(st, o)
        st.assume(z3.And(v.len >= 0, v.len <= MAXLEN))
        pos = ex.term(st, args[0]) if args else intv(0)
        cnt = ex.term(st, args[1]) if len(args) > 1 and args[1]['k'] != 'Default' else intv(NPOS)
        if ex.choose(st, [pos <= v.len, pos > v.len]) == 1:
            raise X.ThrowExc('std::out_of_range')
        n = z3.If(cnt < v.len - pos, cnt, v.len - pos)
        if ex.entails(st, cnt <= v.len - pos):
            n = cnt
        elif ex.entails(st, cnt >= v.len - pos):
            n = simp(v.len - pos)
        if ex.__dict__.get('algebra'):
            return V(STRING, [n, substring(ex, st, v, pos, n)])
        return V(STRING, [n] + slice_terms(ex, st, v, pos, n, 'sub'))
    if m in ('c_str',):
        return V(STRING, ex.load(st, o).terms)
    raise Unsupported(f'std::string::{m} (line {line})')


# ---- optional ----------------------------------------------------------------------------------------------
def optional_call(ex, st, e, f, m):
    line = e.get('l')
    o, args = obj_and_args(ex, st, e)
    o = LVof(ex, st, o, 'opt')
    if m == 'has_value' or m.startswith('operator bool'):
        return ex.boolv(ex.load(st, o).field('has').t)
    if m == 'value':
        has = ex.load(st, o).field('has').t
        if not ex.entails(st, has):
            if ex.choose(st, [has, z3.Not(has)]) == 1:
                raise X.ThrowExc('std::bad_optional_access')
        return o.f('val')
    if m == 'value_or':
        v = ex.load(st, o)
        d = ex.rv(st, args[0])
        vs = v.field('val')
        d = ex.convert(st, d, vs.shape, line)
        return V(vs.shape, [z3.If(v.field('has').t, a, b) for a, b in zip(vs.terms, d.terms)])
    if m in ('operator*', 'operator->'):
        has = ex.load(st, o).field('has').t
        ex.oblige(st, has, 'optional', line, 'dereferenced optional has a value')
        st.assume(has)
        return o.f('val')
    if m == 'reset':
        sh = ex.shape_of(st, o)
        ex.put(st, o, default_value(sh))
        return None
    if m == 'operator=':
        src = ex.ev(st, args[0])
        sh = ex.shape_of(st, o)
        v = to_opt(ex, st, src, sh, line)
        ex.invalidate_deep(st, o)
        ex.put(st, o, v, line)
        return o
    raise Unsupported(f'std::optional::{m}')


def to_opt(ex, st, src, sh, line=None):
    if src == 'nullopt':
        return default_value(sh)
    v = ex.load(st, src, line)
    if isinstance(v, V) and v.shape.kind == 'struct' and v.shape.tag == 'opt':
        if len(v.terms) == len(sh.leaves):
            inner, want = v.field('val'), sh.fields['val']
            if inner.shape.kind == want.kind and want.kind != 'int':
                return V(sh, v.terms)
            c = ex.convert(st, inner, want, line)
            return V(sh, (v.terms[0],) + c.terms)
    if not isinstance(v, V):
        v = coerce(ex, st, v, sh.fields['val'])
    v = ex.convert(st, v, sh.fields['val'], line)
    return V(sh, (z3.BoolVal(True),) + v.terms)


def val_eq(ex, st, a, b):
    """operator== of std types and scalars"""
    if a == 'nullopt' or b == 'nullopt':
        v = ex.load(st, b if a == 'nullopt' else a)
        return z3.Not(v.field('has').t)
    a, b = ex.load(st, a), ex.load(st, b)
    if isinstance(a, X.It) and isinstance(b, X.It):
        return a.idx == b.idx
    if not (isinstance(a, V) and isinstance(b, V)):
        raise Unsupported('operator==')
    ao, bo = [x.shape.kind == 'struct' and x.shape.tag == 'opt' for x in (a, b)]
    if ao and bo:
        return z3.And(a.field('has').t == b.field('has').t,
                      z3.Implies(a.field('has').t, val_eq(ex, st, a.field('val'), b.field('val'))))
    if ao:
        return z3.And(a.field('has').t, val_eq(ex, st, a.field('val'), b))
    if bo:
        return z3.And(b.field('has').t, val_eq(ex, st, a, b.field('val')))
    if a.shape.kind == 'vec' and a.shape.tag == 'string' or b.shape.kind == 'vec' and b.shape.tag == 'string':
        return str_eq(as_string(ex, st, a), as_string(ex, st, b))
    if a.shape.kind == 'vec':
        cs = []
        for x, y in zip(a.terms[1:], b.terms[1:]):
            cs.append(qall([Int], lambda i: z3.Implies(z3.And(i >= 0, i < a.len), x[i] == y[i]), lambda i: x[i]))
        return z3.And(a.len == b.len, *cs)
    if len(a.terms) == 1 and len(b.terms) == 1:
        x, y = a.t, b.t
        if x.sort() != y.sort():
            raise Unsupported('comparison of different sorts')
        return x == y
    if a.shape.kind == 'struct' and a.shape.tag in ('pair',):
        return z3.And(*[x == y for x, y in zip(a.terms, b.terms)])
    raise Unsupported('operator==')


# ---- priority queue ------------------------------------------------------------------------------------------
def pq_cmp(ex, st, sh, a, b):
    """comp(a, b): a before b (a has lower priority)"""
    t = ex.p.ty(ex.p.strip(sh.cmp_type))
    if t['k'] == 'rec' and t.get('lambda'):
        return ex.to_bool(st, ex.load(st, ex.call_closure(st, X.Closure(t['rid'], {}, None), [a, b], None)))
    if t.get('name') == 'std::less':
        return a.t < b.t
    if t.get('name') == 'std::greater':
        return a.t > b.t
    raise Unsupported('priority_queue comparator')


def pq_top_index(ex, st, v, line):
    fs = z3.Function('pq_top_' + '_'.join(t.sort().sexpr() for t in v.terms[1:]).replace(' ', ''),
                     Int, *[t.sort() for t in v.terms[1:]], Int)
    ti = fs(*v.terms)
    st.assume(z3.And(ti >= 0, ti < v.len))
    # the top is not before any other element: evaluated at a generic index
    g = z3.Int('pqi!')
    s2 = st.copy()
    s2.assume(z3.And(g >= 0, g < v.len))
    c = pq_cmp(ex, s2, v.shape, ex.new_root(s2, 'a', v.at(ti)), ex.new_root(s2, 'b', v.at(g)))
    from .theory import ok_pat
    pats = [t for t in (z3.Select(a, g) for a in v.terms[1:]) if ok_pat(t)]
    if not pats:
        # the leaves are stores: name them
        pats = []
        for a in v.terms[1:]:
            b = ex.fresh(st, 'pq', a.sort())
            st.assume(b == a)
            pats.append(z3.Select(b, g))
    st.assume(z3.ForAll([g], z3.Implies(z3.And(g >= 0, g < v.len), z3.Not(c)), patterns=pats))
    return ti


def pq_call(ex, st, e, f, m):
    line = e.get('l')
    o, args = obj_and_args(ex, st, e)
    o = LVof(ex, st, o, 'pq')
    v = ex.load(st, o, line)
    st.assume(z3.And(v.len >= 0, v.len <= MAXLEN))
    if m == 'size':
        return V(SIZE, [v.len])
    if m == 'empty':
        return ex.boolv(v.len == 0)
    if m in ('push', 'emplace'):
        if m == 'emplace' or len(args) != 1:
            raise Unsupported('priority_queue::emplace')
        x = ex.rv(st, args[0])
        if not isinstance(x, V):
            x = coerce(ex, st, x, v.shape.elem)
        st.assume(v.len < MAXLEN)
        ex.invalidate(st, o)
        ex.put(st, o, v.with_at(v.len, x).with_len(v.len + 1), line)
        return None
    if m in ('top', 'pop'):
        ex.oblige(st, v.len > 0, 'bounds', line, f'{m} of a non-empty queue')
        st.assume(v.len > 0)
        ti = pq_top_index(ex, st, v, line)
        if m == 'top':
            return X.LV(o.root, o.path + (('i', ti),), ex.new_vid(st, o))
        ex.invalidate(st, o)
        last = v.at(v.len - 1)
        ex.put(st, o, v.with_at(ti, last).with_len(v.len - 1), line)
        return None
    raise Unsupported(f'std::priority_queue::{m}')


# ---- set -----------------------------------------------------------------------------------------------------
def set_elem(ex, st, v, sh):
    v = ex.load(st, v)
    if not isinstance(v, V):
        v = coerce(ex, st, v, sh.elem)
    return v.terms


def nested_sel(a, idx):
    for i in idx:
        a = sel(a, i)
    return a


def nested_sto(a, idx, v):
    if len(idx) == 1:
        return sto(a, idx[0], v)
    return sto(a, idx[0], nested_sto(sel(a, idx[0]), idx[1:], v))


def set_call(ex, st, e, f, m):
    o, args = obj_and_args(ex, st, e)
    o = LVof(ex, st, o, 'set')
    sh = ex.shape_of(st, o)
    v = ex.load(st, o)
    if m == 'clear':
        ex.put(st, o, default_value(sh))
        return None
    if m in ('contains', 'count'):
        t = nested_sel(v.t, set_elem(ex, st, ex.ev(st, args[0]), sh))
        return ex.boolv(t) if m == 'contains' else V(SIZE, [z3.If(t, intv(1), intv(0))])
    if m in ('insert', 'emplace') and len(args) == 1:
        idx = set_elem(ex, st, ex.ev(st, args[0]), sh)
        ex.put(st, o, V(sh, [nested_sto(v.t, idx, z3.BoolVal(True))]))
        return None
    if m == 'emplace' and sh.elem.kind == 'struct' and len(args) == len(sh.elem.fields):
        idx = []
        for x, fs in zip(args, sh.elem.fields.values()):
            w = ex.load(st, ex.ev(st, x))
            idx += ex.convert(st, w, fs, e.get('l')).terms
        ex.put(st, o, V(sh, [nested_sto(v.t, idx, z3.BoolVal(True))]))
        return None
    if m == 'erase' and len(args) == 1:
        idx = set_elem(ex, st, ex.ev(st, args[0]), sh)
        ex.put(st, o, V(sh, [nested_sto(v.t, idx, z3.BoolVal(False))]))
        return None
    if m == 'operator=':
        ex.put(st, o, ex.load(st, ex.ev(st, args[0])))
        return o
    raise Unsupported(f'std::set::{m}')


# ---- random numbers ------------------------------------------------------------------------------------------
def gen_lv(ex, st, e):
    g = ex.ev(st, e)
    if not isinstance(g, X.LV) or ex.shape_of(st, g).kind != 'struct' or ex.shape_of(st, g).tag != 'gen':
        raise Unsupported('random generator')
    return g


def draw_u01(ex, st, g):
    s = ex.load(st, g).t
    u = rng_u01(s)
    st.assume(z3.And(u >= 0, u < 1, z3.Implies(no_draw_is_zero, u > 0)))
    ex.put(st, g, V(GEN, [rng_next(s)]))
    return u


def dist_call(ex, st, e, f, m):
    line = e.get('l')
    o, args = obj_and_args(ex, st, e)
    o = LVof(ex, st, o, 'dist')
    if m != 'operator()':
        raise Unsupported(f'{f["q"]}')
    g = gen_lv(ex, st, args[0])
    d = ex.load(st, o)
    tag = d.shape.tag
    if tag == 'ureal':
        a, b = d.field('a').t, d.field('b').t
        ex.oblige(st, a <= b, 'requires', line, 'uniform_real_distribution: a <= b')
        u = draw_u01(ex, st, g)
        if simp(a).eq(realv(0)) and simp(b).eq(realv(1)):
            return V(REAL, [u])
        r = a + u * (b - a)
        st.assume(z3.And(r >= a, r <= b))
        return V(REAL, [r])
    if tag == 'uint':
        a, b = d.field('a').t, d.field('b').t
        ex.oblige(st, a <= b, 'requires', line, 'uniform_int_distribution: a <= b')
        st.assume(a <= b)
        s = ex.load(st, g).t
        u = rng_uint(s, a, b)
        st.assume(z3.And(u >= a, u <= b))
        ex.put(st, g, V(GEN, [rng_next(s)]))
        return V(d.shape.fields['a'], [u])
    if tag == 'normal':
        s = ex.load(st, g).t
        k = d.field('saved').t
        n = rng_nrm(s, k)
        ex.put(st, g, V(GEN, [z3.Function('rng_nrm_next', Int, Int, Int)(s, k)]))
        ex.put(st, o, d.with_field('saved', V(d.shape.fields['saved'], [z3.Function('rng_nrm_saved', Int, Int, Int)(s, k)])))
        mu, sg = d.field('mu').t, d.field('sigma').t
        if simp(mu).eq(realv(0)) and simp(sg).eq(realv(1)):
            return V(REAL, [n])
        return V(REAL, [mu + sg * n])
    raise Unsupported(f['q'])


# ---- free functions ------------------------------------------------------------------------------------------
def real_fn(fn):
    def h(ex, st, e, f):
        args = [ex.convert(st, ex.rv(st, a), REAL, e.get('l')).t for a in e['args']]
        return V(REAL, [fn(ex, st, *args)])
    return h


def c_sqrt(ex, st, x):
    r = fn_sqrt(x)
    if ex.entails(st, x >= 0):
        st.assume(r >= 0)
    st.assume(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
    return r


def c_pow(ex, st, x, y):
    if z3.is_rational_value(y) and y.as_fraction() == 2:
        return x * x
    r = fn_pow(x, y)
    finite = z3.BoolVal(True)
    if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(simp(y.arg(1))):
        # a / 0 is +infinity for a > 0
        a, b = y.arg(0), y.arg(1)
        finite = b != 0
        st.assume(z3.Implies(z3.And(b == 0, a > 0, x >= 0, x < 1), r == 0))
    st.assume(z3.Implies(finite, z3.And(
        z3.Implies(x > 0, r > 0), z3.Implies(z3.And(x == 0, y > 0), r == 0),
        z3.Implies(z3.And(x >= 0, x <= 1, y > 0), z3.And(r <= 1, r >= 0)),
        z3.Implies(z3.And(x >= 0, x < 1, y > 0), r < 1))))
    return r


def c_log(ex, st, x):
    r = fn_log(x)
    st.assume(z3.And(z3.Implies(x > 1, r > 0), z3.Implies(x == 1, r == 0), z3.Implies(z3.And(x > 0, x < 1), r < 0)))
    return r


def c_exp(ex, st, x):
    r = fn_exp(x)
    st.assume(r > 0)
    return r


def c_tanh(ex, st, x):
    r = fn_tanh(x)
    st.assume(z3.And(r >= -1, r <= 1))
    return r


def c_erf(ex, st, x):
    r = fn_erf(x)
    st.assume(z3.And(r > -1, r < 1))
    return r


def f_abs(ex, st, e, f):
    v = ex.rv(st, e['args'][0])
    if v.shape.kind == 'int':
        ex.oblige(st, v.t > v.shape.lo, 'overflow', e.get('l'), 'abs of the smallest integer')
    return V(v.shape, [z3.If(v.t >= 0, v.t, -v.t)])


def f_minmax(which):
    def h(ex, st, e, f):
        if len(e['args']) != 2:
            raise Unsupported('std::min/max')
        a, b = ex.rv(st, e['args'][0]), ex.rv(st, e['args'][1])
        c = (b.t < a.t) if which == 'min' else (a.t < b.t)
        return V(a.shape, [z3.If(c, b.t, a.t)])
    return h


def f_move(ex, st, e, f):
    return ex.ev(st, e['args'][0])


def f_swap(ex, st, e, f):
    a, b = ex.ev(st, e['args'][0]), ex.ev(st, e['args'][1])
    x, y = ex.load(st, a), ex.load(st, b)
    if not (isinstance(x, V) and isinstance(y, V)):
        raise Unsupported('std::swap')
    ex.invalidate_deep(st, a)
    ex.invalidate_deep(st, b)
    ex.put(st, a, y)
    ex.put(st, b, x)
    return None


def f_fill(ex, st, e, f):
    a, b = ex.rv(st, e['args'][0]), ex.rv(st, e['args'][1])
    x = ex.rv(st, e['args'][2])
    v, off, n, base = rng_of(ex, st, a, b)
    x = ex.convert(st, x, v.shape.elem, e.get('l'))
    ex.oblige(st, z3.And(n >= 0, off >= 0, off + n <= v.len), 'bounds', e.get('l'), 'fill: valid range')
    if full(ex, st, off, n, v):
        ex.put(st, base, V(v.shape, [v.len] + const_elems(x)))
        return None
    new = []
    for t, c in zip(v.terms[1:], x.terms):
        arr = ex.fresh(st, 'filled', t.sort())
        st.assume(qall([Int], lambda i: arr[i] == z3.If(z3.And(i >= off, i < off + n), c, t[i]), lambda i: arr[i]))
        new.append(arr)
    ex.put(st, base, V(v.shape, [v.len] + new))
    return None


def f_iota(ex, st, e, f):
    a, b = ex.rv(st, e['args'][0]), ex.rv(st, e['args'][1])
    x = ex.term(st, e['args'][2])
    v, off, n, base = rng_of(ex, st, a, b)
    t = v.terms[1]
    arr = ex.fresh(st, 'iota', t.sort())
    sh = v.shape.elem
    ex.oblige(st, z3.And(n >= 0, x >= sh.lo, x + n - 1 <= sh.hi), 'overflow', e.get('l'), 'iota: values fit')
    st.assume(qall([Int], lambda i: arr[i] == z3.If(z3.And(i >= off, i < off + n), x + (i - off), t[i]),
                   lambda i: arr[i]))
    ex.put(st, base, V(v.shape, [v.len, arr]))
    return None


def cmp_call(ex, st, cl, a, b, line):
    """value of the comparator (a callable) on two values; None means operator<"""
    if cl is None:
        return a.t < b.t
    r = ex.call_closure(st, cl, [ex.new_root(st, 'a', a), ex.new_root(st, 'b', b)], line)
    return ex.to_bool(st, ex.load(st, r))


def f_sort(ex, st, e, f):
    line = e.get('l')
    a, b = ex.rv(st, e['args'][0]), ex.rv(st, e['args'][1])
    cl = ex.ev(st, e['args'][2]) if len(e['args']) > 2 else None
    v, off, n, base = rng_of(ex, st, a, b)
    if not full(ex, st, off, n, v):
        raise Unsupported('std::sort of a part of a container')
    perm = ex.fresh(st, 'perm', z3.ArraySort(Int, Int))
    inv = ex.fresh(st, 'iperm', z3.ArraySort(Int, Int))
    new = [ex.fresh(st, 'sorted', t.sort()) for t in v.terms[1:]]
    rng = lambda i: z3.And(i >= 0, i < n)
    st.assume(qall([Int], lambda i: z3.Implies(rng(i), z3.And(
        rng(perm[i]), inv[perm[i]] == i, *[x[i] == t[perm[i]] for x, t in zip(new, v.terms[1:])])), lambda i: new[0][i]))
    st.assume(qall([Int], lambda i: z3.Implies(rng(i), z3.And(
        rng(inv[i]), perm[inv[i]] == i, *[x[inv[i]] == t[i] for x, t in zip(new, v.terms[1:])])), lambda i: inv[i],
        lambda i: v.terms[1][i]))
    # the comparator, evaluated on generic elements of the (old) range; then generalised
    i1, i2 = ex.fresh(st, 'si', Int), ex.fresh(st, 'sj', Int)
    s2 = st.copy()
    s2.assume(z3.And(rng(i1), rng(i2)))
    old = V(v.shape, v.terms)
    c = cmp_call(ex, s2, cl, old.at(i1), old.at(i2), line)
    ci = lambda x, y: z3.substitute(c, (i1, x), (i2, y))
    i3 = ex.fresh(st, 'sk', Int)
    s2.assume(rng(i3))
    ex.oblige(s2, z3.Not(ci(i1, i1)), 'comparator', line, 'sort: the comparator is irreflexive')
    ex.oblige(s2, z3.Implies(z3.And(ci(i1, i2), ci(i2, i3)), ci(i1, i3)), 'comparator', line,
              'sort: the comparator is transitive')
    ex.oblige(s2, z3.Implies(z3.And(z3.Not(ci(i1, i2)), z3.Not(ci(i2, i1)), z3.Not(ci(i2, i3)), z3.Not(ci(i3, i2))),
                             z3.And(z3.Not(ci(i1, i3)), z3.Not(ci(i3, i1)))), 'comparator', line,
              'sort: incomparability is transitive')
    st.assume(qall([Int, Int], lambda x, y: z3.Implies(z3.And(x >= 0, x < y, y < n), z3.Not(
        z3.substitute(c, (i1, perm[y]), (i2, perm[x])))), lambda x, y: (new[0][x], new[0][y])))
    ex.put(st, base, V(v.shape, [v.len] + new))
    ex.ghost(st, 'sort_perm', perm)
    ex.ghost(st, 'sort_iperm', inv)
    return None


def f_transform_reduce(ex, st, e, f):
    """acc = init; for each x: acc = acc + op(x)   (std::plus only)"""
    line = e.get('l')
    if len(e['args']) != 5:
        raise Unsupported('transform_reduce')
    a, b = ex.rv(st, e['args'][0]), ex.rv(st, e['args'][1])
    init = ex.rv(st, e['args'][2])
    red = e['args'][3]
    if 'std::plus' not in ex.p.tstr(red['t']):
        raise Unsupported('transform_reduce with another operation')
    op = ex.ev(st, e['args'][4])
    v, off, n, base = rng_of(ex, st, a, b)
    acc = ex.new_root(st, 'acc', init)
    idx = ex.new_root(st, 'idx', V(SIZE, [off]))
    end = simp(off + n)
    ash = init.shape

    def cond(x):
        return ex.get(x, idx).t < end

    def body(x):
        i = ex.get(x, idx).t
        el = ex.elem(x, base, i, line) if base is not None else ex.new_root(x, 'el', v.at(i))
        r = ex.load(x, ex.call_closure(x, op, [el], line))
        s = ex.load(x, acc)
        # std::plus<void>: usual arithmetic conversions, then conversion to the type of init
        if ash.kind == 'int' and r.shape.kind == 'int':
            t = ex.wrap(x, s.t + r.t, r.shape if (r.shape.w or 0) > (ash.w or 0) else ash, line)
            ex.put(x, acc, ex.convert(x, V(r.shape if (r.shape.w or 0) > (ash.w or 0) else ash, [t]), ash, line))
        else:
            ex.put(x, acc, V(ash, [s.t + ex.convert(x, r, ash, line).t]))

    def inc(x):
        ex.put(x, idx, V(SIZE, [ex.get(x, idx).t + 1]))
    ex.loop(st, {'l': line, 'id': ('tr', line), 'b': None, 'node': e}, cond, body, inc)
    return ex.load(st, acc)


def f_sample(ex, st, e, f):
    """std::sample over a forward iterator class of seldon's"""
    line = e.get('l')
    first, last = ex.ev(st, e['args'][0]), ex.ev(st, e['args'][1])
    out = ex.rv(st, e['args'][2])
    k = ex.term(st, e['args'][3])
    g = gen_lv(ex, st, e['args'][4])
    spec = getattr(ex.contract, 'iterator', None)
    if spec is None:
        raise Unsupported('std::sample: no iterator specification')
    first, last = LVof(ex, st, first, 'first'), LVof(ex, st, last, 'last')
    fv, lv_ = ex.load(st, first), ex.load(st, last)
    sh = fv.shape
    if sh.kind != 'struct' or sh.tag != 'user':
        raise Unsupported('std::sample: iterator type')
    N, inv, val = spec(ex.cctx, st, lambda v: v)
    from .spec import S
    ex.oblige(st, z3.And(N >= 0, inv(S(fv), intv(0))), 'iterator', line, 'sample: the first iterator is at position 0')

    def method(q, nargs):
        c = [h for h in ex.p.funcs.values() if 'cls' in h and h['q'].split('::')[-1] == q and h.get('body') is not None
             and ex.p.ty(ex.p.strip(h['cls'])).get('rid') == sh.rid and len(h['params']) == nargs]
        if len(c) != 1:
            raise Unsupported(f'iterator {q}')
        return c[0]
    # generic position
    s2 = st.copy()
    j = ex.fresh(s2, 'pos', Int)
    itv = ex.fresh_val(s2, 'iter', sh)
    lv = ex.new_root(s2, 'iter', itv)
    s2.assume(z3.And(j >= 0, j <= N, inv(S(itv), j)))
    eq = ex.load(s2, ex.call_user(s2, method('operator==', 1), lv, [last], line))
    ex.oblige(s2, eq.t == (j == N), 'iterator', line, 'sample: an iterator equals the end exactly at position N')
    s2.assume(j < N)
    d = ex.load(s2, ex.call_user(s2, method('operator*', 0), lv, [], line))
    ex.oblige(s2, d.t == val(j), 'iterator', line, 'sample: dereferencing yields the element of the position')
    ex.oblige(s2, inv(S(ex.load(s2, lv)), j), 'iterator', line, 'sample: dereferencing does not move the iterator')
    ex.call_user(s2, method('operator++', 0), lv, [], line)
    ex.oblige(s2, inv(S(ex.load(s2, lv)), j + 1), 'iterator', line, 'sample: increment moves to the next position')
    # result
    n = z3.If(k < N, k, N)
    o = out.base
    v = ex.load(st, o)
    ex.check_vid(st, out.vid, line)
    ex.oblige(st, z3.And(k >= 0, out.idx >= 0, out.idx + n <= v.len), 'bounds', line, 'sample: room for the samples')
    pos = ex.fresh(st, 'picked', z3.ArraySort(Int, Int))
    arr = ex.fresh(st, 'sampled', v.terms[1].sort())
    st.assume(qall([Int], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(
        pos[i] >= 0, pos[i] < N, arr[i + out.idx if not is0(out.idx) else i] == val(pos[i]))),
        lambda i: arr[i + out.idx if not is0(out.idx) else i]))
    st.assume(qall([Int, Int], lambda x, y: z3.Implies(z3.And(x >= 0, x < y, y < n), pos[x] < pos[y]),
                   lambda x, y: (pos[x], pos[y])))
    st.assume(qall([Int], lambda i: z3.Implies(z3.Not(z3.And(i >= out.idx, i < out.idx + n)),
                                               arr[i] == v.terms[1][i]), lambda i: arr[i]))
    ex.put(st, o, V(v.shape, [v.len, arr]))
    s = ex.load(st, g).t
    ex.put(st, g, V(GEN, [z3.Function('rng_sample_next', Int, Int, Int, Int)(s, k, N)]))
    return X.It(o, simp(out.idx + n), out.vid)


def f_distance(ex, st, e, f):
    a, b = ex.rv(st, e['args'][0]), ex.rv(st, e['args'][1])
    return V(I64, [b.idx - a.idx])


def fresh_like(ex, st, ti, hint):
    sh = ex.p.shape(ti)
    if sh is None:
        raise Unsupported(f'value of type {ex.p.tstr(ti)}')
    return ex.fresh_val(st, hint, sh)


def lit_text(x):
    """literal of a format string argument"""
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            if y.get('k') == 'Str':
                return bytes(y['v']).decode('latin1')
            todo.extend(v for v in y.values() if isinstance(v, (dict, list)))
        elif isinstance(y, list):
            todo.extend(y)
    return None


def arg_terms(ex, st, args):
    out = []
    for a in args:
        v = ex.ev(st, a)
        v = ex.load(st, v)
        if isinstance(v, V):
            out += list(v.terms)
        elif isinstance(v, X.FnRef) or isinstance(v, X.Closure) or v is None:
            pass
        elif isinstance(v, X.View):
            out += list(ex.load(st, v.base).terms) + [v.off, v.len]
        else:
            raise Unsupported(f'format argument {v}')
    return out


def uf_string(ex, st, name, terms):
    """a string that is a function of the terms"""
    sorts = [t.sort() for t in terms]
    if not terms:
        terms, sorts = [intv(0)], [Int]
    fl = z3.Function(name + '#len', *sorts, Int)
    fa = z3.Function(name + '#chars', *sorts, z3.ArraySort(Int, Int))
    n = fl(*terms)
    st.assume(z3.And(n >= 0, n <= MAXLEN))
    return V(STRING, [n, fa(*terms)])


def fmt_pieces(lit):
    """[(text, None) | (None, spec)] of a format string with automatic numbering"""
    out, cur, i = [], '', 0
    while i < len(lit):
        c = lit[i]
        if c in '{}' and lit[i:i + 2] == c + c:
            cur += c
            i += 2
        elif c == '{':
            j = lit.index('}', i)
            if cur:
                out.append((cur, None))
            cur = ''
            fld = lit[i + 1:j]
            if fld and not fld.startswith(':'):
                raise Unsupported(f'format string {lit}')
            out.append((None, fld[1:]))
            i = j + 1
        else:
            cur += c
            i += 1
    if cur:
        out.append((cur, None))
    return out


def render(ex, st, v):
    """"{}" of a value: strings are themselves, everything else is a function of the value"""
    if isinstance(v, V) and v.shape.kind == 'vec' and v.shape.tag == 'string':
        return V(STRING, v.terms)
    if isinstance(v, V) and v.shape.kind == 'int' and v.shape.char:
        return ex.mk_vec(STRING, [v])
    if isinstance(v, V) and v.shape.kind in ('int', 'real', 'bool') and not getattr(v.shape, 'enum', None):
        return uf_string(ex, st, 'text_of_' + v.shape.kind, [v.t])
    ts = list(v.terms) if isinstance(v, V) else None
    if ts is None:
        raise Unsupported(f'format argument {v}')
    return uf_string(ex, st, 'text<' + str(v.shape) + '>', ts)


def pad_left(ex, st, s, w):
    """right-aligned in a field of width w (characters of one column)"""
    fa = z3.Function('padded', Int, Int, A_CH, A_CH)
    n = z3.If(s.len >= w, s.len, intv(w))
    arr = fa(intv(w), s.len, s.terms[1])
    k = n - s.len
    S_ = s.terms[1]
    st.assume(qall([Int], lambda i: z3.Implies(z3.And(i >= 0, i < n), arr[i] == z3.If(i < k, intv(32), S_[i - k])), lambda i: arr[i]))
    return V(STRING, [n, arr])


def f_format(ex, st, e, f):
    lit = lit_text(e['args'][0])
    if lit is None:
        raise Unsupported('format string')
    vals = [ex.load(st, ex.ev(st, a)) for a in e['args'][1:]]
    out, k = [], 0
    for text, spec in fmt_pieces(lit):
        if spec is None:
            out.append(ex.str_val(list(text.encode())))
            continue
        if k >= len(vals):
            raise Unsupported(f'format string {lit}')
        v = vals[k]
        k += 1
        if spec == '':
            out.append(render(ex, st, v))
        elif re.fullmatch(r'>[1-9][0-9]*', spec) and isinstance(v, V):
            out.append(pad_left(ex, st, render(ex, st, v), int(spec[1:])))
        elif isinstance(v, V):
            out.append(uf_string(ex, st, f'text<{spec}>', list(v.terms)))
        else:
            raise Unsupported(f'format argument {v}')
    return concat(ex, st, *out)


def f_to_string(ex, st, e, f):
    v = ex.rv(st, e['args'][0])
    if v.shape.kind != 'int':
        raise Unsupported('std::to_string of this type')
    return uf_string(ex, st, 'text_of_int', [v.t])


def f_print(ex, st, e, f):
    """output to a stream: recorded in the stream, if there is one"""
    from . import filemodel
    if filemodel.FILE in st.mem and filemodel.print_to(ex, st, e):
        return None
    args = e['args']
    stream = None
    if args and 'stream' in ex.p.tstr(args[0]['t']):
        stream = ex.ev(st, args[0])
        args = args[1:]
    lit = lit_text(args[0])
    ts = arg_terms(ex, st, args[1:])
    if isinstance(stream, X.LV):
        s = ex.load(st, stream)
        fn = z3.Function(f'out<{lit}>', Int, *[t.sort() for t in ts], Int)
        ex.put(st, stream, V(s.shape, [fn(s.t, *ts)]))
    return None


def f_stod(name, sh):
    def h(ex, st, e, f):
        v = as_string(ex, st, ex.ev(st, e['args'][0]))
        ok = z3.Function(name + '_ok', Int, z3.ArraySort(Int, Int), z3.BoolSort())(*v.terms)
        if ex.choose(st, [ok, z3.Not(ok)]) == 1:
            raise X.ThrowExc('std::invalid_argument')
        r = z3.Function(name, Int, z3.ArraySort(Int, Int), Real if sh is REAL else Int)(*v.terms)
        if sh is not REAL:
            st.assume(z3.And(r >= sh.lo, r <= sh.hi))
        return V(sh, [r])
    return h


def opaque_fn(ex, st, e, f, extra=()):
    """a pure function without any specification: equal arguments give equal results"""
    o = []
    if 'obj' in e:
        v = ex.load(st, ex.ev(st, e['obj']))
        if isinstance(v, V):
            o = list(v.terms)
    ts = o + arg_terms(ex, st, e['args'])
    sh = ex.p.shape(f['ret'])
    if sh is None:
        raise Unsupported(f'{f["q"]}')
    if sh.kind == 'struct' and not sh.fields:
        return None
    out = []
    lits = lit_text(e['args'])
    for (p, b, d, rg) in sh.leaves:
        s = arr_sort(b, d)
        nm = f'{f["q"]}<{lits}>' + '.'.join(map(str, p)) if lits else f'{f["q"]}' + '.'.join(map(str, p))
        if ts:
            t = z3.Function(nm, *[x.sort() for x in ts], s)(*ts)
        else:
            t = ex.fresh(st, nm, s)  # e.g. reading the clock
        out.append(t)
        if d == 0 and rg:
            st.assume(z3.And(t >= rg[0], t <= rg[1]))
    return V(sh, out)


# ---- variant, unique_ptr ---------------------------------------------------------------------------------------
def f_get(ex, st, e, f):
    """std::get<T>(variant)"""
    o = ex.ev(st, e['args'][0])
    o = LVof(ex, st, o, 'variant')
    sh = ex.shape_of(st, o)
    if sh.kind != 'struct':
        raise Unsupported('std::get')
    if sh.tag == 'pair':
        t = [a for a in f.get('targs', []) if 'i' in a]
        if t:
            return o.f('first' if int(t[0]['i']) == 0 else 'second')
    if sh.tag != 'variant':
        raise Unsupported('std::get')
    rt = ex.p.shape(f['ret'])
    ks = [j for j in range(len(sh.alts)) if same_shape(sh.fields[f'a{j}'], rt)]
    if len(ks) != 1:
        raise Unsupported('std::get: ambiguous')
    k = ks[0]
    ix = ex.load(st, o).field('index').t
    if not ex.entails(st, ix == k):
        if ex.choose(st, [ix == k, ix != k]) == 1:
            raise X.ThrowExc('std::bad_variant_access')
    return o.f(f'a{k}')


def to_variant(ex, st, src, sh):
    v = ex.load(st, src)
    if isinstance(v, V) and v.shape.kind == 'struct' and v.shape.tag == 'variant':
        return v
    ks = [j for j in range(len(sh.alts)) if isinstance(v, V) and same_shape(sh.fields[f'a{j}'], v.shape)]
    if len(ks) != 1:
        raise Unsupported('variant from this type')
    r = default_value(sh)
    r = r.with_field('index', V(SIZE, [intv(ks[0])]))
    return r.with_field(f'a{ks[0]}', v)


# ---- dispatch -----------------------------------------------------------------------------------------------------
FREE = {
    'std::abs': f_abs, 'abs': f_abs, 'std::fabs': f_abs, 'fabs': f_abs,
    'std::sqrt': real_fn(c_sqrt), 'sqrt': real_fn(c_sqrt),
    'std::pow': real_fn(c_pow), 'pow': real_fn(c_pow),
    'std::exp': real_fn(c_exp), 'exp': real_fn(c_exp),
    'std::log': real_fn(c_log), 'log': real_fn(c_log),
    'std::log1p': real_fn(lambda ex, st, x: fn_log1p(x)), 'log1p': real_fn(lambda ex, st, x: fn_log1p(x)),
    'std::tanh': real_fn(c_tanh), 'tanh': real_fn(c_tanh),
    'std::erf': real_fn(c_erf), 'erf': real_fn(c_erf),
    'std::copysign': real_fn(lambda ex, st, x, y: z3.If(y >= 0, z3.If(x >= 0, x, -x), -z3.If(x >= 0, x, -x))),
    'std::min': f_minmax('min'), 'std::max': f_minmax('max'),
    'std::move': f_move, 'std::forward': f_move, 'std::as_const': f_move,
    'std::swap': f_swap, 'std::fill': f_fill, 'std::iota': f_iota, 'std::sort': f_sort,
    'std::transform_reduce': f_transform_reduce, 'std::sample': f_sample, 'std::distance': f_distance,
    'fmt::format': f_format, 'fmt::to_string': f_to_string, 'std::to_string': f_to_string, 'fmt::print': f_print,
    'std::stod': f_stod('stod', REAL), 'std::stoi': f_stod('stoi', I32),
    'std::get': f_get,
}

OPAQUE_PREFIX = ('std::chrono::', 'std::filesystem::', 'std::basic_fstream', 'std::basic_ifstream', 'std::basic_ios',
                 'std::basic_istream', 'std::fpos', 'fmt::streamed', 'std::random_device')


def call(ex, st, e, f):
    q = f['q']
    ex.std_used.add(q)
    if q in FREE:
        return FREE[q](ex, st, e, f)
    cls, _, m = q.rpartition('::')
    if cls in ('std::vector', 'std::array'):
        return vector_call(ex, st, e, f, m)
    if cls in ('std::basic_string', 'std::basic_string_view'):
        return string_call(ex, st, e, f, m)
    if cls == 'std::span':
        return span_call(ex, st, e, f, m)
    if cls == 'std::optional':
        return optional_call(ex, st, e, f, m)
    if cls == 'std::priority_queue':
        return pq_call(ex, st, e, f, m)
    if cls == 'std::set':
        return set_call(ex, st, e, f, m)
    if cls in ('std::uniform_real_distribution', 'std::uniform_int_distribution', 'std::normal_distribution'):
        return dist_call(ex, st, e, f, m)
    if q in ('std::operator==', 'std::operator!='):
        a, b = ex.ev(st, e['args'][0]), ex.ev(st, e['args'][1])
        t = val_eq(ex, st, a, b)
        return ex.boolv(t if q.endswith('==') else z3.Not(t))
    if q == 'std::operator+' and ex.p.shape(f['ret']) is STRING:
        a, b = [as_string(ex, st, ex.ev(st, x)) for x in e['args']]
        return concat(ex, st, a, b)
    if cls == 'std::unique_ptr' and m in ('operator->', 'operator*', 'get'):
        o, args = obj_and_args(ex, st, e)
        if isinstance(o, X.LV) and o.root.startswith('owned:'):
            return o
        raise Unsupported(f'{q} (line {e.get("l")})')
    if q == 'std::filesystem::operator/':
        a, b = [as_string(ex, st, ex.ev(st, x)) for x in e['args']]
        return uf_string(ex, st, 'path_join', list(a.terms) + list(b.terms))
    if q in ('std::filesystem::path::string', 'std::filesystem::path::c_str', 'std::filesystem::path::native'):
        return as_string(ex, st, ex.ev(st, e['obj']))
    if q == 'std::operator|':
        return V(I32, [intv(0)])
    if q.startswith('__gnu_cxx::__normal_iterator') or q.startswith('__gnu_cxx::operator'):
        return iter_call(ex, st, e, f, m)
    if q == 'std::_Bit_reference::operator bool':
        return ex.load(st, ex.ev(st, e['obj']))
    if q == 'std::_Bit_reference::operator=':
        o, args = obj_and_args(ex, st, e)
        ex.put(st, o, ex.load(st, ex.ev(st, args[0])), e.get('l'))
        return o
    if q == 'std::mersenne_twister_engine::operator=':
        o, args = obj_and_args(ex, st, e)
        ex.put(st, o, ex.load(st, ex.ev(st, args[0])))
        return o
    if q == 'std::variant::operator=':
        o, args = obj_and_args(ex, st, e)
        src = ex.ev(st, args[0])
        v = to_variant(ex, st, src, ex.shape_of(st, o))
        ex.invalidate_deep(st, o)
        ex.put(st, o, v)
        return o
    if q.startswith('std::numeric_limits'):
        sh = ex.p.shape(f['ret'])
        if m == 'max' and sh.kind == 'int':
            return V(sh, [intv(sh.hi)])
        if m == 'min' and sh.kind == 'int':
            return V(sh, [intv(sh.lo)])
        return V(sh, [z3.Const('limits_' + m, sh.leaves[0][1])])
    from . import filemodel
    r = filemodel.call(ex, st, e, f)
    if r is not NotImplemented:
        return r
    h = getattr(ex, 'std_hook', None)
    if h is not None:
        r = h(ex, st, e, f)
        if r is not NotImplemented:
            return r
    from . import tomlmodel
    if q.startswith('toml::'):
        return tomlmodel.call(ex, st, e, f)
    if q == 'std::operator<<':
        o, args = obj_and_args(ex, st, e)
        ts = arg_terms(ex, st, args)
        if isinstance(o, X.LV):
            s = ex.load(st, o)
            fn = z3.Function('out<<' + '_'.join(str(t.sort()) for t in ts), Int, *[t.sort() for t in ts], Int)
            ex.put(st, o, V(s.shape, [fn(s.t, *ts)]))
        return o
    if any(q.startswith(p) for p in OPAQUE_PREFIX):
        return opaque_fn(ex, st, e, f)
    raise Unsupported(f'{q} (line {e.get("l")})')


def iter_call(ex, st, e, f, m):
    o, args = obj_and_args(ex, st, e)
    if m == 'operator*' or m == 'operator->':
        return ex.deref(st, o, e.get('l'))
    it = ex.load(st, o)
    if m in ('operator==', 'operator!=', 'operator<', 'operator-', 'operator+', 'operator<=>'):
        b = ex.rv(st, args[0])
        if m == 'operator<=>':
            raise Unsupported('iterator <=>')
        return ex.binop(st, m[8:], it, b, e)
    if m in ('operator++', 'operator--'):
        d = 1 if m == 'operator++' else -1
        ex.set_it(st, o, it.idx + d)
        return it if args else o
    if m in ('operator+=', 'operator-='):
        n = ex.term(st, args[0])
        ex.set_it(st, o, it.idx + n if m == 'operator+=' else it.idx - n)
        return o
    if m == 'operator[]':
        return ex.deref(st, X.It(it.base, it.idx + ex.term(st, args[0]), it.vid), e.get('l'))
    if m == 'operator=':
        return ex.assign_it(st, o, ex.rv(st, args[0]))
    raise Unsupported(f'iterator {m}')


def construct(ex, st, e, t, sh):
    q = e['f']['q']
    cls = q.rpartition('::')[0]
    args = e['args']
    line = e.get('l')
    ex.std_used.add(q)
    if cls == 'std::span':
        a = ex.ev(st, args[0]) if args else None
        if not args:
            base = ex.new_root(st, 'nothing', default_value(SVec(ex.p.shape(t['args'][0]['t']))))
            return X.View(base, intv(0), intv(0), ex.new_vid(st, base))
        if len(args) == 1:
            a = ex.load(st, a) if not isinstance(a, X.LV) else a
            return to_view(ex, st, a, line)
        if len(args) == 2:
            b = ex.rv(st, args[1])
            a = ex.load(st, a)
            if isinstance(a, X.It):
                n = b.t if isinstance(b, V) else simp(b.idx - a.idx)
                if not isinstance(a.base, V):
                    ln = ex.len_of(st, a.base, line)
                    ex.oblige(st, z3.And(a.idx >= 0, n >= 0, a.idx + n <= ln), 'bounds', line,
                              'span inside its container')
                return X.View(a.base, a.idx, n, a.vid)
        raise Unsupported('std::span constructor')
    if cls == '__gnu_cxx::__normal_iterator':
        return ex.rv(st, args[0]) if args else None
    if sh is None:
        # e.g. unique_ptr
        raise Unsupported(f'construction of {t["s"]}')
    if cls in ('std::allocator',):
        return V(sh, [intv(0)])
    if sh.kind == 'struct' and sh.tag == 'opt':
        if not args:
            return default_value(sh)
        return to_opt(ex, st, ex.ev(st, args[0]), sh, line)
    if cls in ('std::vector',):
        args = [a for a in args if 'allocator' not in ex.p.tstr(a['t'])]
        if not args:
            return default_value(sh)
        a0 = ex.ev(st, args[0])
        if isinstance(a0, X.Elems):
            return ex.mk_vec(sh, [ex.convert(st, x, sh.elem, line) for x in a0.vals])
        v0 = ex.load(st, a0)
        if isinstance(v0, V) and v0.shape.kind == 'vec':
            pt = ex.p.ty(e['f']['params'][0])
            if isinstance(a0, X.LV) and pt.get('rv'):
                ex.moved_from(st, a0)
            return V(sh, v0.terms)
        if isinstance(v0, X.It):
            b = ex.rv(st, args[1])
            src, off, n, base = rng_of(ex, st, v0, b)
            return V(sh, [n] + slice_terms(ex, st, src, off, n, 'copied'))
        if isinstance(v0, V) and v0.shape.kind == 'int':
            n = v0.t
            ex.oblige(st, z3.And(n >= 0, n <= MAXLEN), 'length', line, 'vector length within max_size')
            st.assume(z3.And(n >= 0, n <= MAXLEN))
            if len(args) > 1:
                x = ex.rv(st, args[1])
                if not isinstance(x, V):
                    x = coerce(ex, st, x, sh.elem)
                x = ex.convert(st, x, sh.elem, line)
            else:
                x = ex.default(st, t['args'][0]['t'])
            return V(sh, [n] + const_elems(x))
        raise Unsupported('std::vector constructor')
    if cls == 'std::filesystem::path':
        return as_string(ex, st, ex.ev(st, args[0])) if args else default_value(STRING)
    if cls in ('std::basic_string', 'std::basic_string_view'):
        args = [a for a in args if 'allocator' not in ex.p.tstr(a['t'])]
        if not args:
            return default_value(STRING)
        a0 = ex.ev(st, args[0])
        if isinstance(a0, X.Elems):
            return ex.mk_vec(STRING, a0.vals)
        v = ex.load(st, a0)
        if len(args) == 1:
            r = as_string(ex, st, v)
            pt = ex.p.ty(e['f']['params'][0])
            if isinstance(a0, X.LV) and pt.get('rv') and pt['k'] == 'ref' and ex.shape_of(st, a0).kind == 'vec':
                ex.moved_from(st, a0)
            return r
        if len(args) == 2 and isinstance(v, V) and v.shape.kind == 'int':
            c = ex.rv(st, args[1])
            return V(STRING, [v.t] + const_elems(c))
        raise Unsupported('std::string constructor')
    if cls in ('std::priority_queue',):
        return default_value(sh)
    if cls == 'std::set':
        if not args:
            return default_value(sh)
        return ex.load(st, ex.ev(st, args[0]))
    if cls == 'std::pair':
        if not args:
            return default_value(sh)
        if len(args) == 1:
            return ex.load(st, ex.ev(st, args[0]))
        a, b = [ex.rv(st, x) for x in args[:2]]
        a = ex.convert(st, a, sh.fields['first'], line)
        b = ex.convert(st, b, sh.fields['second'], line)
        return V(sh, a.terms + b.terms)
    if cls == 'std::array':
        return ex.load(st, ex.ev(st, args[0])) if args else ex.default(st, e['t'])
    if cls in ('std::uniform_real_distribution', 'std::uniform_int_distribution', 'std::normal_distribution'):
        if len(args) == 1 and same_shape_arg(ex, args[0], sh):
            return ex.load(st, ex.ev(st, args[0]))
        ks = list(sh.fields)[:2]
        hi = {'ureal': (realv(0), realv(1)), 'normal': (realv(0), realv(1))}.get(sh.tag)
        if hi is None:
            hi = (intv(0), intv(sh.fields['b'].hi))
        vals = list(hi)
        for i, a in enumerate(args[:2]):
            vals[i] = ex.convert(st, ex.rv(st, a), sh.fields[ks[i]], line).t
        if sh.tag == 'normal':
            vals.append(intv(0))
        return V(sh, vals)
    if cls == 'std::mersenne_twister_engine':
        if len(args) == 1:
            v = ex.load(st, ex.ev(st, args[0]))
            if v.shape.kind == 'int':
                # the seed is taken modulo 2^32
                return V(GEN, [rng_seed(v.t)])
            return v
        return V(GEN, [rng_seed(intv(5489))])
    if cls == 'std::variant':
        if not args:
            return default_std(ex, st, sh)
        return to_variant(ex, st, ex.ev(st, args[0]), sh)
    if cls == 'std::nullopt_t':
        return 'nullopt'
    if sh.kind == 'opaque':
        from . import filemodel
        r = filemodel.construct(ex, st, e, cls, sh)
        if r is not NotImplemented:
            return r
        ts = []
        lits = ''
        for a in args:
            l = lit_text(a)
            if l is not None and a['k'] in ('Str', 'Cast', 'Construct', 'Temp'):
                lits += l
                continue
            v = ex.load(st, ex.ev(st, a))
            if isinstance(v, V):
                ts += list(v.terms)
        if len(ts) == 1 and ts[0].sort() == Int and not lits and len(args) == 1 and \
                same_shape_arg(ex, args[0], sh):
            return V(sh, ts)
        nm = f'new<{cls}>{lits}'
        if ts:
            return V(sh, [z3.Function(nm, *[x.sort() for x in ts], Int)(*ts)])
        return V(sh, [z3.Const(nm, Int)])
    raise Unsupported(f'construction of {t["s"]} (line {line})')


def same_shape_arg(ex, a, sh):
    s = ex.p.shape(a['t'])
    return s is not None and same_shape(s, sh)


def default_std(ex, st, sh):
    if sh.kind == 'struct' and sh.tag == 'ureal':
        return V(sh, [realv(0), realv(1)])
    if sh.kind == 'struct' and sh.tag == 'normal':
        return V(sh, [realv(0), realv(1), intv(0)])
    if sh.kind == 'struct' and sh.tag == 'uint':
        return V(sh, [intv(0), intv(sh.fields['b'].hi)])
    if sh is GEN:
        return V(GEN, [rng_seed(intv(5489))])
    if sh.kind == 'struct' and sh.tag == 'pair':
        v = default_value(sh)
        for n in ('first', 'second'):
            s = sh.fields[n]
            if s.kind == 'struct' and s.tag == 'user':
                v = v.with_field(n, ex.default_user(st, s))
        return v
    if sh.kind == 'struct' and sh.tag == 'variant':
        v = default_value(sh)
        s = sh.fields['a0']
        return v.with_field('a0', ex.default_user(st, s) if s.kind == 'struct' and s.tag == 'user' else default_value(s))
    return default_value(sh)


def coerce(ex, st, v, sh):
    """a python level value where a value of shape sh is needed"""
    if isinstance(v, V):
        return ex.convert(st, v, sh, None)
    if isinstance(v, X.LV):
        return ex.load(st, v)
    if v == 'nullopt':
        return default_value(sh)
    if isinstance(v, X.Elems):
        if sh.kind == 'vec':
            return ex.mk_vec(sh, [ex.convert(st, x, sh.elem, None) for x in v.vals])
    if isinstance(v, X.View) and sh.kind == 'vec':
        base = ex.load(st, v.base)
        return V(sh, [v.len] + slice_terms(ex, st, base, v.off, v.len))
    if v is None and sh.kind == 'opaque':
        return V(sh, [intv(0)])
    raise Unsupported(f'{v} as {sh}')


def global_value(ex, st, e):
    sh = ex.p.shape(e['t'])
    if sh is not None and sh.kind == 'opaque':
        return V(sh, [z3.Const('global:' + e['q'], Int)])
    raise Unsupported(f'global {e["q"]}')


def ptr_to_bool(ex, st, v):
    raise Unsupported('pointer to bool')


def call_abstract(ex, st, obj, g, vals, e):
    """a call through a template parameter: the callee is any function (given by the contract's model)"""
    h = getattr(ex.contract, 'callbacks', {}).get(obj.name) if ex.contract is not None else None
    if h is None:
        raise Unsupported(f'call of the callback {obj.name}')
    return h(ex, st, vals, e)
