"""toml++: a document is a tree of nodes.  A node is an uninterpreted identity; what the library reads from it (its
kind, whether a value of type T can be read from it, that value, the elements of an array) are uninterpreted functions
of the node, and the node that a key leads to is an uninterpreted function of the parent and the key.  Nothing is
assumed about them, so what is proved holds for every document."""
import z3
from .core import *
from . import exec as X

KINDS = ['integer', 'floating_point', 'boolean', 'string', 'date', 'time', 'date_time', 'array', 'table']
TYPES = {'toml::value<long>': 0, 'toml::value<double>': 1, 'toml::value<bool>': 2, 'toml::value<std::basic_string<char>>': 3,
         'toml::value<toml::date>': 4, 'toml::value<toml::time>': 5, 'toml::value<toml::date_time>': 6, 'toml::array': 7,
         'toml::table': 8}
NODE = SOpaque('toml::node')
STRS = []  # literals a computed key may be equal to

A = z3.ArraySort(Int, Int)
at_ = z3.Function('toml_at', Int, Int, Int)
kind = z3.Function('toml_kind', Int, Int)
alen = z3.Function('toml_array_size', Int, Int)
elem = z3.Function('toml_array_elem', Int, Int, Int)
ival = z3.Function('toml_integer', Int, Int)
fval = z3.Function('toml_floating_point', Int, Real)
file_ = z3.Function('toml_file', Int, A, Int)
parses = z3.Function('toml_file_parses', Int, A, Bool)
skey = z3.Function('toml_key', Int, A, Int)


def lit_key(s):
    return intv(int.from_bytes(b'\1' + s.encode(), 'big'))


def key_of(ex, st, v):
    from .stdlib import as_string, simp, str_eq
    s = as_string(ex, st, v)
    n = simp(s.len)
    if z3.is_int_value(n):
        cs = [simp(sel(s.terms[1], intv(i))) for i in range(n.as_long())]
        if all(z3.is_int_value(c) for c in cs):
            return lit_key(bytes(c.as_long() & 255 for c in cs).decode('latin1'))
    k = skey(*s.terms)
    for l in STRS:
        st.assume(z3.Implies(str_eq(s, ex.str_val(l.encode())), k == lit_key(l)))
    return k


def has(T, node):
    return z3.Function(f'toml_has<{T}>', Int, Bool)(node)


def val(T, sh, node):
    return V(sh, [z3.Function(f'toml_value<{T}>' + '.'.join(map(str, p)), Int, arr_sort(b, d))(node)
                  for p, b, d, rg in sh.leaves])


def tname(p, ti):
    s = p.tstr(p.strip(ti))
    return s[6:] if s.startswith('const ') else s


def typed(ex, st, T, sh, node):
    v = val(T, sh, node)
    ex.assume_ranges(st, v)
    return v


def path(*keys):
    """the node at a path of literal keys of the document n"""
    def f(n):
        for k in keys:
            n = at_(n, lit_key(k) if isinstance(k, str) else k)
        return n
    return f


def same_node(ex, st, lv):
    return V(NODE, ex.load(st, lv).terms)


def call(ex, st, e, f):
    from .stdlib import obj_and_args, as_string
    q, line = f['q'], e.get('l')
    cls, _, m = q.rpartition('::')
    o, args = obj_and_args(ex, st, e) if q != 'toml::parse_file' else (None, e['args'])
    if q == 'toml::parse_file':
        s = as_string(ex, st, ex.ev(st, args[0]))
        ok = parses(*s.terms)
        if ex.choose(st, [ok, z3.Not(ok)]) == 1:
            raise X.ThrowExc('toml::parse_error')
        return V(ex.p.shape(f['ret']), [file_(*s.terms)])
    v = ex.load(st, o) if not isinstance(o, V) else o
    if not isinstance(v, V) or v.shape.kind != 'opaque':
        raise Unsupported(f'{q} on this object (line {line})')
    n = v.t
    if m == 'operator=' and len(args) == 1 and cls in ('toml::table', 'toml::node_view'):
        w = ex.load(st, ex.ev(st, args[0]))
        ex.put(st, o, V(v.shape, w.terms))
        return o
    if m in ('operator[]', 'at_path', 'get') and len(args) == 1 and cls in ('toml::table', 'toml::node_view') and m != 'at_path':
        a = ex.ev(st, args[0])
        a = ex.load(st, a)
        if not isinstance(a, V) or a.shape.kind not in ('vec',):
            raise Unsupported(f'{q} with this key (line {line})')
        return V(ex.p.shape(f['ret']) or NODE, [at_(n, key_of(ex, st, a))])
    if m in ('value', 'value_exact') and not args:
        sh = ex.p.shape(f['ret'])
        T = tname(ex.p, f['targs'][0]['t'])
        if m == 'value_exact':
            T += ' exactly'
        u = typed(ex, st, T, sh.fields['val'], n)
        return V(sh, (has(T, n),) + u.terms)
    if m == 'value_or' and len(args) == 1:
        sh = ex.p.shape(f['ret'])
        d = ex.load(st, ex.ev(st, args[0]))
        if isinstance(d, V) and d.shape.kind in ('int', 'real', 'bool'):
            d = ex.convert(st, d, sh, line)
        T = tname(ex.p, f['ret'])
        u = typed(ex, st, T, sh, n)
        h = has(T, n)
        return V(sh, [z3.If(h, a, b) for a, b in zip(u.terms, d.terms)])
    if m.startswith('is_') and m[3:] in KINDS and not args:
        t = static_kind(ex, e, f)
        if t is not None:
            return ex.boolv(z3.BoolVal(KINDS[t] == m[3:]))
        return ex.boolv(kind(n) == KINDS.index(m[3:]))
    if m.startswith('as_') and m[3:] in KINDS and not args:
        # the obligation is due where the pointer is used
        t = static_kind(ex, e, f)
        k = KINDS.index(m[3:])
        if t is not None and t != k:
            return None
        return ex.new_root(st, 'node', V(SOpaque('toml::' + m[3:]), [n]))
    if cls == 'toml::value' and m in ('get', 'operator*', 'operator const type &', 'operator type &') and not args:
        sh = ex.p.shape(f['ret'])
        if sh.kind == 'int' and not sh.char:
            ex.oblige(st, kind(n) == 0, 'null', line, 'the node is an integer')
            u = V(sh, [ival(n)])
            ex.assume_ranges(st, u)
            return u
        if sh.kind == 'real':
            ex.oblige(st, kind(n) == 1, 'null', line, 'the node is a floating point number')
            return V(sh, [fval(n)])
    if cls == 'toml::array' and m in ('size', 'empty') and not args:
        ex.oblige(st, kind(n) == 7, 'null', line, 'the node is an array')
        st.assume(z3.And(alen(n) >= 0, alen(n) <= MAXLEN))
        return V(SIZE, [alen(n)]) if m == 'size' else ex.boolv(alen(n) == 0)
    if q == 'toml::array::for_each' and len(args) == 1:
        return for_each(ex, st, e, n, ex.ev(st, args[0]), o)
    raise Unsupported(f'{q} (line {line})')


def static_kind(ex, e, f):
    """kind of node that the static type of the object already determines"""
    if 'obj' not in e:
        return None
    s = ex.p.tstr(ex.p.strip(e['obj']['t']))
    s = s[6:] if s.startswith('const ') else s
    return TYPES.get(s.rstrip(' *&'))


def for_each(ex, st, e, n, cl, o):
    """calls the callback with every element, at its own type"""
    line = e.get('l')
    if not isinstance(cl, X.Closure):
        raise Unsupported(f'for_each with this callback (line {line})')
    ex.oblige(st, kind(n) == 7, 'null', line, 'the node is an array')
    st.assume(z3.And(alen(n) >= 0, alen(n) <= MAXLEN))
    inst = {}
    for c in ex.p.recs[cl.rid]['calls']:
        g = ex.p.funcs.get(c['id'])
        if g is None or g.get('body') is None:
            continue
        if len(g['params']) != 1 or ex.p.ty(g['ret'])['k'] != 'void':
            raise Unsupported(f'for_each with this callback (line {line})')
        s = ex.p.tstr(ex.p.strip(g['params'][0]['t']))
        s = s[6:] if s.startswith('const ') else s
        if s in TYPES:
            inst[TYPES[s]] = g
    if not inst:
        raise Unsupported(f'for_each: no instantiation of the callback (line {line})')
    st.gh['toml_array'] = n
    idx = ex.new_root(st, 'idx', V(SIZE, [intv(0)]))
    ks = sorted(inst)

    def cond(x):
        return ex.get(x, idx).t < alen(n)

    def body(x):
        ex.sub(x, one)

    def one(x):
        el = elem(n, ex.get(x, idx).t)
        conds = [kind(el) == k for k in ks]
        if len(ks) < len(KINDS):  # a callback that takes some of the types only
            conds.append(z3.And(*[kind(el) != k for k in ks]))
        else:
            x.assume(z3.And(kind(el) >= 0, kind(el) < len(KINDS)))
        j = ex.choose(x, conds)
        if j < len(ks):
            lv = ex.new_root(x, 'elem', V(SOpaque('toml::' + KINDS[ks[j]]), [el]))
            ex.call_user(x, inst[ks[j]], None, [lv], line, cl)

    def inc(x):
        ex.put(x, idx, V(SIZE, [ex.get(x, idx).t + 1]))
    ex.loop(st, {'l': line, 'id': ('for_each', line), 'b': None, 'node': e}, cond, body, inc)
    return o
