"""Files.  A proof about output has one ghost file: its path, its content and whether a stream to it is open; streams are
taken to be unbuffered (what is still in the buffer is written when the stream is closed or destroyed).  Input files have a
content that is a function of their path and do not change during the call."""
import z3
from .core import *
from . import exec as X


def simp(t):
    return z3.simplify(t)


FILE, PATH, OPEN, SIDE = 'ghost:file', 'ghost:file_path', 'ghost:file_open', 'ghost:file_stream'
A_CH = z3.ArraySort(Int, Int)
file_len = z3.Function('file_len', Int, A_CH, Int)
file_chars = z3.Function('file_chars', Int, A_CH, A_CH)
file_there = z3.Function('file_there', Int, A_CH, Bool)
file_readable = z3.Function('file_readable', Int, A_CH, Bool)
s_len = z3.Function('stream_len', Int, Int)
s_chars = z3.Function('stream_chars', Int, A_CH)
s_pos = z3.Function('stream_pos', Int, Int)
s_good = z3.Function('stream_good', Int, Bool)


def ghost_file(st, ex):
    """to be called by the setup of a contract"""
    from .stdlib import STRING
    st.mem[FILE] = ex.str_val([])
    st.mem[PATH] = ex.str_val([])
    st.mem[OPEN] = V(BOOL, [z3.BoolVal(False)])
    ex.algebra = True


def modes(e):
    """names of the flags in an openmode expression"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'Ref':
                out.add(x.get('name'))
            for k, v in x.items():
                if k != 'f':
                    walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(e)
    return out


def append(ex, st, text, line):
    from .stdlib import concat
    ex.oblige(st, st.mem[OPEN].t, 'file', line, 'output goes to an open file')
    ex.put(st, X.LV(FILE), concat(ex, st, ex.get(st, X.LV(FILE)), text))


def open_out(ex, st, args, line, default):
    from .stdlib import as_string
    ms = modes(args[1]) if len(args) > 1 and args[1]['k'] != 'Default' else default
    if not ms <= {'in', 'out', 'trunc', 'binary'} or 'out' not in ms or not ('trunc' in ms or 'in' not in ms):
        raise Unsupported(f'this mode of opening a file (line {line})')
    path = as_string(ex, st, ex.ev(st, args[0]))
    ex.oblige(st, z3.Not(st.mem[OPEN].t), 'file', line, 'one file is open at a time')
    ex.put(st, X.LV(PATH), V(path.shape, path.terms))
    ex.put(st, X.LV(FILE), ex.str_val([]))
    ex.put(st, X.LV(OPEN), V(BOOL, [z3.BoolVal(True)]))


def print_to(ex, st, e):
    from . import stdlib as SL
    args = e['args']
    if not args or 'stream' not in ex.p.tstr(args[0]['t']):
        return False
    r = SL.f_format(ex, st, dict(args=args[1:]), None)
    append(ex, st, r, e.get('l'))
    return True


def call(ex, st, e, f):
    from .stdlib import as_string, obj_and_args
    q = f['q']
    line = e.get('l')
    cls, _, m = q.rpartition('::')
    if q == 'std::filesystem::exists':
        v = as_string(ex, st, ex.ev(st, e['args'][0]))
        return V(BOOL, [file_there(*v.terms)])
    if FILE in st.mem:
        if cls in ('std::basic_fstream', 'std::basic_ofstream'):
            if m == 'open':
                open_out(ex, st, e['args'], line, {'in', 'out'} if 'ofstream' not in cls else {'out'})
                return None
            if m == 'close':
                ex.put(st, X.LV(OPEN), V(BOOL, [z3.BoolVal(False)]))
                return None
            if m == 'is_open':
                return V(BOOL, [st.mem[OPEN].t])
        if q == 'std::operator<<' and 'stream' in ex.p.tstr(f['params'][0]):
            o, args = obj_and_args(ex, st, e)
            append(ex, st, as_string(ex, st, ex.ev(st, args[0])), line)
            return o
        if q == 'std::basic_ostream::operator<<' and 'obj' in e:
            raise Unsupported(f'this kind of output (line {line})')
    if cls in ('std::basic_ifstream', 'std::basic_istream', 'std::basic_ios', 'std::fpos', 'std::basic_fstream') and \
            ('obj' in e or m == 'operator!' and e.get('args')):
        o, args = obj_and_args(ex, st, e)
        if cls == 'std::fpos' and m.startswith('operator long'):
            v = ex.load(st, o)
            return V(ex.p.shape(f['ret']), [v.t])
        if not isinstance(o, X.LV):
            return NotImplemented
        s = ex.load(st, o)
        if not isinstance(s, V) or s.shape.kind != 'opaque':
            return NotImplemented
        if m in ('operator bool', 'good', 'is_open'):
            return V(BOOL, [s_good(s.t)])
        if m == 'operator!' or m == 'fail':
            return V(BOOL, [z3.Not(s_good(s.t))])
        if m == 'close':
            return None

        def moved(pos):
            n = ex.fresh(st, 'stream', Int)
            st.assume(z3.And(s_len(n) == s_len(s.t), s_chars(n) == s_chars(s.t), s_good(n) == s_good(s.t), s_pos(n) == pos))
            ex.put(st, o, V(s.shape, [n]))
        if m == 'seekg':
            if len(args) != 2:
                return NotImplemented
            ds = modes(args[1])
            off = ex.term(st, args[0])
            base = intv(0) if ds == {'beg'} else s_len(s.t) if ds == {'end'} else s_pos(s.t) if ds == {'cur'} else None
            if base is None:
                raise Unsupported(f'seekg (line {line})')
            ex.oblige(st, z3.And(base + off >= 0, base + off <= s_len(s.t)), 'file', line, 'seek inside the file')
            moved(simp(base + off))
            return o
        if m == 'tellg':
            return V(ex.p.shape(f['ret']), [s_pos(s.t)])
        if m == 'read':
            a = ex.ev(st, args[0])
            n = ex.term(st, args[1])
            if not isinstance(a, X.LV) and not isinstance(a, X.It):
                a = ex.load(st, a)
            base, k = None, None
            if isinstance(a, X.It) and isinstance(a.base, X.LV):
                base, k = a.base, a.idx
            elif isinstance(a, X.LV) and a.path and a.path[-1][0] == 'i':
                base, k = X.LV(a.root, a.path[:-1], a.vid), a.path[-1][1]
            if base is None:
                raise Unsupported(f'read into this kind of memory (line {line}) {a!r} {getattr(a,"path",None)}')
            b = ex.load(st, base)
            ex.oblige(st, z3.And(n >= 0, k >= 0, k + n <= b.len), 'bounds', line, 'read stays inside the buffer')
            ex.oblige(st, s_pos(s.t) + n <= s_len(s.t), 'file', line, 'read stays inside the file')
            arr, old, src, p = ex.fresh(st, 'read', A_CH), b.terms[1], s_chars(s.t), s_pos(s.t)
            from .theory import qall
            if z3.is_int_value(simp(k)) and simp(k).as_long() == 0 and ex.entails(st, z3.And(n == b.len, p == 0, s_len(s.t) == n)):
                arr = src  # the whole file
            else:
                st.assume(qall([Int], lambda i: arr[i] == z3.If(z3.And(i >= k, i < k + n), src[p + i - k], old[i]), lambda i: arr[i]))
            ex.put(st, base, V(b.shape, [b.len, arr]))
            moved(p + n)
            return o
    return NotImplemented


def construct(ex, st, e, cls, sh):
    """streams"""
    args = [a for a in e['args'] if a['k'] != 'Default']
    if cls in ('std::basic_fstream', 'std::basic_ofstream', 'std::basic_ifstream'):
        from .stdlib import as_string
        if cls == 'std::basic_ifstream' and args:
            p = as_string(ex, st, ex.ev(st, args[0]))
            s = ex.fresh(st, 'stream', Int)
            st.assume(z3.And(s_len(s) == file_len(*p.terms), s_chars(s) == file_chars(*p.terms), s_pos(s) == 0, s_good(s) == file_readable(*p.terms),
                             file_len(*p.terms) >= 0, file_len(*p.terms) <= MAXLEN))
            return V(sh, [s])
        if FILE in st.mem:
            if args:
                open_out(ex, st, args, e.get('l'), {'in', 'out'} if 'ofstream' not in cls else {'out'})
            return V(sh, [ex.fresh(st, 'stream', Int)])
    return NotImplemented
