"""Shapes (the structure of C++ values) and their symbolic values.

A value of a shape is a flat tuple of SMT terms, one per leaf; a leaf that lies below d levels of
std::vector (or set, string, ...) is an array of depth d.  Two things never live in a value: references
and callables; they are Python level objects bound to variables or fields.
"""
import z3

Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
MAXLEN = 2 ** 60  # no container holds more elements than this (std: max_size)


class Unsupported(Exception):
    """the code is outside the subset of C++ the verifier understands"""


_sorts = {}


def arr_sort(base, depth):
    k = (base.name(), depth)
    if k not in _sorts:
        s = base
        for _ in range(depth):
            s = z3.ArraySort(Int, s)
        _sorts[k] = s
    return _sorts[k]


class Shape:
    kind = None

    def _mk(self):
        raise NotImplementedError

    @property
    def leaves(self):
        """list of (path, base sort, depth, (lo, hi) or None)"""
        if not hasattr(self, '_leaves'):
            self._leaves = self._mk()
        return self._leaves

    def __repr__(self):
        return f'<{self.kind}>'


class SInt(Shape):
    kind = 'int'

    def __init__(self, lo, hi, w=None, signed=None, char=False):
        self.lo, self.hi, self.w, self.signed, self.char = lo, hi, w, signed, char

    def _mk(self):
        return [((), Int, 0, (self.lo, self.hi))]

    def key(self):
        return ('int', self.lo, self.hi)


class SBool(Shape):
    kind = 'bool'

    def _mk(self):
        return [((), Bool, 0, None)]

    def key(self):
        return ('bool',)


class SReal(Shape):
    kind = 'real'
    single = False  # float: values are rounded (an unknown function), see convert

    def _mk(self):
        return [((), Real, 0, None)]

    def key(self):
        return ('real',)


class SStruct(Shape):
    kind = 'struct'

    def __init__(self, name, fields, refs=None, tag=None, closures=None):
        self.name, self.fields, self.tag = name, fields, tag
        self.refs = refs or {}  # reference members: name -> Shape of the referee
        self.rid = None

    def _mk(self):
        r = []
        for n, s in self.fields.items():
            for (p, b, d, rg) in s.leaves:
                r.append(((n,) + p, b, d, rg))
        return r

    def span(self, name):
        i = 0
        for n, s in self.fields.items():
            k = len(s.leaves)
            if n == name:
                return i, i + k, s
            i += k
        raise Unsupported(f'no field {name} in {self.name}')

    def key(self):
        return ('struct', self.name, tuple((n, s.key()) for n, s in self.fields.items()))

    def __repr__(self):
        return f'<struct {self.name}>'


class SVec(Shape):
    """std::vector, std::string, std::priority_queue (unordered), std::array"""
    kind = 'vec'

    def __init__(self, elem, tag='vector'):
        self.elem, self.tag = elem, tag
        self.cmp = None

    def _mk(self):
        r = [(('len',), Int, 0, (0, MAXLEN))]
        for (p, b, d, rg) in self.elem.leaves:
            r.append((('[]',) + p, b, d + 1, rg))
        return r

    def key(self):
        return ('vec', self.tag, self.elem.key())

    def __repr__(self):
        return f'<{self.tag} {self.elem}>'


class SSet(Shape):
    """a set of integer tuples: characteristic function"""
    kind = 'set'

    def __init__(self, elem):
        self.elem = elem
        self.dim = len(elem.leaves)

    def _mk(self):
        return [(('in',), Bool, self.dim, None)]

    def key(self):
        return ('set', self.dim)


class SOpaque(Shape):
    """a value the verifier knows nothing about, up to identity"""
    kind = 'opaque'

    def __init__(self, name):
        self.name = name

    def _mk(self):
        return [((), Int, 0, None)]

    def key(self):
        return ('opaque', self.name)

    def __repr__(self):
        return f'<opaque {self.name}>'


class SGhost(SInt):
    """a mathematical integer (ghost variables only)"""

    def _mk(self):
        return [((), Int, 0, None)]


GHOST = SGhost(-2 ** 200, 2 ** 200)
SIZE = SInt(0, 2 ** 64 - 1, 64, False)
I32 = SInt(-2 ** 31, 2 ** 31 - 1, 32, True)
I64 = SInt(-2 ** 63, 2 ** 63 - 1, 64, True)
CHAR = SInt(-128, 127, 8, True, True)
REAL = SReal()
FLOAT = SReal()
FLOAT.single = True
to_single = z3.Function('rounded_to_float', Real, Real)
BOOL = SBool()
STRING = SVec(CHAR, 'string')
GEN = SStruct('std::mersenne_twister_engine', {'s': SOpaque('rng')}, tag='gen')
NOTHING = SStruct('void', {})


def opt_shape(elem):
    return SStruct('std::optional', {'has': BOOL, 'val': elem}, tag='opt')


class V:
    """a symbolic value"""
    __slots__ = ('shape', 'terms')

    def __init__(self, shape, terms):
        self.shape = shape
        self.terms = tuple(terms)
        assert len(self.terms) == len(shape.leaves), (shape, terms)

    @property
    def t(self):
        assert len(self.terms) == 1, self.shape
        return self.terms[0]

    def field(self, n):
        i, j, s = self.shape.span(n)
        return V(s, self.terms[i:j])

    def with_field(self, n, v):
        i, j, s = self.shape.span(n)
        return V(self.shape, self.terms[:i] + tuple(v.terms) + self.terms[j:])

    @property
    def len(self):
        return self.terms[0]

    def at(self, i):
        s = self.shape
        if s.kind != 'vec':
            raise Unsupported(f'index into {s}')
        return V(s.elem, [sel(t, i) for t in self.terms[1:]])

    def with_at(self, i, v):
        out = [self.terms[0]]
        for arr, new in zip(self.terms[1:], v.terms):
            out.append(sto(arr, i, new))
        return V(self.shape, out)

    def with_len(self, n):
        return V(self.shape, (n,) + self.terms[1:])

    def __repr__(self):
        return f'V({self.shape},{self.terms})'


def sel(arr, i):
    # read over write on syntactically equal indices keeps terms small
    while z3.is_store(arr):
        a, j, v = arr.children()
        if j.eq(i):
            return v
        if z3.is_int_value(j) and z3.is_int_value(i):
            arr = a
            continue
        break
    if z3.is_K(arr):
        return arr.arg(0)
    return z3.Select(arr, i)


def sto(arr, i, v):
    if z3.is_select(v) and v.arg(0).eq(arr) and v.arg(1).eq(i):
        return arr
    if z3.is_store(arr) and arr.arg(1).eq(i):
        arr = arr.arg(0)
    return z3.Store(arr, i, v)


def intv(n):
    return z3.IntVal(n)


def realv(x):
    return z3.RealVal(x)


def default_value(shape):
    """value-initialised"""
    out = []
    for (p, b, d, rg) in shape.leaves:
        out.append(default_leaf(b, d))
    return V(shape, out)


def default_leaf(b, d):
    t = {'Int': lambda: intv(0), 'Real': lambda: realv(0), 'Bool': lambda: z3.BoolVal(False)}[b.name()]()
    for k in range(d):
        t = z3.K(Int, t)
    return t


def const_elems(elem_val):
    """leaves of a vector whose elements all equal elem_val"""
    return [z3.K(Int, t) for t in elem_val.terms]


def same_shape(a, b):
    return a is b or a.key() == b.key()
