"""Contracts, and the contexts in which their formulas are written."""
import z3
from .core import *
from . import exec as X


def wrap(v):
    if isinstance(v, V):
        if v.shape.kind in ('int', 'real', 'bool', 'opaque'):
            return v.t
        return S(v)
    return v


class S:
    """sugar over a value: s.field, s[i], s.n; scalars come out as SMT terms"""
    __slots__ = ('v',)

    def __init__(self, v):
        object.__setattr__(self, 'v', v)

    def __getattr__(self, k):
        v = self.v
        if v.shape.kind == 'struct':
            if k in v.shape.fields:
                return wrap(v.field(k))
            raise Unsupported(f'the contract refers to {v.shape.name}::{k}, which does not exist')
        if v.shape.kind == 'vec':
            if k == 'n':
                return v.len
            if k == 'arr':
                return v.terms[1]
            if k == 'arrs':
                return v.terms[1:]
            if k == 'lens':  # vector of vectors: array of lengths
                return v.terms[1]
            if k == 'elems':  # vector of vectors of scalars
                return v.terms[2]
        if v.shape.kind == 'set' and k == 'arr':
            return v.t
        raise Unsupported(f'the contract refers to .{k} of {v.shape}')

    def leaf(self, *path):
        """vector of structs: the array of one member of its elements"""
        for (p, b, d, rg), t in zip(self.v.shape.leaves, self.v.terms):
            if p == ('[]',) + path:
                return t
        raise Unsupported(f'the contract refers to member {".".join(path)} of the elements of {self.v.shape}')

    def __getitem__(self, i):
        if isinstance(i, int):
            i = intv(i)
        if self.v.shape.kind == 'set':
            raise Unsupported('set index')
        return wrap(self.v.at(i))

    def field_of_shape(self, pred, what):
        """the unique field whose shape satisfies pred"""
        fs = [n for n, s in self.v.shape.fields.items() if pred(s)]
        if len(fs) != 1:
            raise Unsupported(f'cannot identify {what} among the members of {self.v.shape.name}')
        return wrap(self.v.field(fs[0]))


class SView:
    """a span: elements off.. of a container value"""

    def __init__(self, base, off, n):
        self.base, self.off, self.n = base, off, n

    def __getitem__(self, i):
        if isinstance(i, int):
            i = intv(i)
        return wrap(self.base.at(i if z3.is_int_value(self.off) and self.off.as_long() == 0 else self.off + i))

    @property
    def arr(self):
        if not (z3.is_int_value(self.off) and self.off.as_long() == 0):
            raise Unsupported('array of a shifted view')
        return self.base.terms[1]


def read(ex, st, x):
    if isinstance(x, X.View):
        b = ex.get(st, x.base) if isinstance(x.base, X.LV) else x.base
        return SView(b, x.off, x.len)
    if isinstance(x, X.LV):
        return wrap(ex.get(st, x))
    if isinstance(x, X.ItVar):
        return ex.get(st, x.lv).t
    if isinstance(x, X.It):
        return x.idx
    return wrap(x)


class CallCtx:
    def __init__(self, ex, g, pre, post, obj, args, res):
        self.ex, self.g, self.pre, self.post, self.obj, self.args, self.res = ex, g, pre, post, obj, args, res

    def idx(self, k):
        if isinstance(k, int):
            return k
        for i, p in enumerate(self.g['params']):
            if p.get('name') == k:
                return i
        raise Unsupported(f'parameter {k} of {self.g["q"]}')

    def lv(self, k):
        return self.args[self.idx(k)]

    def arg(self, k):
        """parameter k before the call"""
        return read(self.ex, self.pre, self.lv(k))

    def argp(self, k):
        """parameter k after the call"""
        return read(self.ex, self.post, self.lv(k))

    @property
    def this(self):
        return wrap(self.ex.get(self.pre, self.obj))

    @property
    def thisp(self):
        return wrap(self.ex.get(self.post, self.obj))

    def ref_lv(self, name, st=None):
        k = (self.obj.root, self.obj.path, name)
        r = (st or self.pre).refs
        if k not in r:
            r = self.post.refs
        if k not in r:
            raise Unsupported(f'reference member {name} is not bound')
        return r[k]

    def ref_any(self, pred, what):
        """the unique reference member whose referee's shape satisfies pred"""
        c = {k[2]: lv for k, lv in list(self.pre.refs.items()) + list(self.post.refs.items())
             if k[0] == self.obj.root and k[1] == self.obj.path and pred(self.ex.shape_of(self.post, lv))}
        if len(c) != 1:
            raise Unsupported(f'cannot identify {what} among the reference members')
        return list(c.values())[0]

    def ref(self, name):
        return read(self.ex, self.pre, self.ref_lv(name))

    def refp(self, name):
        return read(self.ex, self.post, self.ref_lv(name))

    @property
    def result(self):
        return read(self.ex, self.post, self.res)

    def has_ghost(self, name):
        return 'ghost:' + name in self.pre.mem

    def ghost(self, name):
        return self.pre.mem['ghost:' + name].t

    def ghostp(self, name):
        return self.post.mem['ghost:' + name].t

    def fn(self, k, guard, hint='fn'):
        """a callable parameter int -> real as an array: equal to the callable on the indices in guard.
        The callable must not have side effects and must not throw there."""
        ex, st = self.ex, self.post
        f = self.lv(k)
        if isinstance(f, X.Abstract):
            return z3.Const('callback:' + f.name, z3.ArraySort(Int, Real))
        memo = self.__dict__.setdefault('_fns', {})
        if k in memo:
            return memo[k]
        j = ex.fresh(st, hint + '_j', Int)
        A = ex.fresh(st, hint, z3.ArraySort(Int, Real))
        cases = self.fn_cases(st, f, j, guard, hint)
        self.__dict__.setdefault('_fn_evals', []).append((f, j, guard, hint, cases))
        cases = [z3.Implies(z3.And(*cond), z3.And(A[j] == val, *fact)) if cond else z3.And(A[j] == val, *fact)
                 for cond, fact, val in cases]
        body = z3.Implies(guard(j), z3.And(*cases))
        st.assume(z3.ForAll([j], body, patterns=[A[j]]))
        memo[k] = A
        return A

    def fn_cases(self, st, f, j, guard, hint):
        """the values of the callable at index j: [(conditions, facts, value)]"""
        ex = self.ex
        s2 = st.copy()
        s2.assume(guard(j))
        n0 = len(s2.pc)
        ex.new_root(s2, hint + '_arg', V(SIZE, [j]))
        res = ex.explore(s2, lambda s: ex.load(s, ex.call_closure(s, f, [V(SIZE, [j])], self.g.get('l'))))
        cases = []
        for s, kind, v in res:
            if kind not in ('ok', 'ret') or not isinstance(v, V) or v.shape.kind not in ('real', 'int'):
                raise Unsupported('a callback that does not return a number')
            for r in s2.mem:
                if any(not a.eq(b) for a, b in zip(s2.mem[r].terms, s.mem[r].terms)):
                    raise Unsupported('a callback with side effects')
            cond = [t for t, kk in s.pc[n0:] if kk == 'b']
            fact = [t for t, kk in s.pc[n0:] if kk != 'b']
            cases.append((cond, fact, v.t if v.shape.kind == 'real' else z3.ToReal(v.t)))
        return cases

    def fns_stable(self, st):
        """the callables evaluated so far have the same values in the state st (after the callee's writes)"""
        for f, j, guard, hint, cases in self.__dict__.get('_fn_evals', []):
            now = self.fn_cases(st, f, j, guard, hint)
            if len(now) != len(cases) or any(not z3.simplify(a[2]).eq(z3.simplify(b[2])) or len(a[0]) != len(b[0]) or any(
                    not z3.simplify(x).eq(z3.simplify(y)) for x, y in zip(a[0], b[0])) for a, b in zip(now, cases)):
                return False
        return True


class LoopCtx:
    def __init__(self, ex, entry, st, itlv, M, no, head=None):
        self.ex, self.entry, self.st, self.itlv, self.M, self.no, self.head = ex, entry, st, itlv, M, no, head
        self.fn = ex.cctx.at(st) if ex.cctx is not None else None
        self.its = dict(ex.loop_stack)

    @property
    def it(self):
        return self.ex.get(self.st, self.itlv).t

    def outer(self, no, st=None):
        """iteration counter of an enclosing loop"""
        if no not in self.its:
            raise Unsupported(f'loop {no} does not enclose loop {self.no}')
        return self.ex.get(st or self.st, self.its[no]).t

    def ghost(self, name):
        return self.st.mem['ghost:' + name].t

    def var_lv(self, name, pred=None, st=None):
        st = st or self.st
        if name in st.names and st.names[name] in st.env:
            b = st.env[st.names[name]]
            if pred is None or not isinstance(b, X.LV) or pred(self.ex.shape_of(st, b)):
                return b
        if pred is not None:
            c = {}
            for n, vid in st.names.items():
                b = st.env.get(vid)
                if isinstance(b, X.LV) and b.root in st.mem and \
                        pred(self.ex.shape_of(st, b)):
                    c[n] = b
            if len(c) == 1:
                return list(c.values())[0]
            # only those changed by this loop
            mod = {r for r, _ in self.M}
            c = {n: b for n, b in c.items() if b.root in mod}
            if len(c) == 1:
                return list(c.values())[0]
        raise Unsupported(f'no variable {name} at loop {self.no} of {self.ex.fname()}')

    def v(self, name, pred=None):
        """current value of a local variable"""
        return read(self.ex, self.st, self.var_lv(name, pred))

    def e(self, name, pred=None):
        """its value on entry of the loop"""
        return read(self.ex, self.entry, self.var_lv(name, pred))

    def h(self, name, pred=None):
        """its value at the head of this iteration"""
        return read(self.ex, self.head, self.var_lv(name, pred))

    def local(self, pred, what):
        """the unique local variable with this shape that the loop changes and that lives outside of it"""
        mod = {r for r, _ in self.M}
        c = {}
        for n, vid in self.entry.names.items():
            b = self.st.env.get(vid)
            if isinstance(b, X.LV) and not b.path and b.root in mod and b.root in self.entry.mem and \
                    pred(self.ex.shape_of(self.st, b)):
                c[b.root] = b
        if len(c) > 1 and self.no in self.ex.loop_nodes:
            # not the counter: variables that the loop condition mentions
            used = {self.st.env[i].root for i in X.var_ids([self.ex.loop_nodes[self.no].get(k) for k in ('c', 'inc')])
                    if isinstance(self.st.env.get(i), X.LV)}
            c = {r: b for r, b in c.items() if r not in used}
        if len(c) != 1:
            raise Unsupported(f'cannot identify {what} at loop {self.no} of {self.ex.fname()}')
        return read(self.ex, self.st, list(c.values())[0])

    def touched(self, lv):
        """names of the members of the object lv that the loop changes"""
        out = set()
        sh = self.st.mem[lv.root].shape
        for r, j in self.M:
            if r == lv.root:
                path = sh.leaves[j][0]
                pre = tuple(x for _, x in lv.path)
                if path[:len(pre)] == pre and len(path) > len(pre):
                    out.add(path[len(pre)])
        return out

    def root(self, hint):
        """the latest hidden variable with this hint (acc, idx, ...)"""
        c = [r for r in self.st.mem if r.split('#')[0] == hint]
        if not c:
            raise Unsupported(f'no {hint}')
        return c[-1]

    def hid(self, hint):
        return wrap(self.st.mem[self.root(hint)])

    @property
    def at_head(self):
        """the same context at the head of the iteration"""
        return LoopCtx(self.ex, self.entry, self.head, self.itlv, self.M, self.no)

    @property
    def at_entry(self):
        return LoopCtx(self.ex, self.entry, self.entry, self.itlv, self.M, self.no)


class LoopSpec:
    """inv: the invariant; entry / hints / step / exit: intermediate facts available before the loop, at the start
    of an iteration, at its end, and after the loop; dec: variant"""

    def __init__(self, inv, hints=None, step=None, exit=None, dec=None, entry=None):
        self.inv, self.hints, self.step, self.exit, self.dec, self.entry = inv, hints, step, exit, dec, entry


class Contract:
    def __init__(self, q, match=None, pre=None, post=None, throws=None, modifies=None, loops=None, modular=True,
                 no_alias=False, result=None, iterator=None, callbacks=None, lemmas=None, setup=None, facts=None,
                 verify=True, abstract=None, tag=None, generic=None, nonlin=False, dec=None, ghosts=None, effect=None,
                 alias_post=None, inline=(), only=None, alts=()):
        self.alts = alts  # other loop annotations, tried when the first do not fit the loops of the function
        self.only = only  # which obligations this proof is about (kind, name); the others are left to other checks
        self.inline = inline  # functions whose bodies are used in this proof although they have contracts
        self.q, self.match = q, match
        self.pre = pre or (lambda c: [])
        self.post = post or (lambda c: [])
        self.facts = facts  # lemma instances available before the postcondition is proved
        self.throws = throws or (lambda c: None)
        self.modifies = modifies or (lambda c: [])
        self.loops = loops or {}
        self.modular, self.no_alias, self.result = modular, no_alias, result
        self.iterator, self.callbacks = iterator, callbacks or {}
        self.setup, self.verify, self.abstract, self.tag = setup, verify, abstract, tag
        self.nonlin = nonlin
        self.dec = dec  # measure that decreases at recursive calls
        self.ghosts = ghosts or {}  # ghost variables: name -> initial term
        self.effect = effect  # what a call does to the caller's ghost variables: lambda c: {name: new value}
        self.alias_post = alias_post  # postcondition when two reference arguments are the same object
        self.generic = generic  # name of the opaque callback: only that instantiation is verified


def generic_of(p, c, g):
    """the instantiation with opaque callbacks that stands for all instantiations of the same template"""
    if c.generic is None:
        return g
    hs = p.byq.get(g['q'], [])
    if g.get('cls') is not None:
        hs = sorted(hs, key=lambda h: p.tstr(h['cls']) != p.tstr(g['cls']))
    for h in hs:
        if h.get('body') is not None and h['file'] == g['file'] and h['l'] == g['l'] and any(
                p.ty(p.strip(q['t'])).get('name', '').endswith('::' + c.generic) for q in h['params']):
            return h
    raise Unsupported(f'no generic instantiation of {g["q"]}')


class Registry:
    def __init__(self, prog):
        self.p = prog
        self.byq = {}
        self.virtuals = {}  # contracts of virtual functions, for calls on objects of unknown class
        self.pid = None  # the property being decided

    def add(self, c):
        self.byq.setdefault(c.q, []).append(c)
        return c

    def virtual(self, g):
        return self.virtuals.get(g['q'])

    def find(self, g):
        for c in self.byq.get(g['q'], ()):
            if c.match is None or c.match(self.p, g):
                return c
        return None
