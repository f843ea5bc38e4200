"""Symbolic execution of the exported AST: generates the verification conditions of one function.

Calls of functions under contract use the contract, all other calls of seldon code are executed in place,
loops are cut with invariants; std functions have contracts in stdlib.py.
"""
import itertools
from decimal import Decimal
from fractions import Fraction
import z3
from .core import *


# ---- run time objects -------------------------------------------------------------------------------
def var_ids(e):
    """ids of the variables an expression refers to"""
    out, todo = set(), [e]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get('k') == 'Ref' and x.get('d') == 'var':
                out.add(x['id'])
            todo.extend(x.values())
        elif isinstance(x, list):
            todo.extend(x)
    return out


class LV:
    """an object in memory: root variable and access path of ('f', name) and ('i', index term)"""
    __slots__ = ('root', 'path', 'vid')

    def __init__(self, root, path=(), vid=None):
        self.root, self.path, self.vid = root, path, vid

    def f(self, n):
        return LV(self.root, self.path + (('f', n),), self.vid)

    def i(self, t):
        return LV(self.root, self.path + (('i', t),), self.vid)

    def __repr__(self):
        return f'LV({self.root}{self.path})'


class View:
    """std::span / pointer range: elements off .. off+len of the container base"""
    __slots__ = ('base', 'off', 'len', 'vid')

    def __init__(self, base, off, ln, vid):
        self.base, self.off, self.len, self.vid = base, off, ln, vid


class It:
    """iterator or pointer into container base at position idx"""
    __slots__ = ('base', 'idx', 'vid', 'rev')

    def __init__(self, base, idx, vid, rev=False):
        self.base, self.idx, self.vid, self.rev = base, idx, vid, rev


class ItVar:
    """an iterator variable: the position lives in memory so that loops can havoc it"""
    __slots__ = ('base', 'lv', 'vid', 'rev')

    def __init__(self, base, lv, vid, rev):
        self.base, self.lv, self.vid, self.rev = base, lv, vid, rev


class Closure:
    __slots__ = ('rid', 'caps', 'this', 'key')

    def __init__(self, rid, caps, this):
        self.rid, self.caps, self.this = rid, caps, this


class FnRef:
    def __init__(self, f):
        self.f = f


class Elems:
    """an initializer list"""

    def __init__(self, vals):
        self.vals = vals


class Abstract:
    """a value of a template parameter type that only offers a call operator: an arbitrary function"""

    def __init__(self, name):
        self.name = name


# ---- control flow -----------------------------------------------------------------------------------
class Dead(Exception):
    pass


class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class ThrowExc(Exception):
    def __init__(self, ty):
        self.ty = ty


class State:
    def __init__(self):
        self.mem = {}      # root -> V
        self.env = {}      # variable id -> binding
        self.names = {}    # variable name -> variable id (latest declaration)
        self.refs = {}     # (root, field path, name) -> binding of a reference member
        self.this = None
        self.pc = []       # [(term, kind)]
        self.cnt = 0
        self.tag = ''
        self.views = {}    # vid -> base LV
        self.inval = {}    # vid -> [cond]
        self.seen = set()
        self.gh = {}       # ghost values handed from std contracts to specifications

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.env = dict(self.env)
        s.names = dict(self.names)
        s.refs = dict(self.refs)
        s.this = self.this
        s.pc = list(self.pc)
        s.cnt = self.cnt
        s.tag = self.tag
        s.views = dict(self.views)
        s.inval = dict(self.inval)
        s.seen = set(self.seen)
        s.gh = dict(self.gh)
        return s

    def become(self, o):
        for a in ('mem', 'env', 'names', 'refs', 'this', 'pc', 'cnt', 'tag', 'views', 'inval', 'seen', 'gh'):
            setattr(self, a, getattr(o, a))

    def assume(self, t, kind='a'):
        if z3.is_true(t):
            return
        k = t.get_id()
        if kind == 'a' and k in self.seen:
            return
        self.seen.add(k)
        self.pc.append((t, kind))


class Dec:
    def __init__(self, dec, work, memo):
        self.dec, self.work, self.pos, self.taken = dec, work, 0, ()
        self.memo, self.nsub = memo, 0  # results of sub-executions, by the decisions taken so far


class Obligation:
    def __init__(self, name, kind, pc, goal, fn, line):
        self.name, self.kind, self.pc, self.goal, self.fn, self.line = name, kind, pc, goal, fn, line


_consts = {}


def consts(t):
    """names of the constants in a term (memoised; the terms are kept alive)"""
    k = t.get_id()
    if k in _consts:
        return _consts[k][1]
    seen, todo, out = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.get_id())
            else:
                todo.extend(x.children())
    r = frozenset(out)
    _consts[k] = (t, r)
    return r


def nonlinear(t, cache={}):
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    todo, seen, r = [t], set(), False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            kind = x.decl().kind()
            if kind == z3.Z3_OP_MUL and sum(not (z3.is_int_value(y) or z3.is_rational_value(y)) for y in x.children()) > 1 \
                    or kind in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not (
                        z3.is_int_value(x.arg(1)) or z3.is_rational_value(x.arg(1))):
                r = True
                break
            todo.extend(x.children())
        else:
            todo.append(x.body()) if z3.is_quantifier(x) else None
    cache[k] = (t, r)
    return r


def has_quant(t, cache={}):
    k = t.get_id()
    if k in cache:
        return cache[k][1]
    todo, seen = [t], set()
    r = False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        todo.extend(x.children())
    cache[k] = (t, r)
    return r


class Exec:
    def __init__(self, prog, contracts, opts=None):
        self.p = prog
        self.pinned = set()
        self.contracts = contracts  # callable: function record -> contract or None
        self.obs = []
        self.ob_keys = set()
        self.decs = []
        self.scan = 0
        self.addr_of = None
        self.frames = {}
        self.answers, self.hits = {}, 0
        self.fn = None
        self.contract = None
        self.cctx = None
        self.loop_ids = {}
        self.notes = set()
        self.used_contracts = set()
        self.inlined = set()
        self.std_used = set()
        self.depth = 0
        self.opts = opts or {}
        self.solver_calls = 0
        self.loop_stack = []
        self.loop_nodes = {}
        from . import stdlib
        self.lib = stdlib

    # ---- solver helper ----------------------------------------------------------------------------
    def quick_unsat(self, st, extra, ms=150):
        t = z3.simplify(extra)
        if z3.is_false(t):
            return True
        if z3.is_true(t):
            return False
        # only what is connected to the question
        rel = []
        lin = not nonlinear(t)
        todo = [(consts(c), c) for (c, k) in st.pc if not has_quant(c) and not (lin and nonlinear(c))]
        names = set(consts(t))
        changed = True
        while changed:
            changed, rest = False, []
            for ns, c in todo:
                if not ns or not names.isdisjoint(ns):
                    rel.append(c)
                    if not names.issuperset(ns):
                        names |= ns
                        changed = True
                else:
                    rest.append((ns, c))
            todo = rest
        key = (t.get_id(), tuple(sorted({c.get_id() for c in rel})))
        r = self.answers.get(key)
        if r is None:
            s = z3.Solver()
            s.set('timeout', ms)
            for c in rel:
                s.add(c)
            s.add(t)
            self.solver_calls += 1
            r = self.answers[key] = (s.check() == z3.unsat, t, rel)
        else:
            self.hits += 1
        return r[0]

    def entails(self, st, cond, ms=150):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.quick_unsat(st, z3.Not(cond), ms)

    # ---- forks ------------------------------------------------------------------------------------
    def choose(self, st, conds):
        """take one of several branches: the others are explored later"""
        d = self.decs[-1]
        if d.pos < len(d.dec):
            c = d.dec[d.pos]
        else:
            feas = [i for i, t in enumerate(conds) if t is None or not self.quick_unsat(st, t)]
            if not feas:
                raise Dead()
            c = feas[0]
            for o in feas[1:]:
                d.work.append(d.taken + (o,))
        d.pos += 1
        d.taken += (c,)
        if len(conds) > 1:
            st.tag += 'abcdefghijklmnopqrstuvwxyz'[c] if c < 26 else f'_{c}_'
        if conds[c] is not None:
            st.assume(conds[c], 'b')
        return c

    def explore(self, st, thunk, limit=600):
        results, work, memo = [], [()], {}
        while work:
            dec = work.pop()
            s = st.copy()
            self.decs.append(Dec(dec, work, memo))
            try:
                try:
                    results.append((s, 'ok', thunk(s)))
                except ReturnExc as x:
                    results.append((s, 'ret', x.v))
                except ThrowExc as x:
                    results.append((s, 'throw', x.ty))
                except BreakExc:
                    results.append((s, 'break', None))
                except ContinueExc:
                    results.append((s, 'continue', None))
                except Dead:
                    pass
            finally:
                self.decs.pop()
            if len(results) + len(work) > limit:
                raise Unsupported('too many paths')
        return results

    def sub(self, st, thunk, returns=True):
        """execute thunk, merge the states in which it ends normally"""
        d = self.decs[-1] if self.decs else None
        key = None
        if d is not None:
            d.nsub += 1
            key = (d.taken, d.nsub)
        if d is not None and key in d.memo:
            opts = d.memo[key]
        else:
            res = self.explore(st, thunk)
            normal = [(s, v) for (s, k, v) in res if k == 'ok' or (returns and k == 'ret')]
            others = [(s, k, v) for (s, k, v) in res if not (k == 'ok' or (returns and k == 'ret'))]
            merged = self.merge(st, normal)
            opts = [(s, 'ok', v) for s, v in merged] + others
            if d is not None:
                d.memo[key] = opts
        if not opts:
            raise Dead()
        i = self.choose(st, [None] * len(opts)) if len(opts) > 1 else 0
        s, k, v = opts[i]
        st.become(s.copy())
        if k == 'ok':
            return v
        raise {'ret': lambda: ReturnExc(v), 'throw': lambda: ThrowExc(v), 'break': BreakExc,
               'continue': ContinueExc}[k]()

    def merge(self, base, items):
        if len(items) <= 1:
            return items
        n0 = len(base.pc)
        v0 = items[0][1]
        for s, v in items:
            if isinstance(v, V) != isinstance(v0, V) or s.views.keys() - base.views.keys() and not (
                    isinstance(v, V) or v is None):
                return items
            if isinstance(v, V):
                if not same_shape(v.shape, v0.shape):
                    return items
            elif isinstance(v, LV) and isinstance(v0, LV):
                if not (v.root == v0.root and len(v.path) == len(v0.path) and all(
                        a[0] == b[0] and (a[1] == b[1] if a[0] == 'f' else a[1].eq(b[1]))
                        for a, b in zip(v.path, v0.path))):
                    return items
            elif v is not v0 and v is not None:
                return items
        m = base.copy()
        m.cnt = max(s.cnt for s, _ in items)
        m.tag = base.tag + '+'
        conds = []
        for s, _ in items:
            br = [t for (t, k) in s.pc[n0:] if k == 'b']
            conds.append(z3.And(*br) if len(br) != 1 else br[0])
        for root in base.mem:
            terms = [s.mem[root].terms for s, _ in items]
            out = []
            for j in range(len(terms[0])):
                out.append(self.ite(conds, [t[j] for t in terms]))
            m.mem[root] = V(base.mem[root].shape, out)
        for (s, _), c in zip(items, conds):
            for (t, k) in s.pc[n0:]:
                if k == 'a':
                    m.assume(z3.Implies(c, t))
            for vid, l in s.inval.items():
                if vid in base.views:
                    new = l[len(base.inval.get(vid, [])):]
                    if new:
                        m.inval[vid] = list(m.inval.get(vid, [])) + [z3.And(c, x) for x in new]
        for g in sorted({g for s, _ in items for g in s.gh if g[:1] == '~'}):
            vals = [s.gh[g] for s, _ in items if g in s.gh]
            if all(x is vals[0] for x in vals):  # a name for what one of the branches computed, used in hints
                m.gh.setdefault(g, vals[0])
        m.assume(z3.Or(*conds), 'b')
        if isinstance(v0, V):
            val = V(v0.shape, [self.ite(conds, [v.terms[j] for _, v in items]) for j in range(len(v0.terms))])
        else:
            val = v0
        return [(m, val)]

    def ite(self, conds, terms):
        r = terms[-1]
        for c, t in zip(reversed(conds[:-1]), reversed(terms[:-1])):
            if not t.eq(r):
                r = z3.If(c, t, r)
        return r

    # ---- fresh names, obligations -------------------------------------------------------------------
    def fresh(self, st, hint, sort):
        st.cnt += 1
        return z3.Const(f'{hint}!{st.tag}{st.cnt}', sort)

    def fresh_val(self, st, hint, shape):
        out = []
        for (p, b, d, rg) in shape.leaves:
            n = hint + ''.join('.' + str(x) for x in p)
            c = self.fresh(st, n, arr_sort(b, d))
            out.append(c)
            if d == 0 and rg:
                st.assume(z3.And(c >= rg[0], c <= rg[1]))
        v = V(shape, out)
        self.fix_arrays(v)
        return v

    def assume_ranges(self, st, v):
        for (p, b, d, rg), t in zip(v.shape.leaves, v.terms):
            if d == 0 and rg:
                st.assume(z3.And(t >= rg[0], t <= rg[1]))

    def fix_arrays(self, v):
        return v

    def oblige(self, st, goal, kind, line, name=None):
        if self.scan:
            return
        g = z3.simplify(goal)
        pcs = [t for t, _ in st.pc]
        key = (kind, name, goal.get_id(), tuple(t.get_id() for t in pcs))
        if key in self.ob_keys:
            return
        self.ob_keys.add(key)
        self._keep = getattr(self, '_keep', [])
        self._keep.append((goal, pcs))
        if z3.is_true(g) or any(t.eq(goal) for t in pcs):
            self.trivial = getattr(self, 'trivial', 0) + 1  # closed by term simplification
            return
        self.obs.append(Obligation(name or kind, kind, pcs, goal, self.fname(), line))

    def ghost(self, st, name, v):
        st.gh[name] = v

    def lemmas(self, st, items, line, what):
        """intermediate facts (name, fact) or (name, fact, premises): with premises, only those (as far as they have been
        established) are used in the proof"""
        for it in items:
            self.lemma(st, it[1], line, f'{what}: {it[0]}', it[2] if len(it) > 2 else None)

    def lemma(self, st, t, line, name, using=None):
        """an intermediate fact: free if it holds by definition or is an instance of a proved lemma"""
        from .theory import is_known
        if not is_known(t):
            if using is not None and not self.scan:
                have = {x.get_id() for x, _ in st.pc}
                s2 = State()
                s2.pc = [(x, 'a') for x in using if x.get_id() in have or is_known(x)]
                if len(s2.pc) < len(using):
                    self.notes.add(f'{len(using) - len(s2.pc)} premises of "{name}" are not established')
                self.oblige(s2, t, 'lemma', line, name)
            else:
                self.oblige(st, t, 'lemma', line, name)
        st.assume(t)

    def fname(self):
        return self.fn['q'] if self.fn else '?'

    # ---- memory -------------------------------------------------------------------------------------
    def new_root(self, st, hint, val):
        st.cnt += 1
        r = f'{hint}#{st.tag}{st.cnt}'
        st.mem[r] = val
        return LV(r)

    def shape_of(self, st, lv):
        s = st.mem[lv.root].shape
        for k, x in lv.path:
            s = s.span(x)[2] if k == 'f' else s.elem
        return s

    def get(self, st, lv):
        v = st.mem[lv.root]
        for k, x in lv.path:
            if k == 'f':
                v = v.field(x)
            else:
                v = v.at(x)
        return v

    def check_vid(self, st, vid, line):
        if vid is None:
            return
        for c in st.inval.get(vid, ()):
            self.oblige(st, z3.Not(c), 'dangling', line)

    def load(self, st, x, line=None):
        if isinstance(x, LV):
            self.check_vid(st, x.vid, line)
            v = self.get(st, x)
            if v.shape.kind == 'int' and not z3.is_int_value(v.t):
                st.assume(z3.And(v.t >= v.shape.lo, v.t <= v.shape.hi))
            return v
        if isinstance(x, ItVar):
            return It(x.base, self.get(st, x.lv).t, x.vid, x.rev)
        return x

    def put(self, st, lv, val, line=None):
        self.check_vid(st, lv.vid, line)

        def upd(v, path):
            if not path:
                if len(val.terms) != len(v.terms):
                    raise Unsupported('shape mismatch in store')
                return V(v.shape, val.terms)
            k, x = path[0]
            if k == 'f':
                return v.with_field(x, upd(v.field(x), path[1:]))
            return v.with_at(x, upd(v.at(x), path[1:]))
        st.mem[lv.root] = upd(st.mem[lv.root], lv.path)

    def new_vid(self, st, base):
        st.cnt += 1
        vid = f'v{st.tag}{st.cnt}'
        st.views[vid] = base
        return vid

    def alias(self, a, b):
        """condition under which two containers are the same object; None if never"""
        if a.root != b.root or len(a.path) != len(b.path):
            return None
        cs = []
        for (k, x), (l, y) in zip(a.path, b.path):
            if k != l:
                return None
            if k == 'f':
                if x != y:
                    return None
            elif not x.eq(y):
                if z3.is_int_value(x) and z3.is_int_value(y):
                    return None
                cs.append(x == y)
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def invalidate(self, st, lv):
        """the elements of container lv may have moved"""
        for vid, base in st.views.items():
            if base is None:
                continue
            bs = base if isinstance(base, tuple) else (base,)
            for b in bs:
                # b is lv itself, or an element of lv (or deeper)
                if len(b.path) >= len(lv.path):
                    c = self.alias(LV(b.root, b.path[:len(lv.path)]), lv)
                    if c is not None and (len(b.path) == len(lv.path) or b.path[len(lv.path)][0] == 'i'):
                        st.inval[vid] = list(st.inval.get(vid, [])) + [c]

    def havoc_lv(self, st, lv, hint):
        self.put(st, lv, self.fresh_val(st, hint, self.shape_of(st, lv)))

    def len_of(self, st, lv, line=None):
        v = self.load(st, lv, line)
        n = v.len
        st.assume(z3.And(n >= 0, n <= MAXLEN))
        return n

    def elem(self, st, lv, idx, line, what='index in bounds'):
        """reference to element idx of container lv"""
        n = self.len_of(st, lv, line)
        self.oblige(st, z3.And(idx >= 0, idx < n), 'bounds', line, what)
        st.assume(z3.And(idx >= 0, idx < n))
        return LV(lv.root, lv.path + (('i', idx),), lv.vid)

    # ---- integers -----------------------------------------------------------------------------------
    def wrap(self, st, t, shape, line, arith=True):
        """bring the mathematical result t into the type; signed overflow is an obligation"""
        lo, hi = shape.lo, shape.hi
        if z3.is_int_value(t):
            v = t.as_long()
            if lo <= v <= hi:
                return t
        inr = z3.And(t >= lo, t <= hi)
        if shape.signed and arith:
            self.oblige(st, inr, 'overflow', line, 'no signed overflow')
            st.assume(inr)
            return t
        if self.entails(st, inr):
            return t
        if shape.signed:
            m = 2 ** shape.w
            return (t + m // 2) % m - m // 2
        if getattr(shape, 'enum', None):
            return t
        return t % (2 ** shape.w)

    def to_bool(self, st, v):
        if isinstance(v, V):
            if v.shape.kind == 'bool':
                return v.t
            if v.shape.kind == 'int':
                return v.t != 0
            if v.shape.kind == 'real':
                return v.t != 0
        raise Unsupported(f'condition {v}')

    def mk(self, ti, t):
        return V(self.p.shape(ti), [t])

    def boolv(self, t):
        return V(BOOL, [t if not isinstance(t, bool) else z3.BoolVal(t)])

    def sizev(self, t):
        return V(SIZE, [t])

    # ---- expressions ----------------------------------------------------------------------------------
    def ev(self, st, e):
        """value or reference"""
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported(f'expression {e["k"]} {e.get("what", "")} (line {e.get("l")})')
        return m(st, e)

    def rv(self, st, e):
        """value"""
        return self.load(st, self.ev(st, e), e.get('l'))

    def term(self, st, e):
        v = self.rv(st, e)
        if not isinstance(v, V):
            raise Unsupported(f'scalar expected (line {e.get("l")})')
        return v.t

    def e_Int(self, st, e):
        return self.mk(e['t'], intv(int(e['v'])))

    def e_Bool(self, st, e):
        return self.boolv(bool(e['v']))

    def e_Real(self, st, e):
        f = Fraction(repr(float(e['v'])))
        return V(REAL, [z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)])

    def str_val(self, codes):
        arr = z3.K(Int, intv(0))
        for i, c in enumerate(codes):
            arr = z3.Store(arr, intv(i), intv(c if c < 128 else c - 256))
        return V(STRING, [intv(len(codes)), arr])

    def e_Str(self, st, e):
        return self.str_val(e['v'])

    def e_Null(self, st, e):
        return None

    def e_Zero(self, st, e):
        return self.default(st, e['t'])

    def e_This(self, st, e):
        if st.this is None:
            raise Unsupported('this')
        return st.this

    def e_Load(self, st, e):
        return self.load(st, self.ev(st, e['e']), e.get('l'))

    def e_Temp(self, st, e):
        v = self.ev(st, e['e'])
        if isinstance(v, V):
            return self.new_root(st, 'tmp', v)
        return v

    def e_Ref(self, st, e):
        d = e['d']
        if d == 'enum':
            return self.mk(e['t'], intv(int(e['v'])))
        if d == 'var':
            if e['id'] not in st.env:
                raise Unsupported(f'unbound variable {e["name"]}')
            return st.env[e['id']]
        if d == 'global':
            return self.global_(st, e)
        if d == 'func':
            return FnRef(e['f'])
        if d == 'binding':
            if e['id'] in st.env:
                return st.env[e['id']]
            return self.ev(st, e['b'])
        raise Unsupported(f'reference to {e.get("name")} ({d})')

    def global_(self, st, e):
        q = e['q']
        if q == 'std::nullopt':
            return 'nullopt'
        if q.endswith('basic_string::npos'):
            return V(SIZE, [intv(2 ** 64 - 1)])
        g = self.p.globals.get(e['id'])
        if g is None:
            raise Unsupported(f'global {q}')
        if not g.get('const'):
            self.notes.add(f'mutable global {q}')
            raise Unsupported(f'mutable global {q}')
        if 'int' in g:
            return self.mk(e['t'], intv(int(g['int'])))
        if 'init' in g and g['init']:
            return self.rv(st, g['init'])
        return self.lib.global_value(self, st, e)

    def e_Member(self, st, e):
        b = self.ev(st, e['e'])
        if isinstance(b, ItVar):
            b = self.load(st, b)
        if isinstance(b, It):
            b = self.deref(st, b, e.get('l'))
        if isinstance(b, V):
            return b.field(e['name'])
        if isinstance(b, LV):
            s = self.shape_of(st, b)
            if s.kind == 'struct' and e['name'] in s.refs:
                k = (b.root, b.path, e['name'])
                if k not in st.refs:
                    raise Unsupported(f'reference member {e["name"]} is not bound')
                return st.refs[k]
            return b.f(e['name'])
        raise Unsupported(f'member {e["name"]} of {b}')

    def deref(self, st, it, line):
        if isinstance(it, LV):
            return it  # a pointer to an object is that object
        it = self.load(st, it)
        if isinstance(it, It):
            self.check_vid(st, it.vid, line)
            idx = it.idx
            if it.rev:
                idx = self.len_of(st, it.base) - 1 - idx
            if isinstance(it.base, V):
                self.oblige(st, z3.And(idx >= 0, idx < it.base.len), 'bounds', line, 'dereference in bounds')
                return it.base.at(idx)
            r = self.elem(st, it.base, idx, line, 'dereference in bounds')
            return LV(r.root, r.path, it.vid)
        if isinstance(it, LV):
            return it
        raise Unsupported(f'dereference {it}')

    def e_Index(self, st, e):
        a = self.rv(st, e['a'])
        i = self.term(st, e['b'])
        if isinstance(a, It):
            return self.deref(st, It(a.base, a.idx + i, a.vid), e.get('l'))
        if isinstance(a, V):
            self.oblige(st, z3.And(i >= 0, i < a.len), 'bounds', e.get('l'), 'index in bounds')
            return a.at(i)
        raise Unsupported('subscript')

    def e_Un(self, st, e):
        op = e['op']
        if op in ('++', '--'):
            lv = self.ev(st, e['e'])
            old = self.load(st, lv, e.get('l'))
            if isinstance(old, It):
                self.set_it(st, lv, old.idx + (1 if op == '++' else -1))
                return old if e['post'] else lv
            sh = old.shape
            if sh.kind == 'real':
                new = V(sh, [old.t + (1 if op == '++' else -1)])
            else:
                new = V(sh, [self.wrap(st, old.t + (1 if op == '++' else -1), sh, e.get('l'))])
            self.put(st, lv, new, e.get('l'))
            return old if e['post'] else lv
        if op == '*':
            return self.deref(st, self.ev(st, e['e']), e.get('l'))
        if op == '&':
            self.addr_of = e['e']  # s[size()] of a string has an address
            v = self.ev(st, e['e'])
            self.addr_of = None
            if isinstance(v, LV) and v.path and v.path[-1][0] == 'i':
                return It(LV(v.root, v.path[:-1]), v.path[-1][1], v.vid)
            return v
        v = self.rv(st, e['e'])
        if op == '!':
            return self.boolv(z3.Not(self.to_bool(st, v)))
        if op == '-':
            if v.shape.kind == 'real':
                return V(REAL, [-v.t])
            return self.mk(e['t'], self.wrap(st, -v.t, self.p.shape(e['t']), e.get('l')))
        if op == '+':
            return v
        raise Unsupported(f'unary {op}')

    def set_it(self, st, b, idx):
        if not isinstance(b, ItVar):
            raise Unsupported('iterator assignment')
        self.put(st, b.lv, V(I64, [idx]))

    def arith(self, st, op, a, b, shape, line):
        if shape.kind == 'real':
            if op == '/' and z3.is_app(b) and b.decl().name() == 'log' and b.num_args() == 1:
                # log(0) is -infinity, and a finite number divided by it is zero
                return V(shape, [z3.If(b.arg(0) == 0, z3.RealVal(0), a / b)])
            if op == '*' and getattr(self.contract, 'nonlin', False):
                # theorems of real arithmetic that the solvers do not find by themselves
                for x, y in ((a, b), (b, a)):
                    st.assume(z3.And(
                        z3.Implies(z3.And(x >= 0, y >= 0), a * b >= 0), z3.Implies(z3.And(x > 0, y > 0), a * b > 0),
                        z3.Implies(z3.And(x >= 0, x <= 1, y >= 0), a * b <= y),
                        z3.Implies(z3.And(x >= 0, x < 1, y > 0), a * b < y)))
            r = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a / b}.get(op)
            if r is None:
                raise Unsupported(f'real {op}')
            return V(shape, [r()])
        if shape.kind == 'bool':
            raise Unsupported(f'bool {op}')
        if op in ('+', '-', '*'):
            t = a + b if op == '+' else a - b if op == '-' else a * b
            return V(shape, [self.wrap(st, t, shape, line)])
        if op in ('/', '%'):
            self.oblige(st, b != 0, 'divzero', line, 'no division by zero')
            st.assume(b != 0)
            if shape.signed and not (self.entails(st, z3.And(a >= 0, b > 0))):
                # C++ truncates towards zero
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                t = q if op == '/' else a - b * q
                return V(shape, [self.wrap(st, t, shape, line)])
            return V(shape, [a / b if op == '/' else a % b])
        if op == '<<':
            if z3.is_int_value(b):
                return V(shape, [self.wrap(st, a * 2 ** b.as_long(), shape, line, arith=False)])
        if op == '>>':
            if z3.is_int_value(b) and not shape.signed:
                return V(shape, [a / 2 ** b.as_long()])
        if op == '&' and z3.is_int_value(b) and b.as_long() == 1:
            return V(shape, [a % 2])
        raise Unsupported(f'integer {op} (line {line})')

    def compare(self, st, op, a, b):
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()

    def e_Bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.to_bool(st, self.rv(st, e['a']))
            sa = z3.simplify(a)
            if z3.is_true(sa) or z3.is_false(sa):
                if z3.is_true(sa) == (op == '&&'):
                    return self.boolv(self.to_bool(st, self.rv(st, e['b'])))
                return self.boolv(z3.is_true(sa))
            neg = z3.Not(a)

            def thunk(s):
                if self.choose(s, [a, neg] if op == '&&' else [neg, a]) == 0:
                    return self.boolv(self.to_bool(s, self.rv(s, e['b'])))
                return self.boolv(op == '||')
            v = self.sub(st, thunk, returns=False)
            return self.boolv(z3.simplify(v.t) if not has_quant(v.t) else v.t)
        if op == ',':
            self.ev(st, e['a'])
            return self.ev(st, e['b'])
        a, b = self.rv(st, e['a']), self.rv(st, e['b'])
        return self.binop(st, op, a, b, e)

    def binop(self, st, op, a, b, e):
        if isinstance(a, It) or isinstance(b, It):
            if isinstance(a, It) and isinstance(b, It):
                if op == '-':
                    return V(I64, [(a.idx - b.idx)])
                return self.boolv(self.compare(st, op, a.idx, b.idx))
            it, n = (a, b) if isinstance(a, It) else (b, a)
            if op == '+':
                return It(it.base, it.idx + n.t, it.vid, it.rev)
            if op == '-':
                return It(it.base, it.idx - n.t, it.vid, it.rev)
            raise Unsupported(f'iterator {op}')
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if not (isinstance(a, V) and isinstance(b, V)):
                raise Unsupported(f'comparison {op}')
            x, y = a.t, b.t
            if a.shape.kind == 'bool' and b.shape.kind != 'bool':
                x = z3.If(x, intv(1), intv(0))
            if b.shape.kind == 'bool' and a.shape.kind != 'bool':
                y = z3.If(y, intv(1), intv(0))
            return self.boolv(self.compare(st, op, x, y))
        return self.arith(st, op, a.t, b.t, self.p.shape(e['t']), e.get('l'))

    def e_Asg(self, st, e):
        b = self.rv(st, e['b'])
        lv = self.ev(st, e['a'])
        if isinstance(lv, ItVar):
            return self.assign_it(st, lv, b)
        self.put(st, lv, b, e.get('l'))
        return lv

    def assign_it(self, st, lv, b):
        if self.same_base(lv.base, b.base):
            self.put(st, lv.lv, V(I64, [b.idx]))
            return lv
        raise Unsupported('iterator reassigned to another container')

    def same_base(self, a, b):
        return isinstance(a, LV) and isinstance(b, LV) and a.root == b.root and repr(a.path) == repr(b.path)

    def e_CAsg(self, st, e):
        b = self.rv(st, e['b'])
        lv = self.ev(st, e['a'])
        a = self.load(st, lv, e.get('l'))
        if isinstance(a, It):
            self.set_it(st, lv, a.idx + b.t if e['op'] == '+' else a.idx - b.t)
            return lv
        cs = self.p.shape(e['ct'])
        x = self.convert(st, a, self.p.shape(e['clt']), e.get('l'))
        y = self.convert(st, b, cs, e.get('l')) if e['op'] not in ('<<', '>>') else b
        r = self.arith(st, e['op'], x.t, y.t, cs, e.get('l'))
        self.put(st, lv, self.convert(st, r, a.shape, e.get('l')), e.get('l'))
        return lv

    def e_Cond(self, st, e):
        c = self.to_bool(st, self.rv(st, e['c']))

        def thunk(s):
            if self.choose(s, [c, z3.Not(c)]) == 0:
                return self.ev(s, e['a']) if e.get('lv') else self.rv(s, e['a'])
            return self.ev(s, e['b']) if e.get('lv') else self.rv(s, e['b'])
        return self.sub(st, thunk, returns=False)

    def convert(self, st, v, shape, line):
        """arithmetic conversion"""
        v = self.convert_exact(st, v, shape, line)
        if isinstance(v, V) and getattr(shape, 'single', False) and not z3.is_rational_value(v.t) and v.t.decl() is not to_single:
            return V(shape, [to_single(v.t)])
        return v

    def convert_exact(self, st, v, shape, line):
        """arithmetic conversion"""
        if isinstance(v, LV):
            v = self.load(st, v, line)
        if not isinstance(v, V):
            return v
        a, b = v.shape.kind, shape.kind
        if a == 'bool' and b == 'int':
            return V(shape, [z3.If(v.t, intv(1), intv(0))])
        if a == 'bool' and b == 'real':
            return V(shape, [z3.If(v.t, realv(1), realv(0))])
        if a == 'int' and b == 'int':
            return V(shape, [self.wrap(st, v.t, shape, line, arith=False)])
        if a == 'int' and b == 'real':
            if z3.is_int_value(v.t):
                return V(shape, [realv(v.t.as_long())])
            return V(shape, [z3.ToReal(v.t)])
        if a == 'real' and b == 'int':
            # truncation towards zero; out of range is undefined behaviour
            if z3.is_app_of(v.t, z3.Z3_OP_TO_REAL):
                return V(shape, [self.wrap(st, v.t.arg(0), shape, line, arith=False)])
            if self.entails(st, v.t >= 0):
                t = z3.ToInt(v.t)
            elif self.entails(st, v.t <= 0):
                t = -z3.ToInt(-v.t)
            else:
                t = z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
            self.oblige(st, z3.And(t >= shape.lo, t <= shape.hi), 'conversion', line, 'float to int in range')
            st.assume(z3.And(t >= shape.lo, t <= shape.hi))
            return V(shape, [t])
        if b == 'bool':
            return self.boolv(self.to_bool(st, v))
        if a == b:
            return V(shape, v.terms) if a != 'struct' else v
        raise Unsupported(f'conversion {v.shape} to {shape}')

    def e_Cast(self, st, e):
        ck = e['ck']
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'FunctionToPointerDecay',
                  'BuiltinFnToFnPtr'):
            return self.ev(st, e['e'])
        if ck == 'ToVoid':
            self.ev(st, e['e'])
            return None
        if ck == 'ArrayToPointerDecay':
            v = self.ev(st, e['e'])
            return v
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean',
                  'FloatingToBoolean', 'BooleanToSignedIntegral'):
            v = self.rv(st, e['e'])
            return self.convert(st, v, self.p.shape(e['t']), e.get('l'))
        if ck == 'NullToPointer':
            return None
        if ck == 'PointerToBoolean':
            v = self.ev(st, e['e'])
            return self.lib.ptr_to_bool(self, st, v)
        raise Unsupported(f'cast {ck} (line {e.get("l")})')

    def e_InitList(self, st, e):
        t = self.p.ty(self.p.strip(e['t']))
        if t['k'] == 'arr':
            vals = [self.rv(st, a) for a in e['args']]
            n = t['n']
            if len(vals) < n:
                fill = self.rv(st, e['filler']) if e.get('filler') else self.default(st, t['to'])
                vals += [fill] * (n - len(vals))
            return self.mk_vec(self.p.shape(e['t']), vals)
        sh = self.p.shape(e['t'])
        if sh is None:
            raise Unsupported('initializer list')
        if sh.kind == 'vec' and sh.tag == 'array':
            if len(e['args']) == 1:
                a = self.rv(st, e['args'][0])
                return V(sh, a.terms)
            return self.default(st, e['t'])
        if sh.kind == 'struct':
            names = list(sh.fields)
            if len(e['args']) > len(names):
                raise Unsupported('aggregate initialisation')
            v = default_value(sh)
            for n, a in zip(names, e['args']):
                x = self.rv(st, a)
                v = v.with_field(n, self.convert(st, x, sh.fields[n], e.get('l')))
            if len(e['args']) < len(names):
                raise Unsupported('partial aggregate initialisation')
            return v
        if len(e['args']) == 1:
            return self.rv(st, e['args'][0])
        if not e['args']:
            return default_value(sh)
        raise Unsupported('initializer list')

    def mk_vec(self, sh, vals):
        out = [intv(len(vals))]
        for j, (p, b, d, rg) in enumerate(sh.elem.leaves):
            arr = default_leaf(b, d + 1)
            for i, v in enumerate(vals):
                arr = z3.Store(arr, intv(i), v.terms[j])
            out.append(arr)
        return V(sh, out)

    def e_StdInit(self, st, e):
        x = e['e']
        while x['k'] in ('Temp', 'Cast'):
            x = x['e']
        if x['k'] != 'InitList':
            raise Unsupported('std::initializer_list')
        return Elems([self.rv(st, a) for a in x['args']])

    def e_Lambda(self, st, e):
        caps, this = {}, None
        for c in e['caps']:
            if c.get('this'):
                this = st.this
                continue
            b = st.env.get(c['id'])
            if b is None:
                raise Unsupported(f'capture of {c.get("name")}')
            if not c['byref'] and isinstance(b, LV):
                caps[c['id']] = self.new_root(st, c.get('name', 'cap'), self.load(st, b))
            else:
                caps[c['id']] = b
        return Closure(e['rid'], caps, this)

    def e_Throw(self, st, e):
        x = e.get('e')
        ty = self.p.ty(x['t'])['s'] if x else '?'
        raise ThrowExc(ty)

    # ---- construction -----------------------------------------------------------------------------------
    def default(self, st, ti):
        """value of T{}"""
        ti = self.p.strip(ti)
        sh = self.p.shape(ti)
        if sh is None:
            raise Unsupported(f'default value of {self.p.tstr(ti)}')
        if sh.kind == 'struct' and sh.tag == 'user':
            return self.default_user(st, sh)
        if sh.kind == 'vec' and sh.tag == 'array':
            v = default_value(sh)
            ev = self.default(st, self.p.ty(ti)['args'][0]['t']) if self.p.ty(ti)['k'] == 'rec' else None
            return V(sh, [intv(sh.n)] + (const_elems(ev) if ev else list(v.terms[1:])))
        return self.lib.default_std(self, st, sh)

    def default_user(self, st, sh):
        # an explicit default constructor, else member initialisers
        for f in self.p.funcs.values():
            if f.get('ctor') and not f['params'] and self.p.strip(f['cls']) == self.p.strip(sh.tidx) \
                    and f.get('body') is not None:
                return self.construct_user(st, f, [], sh)
        v = default_value(sh)
        for (n, ft, init, r) in self.p.fields_of(sh.rid):
            if n not in sh.fields:
                continue
            x = self.rv(st, init) if init else self.default(st, ft)
            v = v.with_field(n, self.convert(st, x, sh.fields[n], None))
        return v

    def e_Construct(self, st, e):
        f = e['f']
        sh = self.p.shape(e['t'])
        t = self.p.ty(self.p.strip(e['t']))
        if f.get('cm') and (f.get('dflt') or not f['user']) and len(e['args']) == 1:
            x = self.ev(st, e['args'][0])
            if isinstance(x, (LV,)):
                v = self.load(st, x, e.get('l'))
                if self.p.ty(f['params'][0]).get('rv') and isinstance(x, LV):
                    self.moved_from(st, x)
                return v
            return self.load(st, x)
        if f['user'] and sh is not None:
            g = self.p.funcs.get(f['id'])
            args = e['args']
            if g is None or g.get('body') is None:
                if f.get('dc'):
                    return self.default_user(st, sh)
                raise Unsupported(f'constructor {f["q"]} without body')
            c = self.contracts(g)
            if c is not None and c.modular and g is not self.fn:
                self.used_contracts.add(g['id'])
                lv = self.new_root(st, 'obj', self.fresh_val(st, 'obj', sh))
                self.apply_contract(st, c, g, lv, [self.ev(st, a) for a in args], e.get('l'), ctor=True)
                return self.load(st, lv)
            return self.construct_user(st, g, args, sh)
        return self.lib.construct(self, st, e, t, sh)

    def moved_from(self, st, lv):
        """a moved-from object has an unspecified value"""
        sh = self.shape_of(st, lv)
        if sh.kind == 'vec':
            self.invalidate_move(st, lv)
            self.put(st, lv, self.fresh_val(st, 'moved', sh))

    def invalidate_move(self, st, lv):
        self.invalidate(st, lv)

    def construct_user(self, st, g, args, sh, evaluated=False):
        """run a constructor; returns the value (an object without identity)"""
        vals = args if evaluated else [self.ev(st, a) for a in args]
        lv = self.new_root(st, 'obj', default_value(sh))

        def thunk(s):
            self.bind_params(s, g, vals)
            self.run_ctor(s, g, lv, sh)
            return None
        saved = (st.this, dict(st.env), dict(st.names))
        self.sub_call(st, g, thunk)
        st.this, st.env, st.names = saved[0], {**st.env, **saved[1]}, saved[2]
        v = self.get(st, lv)
        # reference members live beside the value
        return self.with_refs(st, lv, v)

    def with_refs(self, st, lv, v):
        if v.shape.kind == 'struct' and v.shape.refs:
            return lv
        return v

    def run_ctor(self, st, g, lv, sh):
        st.this = lv
        done = set()
        for i in g.get('inits', []):
            if 'field' in i:
                n = i['field']
                done.add(n)
                if n in sh.refs:
                    b = self.ev(st, i['e'])
                    st.refs[(lv.root, lv.path, n)] = b
                    continue
                x = self.rv(st, i['e'])
                if isinstance(x, LV):
                    x = self.load(st, x)
                if not isinstance(x, V):
                    x = self.lib.coerce(self, st, x, sh.fields[n])
                if n not in sh.fields:
                    raise Unsupported(f'member {n}')
                self.put(st, lv.f(n), self.convert(st, x, sh.fields[n], g.get('l')))
            elif 'base' in i:
                ce = i['e']
                if ce['k'] != 'Construct':
                    raise Unsupported('base initialiser')
                bg = self.p.funcs.get(ce['f']['id'])
                if bg is None or bg.get('body') is None:
                    if ce['f'].get('dc'):
                        bsh = self.p.shape(i['base'])
                        v = self.default_user(st, bsh)
                        for n in bsh.fields:
                            self.put(st, lv.f(n), v.field(n))
                        continue
                    raise Unsupported('base constructor without body')
                vals = [self.ev(st, a) for a in ce['args']]
                saved_env, saved_names = dict(st.env), dict(st.names)
                c = self.contracts(bg)
                if c is not None and c.modular:
                    self.used_contracts.add(bg['id'])
                    for n, x in self.p.shape(i['base']).fields.items():
                        self.put(st, lv.f(n), self.fresh_val(st, n, x))
                    self.apply_contract(st, c, bg, lv, vals, bg.get('l'), ctor=True)
                else:
                    self.inlined.add(bg['q'])
                    self.bind_params(st, bg, vals)
                    self.run_ctor(st, bg, lv, sh)
                st.env.update(saved_env)
                st.names = saved_names
                st.this = lv
            else:
                raise Unsupported('constructor initialiser')
        try:
            self.stmt(st, g['body'])
        except ReturnExc:
            pass

    # ---- calls ------------------------------------------------------------------------------------------
    def bind_params(self, st, g, vals):
        for p, v in zip(g['params'], vals):
            self.bind(st, p, v)

    def bind(self, st, p, v):
        """bind variable p (id, name, t) to v"""
        t = self.p.ty(p['t'])
        if p.get('name'):
            st.names[p['name']] = p['id']
        if isinstance(v, (Closure, Abstract, FnRef)):
            st.env[p['id']] = v
            return
        if t['k'] == 'ref':
            if isinstance(v, V):
                sh = self.p.shape(p['t'])
                if sh is not None and sh.kind != v.shape.kind:
                    v = self.convert(st, v, sh, None)
                v = self.new_root(st, p.get('name') or 'arg', v)
            elif isinstance(v, LV) and any(k == 'i' for k, _ in v.path):
                # a reference into a container: remember the containers whose reallocation invalidates it
                bases = tuple(LV(v.root, v.path[:j]) for j, (k, _) in enumerate(v.path) if k == 'i')
                v = LV(v.root, v.path, self.new_vid(st, bases))
            elif isinstance(v, It):
                v = self.it_var(st, p, v)
            elif not isinstance(v, LV):
                sh = self.p.shape(p['t'])
                if sh is not None and not isinstance(v, (ItVar,)):
                    v = self.new_root(st, p.get('name') or 'arg', self.lib.coerce(self, st, v, sh))
            st.env[p['id']] = v
            return
        v = self.load(st, v)
        sh = self.p.shape(p['t'])
        if sh is not None and not isinstance(v, V):
            v = self.lib.coerce(self, st, v, sh)
        if isinstance(v, V):
            if sh is not None and v.shape.kind != sh.kind or (sh is not None and sh.kind == 'int'):
                v = self.convert(st, v, sh, None) if sh.kind in ('int', 'real', 'bool') else v
            st.env[p['id']] = self.new_root(st, p.get('name') or 'arg', v)
        elif isinstance(v, It):
            st.env[p['id']] = self.it_var(st, p, v)
        else:
            st.env[p['id']] = v

    def it_var(self, st, p, v):
        lv = self.new_root(st, p.get('name') or 'it', V(I64, [v.idx]))
        return ItVar(v.base, lv, v.vid, v.rev)

    def sub_call(self, st, g, thunk):
        self.depth += 1
        if self.depth > 12:
            self.depth -= 1
            raise Unsupported(f'recursion without contract: {g["q"]}')
        try:
            return self.sub(st, thunk)
        finally:
            self.depth -= 1

    def call_user(self, st, g, obj, vals, line, closure=None):
        c = self.contracts(g)
        if c is not None and c.modular and not (self.contract is not None and g['q'] in self.contract.inline):
            self.used_contracts.add(g['id'])
            return self.apply_contract(st, c, g, obj, vals, line)
        return self.inline(st, g, obj, vals, line, closure)

    def inline(self, st, g, obj, vals, line, closure=None):
        if g.get('body') is None:
            if g.get('dflt'):
                raise Unsupported(f'defaulted {g["q"]}')
            raise Unsupported(f'no body of {g["q"]}')
        self.inlined.add(g['q'])

        def thunk(s):
            if closure is not None:
                s.env.update(closure.caps)
                s.this = closure.this
            elif obj is not None:
                s.this = obj
            self.bind_params(s, g, vals)
            self.stmt(s, g['body'])
            return None
        saved = (st.this, dict(st.env), dict(st.names))
        v = self.sub_call(st, g, thunk)
        st.this = saved[0]
        st.env = {**st.env, **saved[1]}
        st.names = saved[2]
        rt = self.p.ty(g['ret'])
        if rt['k'] != 'ref' and isinstance(v, (LV,)):
            v = self.load(st, v, line)
        if isinstance(v, V) and rt['k'] in ('int', 'real', 'bool', 'enum'):
            v = self.convert(st, v, self.p.shape(g['ret']), line)
        return v

    def e_Call(self, st, e):
        f = e.get('f')
        line = e.get('l')
        if f is None:
            raise Unsupported(f'indirect call (line {line})')
        if f['user']:
            g = self.p.funcs.get(f['id'])
            if f.get('asg') and (g is None or g.get('dflt') or g.get('body') is None):
                # memberwise assignment
                a = e['args']
                obj = self.ev(st, e['obj']) if 'obj' in e else self.ev(st, a[0])
                src = self.ev(st, a[-1])
                v = self.load(st, src, line)
                self.put(st, obj, v, line)
                self.invalidate_deep(st, obj)
                return obj
            if g is None:
                raise Unsupported(f'call of {f["q"]}')
            closure = None
            obj = None
            args = e['args']
            if e.get('opm'):
                obj = self.ev(st, args[0])
                args = args[1:]
            elif 'obj' in e:
                obj = self.ev(st, e['obj'])
            if isinstance(obj, ItVar) or isinstance(obj, It):
                obj = self.deref(st, obj, line)
            if isinstance(obj, Closure):
                closure = obj
                obj = None
            if isinstance(obj, Abstract):
                vals = [self.ev(st, a) for a in args]
                return self.lib.call_abstract(self, st, obj, g, vals, e)
            if isinstance(obj, V):
                obj = self.new_root(st, 'tmp', obj)
            if obj is None and closure is None and 'cls' in f and not f.get('static'):
                raise Unsupported(f'call of {f["q"]} on unknown object')
            vals = [self.ev(st, a) for a in args]
            if f.get('virt') and not e.get('qual') and isinstance(obj, LV):
                if obj.root.startswith('owned:') and not obj.path:
                    # the dynamic type is not known: the contract that every overrider satisfies
                    c = self.contracts.__self__.virtual(g)
                    if c is None:
                        raise Unsupported(f'virtual call of {g["q"]} on an object of unknown class (line {line})')
                    return self.apply_contract(st, c, g, obj, vals, line)
                g = self.dispatch(st, g, obj)
            return self.call_user(st, g, obj, vals, line, closure)
        return self.lib.call(self, st, e, f)

    def dispatch(self, st, g, obj):
        """virtual call: the dynamic type is the shape of the object (symbolic objects are of their exact type)"""
        sh = self.shape_of(st, obj)
        if sh.kind != 'struct' or sh.rid is None:
            raise Unsupported(f'virtual call {g["q"]}')
        cands = [sh.rid] + self.p.bases_of(sh.rid)
        name = g['q'].split('::')[-1]
        for rid in cands:
            for h in self.p.funcs.values():
                if 'cls' in h and not h.get('static') and h['q'].split('::')[-1] == name \
                        and self.p.ty(self.p.strip(h['cls'])).get('rid') == rid and len(h['params']) == len(g['params']):
                    if h.get('body') is not None:
                        return h
        return g

    def invalidate_deep(self, st, lv):
        """an object was overwritten: views into any container inside it are gone"""
        for vid, base in list(st.views.items()):
            if base is None:
                continue
            for b in (base if isinstance(base, tuple) else (base,)):
                if len(b.path) >= len(lv.path):
                    c = self.alias(LV(b.root, b.path[:len(lv.path)]), lv)
                    if c is not None:
                        st.inval[vid] = list(st.inval.get(vid, [])) + [c]

    def call_closure(self, st, cl, vals, line):
        """call a callable with evaluated arguments"""
        if isinstance(cl, Closure):
            calls = self.p.recs[cl.rid]['calls']
            cands = [self.p.funcs[c['id']] for c in calls if c['id'] in self.p.funcs
                     and self.p.funcs[c['id']].get('body') is not None and len(c['params']) == len(vals)]
            best = [g for g in cands if all(self.arg_ok(st, p, v) for p, v in zip(g['params'], vals))]
            if not best:
                raise Unsupported('call of a lambda: no instantiation')
            return self.call_user(st, best[0], None, vals, line, cl)
        if isinstance(cl, FnRef):
            g = self.p.funcs.get(cl.f['id'])
            if g is not None:
                return self.call_user(st, g, None, vals, line)
        if isinstance(cl, Abstract):
            return self.lib.call_abstract(self, st, cl, None, vals, None)
        raise Unsupported(f'call of {cl}')

    def arg_ok(self, st, p, v):
        sh = self.p.shape(p['t'])
        v2 = self.load(st, v) if isinstance(v, LV) else v
        if sh is None or not isinstance(v2, V):
            return True
        return sh.kind == v2.shape.kind

    # ---- contracts ----------------------------------------------------------------------------------------
    def apply_contract(self, st, c, g, obj, vals, line, ctor=False):
        from .spec import CallCtx
        # materialise the arguments
        args = []
        for p, v in zip(g['params'], vals):
            t = self.p.ty(p['t'])
            if t['k'] != 'ref':
                v = self.load(st, v, line)
                if isinstance(v, V) and v.shape.kind in ('int', 'real', 'bool'):
                    v = self.convert(st, v, self.p.shape(p['t']), line)
                elif not isinstance(v, (V, Closure, Abstract, FnRef)) and self.p.shape(p['t']) is not None:
                    v = self.lib.coerce(self, st, v, self.p.shape(p['t']))
            elif isinstance(v, (Closure, Abstract, FnRef)):
                pass
            elif isinstance(v, V):
                v = self.new_root(st, 'arg', v)
            elif not isinstance(v, LV) and self.p.shape(p['t']) is not None:
                v = self.new_root(st, 'arg', self.lib.coerce(self, st, v, self.p.shape(p['t'])))
            args.append(v)
        aliased = False
        if c.no_alias:
            lvs = [(a, self.p.ty(p['t'])) for a, p in zip(args, g['params']) if isinstance(a, LV)]
            for i in range(len(lvs)):
                for j in range(i):
                    al = self.alias(lvs[i][0], lvs[j][0])
                    if al is not None:
                        if z3.is_true(z3.simplify(al)) or self.choose(st, [z3.Not(al), al]) == 1:
                            if c.alias_post is not None:
                                aliased = True
                                break
                            return self.inline(st, g, obj, vals, line)
        pre = st.copy()
        ctx = CallCtx(self, g, pre, st, obj, args, None)
        for name, t in c.pre(ctx):
            self.oblige(st, t, 'requires', line, f'precondition of {g["q"].split("::")[-1]}: {name}')
            st.assume(t)
        if c.dec is not None and g is self.fn:
            m0, m1 = c.dec(self.cctx), c.dec(ctx)
            self.oblige(st, z3.And(m1 >= 0, m1 < m0), 'variant', line, f'the recursion of {g["q"].split("::")[-1]} terminates')
        thr = c.throws(ctx)
        if thr is not None:
            if self.choose(st, [z3.Not(thr), thr]) == 1:
                raise ThrowExc('std::runtime_error')
        for lv in c.modifies(ctx):
            hint = str(lv.path[-1][1]) if lv.path and lv.path[-1][0] == 'f' else lv.root.split('#')[0]
            self.put(st, lv, self.fresh_val(st, hint, self.shape_of(st, lv)))
            self.invalidate_deep(st, lv)
        if not ctx.fns_stable(st):
            self.oblige(st, z3.BoolVal(False), 'requires', line,
                        f'the callback passed to {g["q"].split("::")[-1]} does not read what the call writes')
        rt = self.p.ty(g['ret'])
        res = None
        if not ctor and rt['k'] != 'void':
            if c.result is not None:
                res = c.result(ctx)
            else:
                sh = self.p.shape(g['ret'])
                if sh is None or rt['k'] == 'ref':
                    raise Unsupported(f'contract result of type {rt["s"]}')
                res = self.fresh_val(st, 'res', sh)
        ctx.res = res
        ctx.post = st
        for name, t in (c.alias_post if aliased else c.post)(ctx):
            st.assume(t)
        if c.effect is not None:
            for n, t in c.effect(ctx).items():
                if 'ghost:' + n in st.mem:
                    st.mem['ghost:' + n] = V(st.mem['ghost:' + n].shape, [t])
        return res

    # ---- statements -------------------------------------------------------------------------------------------
    def stmt(self, st, s):
        if s is None:
            return
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            raise Unsupported(f'statement {s["k"]} {s.get("what", "")}')
        m(st, s)

    def s_Block(self, st, s):
        for x in s['b']:
            self.stmt(st, x)

    def s_Expr(self, st, s):
        self.ev(st, s['e'])

    def s_Decl(self, st, s):
        for d in s['d']:
            self.declare(st, d)

    def declare(self, st, d):
        t = self.p.ty(d['t'])
        if d.get('static'):
            raise Unsupported('static local variable')
        if d.get('bindings'):
            v = self.ev(st, d['init'])
            st.env[d['id']] = v if isinstance(v, LV) and t['k'] == 'ref' else self.new_root(st, 'sb', self.load(st, v))
            for b in d['bindings']:
                if 'b' in b and b['b']:
                    st.env[b['id']] = self.ev(st, b['b'])
                else:
                    raise Unsupported('structured binding')
                st.names[b['name']] = b['id']
            return
        if d.get('init') is not None:
            if t['k'] == 'ref':
                v = self.ev(st, d['init'])
            else:
                v = self.ev(st, d['init'])
                if isinstance(v, LV) and self.p.shape(d['t']) is not None and self.p.shape(d['t']).kind == 'struct' \
                        and self.p.shape(d['t']).refs:
                    st.env[d['id']] = v
                    st.names[d['name']] = d['id']
                    return
                v = self.load(st, v, d.get('l'))
            self.bind(st, d, v)
            return
        sh = self.p.shape(d['t'])
        if sh is None:
            raise Unsupported(f'uninitialised {t["s"]}')
        if sh.kind in ('int', 'real', 'bool'):
            v = self.fresh_val(st, d['name'], sh)
        else:
            v = self.default(st, d['t'])
        st.names[d['name']] = d['id']
        st.env[d['id']] = self.new_root(st, d['name'], v)

    def s_If(self, st, s):
        if s.get('init'):
            self.stmt(st, s['init'])
        if s.get('cv'):
            self.declare(st, s['cv'])
        c = self.to_bool(st, self.rv(st, s['c']))
        sc = z3.simplify(c)
        if z3.is_true(sc):
            return self.stmt(st, s['a'])
        if z3.is_false(sc):
            return self.stmt(st, s['b'])
        if self.choose(st, [c, z3.Not(c)]) == 0:
            self.stmt(st, s['a'])
        else:
            self.stmt(st, s['b'])

    def s_Return(self, st, s):
        if not s.get('e'):
            raise ReturnExc(None)
        v = self.ev(st, s['e'])
        if isinstance(v, LV) and not s['e'].get('lv'):
            v = self.load(st, v)
        raise ReturnExc(v)

    def s_Break(self, st, s):
        raise BreakExc()

    def s_Continue(self, st, s):
        raise ContinueExc()

    def s_Switch(self, st, s):
        c = self.term(st, s['c'])
        body = s['b']['b'] if s['b']['k'] == 'Block' else [s['b']]
        # flatten labels
        items = []
        for x in body:
            labels = []
            while x['k'] in ('Case', 'Default'):
                labels.append(None if x['k'] == 'Default' else x['c'])
                x = x['b']
            items.append((labels, x))
        conds, starts, dflt = [], [], None
        for i, (labels, x) in enumerate(items):
            for l in labels:
                if l is None:
                    dflt = i
                else:
                    conds.append(c == self.term(st, l))
                    starts.append(i)
        opts = list(conds) + [z3.Not(z3.Or(*conds))]
        k = self.choose(st, opts)
        i = starts[k] if k < len(starts) else dflt
        if i is None:
            return
        try:
            for _, x in items[i:]:
                self.stmt(st, x)
        except BreakExc:
            pass

    # ---- loops --------------------------------------------------------------------------------------------------
    def s_For(self, st, s):
        if s.get('init'):
            self.stmt(st, s['init'])

        def cond(x):
            return z3.BoolVal(True) if not s.get('c') else self.to_bool(x, self.rv(x, s['c']))
        self.loop(st, s, cond, lambda x: self.stmt(x, s['b']), lambda x: s.get('inc') and self.ev(x, s['inc']))

    def s_While(self, st, s):
        def cond(x):
            if s.get('cv'):
                self.declare(x, s['cv'])
            return self.to_bool(x, self.rv(x, s['c']))
        self.loop(st, s, cond, lambda x: self.stmt(x, s['b']), lambda x: None)

    def s_Do(self, st, s):
        # body; while(c) body  -- with a first-iteration flag as in  while(first || c)
        first = self.new_root(st, 'first', self.boolv(True))

        def cond(x):
            def th(y):
                f = self.get(y, first).t
                if self.choose(y, [f, z3.Not(f)]) == 0:
                    return self.boolv(True)
                return self.boolv(self.to_bool(y, self.rv(y, s['c'])))
            return self.sub(x, th, returns=False).t

        def body(x):
            self.put(x, first, self.boolv(False))
            self.stmt(x, s['b'])
        self.loop(st, s, cond, body, lambda x: None)

    def s_Range(self, st, s):
        if s.get('init'):
            self.stmt(st, s['init'])
        r = self.ev(st, s['range'])
        if isinstance(r, V):
            r = self.new_root(st, 'range', r)
        if isinstance(r, View):
            base, off, n = r.base, r.off, r.len
            vid = r.vid
            self.pinned.add(vid)
        elif isinstance(r, LV):
            base, off = r, intv(0)
            n = self.len_of(st, r, s.get('l'))
            vid = self.new_vid(st, r)
            self.pinned.add(vid)
        elif isinstance(r, Elems):
            for v in r.vals:
                raise Unsupported('range over an initializer list')
        else:
            raise Unsupported(f'range over {r}')
        idx = self.new_root(st, 'idx', V(SIZE, [intv(0)]))
        nn = self.new_root(st, 'end', V(SIZE, [n]))  # the end is evaluated once

        def cond(x):
            return self.get(x, idx).t < self.get(x, nn).t

        def body(x):
            i = self.get(x, idx).t
            self.check_vid(x, vid, s.get('l'))
            if isinstance(base, V):
                v = base.at(off + i if not z3.is_int_value(off) or off.as_long() else i)
                self.bind(x, s['var'], v)
            else:
                j = i if z3.is_int_value(off) and off.as_long() == 0 else off + i
                lv = self.elem(x, base, j, s.get('l'), 'range element in bounds')
                x.views.setdefault(vid, base)
                t = self.p.ty(s['var']['t'])
                if s['var'].get('bindings'):
                    raise Unsupported('structured binding in range for')
                if t['k'] == 'ref':
                    x.names[s['var']['name']] = s['var']['id']
                    x.env[s['var']['id']] = LV(lv.root, lv.path, vid)
                else:
                    self.bind(x, s['var'], self.load(x, lv))
            self.stmt(x, s['b'])

        def inc(x):
            self.put(x, idx, V(SIZE, [self.get(x, idx).t + 1]))
        self.loop(st, s, cond, body, inc)

    def loop_no(self, node):
        k = id(node.get('node', node))
        if k not in self.loop_ids:
            self.loop_ids[k] = len(self.loop_ids)
        return self.loop_ids[k]

    def one_iteration(self, s, cond, body, inc, itlv):
        """cond is known to hold"""
        try:
            body(s)
        except ContinueExc:
            pass
        inc(s)
        self.put(s, itlv, V(I64, [self.get(s, itlv).t + 1]))

    def scan_mod(self, st, cond, body, inc, itlv, assume=()):
        """leaves modified by the loop: fixpoint of executing the body from a state with those leaves unknown"""
        key = None
        if self.scan:
            key = (self.loop_stack[-1][0], self.signature(st))
            if key in self.frames:
                roots = list(st.mem)
                return {(roots[i], j) for i, j in self.frames[key]}
        M = set()
        self.scan += 1
        try:
            for _ in range(8):
                s0 = st.copy()
                self.havoc(s0, M, 'scan')

                def thunk(s):
                    c = cond(s)
                    if self.choose(s, [c, z3.Not(c)]) == 0:
                        self.one_iteration(s, cond, body, inc, itlv)
                    return None
                res = self.explore(s0, thunk)
                new = set(M)
                for s, k, v in res:
                    for root in s0.mem:
                        a, b = s0.mem[root].terms, s.mem[root].terms
                        for j in range(len(a)):
                            if not a[j].eq(b[j]):
                                new.add((root, j))
                if new == M:
                    break
                M = new
            else:
                raise Unsupported('loop frame does not stabilise')
        finally:
            self.scan -= 1
        if key is not None:
            at = {r: i for i, r in enumerate(st.mem)}
            self.frames[key] = [(at[r], j) for r, j in M]
        return M

    def signature(self, st):
        """what variables refer to, up to the names of the roots: the frame found for a loop in one state is reused in another
        one only inside a scan, and what is found there is checked when the loop is finally executed (in_frame)"""
        at = {r: i for i, r in enumerate(st.mem)}

        def sig(x):
            if isinstance(x, LV):
                return ('LV', at.get(x.root, x.root), tuple((k, v if k == 'f' else '*') for k, v in x.path))
            if isinstance(x, V):
                return ('V', x.shape.key())
            if isinstance(x, ItVar):
                return ('ItVar', sig(x.base), sig(x.lv), x.rev)
            if isinstance(x, (It, View)):
                return (type(x).__name__, sig(x.base))
            if isinstance(x, Closure):
                return ('Closure', tuple((k, sig(v)) for k, v in sorted(x.caps.items(), key=str)), sig(x.this))
            return x if isinstance(x, (type(None), str, int, bool)) else id(x)
        return (tuple((r.split('#')[0], v.shape.key()) for r, v in st.mem.items()), tuple((k, sig(v)) for k, v in sorted(st.env.items())),
                tuple(sorted((tuple(str(y) for y in k), str(sig(v))) for k, v in st.refs.items())), sig(st.this))

    def in_frame(self, st, head, M):
        for root in head.mem:
            a, b = head.mem[root].terms, st.mem[root].terms
            if a is not b and any((root, j) not in M and not a[j].eq(b[j]) for j in range(len(a))):
                raise Unsupported(f'the frame of a loop changes ({root})')

    def havoc(self, st, M, hint):
        for root in sorted({r for r, _ in M}):
            v = st.mem[root]
            terms = list(v.terms)
            for j, (p, b, d, rg) in enumerate(v.shape.leaves):
                if (root, j) in M:
                    n = root.split('#')[0] + ''.join('.' + str(x) for x in p)
                    terms[j] = self.fresh(st, n, arr_sort(b, d))
                    if d == 0 and rg:
                        st.assume(z3.And(terms[j] >= rg[0], terms[j] <= rg[1]))
            st.mem[root] = V(v.shape, terms)

    def loop(self, st, node, cond, body, inc):
        no = self.loop_no(node)
        self.loop_nodes[no] = node
        itlv = self.new_root(st, 'it', V(I64, [intv(0)]))
        self.loop_stack.append((no, itlv))
        try:
            return self.loop_(st, node, cond, body, inc, no, itlv)
        finally:
            self.loop_stack.pop()

    def loop_(self, st, node, cond, body, inc, no, itlv):
        M = self.scan_mod(st, cond, body, inc, itlv)
        if self.scan > 1 or (self.scan and not self.opts.get('deep')):
            # inside a scan only the frame matters (a superset of the states is fine)
            self.havoc(st, M, 'scan')
            for n in sorted(self.auto_scan_facts(st, M)):
                pass
            c = cond(st)
            st.assume(z3.Not(c) if not self.loop_has_break(node) else z3.BoolVal(True))
            return
        entry = st.copy()
        spec = self.contract.loops.get(no) if self.contract is not None else None
        from .spec import LoopCtx
        cands = self.candidates(st, entry, M, itlv, cond)
        kept = self.houdini(st, entry, M, cands, cond, body, inc, itlv)
        L0 = LoopCtx(self, entry, st, itlv, M, no)
        line = node.get('l')
        if spec is not None and spec.entry is not None:
            self.lemmas(st, spec.entry(L0), line, f'loop {no} entry')
        invs = spec.inv(L0) if spec is not None else []
        for name, t in invs:
            self.oblige(st, t, 'inv-entry', line, f'loop {no} invariant holds initially: {name}')
        self.havoc(st, M, f'L{no}')
        it = self.get(st, itlv).t
        st.assume(it >= 0)
        for n, f in kept:
            st.assume(f(st))
        self.kept = getattr(self, 'kept', {})
        self.kept[no] = [n for n, f in kept]
        L = LoopCtx(self, entry, st, itlv, M, no)
        if spec is not None:
            for name, t in spec.inv(L):
                st.assume(t)
        head = st.copy()
        c = cond(st)
        k = self.choose(st, [c, z3.Not(c)])
        if k == 1:
            if spec is not None and spec.exit is not None:
                self.lemmas(st, spec.exit(LoopCtx(self, entry, st, itlv, M, no)), line, f'loop {no} exit')
            return
        live = set(st.views)
        inval0 = {v: len(l) for v, l in st.inval.items()}
        try:
            if spec is not None and spec.hints is not None:
                self.lemmas(st, spec.hints(LoopCtx(self, entry, st, itlv, M, no)), line, f'loop {no} hint')
            self.one_iteration(st, cond, body, inc, itlv)
        except BreakExc:
            self.in_frame(st, head, M)
            return
        self.in_frame(st, head, M)
        # end of an iteration: the invariant must hold again
        held = self.held_views(st)
        for vid in live:
            if vid not in held:
                continue  # a temporary of an earlier full-expression
            for x in st.inval.get(vid, [])[inval0.get(vid, 0):]:
                self.oblige(st, z3.Not(x), 'dangling', line, f'loop {no}: a reference used by the loop stays valid')
        L2 = LoopCtx(self, entry, st, itlv, M, no, head=head)
        if spec is not None:
            if spec.step is not None:
                self.lemmas(st, spec.step(L2), line, f'loop {no} step')
            for name, t in spec.inv(L2):
                self.oblige(st, t, 'inv-step', line, f'loop {no} invariant is preserved: {name}')
        for n, f in kept:
            self.oblige(st, f(st), 'inv-step', line, f'loop {no} derived invariant is preserved: {n}')
        self.variant(st, head, node, spec, kept, cond, itlv, entry, M, no, line)
        raise Dead()

    def held_views(self, st):
        """views that variables (or range-based loops) hold"""
        out, todo = set(self.pinned), list(st.env.values()) + list(st.refs.values()) + [st.this]
        while todo:
            x = todo.pop()
            if isinstance(x, (LV, View, It, ItVar)):
                out.add(x.vid)
                if isinstance(getattr(x, 'base', None), LV):
                    todo.append(x.base)
            elif isinstance(x, Closure):
                todo.extend(x.caps.values())
                todo.append(x.this)
        return out

    def variant(self, st, head, node, spec, kept, cond, itlv, entry, M, no, line):
        from .spec import LoopCtx
        if spec is not None and spec.dec is not None:
            a = spec.dec(LoopCtx(self, entry, head, itlv, M, no))
            b = spec.dec(LoopCtx(self, entry, st, itlv, M, no))
            self.oblige(st, z3.And(a >= 0, b < a), 'variant', line, f'loop {no} terminates')
            return
        # a counter running towards a fixed bound
        for n, f in kept:
            if hasattr(f, 'gap'):
                a, b = f.gap(head), f.gap(st)
                self.oblige(st, z3.And(a >= 0, b < a), 'variant', line, f'loop {no} terminates')
                return
        self.notes.add(f'termination of loop {no} of {self.fname()} is not proved')

    def loop_has_break(self, node):
        todo = [node.get('b')]
        while todo:
            x = todo.pop()
            if isinstance(x, dict):
                if x.get('k') == 'Break':
                    return True
                if x.get('k') in ('For', 'While', 'Do', 'Range', 'Switch'):
                    # a break inside belongs to the inner statement
                    continue
                todo.extend(v for v in x.values() if isinstance(v, (dict, list)))
            elif isinstance(x, list):
                todo.extend(x)
        return False

    def auto_scan_facts(self, st, M):
        return []

    # derived invariants: linear relations between counters and lengths, and the bound in the loop condition
    def candidates(self, st, entry, M, itlv, cond):
        out = []
        ints = []
        for root, j in sorted(M):
            sh = st.mem[root].shape
            p, b, d, rg = sh.leaves[j]
            if b is not Int and b.name() != 'Int' or d != 0:
                continue
            if sh.kind == 'struct' and sh.tag == 'gen':
                continue
            if rg is None:
                continue
            ints.append((root, j))

        def g(s, rj):
            return s.mem[rj[0]].terms[rj[1]]
        it = (itlv.root, 0)

        def nm(rj):
            p = st.mem[rj[0]].shape.leaves[rj[1]][0]
            return rj[0].split('#')[0] + ''.join('.' + x for x in p)
        for x in ints:
            if x == it:
                continue
            x0 = g(entry, x)
            out.append((f'{nm(x)} counts iterations', lambda s, x=x, x0=x0: g(s, x) == x0 + g(s, it)))
            out.append((f'{nm(x)} counts down', lambda s, x=x, x0=x0: g(s, x) == x0 - g(s, it)))
            out.append((f'{nm(x)} never falls below its start', lambda s, x=x, x0=x0: g(s, x) >= x0))
            out.append((f'{nm(x)} never exceeds its start', lambda s, x=x, x0=x0: g(s, x) <= x0))
        for a in range(len(ints)):
            for b in range(a):
                x, y = ints[a], ints[b]
                if it in (x, y):
                    continue
                d0 = g(entry, x) - g(entry, y)
                out.append((f'{nm(x)} and {nm(y)} move together',
                            lambda s, x=x, y=y, d0=d0: g(s, x) - g(s, y) == d0))
        # bound from the condition
        self.scan += 1
        try:
            s1 = st.copy()
            self.havoc(s1, M, 'cand')
            hav = {s1.mem[r].terms[j].get_id(): (r, j) for r, j in M}
            res = self.explore(s1, lambda s: cond(s))
            if len(res) == 1 and res[0][1] == 'ok':
                c = res[0][2]
                for atom in self.conjuncts(c):
                    self.bound_cand(atom, hav, s1, out, g, nm)
        except (Unsupported, Dead):
            pass
        finally:
            self.scan -= 1
        return out

    def conjuncts(self, c):
        if z3.is_and(c):
            return [y for x in c.children() for y in self.conjuncts(x)]
        return [c]

    def bound_cand(self, atom, hav, s1, out, g, nm):
        neg = False
        if z3.is_not(atom):
            atom, neg = atom.arg(0), True
        if not z3.is_app(atom) or atom.num_args() != 2 or not z3.is_int(atom.arg(0)):
            return
        k = atom.decl().kind()
        a, b = atom.arg(0), atom.arg(1)
        table = {z3.Z3_OP_LT: 'lt', z3.Z3_OP_LE: 'le', z3.Z3_OP_GT: 'gt', z3.Z3_OP_GE: 'ge', z3.Z3_OP_EQ: 'eq',
                 z3.Z3_OP_DISTINCT: 'ne'}
        op = table.get(k)
        if op is None:
            return
        if neg:
            op = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}[op]
        for x, y, o in ((a, b, op), (b, a, {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(op, op))):
            if o not in ('lt', 'le', 'ne', 'gt', 'ge'):
                continue
            loc = hav.get(x.get_id())
            if loc is None or self.mentions(y, hav):
                continue
            slack = {'lt': 0, 'ne': 0, 'le': 1, 'gt': 0, 'ge': -1}[o]
            bound = y + slack if slack else y
            if o in ('lt', 'ne', 'le'):
                f = lambda s, loc=loc, bound=bound: g(s, loc) <= bound
                f.gap = lambda s, loc=loc, bound=bound: bound - g(s, loc)
                out.append((f'{nm(loc)} does not pass the bound', f))
            if o in ('gt', 'ne', 'ge'):
                f = lambda s, loc=loc, bound=bound: g(s, loc) >= bound
                f.gap = lambda s, loc=loc, bound=bound: g(s, loc) - bound
                out.append((f'{nm(loc)} does not fall below the bound', f))

    def mentions(self, t, ids):
        todo, seen = [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in ids:
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo.extend(x.children())
        return False

    def houdini(self, st, entry, M, cands, cond, body, inc, itlv):
        """largest inductive subset of the candidates (checked quickly here, proved as obligations later)"""
        kept = [(n, f) for n, f in cands if self.entails(st, f(st))]
        self.scan += 1
        try:
            for _ in range(len(cands) + 2):
                if not kept:
                    return []
                s0 = st.copy()
                self.havoc(s0, M, 'hou')
                s0.assume(self.get(s0, itlv).t >= 0)
                for n, f in kept:
                    s0.assume(f(s0))

                def thunk(s):
                    c = cond(s)
                    if self.choose(s, [c, z3.Not(c)]) == 0:
                        self.one_iteration(s, cond, body, inc, itlv)
                        return True
                    return False
                res = self.explore(s0, thunk)
                bad = set()
                for s, k, v in res:
                    if k != 'ok' or not v:
                        continue
                    for j, (n, f) in enumerate(kept):
                        if j not in bad and not self.entails(s, f(s), 300):
                            bad.add(j)
                if not bad:
                    return kept
                kept = [x for j, x in enumerate(kept) if j not in bad]
        finally:
            self.scan -= 1
        return []
