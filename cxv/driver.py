"""Verification of one function against its contract: produces obligations."""
import z3
from .core import *
from . import exec as X
from .spec import *
from .theory import Lemma


class FnCtx(CallCtx):
    def at(self, st):
        c = FnCtx(self.ex, self.g, self.pre, st, self.obj, self.args, self.res)
        return c


class Result:
    def __init__(self, g, contract):
        self.g, self.contract = g, contract
        self.obs, self.error, self.notes = [], None, set()
        self.used, self.inlined, self.std, self.lemmas = set(), set(), set(), set()
        self.paths = 0
        self.covers = []


def make_arg(ex, st, p, ti, name):
    t = p.ty(ti)
    n = p.ty(p.strip(ti))
    if n.get('name') == 'std::span':
        e = p.shape(n['args'][0]['t'])
        base = ex.new_root(st, name, ex.fresh_val(st, name, SVec(e)))
        ln = ex.get(st, base).len
        st.assume(ln <= MAXLEN)
        return X.View(base, intv(0), ln, ex.new_vid(st, base))
    if n['k'] == 'rec' and n.get('name', '').split('::')[-1].startswith('cxv_'):
        return X.Abstract(n['name'].split('::')[-1])
    sh = p.shape(ti)
    if sh is None:
        raise Unsupported(f'parameter of type {t["s"]}')
    v = ex.fresh_val(st, name, sh)
    lv = ex.new_root(st, name, v)
    bind_refs(ex, st, p, lv, sh)
    return lv


def bind_refs(ex, st, p, lv, sh):
    if sh.kind == 'struct':
        for n, s in sh.refs.items():
            if s is None:
                raise Unsupported(f'reference member {n}')
            r = ex.new_root(st, ('owned:' if n in getattr(sh, 'owned', ()) else '') + n, ex.fresh_val(st, n, s))
            st.refs[(lv.root, lv.path, n)] = r
            bind_refs(ex, st, p, r, s)


def verify(p, reg, g, contract, opts=None):
    res = verify1(p, reg, g, contract, opts)
    if contract.alias_post is not None and not res.error:
        r2 = verify1(p, reg, g, contract, opts, alias=True)
        for o in r2.obs:
            o.name += ' (aliased arguments)'
        res.obs += r2.obs
        res.error = r2.error
        res.paths += r2.paths
        res.trivial += r2.trivial
        for k in ('notes', 'used', 'inlined', 'std', 'lemmas'):
            getattr(res, k).update(getattr(r2, k))
    return res


def verify1(p, reg, g, contract, opts=None, alias=False):
    res = Result(g, contract)
    ex = X.Exec(p, reg.find, opts)
    ex.fn, ex.contract = g, contract
    Lemma.pending.clear()
    try:
        _verify(p, ex, g, contract, res, alias)
    except Unsupported as e:
        res.error = str(e)
    except (KeyError, AttributeError, IndexError, TypeError, AssertionError, z3.Z3Exception, RecursionError) as e:
        import traceback
        res.error = f'internal: {type(e).__name__}: {e}'
        res.trace = traceback.format_exc()
    res.obs = ex.obs
    if contract.only is not None:
        res.obs = [o for o in ex.obs if contract.only(o.kind, o.name)]
        res.notes.add(f'{len(ex.obs) - len(res.obs)} obligations about other things are left to other checks')
    res.trivial = getattr(ex, 'trivial', 0)
    res.notes = ex.notes
    res.used, res.inlined, res.std = ex.used_contracts, ex.inlined, ex.std_used
    res.lemmas = set(Lemma.pending)
    res.kept = getattr(ex, 'kept', {})
    return res


def _verify(p, ex, g, c, res, alias=False):
    st = X.State()
    obj = None
    is_ctor = g.get('ctor')
    if g.get('cls') is not None and not g.get('static'):
        sh = p.shape(g['cls'])
        if is_ctor:
            obj = ex.new_root(st, 'this', default_value(sh))
        else:
            obj = ex.new_root(st, 'this', ex.fresh_val(st, 'this', sh))
            bind_refs(ex, st, p, obj, sh)
    args = [make_arg(ex, st, p, q['t'], q.get('name') or f'arg{i}') for i, q in enumerate(g['params'])]
    if alias:
        for i in range(len(args)):
            for j in range(i):
                if isinstance(args[i], X.LV) and isinstance(args[j], X.LV) and p.ty(g['params'][i]['t'])['k'] == 'ref' and \
                        same_shape(ex.shape_of(st, args[i]), ex.shape_of(st, args[j])):
                    args[i] = args[j]
    for n, t in c.ghosts.items():
        st.mem['ghost:' + n] = V(BOOL if z3.is_bool(t) else GHOST, [t])
    ex.param_lvs = set(id(a) for a in args)
    if c.setup:
        c.setup(ex, st, obj, args)
    pre = st.copy()
    ctx = FnCtx(ex, g, pre, st, obj, args, None)
    ex.cctx = ctx
    for name, t in c.pre(ctx):
        st.assume(t)
    npre = len(st.pc)
    thr = c.throws(ctx)
    pre.pc = list(st.pc)
    mods = c.modifies(ctx)
    modset = set()
    for lv in mods:
        if not isinstance(lv, X.LV):
            raise Unsupported('modifies')
        modset.add((lv.root, lv.path))

    def run(s):
        s.this = obj
        params = []
        for a, q in zip(args, g['params']):
            if isinstance(a, X.LV) and p.ty(q['t'])['k'] != 'ref':
                params.append(ex.load(s, a))
            else:
                params.append(a)
        ex.bind_params(s, g, params)
        if is_ctor:
            ex.run_ctor(s, g, obj, p.shape(g['cls']))
            return None
        if g.get('body') is None:
            raise Unsupported('no body')
        ex.stmt(s, g['body'])
        return None
    paths = ex.explore(st, run)
    res.paths = len(paths)
    if not paths:
        raise Unsupported('no path through the function')
    rt = p.ty(g['ret'])
    for s, kind, v in paths:
        s.tag += '$'
        if kind == 'throw':
            ex.oblige(s, thr if thr is not None else z3.BoolVal(False), 'throws', g['l'],
                      f'throws ({v}) only when the contract says so')
            # nothing may have changed
            frame(ex, s, pre, set() if not getattr(c, 'throw_modifies', None) else modset, g, 'exceptional frame', is_ctor and obj)
            continue
        if thr is not None:
            ex.oblige(s, z3.Not(thr), 'throws', g['l'], 'throws when the contract says so')
        if isinstance(v, X.LV) and rt['k'] != 'ref':
            v = ex.load(s, v)
        if isinstance(v, V) and rt['k'] in ('int', 'real', 'bool', 'enum'):
            v = ex.convert(s, v, p.shape(g['ret']), g['l'])
        elif not isinstance(v, (V, X.LV, X.View, X.It)) and v is not None and rt['k'] != 'void' and p.shape(g['ret']) is not None:
            v = ex.lib.coerce(ex, s, v, p.shape(g['ret']))
        if v is not None and isinstance(v, V) and p.shape(g['ret']) is not None and v.shape.kind != p.shape(g['ret']).kind:
            v = ex.lib.to_opt(ex, s, v, p.shape(g['ret'])) if getattr(p.shape(g['ret']), 'tag', '') == 'opt' else v
        pc = FnCtx(ex, g, pre, s, obj, args, v)
        if c.facts:
            ex.lemmas(s, c.facts(pc), g['l'], 'fact')
        for name, t in (c.alias_post if alias else c.post)(pc):
            ex.oblige(s, t, 'ensures', g['l'], f'ensures: {name}')
        frame(ex, s, pre, modset, g, 'frame', is_ctor and obj)
        res.covers.append([t for t, _ in s.pc])


def frame(ex, s, pre, modset, g, what, ctor_obj):
    """everything outside the modifies clause is unchanged"""
    allowed = {r for r, p in modset if not p}
    for root, v0 in pre.mem.items():
        if ctor_obj and root == ctor_obj.root:
            continue
        if root in allowed or root.startswith('ghost:'):
            continue
        v1 = s.mem[root]
        fields = {}
        for r, path in modset:
            if r == root:
                if any(k == 'i' for k, _ in path):
                    raise Unsupported('modifies of an element')
                fields[tuple(x for _, x in path)] = True
        for (p, b, d, rg), a, z in zip(v0.shape.leaves, v0.terms, v1.terms):
            if any(p[:len(f)] == f for f in fields):
                continue
            if not a.eq(z):
                # by-value parameters are local copies: their roots are never reassigned
                ex.oblige(s, a == z, 'frame', g['l'], f'{what}: {root.split("#")[0]}.{".".join(map(str, p))} unchanged')
