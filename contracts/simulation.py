"""Contract of Simulation::run (C22).

Ghost variables: iters, the number of iterations performed so far; ok, whether finished() has returned false since the
last of them; fin, whether the last call of finished() returned true; wa and wn, whether the opinions and the network
have been written since the last iteration (or, before the first one, at all).  The model is an object of unknown class:
its virtual functions satisfy the contracts below, and every overrider of them is proved to (the contracts `counting`)."""
import copy
from cxv import stdlib as SL
from cxv import exec as X
from .net import *
from .degroot import model_base

M = 'Seldon::Model::'
SIM = 'Seldon::Simulation::'
LIMIT = 2 ** 62


def made_classes(p):
    """the classes of which the program makes an object with make_unique"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            f = x.get('f')
            if isinstance(f, dict) and f.get('q') in ('std::make_unique', 'std::make_shared'):
                t = p.ty(p.strip(f['targs'][0]['t']))
                if 'rid' in t:
                    out.add(t['rid'])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for g in p.funcs.values():
        walk(g.get('body'))
    return out


def add(reg):
    if reg.pid != 'C22':
        return

    def sim(c):
        """context of the run that the call belongs to"""
        return c.ex.cctx

    def out(c):
        return wrap(c.ex.get(sim(c).pre, sim(c).obj)).output_settings

    def limit_reached(c):
        has, mx, n = model_base(c.this)
        return z3.And(has, mx <= n)

    def due(interval, start, k):
        return z3.And(interval.has, k >= start, k % interval.val == 0)

    def written(o, k, wa, wn):
        return [('opinions written exactly when they are due', wa == z3.If(k == 0, o.output_initial, due(o.n_output_agents, o.start_output, k))),
                ('network written exactly when it is due', wn == z3.If(k == 0, o.output_initial, due(o.n_output_network, o.start_output, k)))]

    def counter_lv(c):
        s = c.this
        if '_n_iterations' in s.v.shape.fields:
            return c.obj.f('_n_iterations')
        raise Unsupported('cannot identify the iteration counter among the members')

    # ---- the model, seen through the base class ----------------------------------------------------------------
    def pre_iteration(c):
        g = c.ghost
        return [('finished() was asked and said no', g('ok')),
                ('the iterations are counted from zero', model_base(c.this)[2] == g('iters')),
                ('the limit is not reached', z3.Not(limit_reached(c)))] + written(out(c), g('iters'), g('wa'), g('wn'))

    def mod_iteration(c):
        s = sim(c)
        net = s.obj.f('network')
        return [counter_lv(c), net, s.obj.f('gen')]
    reg.virtuals[M + 'initialize_iterations'] = Contract(
        M + 'initialize_iterations', pre=lambda c: [('before the first iteration', c.ghost('iters') == 0)],
        modifies=lambda c: [counter_lv(c)], post=lambda c: [('', model_base(c.thisp)[2] == 0)])
    reg.virtuals[M + 'iteration'] = Contract(
        M + 'iteration', pre=pre_iteration, modifies=mod_iteration,
        post=lambda c: [('', z3.And(model_base(c.thisp)[2] == model_base(c.this)[2] + 1, c.ghost('iters') < LIMIT))],
        effect=lambda c: dict(iters=c.ghost('iters') + 1, ok=z3.BoolVal(False), fin=z3.BoolVal(False),
                              wa=z3.BoolVal(False), wn=z3.BoolVal(False)))
    reg.virtuals[M + 'finished'] = Contract(
        M + 'finished', post=lambda c: [('', z3.Implies(limit_reached(c), c.result))],
        effect=lambda c: dict(ok=z3.Not(c.result), fin=c.result))

    # ---- every overrider of these functions ---------------------------------------------------------------------------
    p = reg.p
    bases = {r for r, d in p.recs.items() if d['q'] == 'Seldon::Model'}
    made = made_classes(p)

    def base(rid):
        return rid in bases or bool(bases & set(p.bases_of(rid)))
    final = {}
    for rid in made:
        for m in ('iteration', 'finished', 'initialize_iterations'):
            for r in [rid] + p.bases_of(rid):
                f = [g for g in p.funcs.values() if g.get('cls') is not None and g['q'].split('::')[-1] == m and not g[
                    'params'] and p.ty(p.strip(g['cls'])).get('rid') == r]
                if f:
                    final.update({g['id']: g for g in f})
                    break
    reg.overriders = []
    for g in final.values():
        m = g['q'].split('::')[-1]
        rid = p.ty(p.strip(g['cls']))['rid']
        if not base(rid) or g.get('body') is None:
            continue
        old = reg.find(g)
        c = copy.copy(old) if old is not None else Contract(g['q'])
        c.match = (lambda gid: lambda p, h: h['id'] == gid)(g['id'])
        c.facts, c.loops, c.alias_post, c.verify = None, {}, None, True
        c.only = lambda kind, name: kind == 'ensures'
        c.ghosts, c.callbacks = {}, c.callbacks
        if m == 'iteration':
            c.post = lambda c: [('one more iteration is counted', z3.Or(model_base(c.this)[2] >= LIMIT, model_base(
                c.thisp)[2] == model_base(c.this)[2] + 1)), ('the limit stays', z3.And(*[a == b for a, b in zip(
                    model_base(c.this)[:2], model_base(c.thisp)[:2])]))]
        elif m == 'finished':
            c.post = lambda c: [('true when the limit is reached', z3.Implies(limit_reached(c), c.result)),
                                ('counter and limit stay', z3.And(*[a == b for a, b in zip(model_base(c.this), model_base(c.thisp))]))]
        else:
            c.post = lambda c: [('the count starts at zero', model_base(c.thisp)[2] == 0),
                                ('the limit stays', z3.And(*[a == b for a, b in zip(
                                    model_base(c.this)[:2], model_base(c.thisp)[:2])]))]
        if rid not in bases and m != 'iteration':
            c.modular = old.modular if old is not None else False
        reg.byq.setdefault(g['q'], []).insert(0, c)
        reg.overriders.append(g['q'])

    # ---- the limit of a model is the one of its settings --------------------------------------------------------------
    def limit_set(c):
        s = [a for i in range(len(c.args)) for a in [c.arg(i)] if a.v.shape.kind == 'struct' and 'max_iterations' in a.v.shape.fields]
        if len(s) != 1:
            raise Unsupported('cannot identify the settings among the parameters of the model')
        want, (has, mx, n) = s[0].max_iterations, model_base(c.thisp)
        return [('the limit of the settings is the limit of the model', z3.And(has == want.has, z3.Implies(
            has, mx == z3.If(want.val < 0, want.val + 2 ** 64, want.val)), n == 0))]
    ctors = made | {b for r in made for b in p.bases_of(r)} - bases
    for g in list(p.funcs.values()):
        rid = p.ty(p.strip(g['cls'])).get('rid') if g.get('cls') is not None else None
        if rid not in ctors or not base(rid) or g['q'].split('::')[-1] != p.recs[rid]['q'].split('::')[-1] or len(g['params']) < 2 or g.get('body') is None:
            continue
        old = reg.find(g)
        c = copy.copy(old) if old is not None else Contract(g['q'])
        c.match = (lambda gid: lambda p, h: h['id'] == gid)(g['id'])
        c.facts, c.loops, c.alias_post, c.verify, c.ghosts, c.post = None, {}, None, True, {}, limit_set
        c.only = lambda kind, name: kind == 'ensures'
        reg.byq.setdefault(g['q'], []).insert(0, c)

    # ---- writing the files --------------------------------------------------------------------------------------------
    def name(c, prefix):
        ex, st = c.ex, c.post
        n = ex.fresh(st, 'number', Int)
        k = V(SIZE, [c.ghost('iters') + out(c).start_numbering_from])
        f = SL.concat(ex, st, ex.str_val(list(prefix.encode())), SL.render(ex, st, k), ex.str_val(list(b'.txt')))
        d = ex.get(sim(c).pre, sim(c).lv(0))
        return SL.uf_string(ex, st, 'path_join', list(d.terms) + list(f.terms))

    def file_pre(prefix, agents):
        def pre(c):
            if not c.has_ghost('iters'):
                return []
            o, k = out(c), c.ghost('iters')
            want, got = name(c, prefix), c.arg(1).v
            net = sim(c).obj.f('network')
            lv = c.lv(0)
            same = isinstance(lv, X.LV) and lv.root == net.root and tuple(lv.path) == tuple(net.path)
            iv = o.n_output_agents if agents else o.n_output_network
            return [('the network of the simulation is written', z3.BoolVal(same)),
                    ('the file is due', z3.If(k == 0, o.output_initial, due(iv, o.start_output, k))),
                    ('the file is numbered with iteration and offset', z3.And(got.len == want.len, got.terms[1] == want.terms[1]))]
        return pre
    for q, prefix, ag in (('network_to_file', 'network_', False), ('agents_to_file', 'opinions_', True)):
        reg.byq.setdefault('Seldon::' + q, []).insert(0, Contract(
            'Seldon::' + q, verify=False, pre=file_pre(prefix, ag),
            effect=(lambda w: lambda c: {w: z3.BoolVal(True)})('wa' if ag else 'wn')))

    # ---- the loop ---------------------------------------------------------------------------------------------------------
    def model_now(L):
        return wrap(L.ex.get(L.st, L.fn.ref_any(lambda s: s.kind == 'struct' and s.name == 'Seldon::Model', 'the model')))

    def inv(L):
        o = wrap(L.ex.get(L.fn.pre, L.fn.obj)).output_settings
        it, wa, wn = L.ghost('iters'), L.ghost('wa'), L.ghost('wn')
        return [('iterations so far', z3.And(it >= 0, it <= LIMIT, model_base(model_now(L))[2] == it))] + written(o, it, wa, wn)

    F = z3.BoolVal(False)
    reg.add(Contract(
        SIM + 'run', ghosts=dict(iters=intv(0), ok=F, fin=F, wa=F, wn=F), loops={0: LoopSpec(inv)},
        pre=lambda c: [('numbers stay below 2^63', c.this.output_settings.start_numbering_from < LIMIT),
                       ('intervals are positive', z3.And(*[z3.Implies(iv.has, iv.val > 0) for iv in (
                           c.this.output_settings.n_output_agents, c.this.output_settings.n_output_network)])),
                       ('output starts after the initial state', c.this.output_settings.start_output > 0)],
        modifies=lambda c: [c.obj.f('network'), c.obj.f('gen'), c.ref_any(
            lambda s: s.kind == 'struct' and s.name == 'Seldon::Model', 'the model')],
        post=lambda c: [('the model is finished', c.ghostp('fin'))] + written(
            c.this.output_settings, c.ghostp('iters'), c.ghostp('wa'), c.ghostp('wn'))))
