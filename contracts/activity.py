"""Contracts of the activity-driven and inertial models (C14 to C18)."""
from cxv import exec as X
from .net import *
from .degroot import model_base
from .deffuant import absv
from cxv.theory import fn_tanh, fn_pow, no_draw_is_zero

R = z3.RealSort()
AD = 'Seldon::ActivityDrivenModelAbstract::'
IM = 'Seldon::InertialModel::'


def cls_has(x):
    return lambda p, g: x in p.tstr(g['cls'])


def add(reg):
    def nets(c):
        lv = c.ref_any(is_network, 'the network')
        return Net(read(c.ex, c.pre, lv)), Net(read(c.ex, c.post, lv)), lv

    def fname(s, pred, what):
        fs = [n for n, x in s.v.shape.fields.items() if pred(x)]
        if len(fs) != 1:
            raise Unsupported(f'cannot identify {what} among the members')
        return fs[0]

    def contact_name(s):
        return fname(s, is_vv('real'), 'the contact probabilities')

    def set_name(s):
        return fname(s, lambda x: x.kind == 'set', 'the set of contacts')

    def counter_lv(c):
        s = c.this
        if '_n_iterations' in s.v.shape.fields:
            return c.obj.f('_n_iterations')
        raise Unsupported('cannot identify the iteration counter among the members')

    def op(n):
        return n.agents.leaf('data', 'opinion')

    def rel(n):
        return n.agents.leaf('data', 'reluctance')

    def act(n):
        return n.agents.leaf('data', 'activity')

    # ---- the state between two iterations ---------------------------------------------------------------------------
    def usable(s, a):
        """what the constructor establishes and every iteration keeps"""
        bots = lambda i: z3.And(i >= 0, i < s.n_bots)
        mean = s.mean_weights
        cp = s.v.field(contact_name(s))
        cl = cp.terms[1]
        return both(a.wf(), a.inrange(), [
            ('fewer than 2^31 agents', a.n < 2 ** 31),
            ('no more bots than agents', s.n_bots <= a.n),
            ('one entry per bot', z3.And(s.bot_m.n >= s.n_bots, s.bot_opinion.n >= s.n_bots, s.bot_homophily.n >= s.n_bots,
                                         s.bot_activity.n >= s.n_bots)),
            ('numbers of contacts are not negative', z3.And(s.m >= 0, qall([I], lambda i: z3.Implies(
                bots(i), s.bot_m.arr[i] >= 0), lambda i: s.bot_m.arr[i]))),
            ('incoming edges', a.dir == INCOMING),
            ('mean weights: everyone is linked to everyone', z3.Implies(mean, z3.And(
                cp.terms[0] == a.n, qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), a.nlen[i] == a.n), lambda i: a.nlen[i]),
                qall([I, I], lambda i, k: z3.Implies(z3.And(i >= 0, i < a.n, k >= 0, k < a.n), a.el[i][k] == k), lambda i, k: a.el[i][k]))))])

    def responsive(a):
        return [('reluctances are not zero', qall([I], lambda i: z3.Implies(
            z3.And(i >= 0, i < a.n), rel(a)[i] != 0), lambda i: rel(a)[i]))]

    def kept(a, b):
        """an update of the network leaves all agents alone"""
        return both(b.same_agents(a), [('number of lists', z3.And(b.nb.n == a.nb.n, b.wt.n == a.wt.n))])

    def list_lvs(c):
        a, _, lv = nets(c)
        return [lv.f(x) for x in a.nb_name + a.wt_name]

    def dir_lv(c):
        a, _, lv = nets(c)
        return lv.f(fname(a.s, lambda x: x.kind == 'int' and getattr(x, 'enum', None), 'the direction'))

    def net_mods(c):
        s = c.this
        return list_lvs(c) + [dir_lv(c), c.ref_lv('gen'), c.obj.f(contact_name(s)), c.obj.f(set_name(s))]

    # C14, C17: every iteration updates the network exactly once, and leaves it as the update made it
    whole = reg.pid in ('C14', 'C17')
    updates = dict(ghosts=dict(updates=intv(0))) if whole else {}

    def updated(c):
        b = nets(c)[1]
        c.post.gh['updated'] = b
        return {'updates': c.ghost('updates') + 1} if c.has_ghost('updates') else {}

    def in_force(c):
        if not whole:
            return []
        b = nets(c)[1]
        n = c.post.gh.get('updated')
        return [('one update of the network', c.ghostp('updates') == 1)] + ([] if n is None else [
            ('the network is the updated one', z3.And(b.n == n.n, b.dir == n.dir, qall([I], lambda i: z3.Implies(
                z3.And(i >= 0, i < b.n), z3.And(b.nlen[i] == n.nlen[i], b.el[i] == n.el[i], b.w[i] == n.w[i])),
                lambda i: b.nlen[i], lambda i: b.el[i], lambda i: b.w[i])))])

    def post_update(c):
        a, b, _ = nets(c)
        out = both(kept(a, b), [('still ' + x, t) for x, t in usable(c.thisp, b)])
        if not hasattr(c, 'at'):
            return out  # callers rely on less
        mean = c.this.mean_weights
        if 'contacts' in c.post.gh:
            strong = both([(x, z3.Implies(z3.Not(mean), t)) for x, t in consistent(c, a, b)])
        else:
            strong = [('contacts are drawn unless mean weights are requested', mean)]
        if 'mean' in c.post.gh:
            return out + strong + [(x, z3.Implies(mean, t)) for x, t in post_mean(c)]
        return out + strong + [('mean-field weights are used when requested', z3.Not(mean))]

    # ---- the right-hand side of the equations (C15, C16) --------------------------------------------------------------------
    # sum over k < n of K * inv * w[k] * tanh(alpha * x[el[k]])
    force = Fn('social_force', [A_I, A_R, A_R, R, R, R], R, lambda el, w, x, inv, K, al: realv(0),
               lambda el, w, x, inv, K, al, n, r: r + K * inv * w[n] * fn_tanh(al * x[el[n]]))
    Lext = Lemma('social_force_depends_on_neighbours', [('el', A_I), ('w', A_R), ('x', A_R), ('y', A_R), ('inv', R), ('K', R), ('al', R), ('n', I)],
                 lambda el, w, x, y, inv, K, al, n: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), x[el[k]] == y[el[k]]), lambda k: el[k]),
                 lambda el, w, x, y, inv, K, al, n: force(el, w, x, inv, K, al, n) == force(el, w, y, inv, K, al, n), ind='n')

    def slope(s, a, x, i):
        return -x[i] + force(a.el[i], a.w[i], x, 1 / rel(a)[i], s.K, s.alpha, a.nlen[i])

    def opinions_in(c):
        a = nets(c)[0]
        return c.fn(1, lambda j: z3.And(j >= 0, j < a.n), 'opinions')

    def inv_slopes(L):
        a = nets(L.fn)[0]
        s, x, b = L.fn.this, opinions_in(L.fn), L.fn.argp(0)
        return [('length', b.n == a.n), ('progress', L.it <= a.n),
                ('slopes so far', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), b.arr[i] == slope(s, a, x, i)), lambda i: b.arr[i]))]

    def inv_force(L):
        a = nets(L.fn)[0]
        s, x, b = L.fn.this, opinions_in(L.fn), L.fn.argp(0)
        b0 = read(L.ex, L.entry, L.fn.lv(0))
        i, j = L.outer(0), L.it
        here = force(a.el[i], a.w[i], x, 1 / rel(a)[i], s.K, s.alpha, j)
        if any(r == L.fn.lv(0).root for r, _ in L.M):
            return [('length', b.n == a.n), ('sum so far', b.arr[i] == -x[i] + here),
                    ('other agents kept', qall([I], lambda k: z3.Implies(k != i, b.arr[k] == b0.arr[k]), lambda k: b.arr[k]))]
        acc = L.local(lambda t: t.kind == 'real', 'the running sum')
        acc0 = L.at_entry.local(lambda t: t.kind == 'real', 'the running sum')
        return [('sum so far', acc == acc0 + here)]

    def step_force(L):
        a = nets(L.fn)[0]
        s, x, i = L.fn.this, opinions_in(L.fn), L.outer(0)
        return [('next', force.unfold_succ(a.el[i], a.w[i], x, 1 / rel(a)[i], s.K, s.alpha, L.at_head.it))]

    def entry_force(L):
        a = nets(L.fn)[0]
        s, x, i = L.fn.this, opinions_in(L.fn), L.outer(0)
        return [('start', force.unfold(a.el[i], a.w[i], x, 1 / rel(a)[i], s.K, s.alpha, intv(0)))]

    def post_slopes(c):
        a = nets(c)[0]
        s, x, b = c.this, opinions_in(c), c.argp(0)
        return [('one slope per agent', b.n == a.n), ('the right-hand side of the equation', qall([I], lambda i: z3.Implies(
            z3.And(i >= 0, i < a.n), b.arr[i] == slope(s, a, x, i)), lambda i: b.arr[i]))]
    for m in ('InertialAgent', 'ActivityAgent'):
        reg.add(Contract(
            AD + 'get_euler_slopes', match=cls_has(m), generic='cxv_opinion_callback', nonlin=True,
            callbacks={'cxv_opinion_callback': lambda ex, st, vals, e: V(
                REAL, [z3.Const('callback:cxv_opinion_callback', A_R)[ex.load(st, vals[0]).t]])},
            pre=lambda c: both(nets(c)[0].wf(), nets(c)[0].inrange(), responsive(nets(c)[0])),
            modifies=lambda c: [c.lv(0)], post=post_slopes,
            loops={0: LoopSpec(inv_slopes), 1: LoopSpec(inv_force, entry=entry_force, step=step_force)}))

    # ---- one Runge-Kutta step (C15) -----------------------------------------------------------------------------------------
    def consts(names):
        return [z3.Const(n, A_R) for n in names]

    def rk(c):
        """the stages, defined over the network in force (after the update) and the opinions before the step"""
        a, b, _ = nets(c)
        s, o = c.this, op(a)
        K = consts(['rk_k1', 'rk_k2', 'rk_k3', 'rk_k4'])
        Xs = [o] + consts(['rk_x2', 'rk_x3', 'rk_x4'])
        dt = s.dt
        defs = []
        for x, k, f in ((Xs[1], K[0], dt / 2), (Xs[2], K[1], dt / 2), (Xs[3], K[2], dt)):
            defs.append(known(qall([I], lambda i: x[i] == o[i] + f * k[i], lambda i: x[i])))
        for x, k in zip(Xs, K):
            defs.append(known(qall([I], lambda i: k[i] == slope(s, b, x, i), lambda i: k[i])))
        return K, Xs, defs

    def used_arrays(c):
        """the arrays of opinions that the slopes were computed from"""
        st = c.post
        out, seen = {}, set()
        todo = [t for t, _ in st.pc]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.sort() == A_R and x.decl().name().split('!')[0] == 'opinions':
                    out[x.get_id()] = x
                todo.extend(x.children())
        def number(x):
            return int(''.join(ch for ch in x.decl().name().split('$')[-1].split('!')[-1] if ch.isdigit()) or 0)
        return sorted(out.values(), key=number)

    def stage_facts(c, b, bufs, K, Xs):
        """stage by stage: the opinions used, the forces, the slopes"""
        s = c.this
        xs = used_arrays(c)
        rng = lambda i: z3.And(i >= 0, i < b.n)
        fs = []
        F = lambda x, i: force(b.el[i], b.w[i], x, 1 / rel(b)[i], s.K, s.alpha, b.nlen[i])
        if len(xs) != len(Xs) or len(bufs) != len(K):
            return []
        for j, (x, y, u, k) in enumerate(zip(xs, Xs, bufs, K)):
            fs += [(f'opinions of stage {j + 1}', qall([I], lambda i: z3.Implies(rng(i), x[i] == y[i]), lambda i: x[i], lambda i: y[i])),
                   ('extensionality', Lext.forall(
                       dict(x=x, y=y, K=s.K, al=s.alpha), lambda el, w, x, y, inv, K, al, n: force(el, w, x, inv, K, al, n))),
                   (f'forces of stage {j + 1}', qall([I], lambda i: z3.Implies(rng(i), F(x, i) == F(y, i)), lambda i: F(x, i), lambda i: F(y, i))),
                   (f'slopes of stage {j + 1}', qall([I], lambda i: z3.Implies(rng(i), u[i] == k[i]), lambda i: u[i], lambda i: k[i]))]
        return fs

    def bots_post(c, b, n):
        s = c.this
        return [('bots have their configured opinion', qall([I], lambda i: z3.Implies(
            z3.And(i >= 0, i < s.n_bots), op(b)[i] == s.bot_opinion.arr[i]), lambda i: op(b)[i]))]

    def same_data(a, b):
        return [('number of agents', b.agents.n == a.agents.n),
                ('activities never change', act(b) == act(a)), ('reluctances never change', rel(b) == rel(a))]

    def facts_rk(c):
        a, b, _ = nets(c)
        K, Xs, defs = rk(c)
        u = stage_buffers(c)
        fs = [(f'definition {i}', d) for i, d in enumerate(defs)] + stage_facts(c, b, u, K, Xs)
        if u:
            o, n, s = op(a), op(b), c.this
            mix = lambda k, i: k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]
            rng = lambda i: z3.And(i >= s.n_bots, i < a.n)
            fs += [('the step in terms of the buffers', qall([I], lambda i: z3.Implies(rng(i), n[i] == o[i] + s.dt / 6 * mix(u, i)), lambda i: n[i])),
                   ('the buffers hold the stages', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), mix(u, i) == mix(K, i)), lambda i: n[i])),
                   ('equals for equals', known(qall([I], lambda i: z3.Implies(
                       mix(u, i) == mix(K, i), s.dt / 6 * mix(u, i) == s.dt / 6 * mix(K, i)), lambda i: n[i])))]
        return fs

    def stage_buffers(c):
        s = c.thisp
        names = ['k1_buffer', 'k2_buffer', 'k3_buffer', 'k4_buffer']
        if not all(n in s.v.shape.fields for n in names):
            return []
        return [getattr(s, n).arr for n in names]

    def post_rk(c):
        a, b, _ = nets(c)
        s, o, n = c.this, op(a), op(b)
        K, Xs, defs = rk(c)
        m0, m1 = model_base(c.this), model_base(c.thisp)
        new = lambda i: o[i] + s.dt / 6 * (K[0][i] + 2 * K[1][i] + 2 * K[2][i] + K[3][i])
        return both(in_force(c), [('a fourth-order Runge-Kutta step', qall([I], lambda i: z3.Implies(
            z3.And(i >= s.n_bots, i < a.n), n[i] == new(i)), lambda i: n[i]))],
            bots_post(c, b, a.n), same_data(a, b),
            [('one more iteration', m1[2] == (m0[2] + 1) % 2 ** 64)],
            [('still ' + x, t) for x, t in usable(c.thisp, b)], [('still ' + x, t) for x, t in responsive(b)])

    def inv_step(L):
        """opinions below the counter are new, the rest is old"""
        c = L.fn.at(L.st)
        a, b, _ = nets(c)
        s, o, n = c.this, op(a), op(b)
        K, Xs, defs = rk(c)
        bufs = stage_buffers(c)
        if not bufs:
            raise Unsupported('cannot identify the buffers of the stages')
        new = lambda i: o[i] + s.dt / 6 * (bufs[0][i] + 2 * bufs[1][i] + 2 * bufs[2][i] + bufs[3][i])
        return [('number of agents', b.agents.n == a.agents.n), ('progress', L.it <= a.n),
                ('moved so far', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), n[i] == new(i)), lambda i: n[i])),
                ('not yet', qall([I], lambda i: z3.Implies(i >= L.it, n[i] == o[i]), lambda i: n[i]))]

    def inv_bots(L):
        c = L.fn.at(L.st)
        s = c.this
        a, b, lv = nets(c)
        n, e = op(b), op(Net(read(L.ex, L.entry, lv)))
        return [('number of agents', b.agents.n == a.agents.n), ('progress', L.it <= s.n_bots),
                ('reset so far', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), n[i] == s.bot_opinion.arr[i]), lambda i: n[i])),
                ('the others', qall([I], lambda i: z3.Implies(i >= L.it, n[i] == e[i]), lambda i: n[i]))]

    def buffers(c):
        """all plain vectors of numbers among the members that no setting names"""
        s = c.this
        return [c.obj.f(n) for n, x in s.v.shape.fields.items()
                if x.kind == 'vec' and x.elem.kind == 'real' and not n.startswith('bot_')]

    def it_mods(c):
        return net_mods(c) + [counter_lv(c), nets(c)[2].f('agents')] + buffers(c)
    reg.add(Contract(
        AD + 'iteration', match=cls_has('ActivityAgent'), nonlin=True,
        pre=lambda c: both(usable(c.this, nets(c)[0]), responsive(nets(c)[0])), modifies=it_mods, facts=facts_rk, post=post_rk,
        loops={0: LoopSpec(inv_step), 1: LoopSpec(inv_bots)}, **updates))

    # ---- one Verlet step (C16) -----------------------------------------------------------------------------------------------
    def vel(n):
        return n.agents.leaf('data', 'velocity')

    def verlet(c):
        """drifts before and after the move, opinions after the move: defined over the network in force"""
        a, b, _ = nets(c)
        s, o, v = c.this, op(a), vel(a)
        f1, x1, f2 = consts(['verlet_f1', 'verlet_x1', 'verlet_f2'])
        fr, dt = s.friction_coefficient, s.dt
        moved = lambda i, f: o[i] + v[i] * dt + (f[i] - fr * v[i]) * dt * dt / 2
        defs = [known(qall([I], lambda i: f1[i] == slope(s, b, o, i), lambda i: f1[i])),
                known(qall([I], lambda i: x1[i] == moved(i, f1), lambda i: x1[i])),
                known(qall([I], lambda i: f2[i] == slope(s, b, x1, i), lambda i: f2[i]))]
        return f1, x1, f2, defs, moved

    def drifts(c):
        """the two buffers of drifts"""
        s = c.thisp
        names = ['drift_t_buffer', 'drift_next_t_buffer']
        if not all(n in s.v.shape.fields for n in names):
            raise Unsupported('cannot identify the buffers of the drifts')
        return [getattr(s, n).arr for n in names]

    def faster(s, u, v, f1, f2):
        """u is the new velocity (v + dt/2 (f1 - fr v + f2)) / (1 + fr dt/2)"""
        fr, dt = s.friction_coefficient, s.dt
        return u * (1 + fr * dt / 2) == v + dt / 2 * (f1 - fr * v + f2)

    def inv_position(L):
        c = L.fn.at(L.st)
        a, b, _ = nets(c)
        s, o, n, v = c.this, op(a), op(b), vel(a)
        d = drifts(c)[0]
        fr, dt = s.friction_coefficient, s.dt
        return [('number of agents', b.agents.n == a.agents.n), ('progress', L.it <= a.n), ('velocities', vel(b) == v),
                ('moved so far', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), n[i] == o[i] + v[i] * dt + (
                    d[i] - fr * v[i]) * dt * dt / 2), lambda i: n[i])),
                ('not yet', qall([I], lambda i: z3.Implies(i >= L.it, n[i] == o[i]), lambda i: n[i]))]

    def inv_velocity(L):
        c = L.fn.at(L.st)
        a, b, lv = nets(c)
        e = Net(read(L.ex, L.entry, lv))
        s, v = c.this, vel(a)
        d1, d2 = drifts(c)
        return [('number of agents', b.agents.n == a.agents.n), ('progress', L.it <= a.n), ('opinions', op(b) == op(e)),
                ('changed so far', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < L.it), faster(s, vel(b)[i], v[i], d1[i], d2[i])),
                                        lambda i: vel(b)[i])),
                ('not yet', qall([I], lambda i: z3.Implies(i >= L.it, vel(b)[i] == v[i]), lambda i: vel(b)[i]))]

    def inv_bots_i(L):
        c = L.fn.at(L.st)
        a, b, lv = nets(c)
        e = Net(read(L.ex, L.entry, lv))
        return inv_bots(L) + [('velocities', vel(b) == vel(e))]

    def facts_verlet(c):
        a, b, _ = nets(c)
        s, o, v, n = c.this, op(a), vel(a), op(b)
        f1, x1, f2, defs, moved = verlet(c)
        d1, d2 = drifts(c)
        rng = lambda i: z3.And(i >= 0, i < a.n)
        fs = [(f'definition {i}', d) for i, d in enumerate(defs)]
        xs = used_arrays(c)
        if len(xs) != 2:
            return fs
        st = stage_facts(c, b, [d1, d2], [f1, f2], [o, x1])
        k = len(st) // 2
        cong = [('equals for equals', known(qall([I], lambda i: z3.Implies(d1[i] == f1[i], moved(i, d1) == moved(i, f1)), lambda i: d1[i]))),
                ('positions', qall([I], lambda i: z3.Implies(rng(i), moved(i, d1) == x1[i]), lambda i: x1[i], lambda i: d1[i]))]
        w = vel(b)
        last = [('equals for equals', known(qall([I], lambda i: z3.Implies(
            z3.And(d1[i] == f1[i], d2[i] == f2[i]), faster(s, w[i], v[i], d1[i], d2[i]) == faster(s, w[i], v[i], f1[i], f2[i])), lambda i: w[i])))]
        return fs + st[:k] + cong + st[k:] + last

    def post_verlet(c):
        a, b, _ = nets(c)
        s, o, n, v = c.this, op(a), op(b), vel(a)
        f1, x1, f2, defs, moved = verlet(c)
        m0, m1 = model_base(c.this), model_base(c.thisp)
        return both(in_force(c), [('opinions take a Verlet step', qall([I], lambda i: z3.Implies(
            z3.And(i >= s.n_bots, i < a.n), n[i] == x1[i]), lambda i: n[i])),
            ('velocities take a Verlet step', qall([I], lambda i: z3.Implies(
                z3.And(i >= 0, i < a.n), faster(s, vel(b)[i], v[i], f1[i], f2[i])), lambda i: vel(b)[i]))],
            bots_post(c, b, a.n), same_data(a, b),
            [('one more iteration', m1[2] == (m0[2] + 1) % 2 ** 64)],
            [('still ' + x, t) for x, t in usable(c.thisp, b)], [('still ' + x, t) for x, t in responsive(b)])
    reg.add(Contract(
        IM + 'iteration', nonlin=True, pre=lambda c: both(usable(c.this, nets(c)[0]), responsive(nets(c)[0]), [
            ('no division by zero', 1 + c.this.friction_coefficient * c.this.dt / 2 != 0)]),
        modifies=it_mods, facts=facts_verlet, post=post_verlet,
        loops={0: LoopSpec(inv_position), 1: LoopSpec(inv_velocity), 2: LoopSpec(inv_bots_i)}, **updates))

    # ---- drawing the contact network (C14) -----------------------------------------------------------------------------------
    A_L = A_I
    listed = Fn('times_in_list', [A_I, I], I, lambda a, j: intv(0), lambda a, j, n, r: r + z3.If(a[n] == j, intv(1), intv(0)))
    cnt, cpos = reg.cnt, reg.cpos
    Lnn = Lemma('times_in_list_not_negative', [('a', A_I), ('j', I), ('n', I)], lambda a, j, n: z3.BoolVal(True),
                lambda a, j, n: listed(a, j, n) >= 0, ind='n')
    Lmono = Lemma('times_in_list_monotone', [('a', A_I), ('j', I), ('m', I), ('n', I)], lambda a, j, m, n: z3.And(0 <= m, m <= n),
                  lambda a, j, m, n: z3.And(0 <= listed(a, j, m), listed(a, j, m) <= listed(a, j, n)), ind='n', gen=('m',),
                  using=lambda a, j, m, n: [listed.unfold(a, j, n), listed.unfold(a, j, m), Lnn(a, j, m)])
    Lone = Lemma('an_entry_is_listed', [('a', A_I), ('k', I), ('n', I)], lambda a, k, n: z3.And(0 <= k, k < n),
                 lambda a, k, n: listed(a, a[k], n) >= 1,
                 using=lambda a, k, n: [listed.unfold_succ(a, a[k], k), Lmono(a, a[k], k + 1, n), Lnn(a, a[k], k)])
    Lnever = Lemma('other_values_are_not_listed', [('a', A_I), ('j', I), ('n', I)],
                   lambda a, j, n: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), a[k] != j), lambda k: a[k]),
                   lambda a, j, n: listed(a, j, n) == 0, ind='n')
    Ldist = Lemma('distinct_entries_are_listed_once', [('a', A_I), ('j', I), ('n', I)],
                  lambda a, j, n: qall([I, I], lambda x, y: z3.Implies(z3.And(x >= 0, x < y, y < n), a[x] != a[y]), lambda x, y: (a[x], a[y])),
                  lambda a, j, n: listed(a, j, n) <= 1, ind='n',
                  using=lambda a, j, n: [listed.unfold(a, j, n), z3.Implies(a[n - 1] == j, Lnever(a, j, n - 1)), Lnn(a, j, n)])
    Lfrm = Lemma('times_in_list_frame', [('a', A_I), ('b', A_I), ('j', I), ('n', I)],
                 lambda a, b, j, n: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), a[k] == b[k]), lambda k: a[k], lambda k: b[k]),
                 lambda a, b, j, n: listed(a, j, n) == listed(b, j, n), ind='n')
    Lpsh = Lemma('times_in_list_push', [('a', A_I), ('n', I), ('e', I), ('j', I)], lambda a, n, e, j: n >= 0,
                 lambda a, n, e, j: listed(z3.Store(a, n, e), j, n + 1) == listed(a, j, n) + z3.If(e == j, intv(1), intv(0)),
                 using=lambda a, n, e, j: [listed.unfold_succ(z3.Store(a, n, e), j, n), Lfrm(a, z3.Store(a, n, e), j, n)])
    Lones = Lemma('edges_of_weight_one', [('a', A_I), ('w', A_R), ('j', I), ('u', R), ('n', I)],
                  lambda a, w, j, u, n: qall([I], lambda k: z3.Implies(z3.And(k >= 0, k < n), w[k] == 1), lambda k: w[k]),
                  lambda a, w, j, u, n: cnt(a, w, j, u, n) == z3.If(u == 1, listed(a, j, n), intv(0)), ind='n')
    Lcn = Lemma('edge_count_not_negative', [('a', A_I), ('w', A_R), ('j', I), ('u', R), ('n', I)], lambda a, w, j, u, n: z3.BoolVal(True),
                lambda a, w, j, u, n: cnt(a, w, j, u, n) >= 0, ind='n')
    Lcm = Lemma('edge_count_monotone', [('a', A_I), ('w', A_R), ('j', I), ('u', R), ('m', I), ('n', I)],
                lambda a, w, j, u, m, n: z3.And(0 <= m, m <= n), lambda a, w, j, u, m, n: cnt(a, w, j, u, m) <= cnt(a, w, j, u, n), ind='n',
                using=lambda a, w, j, u, m, n: [cnt.unfold(a, w, j, u, n)])
    Lc1 = Lemma('an_edge_is_counted', [('a', A_I), ('w', A_R), ('k', I), ('n', I)], lambda a, w, k, n: z3.And(0 <= k, k < n),
                lambda a, w, k, n: cnt(a, w, a[k], w[k], n) >= 1,
                using=lambda a, w, k, n: [cnt.unfold_succ(a, w, a[k], w[k], k), Lcn(a, w, a[k], w[k], k), Lcm(a, w, a[k], w[k], k + 1, n)])
    Lc2 = Lemma('two_equal_edges_are_counted', [('a', A_I), ('w', A_R), ('k', I), ('l', I), ('n', I)],
                lambda a, w, k, l, n: z3.And(0 <= k, k < l, l < n, a[k] == a[l], w[k] == w[l]),
                lambda a, w, k, l, n: cnt(a, w, a[l], w[l], n) >= 2,
                using=lambda a, w, k, l, n: [cnt.unfold_succ(a, w, a[l], w[l], l), Lc1(a, w, k, l), Lcm(a, w, a[l], w[l], l + 1, n)])
    Lall = Lemma('all_but_one_positive', [('a', A_R), ('p', I), ('n', I)],
                 lambda a, p, n: z3.And(n >= 0, p >= 0, qall([I], lambda j: z3.Implies(z3.And(j >= 0, j < n), (a[j] > 0) == (j != p)), lambda j: a[j])),
              lambda a, p, n: cpos(a, n) == n - z3.If(p < n, intv(1), intv(0)), ind='n',
              using=lambda a, p, n: [cpos.unfold(a, n)])

    def m_of(s, x):
        return z3.If(z3.And(x >= 0, x < s.n_bots), s.bot_m.arr[x], s.m)

    def cap(s, x, n):
        return z3.If(m_of(s, x) < n, m_of(s, x), n)

    def drawn(s, a, nlen, el, hi):
        """the contacts of the agents below hi"""
        n = a.agents.n
        rng = lambda x: z3.And(x >= 0, x < hi)
        return [('none or m contacts', qall([I], lambda x: z3.Implies(rng(x), z3.Or(nlen[x] == 0, nlen[x] == cap(s, x, n))), lambda x: nlen[x])),
                ('surely active agents have m contacts', qall([I], lambda x: z3.Implies(
                    z3.And(rng(x), act(a)[x] >= 1), nlen[x] == cap(s, x, n)), lambda x: nlen[x])),
                ('inactive agents have none', qall([I], lambda x: z3.Implies(z3.And(rng(x), act(a)[x] <= 0), nlen[x] == 0), lambda x: nlen[x])),
                ('contacts are agents', qall([I, I], lambda x, k: z3.Implies(z3.And(rng(x), k >= 0, k < nlen[x]), z3.And(
                    el[x][k] >= 0, el[x][k] < n)), lambda x, k: el[x][k])),
                ('contacts are distinct', qall([I, I], lambda x, y: z3.Implies(z3.And(rng(x)), listed(el[x], y, nlen[x]) <= 1),
                                               lambda x, y: listed(el[x], y, nlen[x]))),
                ('nobody contacts itself', qall([I], lambda x: z3.Implies(z3.And(rng(x), m_of(s, x) < n, no_draw_is_zero),
                                                                           listed(el[x], x, nlen[x]) == 0), lambda x: nlen[x], lambda x: el[x]))]

    def in_set(S, x, y):
        return S.arr[x][y]

    def the_set(c, st):
        s = read(c.ex, st, c.obj)
        return getattr(s, set_name(s))

    def drawing(c, b, hi):
        """the state of the drawing loop, for the agents below hi"""
        a = nets(c)[0]
        s = c.this
        n = a.agents.n
        return both(kept(a, b), b.wf(), b.inrange(), [('outgoing edges', b.dir == OUTGOING), ('progress', hi <= n)],
                    drawn(s, a, b.nlen, b.el, hi),
                    [('weights are one', qall([I, I], lambda x, k: z3.Implies(z3.And(x >= 0, x < hi, k >= 0, k < b.nlen[x]), b.w[x][k] == 1),
                                              lambda x, k: b.w[x][k]))])

    def set_is(S, n, f):
        return ('the set holds the contacts', qall([I, I], lambda x, y: z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < n), in_set(S, x, y) == f(x, y)),
                                                   lambda x, y: in_set(S, x, y)))

    def inv_draw(L):
        c = L.fn.at(L.st)
        _, b, _ = nets(c)
        return drawing(c, b, L.it) + [set_is(the_set(c, L.st), b.n, lambda x, y: z3.And(x < L.it, listed(b.el[x], y, b.nlen[x]) >= 1))]

    def is_vi(s):
        return s.kind == 'vec' and s.elem.kind == 'int' and not s.elem.char

    def inv_insert(L):
        c = L.fn.at(L.st)
        _, b, _ = nets(c)
        i = L.outer(0)
        ca = L.v('contacted_agents', is_vi)
        return [('progress', L.it <= ca.n),
                set_is(the_set(c, L.st), b.n, lambda x, y: z3.Or(z3.And(x < i, listed(b.el[x], y, b.nlen[x]) >= 1),
                                                                 z3.And(x == i, listed(ca.arr, y, L.it) >= 1)))]

    def entry_insert(L):
        c = L.fn.at(L.st)
        _, b, _ = nets(c)
        i = L.outer(0)
        ca = L.v('contacted_agents', is_vi)
        n = b.agents.n
        return [('weights', Lall.forall(dict(p=i, n=n), lambda a, p, n: cpos(a, n))),
                ('not itself', z3.Implies(z3.And(m_of(c.this, i) < n, no_draw_is_zero), qall([I], lambda k: z3.Implies(
                    z3.And(k >= 0, k < ca.n), ca.arr[k] != i), lambda k: ca.arr[k]))),
                ('none', known(qall([I], lambda j: listed(ca.arr, j, intv(0)) == 0, lambda j: listed(ca.arr, j, intv(0)))))]

    def step_insert(L):
        ca = L.v('contacted_agents', is_vi)
        k = L.at_head.it
        return [('next', known(qall([I], lambda j: z3.Implies(k >= 0, listed(ca.arr, j, k + 1) == listed(ca.arr, j, k) + z3.If(
            ca.arr[k] == j, intv(1), intv(0))), lambda j: listed(ca.arr, j, k + 1)))),
            ('not negative', Lnn.forall(dict(a=ca.arr, n=k), lambda a, j, n: listed(a, j, n)))]

    def step_draw(L):
        c = L.fn.at(L.st)
        _, b, _ = nets(c)
        i = L.at_head.it
        ca = L.v('contacted_agents', is_vi)
        return [('same', Lfrm.forall(dict(a=b.el[i], b=ca.arr, n=b.nlen[i]), lambda a, b, j, n: listed(a, j, n))),
                ('never', Lnever.forall(dict(a=b.el[i], n=b.nlen[i]), lambda a, j, n: listed(a, j, n))),
                ('once', Ldist.forall(dict(a=b.el[i], n=b.nlen[i]), lambda a, j, n: listed(a, j, n)))]

    # reciprocation: base = contacts, cur = contacts and reciprocated contacts
    def contacts(L):
        g = L.st.gh.get('contacts')
        if g is None:
            raise Unsupported('no list of contacts')
        return g

    def recip(L, c, i, now):
        """now(j): agent i has looked at its neighbour j"""
        a, b, _ = nets(c)
        s, n = c.this, a.agents.n
        nl0, el0 = contacts(L)
        base = lambda j, e: listed(el0[j], e, nl0[j])
        cur = lambda j, e: listed(b.el[j], e, b.nlen[j])
        rng = lambda *xs: z3.And(*[z3.And(x >= 0, x < n) for x in xs])
        pats = (lambda j, e: cur(j, e), lambda j, e: base(j, e))
        done = lambda e, j: z3.Or(e < i, z3.And(e == i, now(j)))
        return both(kept(a, b), b.wf(), b.inrange(), [
            ('outgoing edges', b.dir == OUTGOING),
            ('weights are one', qall([I, I], lambda x, k: z3.Implies(z3.And(rng(x), k >= 0, k < b.nlen[x]), b.w[x][k] == 1), lambda x, k: b.w[x][k])),
            ('lists stay short', qall([I], lambda j: z3.Implies(rng(j), b.nlen[j] <= n + i + z3.If(now(j), intv(1), intv(0))), lambda j: b.nlen[j])),
            ('contacts stay', qall([I, I], lambda j, e: z3.Implies(rng(j, e), cur(j, e) >= base(j, e)), *pats)),
            ('listed once', qall([I, I], lambda j, e: z3.Implies(rng(j, e), cur(j, e) <= 1), *pats)),
            ('only reciprocated contacts are added', qall([I, I], lambda j, e: z3.Implies(
                z3.And(rng(j, e), cur(j, e) > base(j, e)), z3.And(done(e, j), base(e, j) >= 1, base(j, e) == 0)), *pats)),
            ('nothing is added at reciprocity 0', z3.Implies(s.reciprocity <= 0, qall([I, I], lambda j, e: z3.Implies(
                rng(j, e), cur(j, e) == base(j, e)), *pats))),
            ('everything is reciprocated at reciprocity 1', z3.Implies(s.reciprocity >= 1, qall([I, I], lambda j, e: z3.Implies(
                z3.And(rng(j, e), done(e, j), base(e, j) >= 1), cur(j, e) >= 1), *pats)))])

    def inv_recip(L):
        c = L.fn.at(L.st)
        return recip(L, c, L.it, lambda j: z3.BoolVal(False)) + [('progress', L.it <= nets(c)[1].n)]

    def inv_back(L):
        c = L.fn.at(L.st)
        a, b, lv = nets(c)
        i, k = L.outer(2), L.it
        e = Net(read(L.ex, L.entry, lv))
        return recip(L, c, i, lambda j: listed(e.el[i], j, k) >= 1) + [
            ('the own list stays', z3.And(b.el[i] == e.el[i], b.nlen[i] == e.nlen[i])), ('progress', k <= e.nlen[i])]

    def entry_recip(L):
        c = L.fn.at(L.st)
        b = nets(c)[1]
        L.st.gh['contacts'] = (b.nlen, b.el)
        return [('not negative', Lnn.quant(lambda a, j, n: listed(a, j, n)))]

    def entry_back(L):
        c = L.fn.at(L.st)
        b = nets(c)[1]
        i = L.outer(2)
        return [('none', known(qall([I], lambda j: listed(b.el[i], j, intv(0)) == 0, lambda j: listed(b.el[i], j, intv(0)))))]

    def step_back(L):
        c, h = L.fn.at(L.st), L.fn.at(L.head)
        lv = nets(c)[2]
        b, p, e = nets(c)[1], Net(read(L.ex, L.head, lv)), Net(read(L.ex, L.entry, lv))
        i, k = L.outer(2), L.at_head.it
        row, n = e.el[i], e.nlen[i]
        j0 = row[k]
        return [('next', known(qall([I], lambda j: z3.Implies(k >= 0, listed(row, j, k + 1) == listed(row, j, k) + z3.If(
                    row[k] == j, intv(1), intv(0))), lambda j: listed(row, j, k + 1)))),
                ('not negative', Lnn.forall(dict(a=row, n=k), lambda a, j, n: listed(a, j, n))),
                ('not more than all', Lmono(row, j0, k + 1, n)),
                ('push', Lpsh.forall(dict(a=p.el[j0], n=p.nlen[j0], e=i), lambda a, n, e, j: listed(z3.Store(a, n, e), j, n + 1))),
                ('not negative', Lnn.quant(lambda a, j, n: listed(a, j, n))),
                ('the neighbour', z3.And(j0 >= 0, j0 < p.n)),
                ('not yet looked at', listed(row, j0, k) == 0)]

    def hints_back(L):
        c = L.fn.at(L.st)
        b = nets(c)[1]
        i, k = L.outer(2), L.it
        j0 = b.el[i][k]
        return [('the neighbour', z3.And(j0 >= 0, j0 < b.n)),
                ('listed', Lone(b.el[i], k, b.nlen[i]))]

    def witnesses(c):
        """the lists of contacts from which the edges arose"""
        if 'contacts' not in c.post.gh:
            if hasattr(c, 'at'):
                raise Unsupported('no list of contacts')
            c.post.gh['contacts'] = (c.ex.fresh(c.post, 'contact_len', A_I), c.ex.fresh(c.post, 'contact', AA_I))
        return c.post.gh['contacts']

    def consistent(c, a, b):
        s, n = c.this, a.agents.n
        nl0, el0 = witnesses(c)
        base = lambda x, y: listed(el0[x], y, nl0[x]) >= 1
        edge = lambda x, y: cnt(b.el[y], b.w[y], x, realv(1), b.nlen[y]) >= 1
        rng = lambda *xs: z3.And(*[z3.And(x >= 0, x < n) for x in xs])
        ep = (lambda x, y: cnt(b.el[y], b.w[y], x, realv(1), b.nlen[y]), lambda x, y: listed(el0[x], y, nl0[x]))
        return both([
            ('incoming edges', b.dir == INCOMING),
            ('every weight is one', qall([I, I], lambda x, k: z3.Implies(z3.And(rng(x), k >= 0, k < b.nlen[x]), b.w[x][k] == 1), lambda x, k: b.w[x][k])),
            ('no neighbour twice', qall([I, I, I], lambda x, k, l: z3.Implies(
                z3.And(rng(x), 0 <= k, k < l, l < b.nlen[x]), b.el[x][k] != b.el[x][l]), lambda x, k, l: (b.el[x][k], b.el[x][l]))),
            ('nobody is its own neighbour', z3.Implies(z3.And(no_draw_is_zero, qall([I], lambda x: z3.Implies(rng(x), m_of(s, x) < n), lambda x: s.bot_m.arr[x])), qall(
                [I, I], lambda x, k: z3.Implies(z3.And(rng(x), k >= 0, k < b.nlen[x]), b.el[x][k] != x), lambda x, k: b.el[x][k])))],
            drawn(s, a, nl0, el0, n),
            [('every contact is an edge', qall([I, I], lambda x, y: z3.Implies(z3.And(rng(x, y), base(x, y)), edge(x, y)), *ep)),
             ('every edge is a contact or reciprocates one', qall([I, I], lambda x, y: z3.Implies(
                 z3.And(rng(x, y), edge(x, y)), z3.Or(base(x, y), base(y, x))), *ep)),
             ('reciprocity 0: only contacts', z3.Implies(s.reciprocity <= 0, qall([I, I], lambda x, y: z3.Implies(
                 rng(x, y), edge(x, y) == base(x, y)), *ep))),
             ('reciprocity 1: every edge is mutual', z3.Implies(s.reciprocity >= 1, qall([I, I], lambda x, y: z3.Implies(
                 z3.And(rng(x, y), edge(x, y)), edge(y, x)), lambda x, y: cnt(b.el[y], b.w[y], x, realv(1), b.nlen[y]))))])

    def facts_prob(c):
        a, b, _ = nets(c)
        n = a.agents.n
        g = c.post.gh.get('contacts')
        return [('counts', Lones.quant(lambda a, w, j, u, n: cnt(a, w, j, u, n))),
                ('count', qall([I, I, R], lambda x, y, u: z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < n, u != 1),
                               cnt(b.el[y], b.w[y], x, u, b.nlen[y]) == 0), lambda x, y, u: cnt(b.el[y], b.w[y], x, u, b.nlen[y]))),
                ('at most one', qall([I, I], lambda x, y: z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < n),
                               cnt(b.el[y], b.w[y], x, realv(1), b.nlen[y]) <= 1), lambda x, y: cnt(b.el[y], b.w[y], x, realv(1), b.nlen[y]))),
                ('counted', known(qall([I, I], lambda y, k: Lc1(b.el[y], b.w[y], k, b.nlen[y]), lambda y, k: b.el[y][k], lambda y, k: b.w[y][k]))),
                ('counted twice', known(qall([I, I, I], lambda y, k, l: Lc2(b.el[y], b.w[y], k, l, b.nlen[y]),
                                             lambda y, k, l: (b.el[y][k], b.el[y][l]))))]

    def pre_prob(c):
        return usable(c.this, nets(c)[0]) + [('contacts are drawn', z3.Not(c.this.mean_weights))]
    P = AD + 'update_network_probabilistic'
    reg.add(Contract(
        P, pre=pre_prob, modifies=net_mods, facts=facts_prob, nonlin=True, inline=('Seldon::Network::push_back_neighbour_and_weight',),
        post=lambda c: both(kept(*nets(c)[:2]), [('still ' + x, t) for x, t in usable(c.thisp, nets(c)[1])], consistent(c, *nets(c)[:2])),
        loops={0: LoopSpec(inv_draw, step=step_draw, dec=lambda L: nets(L.fn)[0].n - L.it), 1: LoopSpec(inv_insert, entry=entry_insert, step=step_insert),
               2: LoopSpec(inv_recip, entry=entry_recip), 3: LoopSpec(inv_back, entry=entry_back, hints=hints_back, step=step_back)}))

    # ---- mean-field weights (C17) ------------------------------------------------------------------------------------------------
    rsum = reg.rsum
    rounds = Fn('contact_in_rounds', [R], R, lambda om: realv(0),
                lambda om, n, r: r + (fn_pow(-om, z3.ToReal(n + 2)) + om) / (om + 1))
    HW, MP = z3.Const('homophily_weights', AA_R), z3.Const('contact_probability', AA_R)
    tol = z3.Q(1, 10 ** 10)

    def mean_defs(c):
        """homophily weights and probabilities, over the state before the update"""
        a, s = nets(c)[0], c.this
        o, n = op(a), a.agents.n
        dist = lambda x, y: absv(o[x] - o[y])
        hom = lambda x: z3.If(z3.And(x >= 0, x < s.n_bots), s.bot_homophily.arr[x], s.homophily)
        act1 = lambda x: z3.If(act(a)[x] > 1, act(a)[x], realv(1))
        return [('definition of the homophily weights', known(qall([I, I], lambda x, y: HW[x][y] == z3.If(
                    x == y, realv(0), fn_pow(z3.If(tol < dist(x, y), dist(x, y), tol), -hom(x))), lambda x, y: HW[x][y]))),
                ('definition of the probabilities', known(qall([I, I], lambda x, y: MP[x][y] == act1(x) * rounds(
                    HW[x][y] / rsum(HW[x], n), m_of(s, x)), lambda x, y: MP[x][y])))]

    def contact_probs(L):
        s = read(L.ex, L.st, L.fn.obj)
        v = s.v.field(contact_name(s))
        return v.terms[0], v.terms[1], v.terms[2]

    def lists_identity(a, b):
        """everyone lists everyone, in order"""
        return both([('the neighbours stay', z3.And(b.nb.n == a.nb.n, qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), z3.And(
                         b.nlen[i] == a.nlen[i], b.el[i] == a.el[i])), lambda i: b.nlen[i], lambda i: b.el[i]))),
                     ('one weight per neighbour', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), b.wlen[i] == a.n), lambda i: b.wlen[i])),
                     ('number of lists', b.wt.n == a.n), ('direction', b.dir == a.dir)], b.same_agents(a))

    def inv_zero(L):
        c = L.fn.at(L.st)
        a, b, _ = nets(c)
        n, cl, ce = contact_probs(L)
        rng = lambda x: z3.And(x >= 0, x < L.it)
        return lists_identity(a, b) + [
            ('progress', L.it <= a.n),
            ('weights are zero so far', qall([I, I], lambda x, y: z3.Implies(z3.And(rng(x), y >= 0, y < a.n), b.w[x][y] == 0), lambda x, y: b.w[x][y])),
            ('number of rows', n == a.n), ('rows have full length', qall([I], lambda x: z3.Implies(rng(x), cl[x] == a.n), lambda x: cl[x]))]

    def inv_probs(L):
        c = L.fn.at(L.st)
        a = nets(c)[0]
        n, cl, ce = contact_probs(L)
        return [('number of rows', n == a.n), ('progress', L.it <= a.n),
                ('rows have full length', qall([I], lambda x: z3.Implies(z3.And(x >= 0, x < a.n), cl[x] == a.n), lambda x: cl[x])),
                ('probabilities so far', qall([I, I], lambda x, y: z3.Implies(z3.And(x >= 0, x < L.it, y >= 0, y < a.n),
                                                                          ce[x][y] == MP[x][y]), lambda x, y: ce[x][y]))]

    def inv_norm(L):
        a = nets(L.fn)[0]
        return [('sum so far', L.local(lambda t: t.kind == 'real', 'the sum') == rsum(HW[L.outer(1)], L.it)), ('progress', L.it <= a.n)]

    def inv_row(L):
        c = L.fn.at(L.st)
        a = nets(c)[0]
        n, cl, ce = contact_probs(L)
        i = L.outer(1)
        return [('number of rows', n == a.n), ('progress', L.it <= a.n),
                ('rows have full length', qall([I], lambda x: z3.Implies(z3.And(x >= 0, x < a.n), cl[x] == a.n), lambda x: cl[x])),
                ('earlier rows', qall([I, I], lambda x, y: z3.Implies(z3.And(x >= 0, x < i, y >= 0, y < a.n), ce[x][y] == MP[x][y]), lambda x, y: ce[x][y])),
                ('this row so far', qall([I], lambda y: z3.Implies(z3.And(y >= 0, y < L.it), ce[i][y] == MP[i][y]), lambda y: ce[i][y]))]

    def omega(L):
        a = nets(L.fn)[0]
        i, j = L.outer(1), L.outer(3)
        return HW[i][j] / rsum(HW[i], a.agents.n)

    def inv_rounds(L):
        om = omega(L)
        return [('sum so far', L.local(lambda t: t.kind == 'real', 'the sum') == rounds(om, L.it)),
                ('progress', L.it <= m_of(L.fn.this, L.outer(1)))]

    def final_weights(c, w, n, first, second):
        r = c.this.reciprocity
        z = realv(0)
        return qall([I, I], lambda x, y: z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < n), w[x][y] == z3.If(first(x, y), MP[y][x], z) + z3.If(
            second(x, y), (1 - MP[y][x]) * r * MP[x][y], z)), lambda x, y: w[x][y])

    def inv_final(inner):
        def inv(L):
            c = L.fn.at(L.st)
            a, b, _ = nets(c)
            i = L.outer(5) if inner else L.it
            if inner:
                j = L.it
                f = lambda x, y: z3.Or(y < i, z3.And(y == i, x < j))
                g = lambda x, y: z3.Or(x < i, z3.And(x == i, y < j))
            else:
                f, g = lambda x, y: y < i, lambda x, y: x < i
            return lists_identity(a, b) + [('progress', L.it <= a.n), ('weights so far', final_weights(c, b.w, a.n, f, g))]
        return inv

    def post_mean(c):
        a, b, _ = nets(c)
        c.post.gh['mean'] = True
        t = lambda x, y: z3.BoolVal(True)
        return both([('everyone is linked to everyone', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < a.n), b.nlen[i] == a.n), lambda i: b.nlen[i])),
                     ('in order', qall([I, I], lambda i, k: z3.Implies(z3.And(i >= 0, i < a.n, k >= 0, k < a.n), b.el[i][k] == k), lambda i, k: b.el[i][k])),
                     ('the mean-field weights', final_weights(c, b.w, a.n, t, t))])
    MQ = AD + 'update_network_mean'
    reg.add(Contract(
        MQ, pre=lambda c: usable(c.this, nets(c)[0]) + [('mean weights', c.this.mean_weights)], modifies=net_mods, nonlin=True,
        facts=mean_defs,
        post=lambda c: both(kept(*nets(c)[:2]), [('still ' + x, t) for x, t in usable(c.thisp, nets(c)[1])], post_mean(c)),
        loops={0: LoopSpec(inv_zero, entry=lambda L: mean_defs(L.fn), dec=lambda L: nets(L.fn)[0].n - L.it), 1: LoopSpec(inv_probs),
               2: LoopSpec(inv_norm, entry=lambda L: [('start', rsum.unfold(HW[L.outer(1)], intv(0)))],
                           step=lambda L: [('next', rsum.unfold_succ(HW[L.outer(1)], L.at_head.it))]),
               3: LoopSpec(inv_row),
               4: LoopSpec(inv_rounds, entry=lambda L: [('start', rounds.unfold(omega(L), intv(0)))],
                           step=lambda L: [('next', rounds.unfold_succ(omega(L), L.at_head.it))]),
               5: LoopSpec(inv_final(False)), 6: LoopSpec(inv_final(True))}))

    # the two variants differ in the network that is passed on
    reg.add(Contract(AD + 'update_network', pre=lambda c: usable(c.this, nets(c)[0]), modifies=net_mods, post=post_update, effect=updated))

    # ---- construction (C18; also what C14 to C17 start from) -----------------------------------------------------------------------
    from .laws import Power, Trunc, ready_copula, pow_laws

    def net_arg(c):
        for k in range(len(c.args)):
            lv = c.lv(k)
            if isinstance(lv, X.LV) and is_network(c.ex.shape_of(c.pre, lv)):
                return lv
        raise Unsupported('the network parameter')

    def settings_arg(c):
        for k in range(len(c.args)):
            lv = c.lv(k)
            if isinstance(lv, X.LV) and lv.root in c.pre.mem:
                s = c.ex.shape_of(c.pre, lv)
                if s.kind == 'struct' and 'reciprocity' in s.fields:
                    return read(c.ex, c.pre, lv)
        raise Unsupported('the settings parameter')

    def gen_arg(c):
        for k in range(len(c.args)):
            lv = c.lv(k)
            if isinstance(lv, X.LV) and c.ex.shape_of(c.pre, lv) is GEN:
                return lv
        raise Unsupported('the generator parameter')

    def two_nets(c):
        lv = net_arg(c)
        return Net(read(c.ex, c.pre, lv)), Net(read(c.ex, c.post, lv)), lv

    BOTS = ('bot_m', 'bot_activity', 'bot_opinion', 'bot_homophily')
    PARAMS = ('dt', 'm', 'eps', 'gamma', 'alpha', 'homophily', 'reciprocity', 'K', 'mean_activities', 'mean_weights', 'use_reluctances',
              'reluctance_mean', 'reluctance_sigma', 'reluctance_eps', 'covariance_factor', 'n_bots') + BOTS

    def pre_ctor(c):
        lv = net_arg(c)
        a = Net(read(c.ex, c.pre, lv))
        s = settings_arg(c)
        return both(a.wf(), a.inrange(), [
            ('incoming edges', a.dir == INCOMING), ('fewer than 2^31 agents', a.n < 2 ** 31),
            ('one entry per bot', z3.And(*[getattr(s, x).n >= s.n_bots for x in BOTS])),
            ('numbers of contacts are not negative', z3.And(s.m >= 0, qall([I], lambda i: z3.Implies(
                z3.And(i >= 0, i < s.n_bots), s.bot_m.arr[i] >= 0), lambda i: s.bot_m.arr[i]))),
            ('valid parameters', z3.And(s.eps > 0, s.eps <= 1, s.gamma > 2, s.reluctance_sigma > 0, s.reluctance_eps > 0,
                                        s.covariance_factor >= -1, s.covariance_factor <= 1))])

    # the average of the activities, -(1-gamma)/(2-gamma) eps^(2-gamma) / (1 - eps^(1-gamma)), defined as a product
    MEAN = z3.Const('mean_activity', R)
    Lcancel = Lemma('cancel', [('x', R), ('y', R), ('k', R)], lambda x, y, k: z3.And(k != 0, x * k == y * k), lambda x, y, k: x == y)

    def mean_factor(s):
        return (2 - s.gamma) * (1 - fn_pow(s.eps, 1 - s.gamma))

    def mean_product(s):
        return -(1 - s.gamma) * fn_pow(s.eps, 2 - s.gamma)

    def mean_def(s):
        return ('definition of the mean activity', known(z3.Implies(s.eps < 1, MEAN * mean_factor(s) == mean_product(s))))

    def average(s, x):
        return z3.Implies(s.eps < 1, x == MEAN)

    def agents_so_far(s, a, b, hi, bots):
        """agents below hi are drawn, of which those below bots are bots"""
        rng = lambda i: z3.And(i >= 0, i < hi)
        free = lambda i: z3.And(i >= bots, i < hi)
        out = [('number of agents', b.agents.n == a.agents.n),
               ('opinions in [-1,1]', qall([I], lambda i: z3.Implies(free(i), z3.And(op(b)[i] >= -1, op(b)[i] <= 1)), lambda i: op(b)[i])),
               ('activities in [eps,1]', z3.Implies(z3.Not(s.mean_activities), qall([I], lambda i: z3.Implies(
                   free(i), z3.And(act(b)[i] >= s.eps, act(b)[i] <= 1)), lambda i: act(b)[i]))),
               ('mean activities', z3.Implies(s.mean_activities, qall([I], lambda i: z3.Implies(
                   free(i), average(s, act(b)[i])), lambda i: act(b)[i]))),
               ('reluctances are not below their minimum', z3.Implies(s.use_reluctances, qall([I], lambda i: z3.Implies(
                   rng(i), rel(b)[i] >= s.reluctance_eps), lambda i: rel(b)[i]))),
               ('reluctances stay unless they are in use', z3.Implies(z3.Not(s.use_reluctances), qall([I], lambda i: z3.Implies(
                   rng(i), rel(b)[i] == rel(a)[i]), lambda i: rel(b)[i]))),
               ('bots start as configured', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < bots), z3.And(
                   op(b)[i] == s.bot_opinion.arr[i], act(b)[i] == s.bot_activity.arr[i])), lambda i: op(b)[i], lambda i: act(b)[i]))]
        if 'velocity' in b.agents.v.shape.elem.fields['data'].fields:
            out.append(('velocities stay', vel(b) == vel(a)))
        return out

    def inv_draw_agents(L):
        c = L.fn.at(L.st)
        a, b, _ = two_nets(c)
        s = settings_arg(c)
        cop = L.v('copula', lambda x: x.kind == 'struct' and x.name == 'Seldon::bivariate_gaussian_copula')
        w, t = Power(cop.dist1), Trunc(cop.dist2)
        return agents_so_far(s, a, b, L.it, intv(0)) + [
            ('progress', L.it <= a.n), ('the reluctances of the others', qall([I], lambda i: z3.Implies(i >= L.it, rel(b)[i] == rel(a)[i]), lambda i: rel(b)[i])),
            ('distributions', z3.And(w.eps == s.eps, w.gamma == s.gamma, t.m == s.reluctance_mean, t.s == s.reluctance_sigma, t.eps == s.reluctance_eps))
        ] + ready_copula(cop)

    def entry_draw_agents(L):
        s = settings_arg(L.fn)
        E = fn_pow(s.eps, 1 - s.gamma)
        return pow_laws() + [mean_def(s), ('E', z3.Implies(s.eps < 1, E > 1)), ('not zero', z3.And(2 - s.gamma != 0, z3.Implies(s.eps < 1, z3.And(1 - E != 0, mean_factor(s) != 0))))]

    def step_draw_agents(L):
        c = L.fn.at(L.st)
        s, b = settings_arg(c), two_nets(c)[1]
        x, k = act(b)[L.at_head.it], mean_factor(s)
        when = lambda t: z3.Implies(z3.And(s.mean_activities, s.eps < 1), t)
        return [('product', when(x * k == mean_product(s))), ('unique', Lcancel(x, MEAN, k)), ('the mean', when(x == MEAN))]

    def inv_bots_agents(L):
        c = L.fn.at(L.st)
        a, b, _ = two_nets(c)
        return agents_so_far(settings_arg(c), a, b, a.n, L.it) + [('progress', L.it <= settings_arg(c).n_bots)]

    def post_ctor(c):
        a, b, _ = two_nets(c)
        s, m = settings_arg(c), c.thisp
        k1 = model_base(m)
        same = lambda x: z3.And(*[p == q for p, q in zip(m.v.field(x).terms, s.v.field(x).terms)])
        lists = [(f'without mean weights: {x}', z3.Implies(z3.Not(s.mean_weights), t)) for x, t in b.same_lists(a) + b.same_dir(a)]
        return both(agents_so_far(s, a, b, a.n, s.n_bots), [
            ('parameters taken from the settings', z3.And(*[same(x) for x in PARAMS])),
            ('limit', z3.And(k1[0] == s.max_iterations.has, z3.Implies(k1[0], k1[1] == s.max_iterations.val % 2 ** 64))),
            ('no iterations yet', k1[2] == 0)], lists, [('ready: ' + x, t) for x, t in usable(m, b)])
    reg.add(Contract(
        AD + 'ActivityDrivenModelAbstract', match=lambda p, g: len(g['params']) == 3, nonlin=True, pre=pre_ctor,
        modifies=lambda c: [net_arg(c), gen_arg(c)], post=post_ctor,
        throws=lambda c: settings_arg(c).n_bots > Net(read(c.ex, c.pre, net_arg(c))).agents.n,
        loops={0: LoopSpec(inv_draw_agents, entry=entry_draw_agents, step=step_draw_agents), 1: LoopSpec(inv_bots_agents)}))
    reg.add(Contract(
        IM + 'InertialModel', match=lambda p, g: len(g['params']) == 3, nonlin=True, pre=pre_ctor,
        modifies=lambda c: [net_arg(c), gen_arg(c)],
        post=lambda c: post_ctor(c) + [('friction', c.thisp.friction_coefficient == settings_arg(c).friction_coefficient)],
        throws=lambda c: settings_arg(c).n_bots > Net(read(c.ex, c.pre, net_arg(c))).agents.n))
