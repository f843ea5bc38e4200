"""Contracts of config_parser.cpp: validate_settings (C21), parse_config_file (C24)."""
from fractions import Fraction
from cxv import tomlmodel as TM
from .net import *

CF = 'Seldon::Config::'
# the enumerators of Config::Model, and the alternative of the settings variant that belongs to each
ALT = {'DeGroot': 'DeGrootSettings', 'ActivityDrivenModel': 'ActivityDrivenSettings',
       'ActivityDrivenInertial': 'ActivityDrivenInertialSettings', 'DeffuantModel': 'DeffuantSettings'}


SECTION = {'DeGroot': 'DeGroot', 'ActivityDrivenModel': 'ActivityDriven', 'ActivityDrivenInertial': 'ActivityDrivenInertial',
           'DeffuantModel': 'Deffuant'}
ULONG, STR_T = 'unsigned long', 'std::basic_string<char>'
ACTIVITY = [('dt', 'dt', 'double', 0.01), ('m', 'm', 'int', 10), ('eps', 'eps', 'double', 0.01), ('gamma', 'gamma', 'double', 2.1),
            ('homophily', 'homophily', 'double', 0.5), ('reciprocity', 'reciprocity', 'double', 0.5),
            ('alpha', 'alpha', 'double', 3.0), ('K', 'K', 'double', 3.0), ('mean_activities', 'mean_activities', 'bool', False),
            ('mean_weights', 'mean_weights', 'bool', False), ('covariance_factor', 'covariance_factor', 'double', 0.0),
            ('reluctances', 'use_reluctances', 'bool', False), ('reluctance_mean', 'reluctance_mean', 'double', 1.0),
            ('reluctance_sigma', 'reluctance_sigma', 'double', 0.25), ('reluctance_eps', 'reluctance_eps', 'double', 0.01),
            ('n_bots', 'n_bots', ULONG, 0)]
# documented key, member, type, default
TABLE = {'DeGroot': [('convergence', 'convergence_tol', 'double', 0.0)],
         'DeffuantModel': [('homophily_threshold', 'homophily_threshold', 'double', 0.2), ('mu', 'mu', 'double', 0.5),
                           ('use_network', 'use_network', 'bool', False), ('binary_vector', 'use_binary_vector', 'bool', False),
                           ('dim', 'dim', ULONG, 1)],
         'ActivityDrivenModel': ACTIVITY,
         'ActivityDrivenInertial': ACTIVITY + [('friction_coefficient', 'friction_coefficient', 'double', 1.0)]}


def str_eq(v, lit):
    b = lit.encode()
    return z3.And(v.len == len(b), *[sel(v.terms[1], intv(i)) == x for i, x in enumerate(b)])


class Opts:
    """a SimulationOptions value"""

    def __init__(self, s):
        self.s = s
        self.var = s.model_settings
        sh = self.var.v.shape
        self.alt = {}
        for j in range(len(sh.alts)):
            self.alt[sh.fields[f'a{j}'].name.split('::')[-1]] = (j, wrap(self.var.v.field(f'a{j}')))
        self.index = self.var.index
        self.model = s.model

    def of(self, model):
        return self.alt[ALT[model]]


def model_value(p, name):
    for t in p.types:
        if t.get('k') == 'enum' and t.get('name', '') == 'Seldon::Config::Model':
            for n, v in t['vals']:
                if n == name:
                    return intv(v)
    raise Unsupported(f'no enumerator Model::{name}')


def consistent(p, o):
    """the settings variant holds the settings of the selected model"""
    return [('the model is one of the four', z3.Or(*[o.model == model_value(p, m) for m in ALT]))] + [
        (f'the settings belong to the model ({m})', z3.Implies(o.model == model_value(p, m), o.index == o.of(m)[0]))
        for m in ALT]


def activity_ok(a):
    return z3.And(a.dt > 0, a.m >= 0, a.eps > 0, a.gamma > 2, a.alpha >= 0, a.reciprocity >= 0,
                  a.reluctance_mean > 0, a.reluctance_sigma > 0, a.reluctance_eps > 0,
                  a.covariance_factor >= -1, a.covariance_factor <= 1,
                  *[z3.And(x.n >= a.n_bots) for x in (a.bot_m, a.bot_activity, a.bot_opinion, a.bot_homophily)])


def valid(p, o):
    out = o.s.output_settings
    ok = [out.start_output > 0]
    for iv in (out.n_output_agents, out.n_output_network):
        ok.append(z3.Implies(iv.has, iv.val > 0))
    for m in ALT:
        a = o.of(m)[1]
        if m == 'DeGroot':
            c = a.convergence_tol >= 0
        elif m == 'DeffuantModel':
            c = z3.And(a.homophily_threshold > 0, a.mu >= 0, a.mu <= 1, a.dim > 0, z3.Implies(z3.Not(a.use_binary_vector), a.dim == 1))
        else:
            c = activity_ok(a)
            if m == 'ActivityDrivenInertial':
                c = z3.And(c, a.friction_coefficient >= 0)
        ok.append(z3.Implies(o.model == model_value(p, m), c))
    return z3.And(*ok)


def add(reg):
    p = reg.p
    reg.add(Contract(
        CF + 'validate_settings',
        pre=lambda c: consistent(p, Opts(c.arg(0))),
        throws=lambda c: z3.Not(valid(p, Opts(c.arg(0))))))

    # ---- reading a configuration file (C24) ------------------------------------------------------------------
    TM.STRS[:] = list(SECTION.values())

    def numeric(n):
        """every element of the array is a number"""
        return qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < TM.alen(n)), z3.And(
            TM.kind(TM.elem(n, i)) >= 0, TM.kind(TM.elem(n, i)) <= 1)), lambda i: TM.elem(n, i))

    def entry_of(n, i, real):
        """element i of the array, as an element of the list"""
        e = TM.elem(n, i)
        tr = z3.If(TM.fval(e) >= 0, z3.ToInt(TM.fval(e)), -z3.ToInt(-TM.fval(e)))
        return z3.If(TM.kind(e) == 0, z3.ToReal(TM.ival(e)), TM.fval(e)) if real else z3.If(TM.kind(e) == 0, TM.ival(e), tr)

    def int_entries(n):
        """the numbers of the array fit into an int"""
        return qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < TM.alen(n)), z3.And(
            TM.ival(TM.elem(n, i)) >= -2 ** 31, TM.ival(TM.elem(n, i)) < 2 ** 31,
            TM.fval(TM.elem(n, i)) > -2 ** 31, TM.fval(TM.elem(n, i)) < 2 ** 31)), lambda i: TM.elem(n, i))

    def inv_list(L):
        n = L.st.gh.get('toml_array')
        vecs = []
        for r, j in sorted(L.M):
            sh = L.st.mem[r].shape
            if r in L.entry.mem and sh.leaves[j][0][-1:] == ('len',) and (r, j + 1) in L.M:
                vecs.append((r, j))
        if n is None or len(vecs) != 1:
            raise Unsupported(f'cannot identify the list that loop {L.no} fills')
        r, j = vecs[0]
        n0, a0 = L.entry.mem[r].terms[j:j + 2]
        n1, a1 = L.st.mem[r].terms[j:j + 2]
        real = L.st.mem[r].shape.leaves[j + 1][1].name() == 'Real'
        return [('one entry per element', z3.And(n1 >= n0, n1 <= n0 + L.it, z3.Implies(numeric(n), n1 == n0 + L.it))),
                ('earlier entries are kept', qall([I], lambda i: z3.Implies(z3.And(i >= 0, i < n0), a1[i] == a0[i]), lambda i: a1[i])),
                ('entries are the elements', z3.Implies(numeric(n), qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < L.it), a1[n0 + i] == entry_of(n, i, real)), lambda i: TM.elem(n, i))))]

    def root(c):
        s = c.arg(0)
        return TM.file_(s.v.len, s.v.terms[1])

    def get(n, T, sh, dflt):
        v = TM.val(T, sh, n)
        h = TM.has(T, n)
        if dflt is None:
            return lambda s: z3.And(s.has == h, z3.Implies(h, s.val == v.t))
        return lambda s: z3.If(h, s == v.t, s == dflt if not isinstance(dflt, bool) else s == z3.BoolVal(dflt))

    def name_is(c, sec):
        n = TM.path('simulation', 'model')(root(c))
        return str_eq(TM.val(STR_T, STRING, n), sec)

    def known_name(c):
        n = TM.path('simulation', 'model')(root(c))
        return z3.And(TM.has(STR_T, n), z3.Or(*[name_is(c, s) for s in SECTION.values()]))

    def list_ok(n, s, n_bots, dflt, real):
        arr = TM.kind(n) == 7
        return [('an absent list has one default entry per bot', z3.Implies(z3.Not(arr), z3.And(s.n == n_bots, qall(
            [I], lambda i: z3.Implies(z3.And(i >= 0, i < s.n), s.arr[i] == dflt), lambda i: s.arr[i])))),
                ('a given list is taken over', z3.Implies(z3.And(arr, numeric(n)), z3.And(s.n == TM.alen(n), qall(
                    [I], lambda i: z3.Implies(z3.And(i >= 0, i < s.n), s.arr[i] == entry_of(n, i, real)),
                    lambda i: s.arr[i], lambda i: TM.elem(n, i)))))]

    def post_parse(c):
        d = root(c)
        P = lambda *k: TM.path(*k)(d)
        r = c.result
        o = Opts(r)
        out, net = r.output_settings, r.network_settings
        seed = TM.val('int', I32, P('simulation', 'rng_seed')).t
        ps = [('simulation.rng_seed', z3.Implies(TM.has('int', P('simulation', 'rng_seed')), r.rng_seed == seed)),
              ('io.n_output_network', get(P('io', 'n_output_network'), ULONG, SIZE, None)(out.n_output_network)),
              ('io.n_output_agents', get(P('io', 'n_output_agents'), ULONG, SIZE, None)(out.n_output_agents)),
              ('io.print_progress', get(P('io', 'print_progress'), 'bool', BOOL, False)(out.print_progress)),
              ('io.output_initial', get(P('io', 'output_initial'), 'bool', BOOL, True)(out.output_initial)),
              ('io.start_output', get(P('io', 'start_output'), ULONG, SIZE, intv(1))(out.start_output)),
              ('io.start_numbering_from', get(P('io', 'start_numbering_from'), ULONG, SIZE, intv(0))(out.start_numbering_from)),
              ('network.number_of_agents', get(P('network', 'number_of_agents'), ULONG, SIZE, intv(200))(net.n_agents)),
              ('network.connections_per_agent', get(P('network', 'connections_per_agent'), ULONG, SIZE, intv(10))(net.n_connections))]
        ps += [('the settings belong to the model: ' + n, t) for n, t in consistent(p, o)]
        for m, sec in SECTION.items():
            a = o.of(m)[1]
            sel_ = name_is(c, sec)
            qs = [('the model', o.model == model_value(p, m)),
                  ('model.max_iterations', get(P('model', 'max_iterations'), 'int', I32, None)(a.max_iterations))]
            for key, fld, T, dflt in TABLE[m]:
                sh = dict(double=REAL, int=I32, bool=BOOL).get(T, SIZE)
                dv = z3.Q(*map(int, Fraction(repr(float(dflt))).as_integer_ratio())) if T == 'double' else dflt if T == 'bool' else intv(dflt)
                qs.append((f'{sec}.{key}', get(P(sec, key), T, sh, dv)(getattr(a, fld))))
            if m.startswith('Activity'):
                for key, dflt, real in (('bot_m', a.m, False), ('bot_opinion', z3.RealVal(0), True),
                                        ('bot_activity', z3.RealVal(1), True), ('bot_homophily', a.homophily, True)):
                    qs += [(f'{sec}.{key}: {n}', t) for n, t in list_ok(P(sec, key), getattr(a, key), a.n_bots, dflt, real)]
            ps += [(n, z3.Implies(sel_, t)) for n, t in qs]
        return ps

    reg.add(Contract(
        CF + 'parse_config_file', post=post_parse, loops={k: LoopSpec(inv_list) for k in range(12)},
        pre=lambda c: [('the entries of bot_m fit into an int', z3.And(*[
            int_entries(TM.path(s, 'bot_m')(root(c))) for s in (SECTION['ActivityDrivenModel'], SECTION['ActivityDrivenInertial'])])),
                       ('fewer than 2^60 bots', z3.And(*[TM.val(ULONG, SIZE, TM.path(s, 'n_bots')(root(c))).t <= MAXLEN
                                                         for s in (SECTION['ActivityDrivenModel'], SECTION['ActivityDrivenInertial'])]))],
        throws=lambda c: z3.Not(z3.And(TM.parses(c.arg(0).v.len, c.arg(0).v.terms[1]), known_name(c)))))
