"""Contracts of the random-variate transforms in util/math.hpp (C25) and of the construction of the activity-driven models (C18)."""
from cxv import exec as X
from .net import *
from cxv.theory import fn_pow, fn_erf, fn_exp, fn_sqrt, rng_nrm, rng_u01

R = z3.RealSort()
S = 'Seldon::'
PL, TN, BN, BC = (S + x + '::' for x in ('power_law_distribution', 'truncated_normal_distribution', 'bivariate_normal_distribution',
                                        'bivariate_gaussian_copula'))
PI = z3.Q(3141592653589793, 10 ** 15)  # pi as the verifier reads the literal of /repo (shortest decimal of the double)


# ---- assumed laws of the functions of the standard library, over the reals --------------------------------------------
def pow_laws():
    x, y, a, b = z3.Reals('x! y! a! b!')
    p = fn_pow
    return [('pow: powers of powers', known(z3.ForAll([x, a, b], z3.Implies(z3.And(x > 0, a * b == 1), p(p(x, a), b) == x),
                                                      patterns=[p(p(x, a), b)]))),
            ('pow: decreasing for negative exponents', known(z3.ForAll([x, y, a], z3.Implies(
                z3.And(x > 0, x < y, a < 0), p(x, a) > p(y, a)), patterns=[z3.MultiPattern(p(x, a), p(y, a))]))),
            ('pow: positive', known(z3.ForAll([x, a], z3.Implies(x > 0, p(x, a) > 0), patterns=[p(x, a)]))),
            ('pow: powers of one', known(z3.ForAll([a], p(realv(1), a) == 1, patterns=[p(realv(1), a)])))]


def erf_laws():
    x, y = z3.Reals('x! y!')
    f = fn_erf
    return [('erf: increasing', known(z3.ForAll([x, y], z3.Implies(x < y, f(x) < f(y)), patterns=[z3.MultiPattern(f(x), f(y))]))),
            ('erf: between -1 and 1', known(z3.ForAll([x], z3.And(f(x) > -1, f(x) < 1), patterns=[f(x)])))]


def std_cdf(z):
    """the standard normal distribution function"""
    return (1 + fn_erf(z / fn_sqrt(realv(2)))) / 2


def root2():
    q = fn_sqrt(realv(2))
    return ('square root of two', known(z3.And(q > 0, q * q == 2)))


class Power:
    """closed forms of the power law on [eps, 1]: the integral F of the density"""

    def __init__(self, s):
        self.eps, self.gamma = s.eps, s.gamma
        self.E = fn_pow(s.eps, 1 - s.gamma)

    def valid(self):
        return [('parameters', z3.And(self.eps > 0, self.eps <= 1, self.gamma > 1))]

    def inverts(self, y, r):
        """F(r) = (r^(1-gamma) - E)/(1 - E) = y, as a product"""
        return fn_pow(r, 1 - self.gamma) - self.E == y * (1 - self.E)

    def range(self, r):
        return z3.And(self.eps <= r, r <= 1)


class Trunc:
    def __init__(self, s):
        self.m, self.s, self.eps = s.mean, s.sigma, s.eps

    def valid(self):
        return [('parameters', z3.And(self.s > 0))]

    def cdf(self, x):
        return (1 + fn_erf((x - self.m) / (self.s * fn_sqrt(realv(2))))) / 2

    def inverts(self, y, r):
        """(cdf(r) - cdf(eps)) / (1 - cdf(eps)) = y, as a product"""
        c = self.cdf(self.eps)
        return self.cdf(r) - c == y * (1 - c)


def is_nrm(x):
    return x.kind == 'struct' and x.tag == 'normal'


def nrm_of(s):
    return s.field_of_shape(is_nrm, 'the normal distribution')


def bnd(s):
    return s.biv_normal_dist

def ready_copula(s):
    """what the constructor of the copula establishes"""
    w, t, b = Power(s.dist1), Trunc(s.dist2), bnd(s)
    nd = nrm_of(b).v
    return w.valid() + t.valid() + [
        ('covariance', z3.And(b.covariance >= -1, b.covariance <= 1)),
        ('standard normal', z3.And(nd.field('mu').t == 0, nd.field('sigma').t == 1))]


def add(reg):
    # ---- power law -----------------------------------------------------------------------------------------------------------
    Linc = Lemma('inverse_cdf_increasing', [('E', R), ('g', R), ('y1', R), ('y2', R), ('r1', R), ('r2', R)],
                 lambda E, g, y1, y2, r1, r2: z3.And(
                     E > 1, g > 1, r1 > 0, r2 > 0, y1 < y2, fn_pow(r1, 1 - g) - E == y1 * (1 - E), fn_pow(r2, 1 - g) - E == y2 * (1 - E)),
                 lambda E, g, y1, y2, r1, r2: r1 < r2, using=lambda **k: [t for _, t in pow_laws()])

    def facts_pinv(c):
        w = Power(c.this)
        y, r = c.arg(0), c.result
        # the value is a power of the base
        return pow_laws() + [root2(), ('reciprocal', (1 / (1 - w.gamma)) * (1 - w.gamma) == 1),
                             ('E is at least one', w.E >= 1),
                             ('base', z3.And((1 - w.E) * y + w.E >= 1, (1 - w.E) * y + w.E <= w.E)),
                             ('power', fn_pow(r, 1 - w.gamma) == (1 - w.E) * y + w.E),
                             ('back', fn_pow(fn_pow(r, 1 - w.gamma), 1 / (1 - w.gamma)) == r),
                             ('lower end', fn_pow(w.E, 1 / (1 - w.gamma)) == w.eps),
                             ('upper end', fn_pow(realv(1), 1 / (1 - w.gamma)) == 1),
                             ('two values', Linc(w.E, w.gamma, y, y, r, r))]

    def post_pinv(c):
        w = Power(c.this)
        y, r = c.arg(0), c.result
        return [('it inverts the integral of the density', w.inverts(y, r)), ('it stays in [eps, 1]', w.range(r)),
                ('0 is mapped to eps', z3.Implies(y == 0, r == w.eps)), ('1 is mapped to 1', z3.Implies(y == 1, r == 1))]
    reg.add(Contract(PL + 'inverse_cdf', nonlin=True, facts=facts_pinv, post=post_pinv,
                     pre=lambda c: Power(c.this).valid() + [('a probability', z3.And(c.arg(0) >= 0, c.arg(0) <= 1))]))
    reg.add(Contract(
        PL + 'pdf', nonlin=True, pre=lambda c: Power(c.this).valid() + [('argument', z3.And(c.arg(0) > 0, c.this.eps < 1))],
        facts=lambda c: pow_laws() + [('E', Power(c.this).E > 1)],
        post=lambda c: [('the documented density', c.result * (1 - Power(c.this).E) == (1 - c.this.gamma) * fn_pow(c.arg(0), -c.this.gamma))]))

    # ---- truncated normal -----------------------------------------------------------------------------------------------------------
    reg.add(Contract(S + 'Math::erfinv', verify=False, modular=True, pre=lambda c: [('between -1 and 1', z3.And(c.arg(0) > -1, c.arg(0) < 1))],
                     post=lambda c: [('it inverts erf', fn_erf(c.result) == c.arg(0))]))

    def facts_tinv(c):
        w = Trunc(c.this)
        r = c.result
        q = fn_sqrt(realv(2))
        z = (r - w.m) / (w.s * q)
        c0 = w.cdf(w.eps)
        p = c.arg(0) * (1 - c0) + c0
        return erf_laws() + [root2(), ('the threshold has a probability', z3.And(c0 > 0, c0 < 1)), ('probability', z3.And(p > 0, p < 1)),
                             ('inverted', fn_erf(z) == 2 * p - 1),
                             ('at least the threshold', z >= (w.eps - w.m) / (w.s * q)),
                             ('scaled', z * (w.s * q) >= (w.eps - w.m) / (w.s * q) * (w.s * q))]
    reg.add(Contract(
        TN + 'inverse_cdf', nonlin=True, facts=facts_tinv,
        pre=lambda c: Trunc(c.this).valid() + [('a probability', z3.And(c.arg(0) >= 0, c.arg(0) < 1))],
        post=lambda c: [('it never falls below eps', c.result >= c.this.eps), ('it inverts the distribution function', Trunc(c.this).inverts(
            c.arg(0), c.result))]))

    def facts_tpdf(c):
        w = Trunc(c.this)
        x, r = c.arg(0), c.result
        z = (x - w.m) / w.s
        q, t = w.s * fn_sqrt(2 * PI), 1 - w.cdf(w.eps)
        return [('width', q > 0), ('reciprocals', z3.And(1 / q * q == 1, 1 / t * t == 1)),
                ('the density without divisions', z3.Implies(x >= w.eps, r == (1 / t) * ((1 / q) * fn_exp(-(z * z) / 2))))]

    def post_tpdf(c):
        w = Trunc(c.this)
        x, r = c.arg(0), c.result
        z = (x - w.m) / w.s
        return [('zero below eps', z3.Implies(x < w.eps, r == 0)),
                ('the renormalised Gaussian above', z3.Implies(x >= w.eps, r * (1 - w.cdf(w.eps)) * (w.s * fn_sqrt(2 * PI)) == fn_exp(-(z * z) / 2)))]
    reg.add(Contract(TN + 'pdf', nonlin=True, pre=lambda c: Trunc(c.this).valid(), post=post_tpdf,
                     facts=lambda c: erf_laws() + [root2(), ('root', known(z3.And(fn_sqrt(2 * PI) > 0))), ('tail', 1 - Trunc(c.this).cdf(c.this.eps) > 0)] + facts_tpdf(c)))

    # ---- bivariate normal and copula --------------------------------------------------------------------------------------------------
    def gen_of(c, k):
        """the state of the generator before the call"""
        v = c.ex.load(c.pre, c.lv(k))
        return v.t

    nxt, svd = z3.Function('rng_nrm_next', I, I, I), z3.Function('rng_nrm_saved', I, I, I)

    def two(gen, saved):
        """consecutive standard normal draws"""
        return rng_nrm(gen, saved), rng_nrm(nxt(gen, saved), svd(gen, saved))

    def biv(r0, r1, cov, gen, saved):
        a, b = two(gen, saved)
        f = lambda u, v: z3.And(r0 == u, r1 == cov * u + fn_sqrt(1 - cov * cov) * v)
        return z3.Or(f(a, b), f(b, a))

    reg.add(Contract(
        BN + 'operator()', nonlin=True, pre=lambda c: [('covariance', z3.And(c.this.covariance >= -1, c.this.covariance <= 1)),
                                                       ('standard normal', z3.And(nrm_of(c.this).v.field('mu').t == 0, nrm_of(c.this).v.field('sigma').t == 1))],
        modifies=lambda c: [c.obj, c.lv(0)],
        post=lambda c: [('two values', c.result.n == 2), ('parameters are kept', z3.And(c.thisp.covariance == c.this.covariance, nrm_of(c.thisp).v.field('mu').t == nrm_of(c.this).v.field('mu').t, nrm_of(c.thisp).v.field('sigma').t == nrm_of(c.this).v.field('sigma').t)), ('correlated standard draws', biv(c.result.arr[0], c.result.arr[1], c.this.covariance, gen_of(c, 0), nrm_of(c.this).v.field('saved').t))]))

    def post_copula(c):
        s = c.this
        w, t = Power(s.dist1), Trunc(s.dist2)
        r0, r1 = c.result.arr[0], c.result.arr[1]
        gen, saved, cov = gen_of(c, 0), nrm_of(bnd(s)).v.field('saved').t, bnd(s).covariance
        a, b = two(gen, saved)

        def with_draws(u, v):
            z1 = cov * u + fn_sqrt(1 - cov * cov) * v
            return z3.And(w.inverts(std_cdf(u), r0), t.inverts(std_cdf(z1), r1))
        return [('two values', c.result.n == 2), ('the first stays in [eps, 1]', w.range(r0)), ('the second never falls below its eps', r1 >= t.eps),
                ('marginals of the two correlated normal draws', z3.Or(with_draws(a, b), with_draws(b, a))),
                ('nothing but the stored draw changes', still(c.this, c.thisp))]

    def still(a, b):
        return z3.And(*[x == y for x, y in zip(a.v.field('dist1').terms + a.v.field('dist2').terms, b.v.field('dist1').terms + b.v.field('dist2').terms)],
                      bnd(a).covariance == bnd(b).covariance, nrm_of(bnd(b)).v.field('mu').t == nrm_of(bnd(a)).v.field('mu').t,
                      nrm_of(bnd(b)).v.field('sigma').t == nrm_of(bnd(a)).v.field('sigma').t)
    reg.add(Contract(
        BC + 'operator()', nonlin=True, pre=lambda c: ready_copula(c.this), modifies=lambda c: [c.obj, c.lv(0)], post=post_copula,
        facts=lambda c: [root2()]))

    def unit(s):
        u = s.field_of_shape(lambda x: x.kind == 'struct' and x.tag == 'ureal', 'the uniform distribution').v
        return [('uniform on [0, 1)', z3.And(u.field('a').t == 0, u.field('b').t == 1))]

    # drawing: the transform of one uniform draw
    for Q, W in ((PL, Power), (TN, Trunc)):
        reg.add(Contract(
            Q + 'operator()', nonlin=True, pre=lambda c, W=W: W(c.this).valid() + unit(c.this), modifies=lambda c: [c.obj, c.lv(0)],
            post=lambda c, W=W: [('the transform of a uniform draw', W(c.this).inverts(rng_u01(gen_of(c, 0)), c.result))]))

    # construction
    reg.add(Contract(PL + 'power_law_distribution', modular=False, match=lambda p, g: len(g['params']) == 2,
                     post=lambda c: unit(c.thisp) + [('parameters', z3.And(c.thisp.eps == c.arg(0), c.thisp.gamma == c.arg(1)))]))
    reg.add(Contract(TN + 'truncated_normal_distribution', modular=False, match=lambda p, g: len(g['params']) == 3,
                     post=lambda c: unit(c.thisp) + [('parameters', z3.And(c.thisp.mean == c.arg(0), c.thisp.sigma == c.arg(1), c.thisp.eps == c.arg(2)))]))

    def post_biv_ctor(c):
        nd = nrm_of(c.thisp).v
        return [('parameters', z3.And(c.thisp.covariance == c.arg(0), nd.field('mu').t == 0, nd.field('sigma').t == 1))]
    one = lambda p, g: len(g['params']) == 1 and p.ty(g['params'][0]['t'])['k'] == 'real'
    reg.add(Contract(BN + 'bivariate_normal_distribution', modular=False, match=one, post=post_biv_ctor))
    reg.add(Contract(BC + 'bivariate_gaussian_copula', modular=False, match=lambda p, g: len(g['params']) == 3,
                     post=lambda c: [('covariance', bnd(c.thisp).covariance == c.arg(0)), ('standard normal', z3.And(
                         nrm_of(bnd(c.thisp)).v.field('mu').t == 0, nrm_of(bnd(c.thisp)).v.field('sigma').t == 1)),
                         ('first marginal', z3.And(c.thisp.dist1.eps == c.arg(1).eps, c.thisp.dist1.gamma == c.arg(1).gamma)),
                         ('second marginal', z3.And(c.thisp.dist2.mean == c.arg(2).mean, c.thisp.dist2.sigma == c.arg(2).sigma,
                                                    c.thisp.dist2.eps == c.arg(2).eps))]))
