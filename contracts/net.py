"""Observers of a Network value, in terms of which the contracts are written."""
import z3
from cxv.core import *
from cxv.spec import *
from cxv.theory import *

I = z3.IntSort()


def is_vv(kind):
    return lambda s: s.kind == 'vec' and s.elem.kind == 'vec' and s.elem.elem.kind == kind


def is_network(s):
    return s.kind == 'struct' and s.name == 'Seldon::Network'


class Net:
    """the lists of a network value: nl[i] / el[i][k] neighbours, wl[i] / w[i][k] weights"""

    def __init__(self, s):
        self.s = s
        fs = s.v.shape.fields
        self.nb_name = [k for k in fs if is_vv('int')(fs[k])]
        self.wt_name = [k for k in fs if is_vv('real')(fs[k])]
        self.nb = s.field_of_shape(is_vv('int'), 'the neighbour lists')
        self.wt = s.field_of_shape(is_vv('real'), 'the weight lists')
        self.dir = s.field_of_shape(lambda x: x.kind == 'int' and getattr(x, 'enum', None), 'the direction')
        self.agents = s.agents
        self.n = self.nb.n
        self.nlen, self.el = self.nb.v.terms[1], self.nb.v.terms[2]
        self.wlen, self.w = self.wt.v.terms[1], self.wt.v.terms[2]

    def wf(self):
        """one list of neighbours and one of weights per agent, one weight per neighbour"""
        return [('one neighbour list per agent', self.nb.n == self.agents.n),
                ('one weight list per agent', self.wt.n == self.agents.n),
                ('sizes', z3.And(self.nb.n >= 0, self.nb.n <= MAXLEN)),
                ('one weight per neighbour', qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < self.n),
                    z3.And(self.nlen[i] == self.wlen[i], self.nlen[i] >= 0, self.nlen[i] <= MAXLEN)),
                    lambda i: self.nlen[i], lambda i: self.wlen[i]))]

    def inrange(self):
        return [('neighbours are agents', qall([I, I], lambda i, k: z3.Implies(
            z3.And(i >= 0, i < self.n, k >= 0, k < self.nlen[i]),
            z3.And(self.el[i][k] >= 0, self.el[i][k] < self.n)), lambda i, k: self.el[i][k]))]

    def same_agents(self, o):
        return [(f'agents unchanged ({j})', a == b) for j, (a, b) in
                enumerate(zip(self.agents.v.terms, o.agents.v.terms))]

    def same_lists(self, o):
        return [('lists unchanged', z3.And(*[a == b for a, b in zip(self.nb.v.terms + self.wt.v.terms,
                                                                      o.nb.v.terms + o.wt.v.terms)]))]

    def same_dir(self, o):
        return [('direction unchanged', self.dir == o.dir)]

    def same_others(self, o, idx):
        """every list but idx's as in o"""
        return [('number of lists', z3.And(self.nb.n == o.nb.n, self.wt.n == o.wt.n)),
                ('other agents keep their edges', qall([I], lambda i: z3.Implies(
                    z3.And(i >= 0, i < self.n, i != idx),
                    z3.And(self.nlen[i] == o.nlen[i], self.wlen[i] == o.wlen[i],
                           self.el[i] == o.el[i], self.w[i] == o.w[i])),
                    lambda i: self.nlen[i], lambda i: self.el[i], lambda i: self.wlen[i], lambda i: self.w[i]))]


INCOMING, OUTGOING = 0, 1


def both(*ls):
    return [x for l in ls for x in l]
