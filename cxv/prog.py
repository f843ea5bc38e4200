"""The program: the typed AST exported by the front end, and its types as shapes."""
import json
from .core import *


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.funcs = {f['id']: f for f in d['funcs']}
        self.recs = {r['id']: r for r in d['recs']}
        self.globals = {g['id']: g for g in d['globals']}
        self.byq = {}
        for f in d['funcs']:
            self.byq.setdefault(f['q'], []).append(f)
        self.recq = {}
        for r in d['recs']:
            self.recq.setdefault(r['q'], []).append(r)
        self._shape = {}

    # ---- types -------------------------------------------------------------------------------
    def ty(self, i):
        return self.types[i]

    def strip(self, i):
        t = self.types[i]
        while t['k'] == 'ref':
            i = t['to']
            t = self.types[i]
        return i

    def name(self, i):
        return self.types[self.strip(i)].get('name', '')

    def tstr(self, i):
        return self.types[i]['s']

    def fields_of(self, rid):
        """all fields, base classes first: (name, type index, init expr, record)"""
        r = self.recs[rid]
        out = []
        for b in r.get('bases', []):
            bt = self.types[b]
            if 'rid' in bt:
                out += self.fields_of(bt['rid'])
        for f in r['fields']:
            out.append((f['name'], f['t'], f.get('init'), r))
        return out

    def bases_of(self, rid):
        r = self.recs[rid]
        out = []
        for b in r.get('bases', []):
            bt = self.types[b]
            if 'rid' in bt:
                out.append(bt['rid'])
                out += self.bases_of(bt['rid'])
        return out

    def shape(self, i):
        """shape of the values of a type, None for types with python level values (references, pointers,
        iterators, spans, callables)"""
        i = self.strip(i)
        if i not in self._shape:
            self._shape[i] = self._mk(i)
        return self._shape[i]

    def _mk(self, i):
        t = self.types[i]
        k = t['k']
        if k == 'bool':
            return BOOL
        if k == 'int':
            w, sg = t['w'], t['sg']
            if sg:
                return SInt(-2 ** (w - 1), 2 ** (w - 1) - 1, w, True, t.get('char', False))
            return SInt(0, 2 ** w - 1, w, False, t.get('char', False))
        if k == 'enum':
            vs = [v for _, v in t['vals']]
            if not vs:
                return SInt(0, 2 ** t.get('w', 32) - 1, t.get('w', 32), False)
            s = SInt(min(vs), max(vs), t.get('w', 32), t.get('sg', False))
            s.enum = t['name']
            return s
        if k == 'real':
            return FLOAT if t.get('w', 64) < 64 else REAL
        if k == 'void':
            return NOTHING
        if k == 'rec':
            return self._rec(i, t)
        if k == 'arr':
            e = self.shape(t['to'])
            if e is None:
                return None
            s = SVec(e, 'array')
            s.n = t['n']
            return s
        return None

    def _targ(self, t, n):
        return t['args'][n]['t']

    def _rec(self, i, t):
        n = t['name']
        if t.get('lambda'):
            return None
        if n in ('std::vector',):
            e = self.shape(self._targ(t, 0))
            return None if e is None else SVec(e)
        if n in ('std::basic_string', 'std::basic_string_view', 'std::filesystem::path'):
            return STRING
        if n == 'std::optional':
            e = self.shape(self._targ(t, 0))
            return None if e is None else opt_shape(e)
        if n == 'std::pair':
            a, b = self.shape(self._targ(t, 0)), self.shape(self._targ(t, 1))
            if a is None or b is None:
                return None
            return SStruct('std::pair', {'first': a, 'second': b}, tag='pair')
        if n == 'std::array':
            e = self.shape(self._targ(t, 0))
            s = SVec(e, 'array')
            s.n = int(t['args'][1]['i'])
            return s
        if n in ('std::set', 'std::unordered_set'):
            return SSet(self.shape(self._targ(t, 0)))
        if n == 'std::priority_queue':
            s = SVec(self.shape(self._targ(t, 0)), 'pq')
            s.cmp_type = self._targ(t, 2)
            return s
        if n == 'std::mersenne_twister_engine':
            return GEN
        if n == 'std::uniform_real_distribution':
            return SStruct(n, {'a': REAL, 'b': REAL}, tag='ureal')
        if n == 'std::uniform_int_distribution':
            e = self.shape(self._targ(t, 0))
            return SStruct(n, {'a': e, 'b': e}, tag='uint')
        if n == 'std::normal_distribution':
            return SStruct(n, {'mu': REAL, 'sigma': REAL, 'saved': SOpaque('nd')}, tag='normal')
        if n == 'std::variant':
            fs = {'index': SIZE}
            p = t['args'][0]['pack'] if 'pack' in t['args'][0] else t['args']
            for j, a in enumerate(p):
                fs[f'a{j}'] = self.shape(a['t'])
            s = SStruct('std::variant', fs, tag='variant')
            s.alts = [self.strip(a['t']) for a in p]
            return s
        if n in ('std::span', '__gnu_cxx::__normal_iterator', 'std::initializer_list', 'std::_Bit_reference',
                 'std::reverse_iterator'):
            return None
        if 'rid' in t and t['rid'] in self.recs:
            fs, refs, owned = {}, {}, set()
            for (fn, ft, init, r) in self.fields_of(t['rid']):
                tt = self.types[ft]
                if tt['k'] in ('ref', 'ptr'):
                    refs[fn] = self.shape(tt['to'])
                elif tt.get('name') == 'std::unique_ptr':
                    refs[fn] = self.shape(tt['args'][0]['t'])
                    owned.add(fn)
                else:
                    s = self.shape(ft)
                    if s is None:
                        raise Unsupported(f'field {n}::{fn} of type {tt["s"]}')
                    fs[fn] = s
            s = SStruct(n, fs, refs, tag='user')
            s.rid = t['rid']
            s.tidx = i
            s.owned = owned  # members that own an object of some derived class
            return s
        return SOpaque(n)

    # ---- functions ---------------------------------------------------------------------------
    def find(self, q, cls=None, params=None, targs=None, pred=None):
        """functions with this qualified name; cls / params / targs are substrings of the printed types"""
        out = []
        for f in self.byq.get(q, []):
            if f.get('body') is None:
                continue
            if cls is not None and cls not in self.tstr(f['cls']):
                continue
            if params is not None:
                ps = [self.tstr(p['t']) for p in f['params']]
                if len(ps) != len(params) or not all(a in b for a, b in zip(params, ps)):
                    continue
            if targs is not None and targs not in self.targ_str(f):
                continue
            if pred is not None and not pred(f):
                continue
            out.append(f)
        return out

    def targ_str(self, f):
        return ','.join(self.tstr(a['t']) if 't' in a else str(a) for a in f.get('targs', []))
