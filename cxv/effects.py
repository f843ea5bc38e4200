"""Effect contracts: every function that a simulation can reach is under the contract

    det(f):  what f returns, throws and leaves in the objects it may write is a function of its arguments, the objects
             they refer to, *this and the input files; f may read clocks, but what it reads flows to the terminal only.

The contract is checked function by function, a call against the contract of the callee (never its body); recursion is
fine, because the contract is about every terminating execution.  Obligations of one function:

  calls       every library function called is in the table DET of functions with that contract, or is a clock
  clocks      values that depend on a clock are used by printing to the terminal only
  statics     no variable of static or thread storage duration that can change is used; constant ones are initialised
              from constants
  addresses   no pointer is turned into a number, ordered, hashed or printed
  locals      no local variable is read before it is given a value
  members     a constructor gives every member of scalar type a value

What a function does with its operands otherwise is determined by the C++ abstract machine (an implementation evaluates
operands in a fixed order); that no object is accessed outside its lifetime or bounds is what the other checks prove."""
import re

SOURCES = re.compile(r'''^(std::random_device::.*|std::(rand|random|srand|time|clock|getenv|tmpnam|thread|async|jthread)|
(rand|random|drand48|lrand48|rand_r|time|clock|gettimeofday|clock_gettime|getpid|getppid|gettid|getenv|secure_getenv|arc4random.*|getrandom|getentropy|gethostname|tmpnam|mkstemp)|
std::(this_thread|thread|jthread|atomic|mutex|condition_variable)::.*|std::(this_thread)::.*|
fmt::ptr|std::filesystem::(last_write_time|space|temp_directory_path)|std::make_unique_for_overwrite|std::uncaught_exceptions|
std::pointer_traits::.*|std::addressof_to_int)$'''.replace('\n', ''))
CLOCK = re.compile(r'^std::chrono::(\w+::)*now$')
MATH = ('abs acos acosh asin asinh atan atan2 atanh cbrt ceil copysign cos cosh erf erfc exp exp2 expm1 fabs fdim floor fma fmax fmin '
        'fmod frexp hypot ilogb isfinite isinf isnan isnormal ldexp lgamma llrint llround log log10 log1p log2 logb lrint lround '
        'modf nearbyint nextafter pow remainder rint round scalbn signbit sin sinh sqrt tan tanh tgamma trunc').split()
ALG = ('accumulate adjacent_difference all_of any_of none_of apply as_const back_inserter begin binary_search bit_cast cbegin cend '
       'clamp copy copy_if copy_n count count_if distance data empty end equal equal_range exchange exclusive_scan fill fill_n find '
       'find_if find_if_not for_each for_each_n forward generate generate_n get get_if hash holds_alternative includes '
       'inclusive_scan inner_product inplace_merge iota is_sorted isspace isdigit isalpha iswspace lexicographical_compare lerp '
       'lower_bound make_heap make_optional make_pair make_shared make_tuple make_unique max max_element merge midpoint min '
       'min_element minmax minmax_element mismatch move move_backward next nth_element partial_sort partial_sum partition pop_heap '
       'prev push_heap ranges ref cref reduce remove remove_if replace replace_if reverse rotate sample search set_difference '
       'set_intersection set_union shuffle size sort sort_heap ssize stable_partition stable_sort stod stof stoi stol stoll stoul '
       'stoull swap swap_ranges tie to_string toupper tolower transform transform_exclusive_scan transform_inclusive_scan '
       'transform_reduce unique upper_bound visit invoke addressof rbegin rend quoted to_underlying gcd lcm generate_canonical '
       'getline ws endl flush fixed scientific setprecision setw').split()
CLASSES = ('vector optional basic_string basic_string_view span array pair tuple set map multiset multimap unordered_set unordered_map '
           'deque list queue priority_queue stack variant initializer_list unique_ptr shared_ptr reference_wrapper function bitset '
           'numeric_limits uniform_int_distribution uniform_real_distribution normal_distribution bernoulli_distribution '
           'discrete_distribution exponential_distribution mersenne_twister_engine linear_congruential_engine discard_block_engine '
           'seed_seq basic_fstream basic_ifstream basic_ofstream basic_iostream basic_istream basic_ostream basic_ios ios_base fpos '
           'basic_stringstream basic_ostringstream basic_istringstream basic_streambuf basic_filebuf allocator allocator_traits '
           'nullopt_t _Bit_reference runtime_error logic_error invalid_argument out_of_range domain_error length_error exception '
           'range_error overflow_error bad_optional_access bad_variant_access plus minus multiplies divides less greater equal_to '
           'hash reverse_iterator move_iterator back_insert_iterator istreambuf_iterator ostreambuf_iterator char_traits '
           'piecewise_constant_distribution lognormal_distribution gamma_distribution poisson_distribution '
           'binomial_distribution geometric_distribution in_place_t monostate _Rb_tree_iterator _Rb_tree_const_iterator').split()
DET = re.compile('^(' + '|'.join([
    r'(std::)?(%s)f?l?' % '|'.join(MATH),
    r'std::(%s)' % '|'.join(ALG),
    r'std::(%s)::.*' % '|'.join(CLASSES),
    r'std::__detail::.*', r'std::operator.*', r'std::ranges::.*', r'std::views::.*', r'std::swap', r'__gnu_cxx::.*', r'std::__\w+::.*',
    r'std::filesystem::(path|directory_entry)::.*', r'std::filesystem::(exists|operator.*|is_regular_file|is_directory|create_director\w+|absolute)',
    r'std::chrono::.*', r'fmt::(?!ptr$).*', r'toml::.*', r'operator (new|delete)(\[\])?', r'__builtin_(expect|unreachable|abs|fabs|sqrt|isnan|isinf)',
    r'(mem(cpy|set|move|cmp)|str(len|cmp|ncmp)|assert|__assert_fail|abort|exit|printf|fprintf|puts|fputs|snprintf)', r'std::(printf|puts|fprintf|abort|exit)',
]) + ')$')
STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'stdout', 'stderr', 'std::nullopt', 'std::ignore', 'std::in_place'}
TERMINAL = {'std::cout', 'std::cerr', 'std::clog', 'stdout', 'stderr'}
POINTER_CASTS = {'PointerToIntegral', 'IntegralToPointer'}


class Finding(Exception):
    pass


def walk(x):
    """every node below x"""
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, dict):
            if 'k' in y:
                yield y
            todo.extend(v for k, v in y.items() if k != 'f' or (isinstance(v, dict) and 'body' in v))
        elif isinstance(y, list):
            todo.extend(y)


class Effects:
    def __init__(self, p):
        self.p = p
        self.over = {}
        for f in p.funcs.values():
            for o in f.get('over') or []:
                self.over.setdefault(o, []).append(f['id'])
        self.ret_taint = {}

    # ---- reachability ------------------------------------------------------------------------------------------------
    def callees(self, g):
        out = set()
        for n in walk([g.get('body'), g.get('inits')]):
            f = n.get('f')
            if isinstance(f, dict) and 'id' in f:
                out.add(f['id'])
                if f.get('virt'):
                    todo = [f['id']]
                    while todo:
                        for o in self.over.get(todo.pop(), []):
                            if o not in out:
                                out.add(o)
                                todo.append(o)
                if re.match(r'std::(make_(unique|shared|optional|pair)|vector::emplace_back|optional::emplace|in_place)', f.get('q', '')):
                    for a in f.get('targs') or []:
                        if 't' in a:
                            out |= self.ctors(a['t'])
            if n['k'] == 'Decl':
                for d in n['d']:
                    out |= self.dtors(d.get('t'))
            if isinstance(n.get('t'), int):
                ty = self.p.ty(self.p.strip(n['t']))
                if ty.get('k') == 'rec' and ty.get('name', '').startswith('std::'):
                    for a in ty.get('args') or []:
                        if 't' in a:
                            out |= self.ctors(a['t'], True) | self.dtors(a['t'])
        return out

    def ctors(self, t, default=False):
        """the constructors (default: those the containers call themselves) of a class of the program"""
        rid = self.p.ty(self.p.strip(t)).get('rid')
        if rid is None:
            return set()
        return {f['id'] for f in self.p.funcs.values() if f.get('ctor') and self.p.ty(self.p.strip(f['cls'])).get('rid') == rid and (
            not default or not f['params'] or (len(f['params']) == 1 and self.p.ty(self.p.strip(f['params'][0]['t'])).get('rid') == rid))}

    def dtors(self, t):
        if t is None:
            return set()
        rid = self.p.ty(self.p.strip(t)).get('rid')
        return {f['id'] for f in self.p.funcs.values() if f.get('dtor') and f.get('cls') is not None and self.p.ty(
            self.p.strip(f['cls'])).get('rid') == rid} if rid is not None else set()

    def reachable(self, roots):
        seen, todo = set(), list(roots)
        # functions the library calls back: comparisons, hashes, call operators of classes of the program
        for f in self.p.funcs.values():
            n = f['q'].split('::')[-1]
            if n.startswith('operator') or (n in ('begin', 'end', 'hash') and f.get('cls') is not None):
                todo.append(f['id'])
        while todo:
            i = todo.pop()
            if i in seen or i not in self.p.funcs:
                continue
            seen.add(i)
            todo.extend(self.callees(self.p.funcs[i]))
        return seen

    # ---- one function ------------------------------------------------------------------------------------------------
    def check(self, g):
        """-> list of (obligation, ok, line, message, certain)"""
        out = []
        nodes = list(walk([g.get('body'), g.get('inits')]))

        def report(name, bad, certain=True):
            if bad:
                for l, m in bad:
                    out.append((name, False, l, m, certain))
            else:
                out.append((name, True, g['l'], '', True))
        src, unk, ptr, stat = [], [], [], []
        p = self.p
        for n in nodes:
            f = n.get('f')
            if isinstance(f, dict) and 'q' in f:
                q = f['q']
                if SOURCES.match(q):
                    src.append((n.get('l', g['l']), f'{q} does not have the contract det'))
                elif f.get('id') in p.funcs and p.funcs[f['id']].get('body') is not None:
                    pass
                elif f.get('user') and (f.get('dflt') or f.get('id') in p.funcs or 'cxv' in q):
                    pass
                elif CLOCK.match(q) or DET.match(q):
                    pass
                elif f.get('user') and self.abstract(f):
                    pass
                else:
                    unk.append((n.get('l', g['l']), f'{q}: no effect contract'))
            if n['k'] == 'Cast' and n.get('ck') in POINTER_CASTS:
                ptr.append((n['l'], 'a pointer becomes a number'))
            if n['k'] == 'Bin' and n.get('op') in ('<', '>', '<=', '>=', '<=>') and all(
                    p.ty(p.strip(x['t'])).get('k') == 'ptr' for x in (n.get('a'), n.get('b')) if isinstance(x, dict) and 't' in x) and isinstance(
                    n.get('a'), dict) and 't' in n['a']:
                ptr.append((n['l'], 'pointers are ordered'))
            if n['k'] == 'Ref' and n.get('d') in ('static', 'global'):
                m = self.static(n, g)
                if m:
                    stat.append((n['l'], m))
            if n['k'] == 'Decl':
                for d in n['d']:
                    if d.get('static') and d.get('init') is not None:
                        m = self.const_init(d)
                        if m:
                            stat.append((d.get('l', n['l']), m))
            if 't' in n and isinstance(n['t'], int):
                m = self.pointer_keys(n['t'])
                if m:
                    ptr.append((n.get('l', g['l']), m))
        report('calls', src)
        if unk:
            report('calls to known functions', unk, False)
        report('statics', stat)
        report('addresses', sorted(set(ptr)))
        report('clocks', self.clocks(g, frozenset())[0])
        bad, unsure = self.uninit(g)
        report('locals', bad)
        if unsure:
            report('locals (order)', unsure, False)
        report('members', self.members(g), False)
        return out

    def abstract(self, f):
        return f.get('virt')

    def static(self, n, g):
        p = self.p
        if n['d'] == 'global':
            gl = p.globals.get(n['id'])
            if n.get('q') in STREAMS or (gl and gl['q'] in STREAMS):
                return None
            if gl is None or not gl.get('const'):
                return f"the variable {n.get('q', n['name'])} outlives the simulation and can change"
            return None
        t = p.tstr(n['t']) if 't' in n else ''
        d = self.local_static(g, n['id'])
        if d is None:
            return None if t.startswith('const ') else f"the static variable {n['name']} can change"
        t = p.tstr(d['t'])
        return None if t.startswith('const ') and d.get('init') is not None else f"the static variable {n['name']} can change"

    def local_static(self, g, i):
        for n in walk([g.get('body'), g.get('inits')]):
            if n['k'] == 'Decl':
                for d in n['d']:
                    if d['id'] == i:
                        return d
        return None

    def const_init(self, d):
        for n in walk(d['init']):
            if n['k'] == 'This' or (n['k'] == 'Ref' and n.get('d') in ('var', 'binding', 'static')):
                own = any(m['k'] == 'Lambda' for m in walk(d['init']))
                if not own:
                    return f"the static variable {d['name']} keeps the value it was given by the first caller"
        return None

    def pointer_keys(self, t):
        ty = self.p.ty(self.p.strip(t))
        if ty.get('k') == 'rec' and ty.get('name') in ('std::set', 'std::map', 'std::unordered_set', 'std::unordered_map', 'std::multiset',
                                                       'std::multimap', 'std::hash', 'std::less', 'std::greater'):
            a = ty.get('args') or []
            if a and 't' in a[0] and self.p.ty(self.p.strip(a[0]['t'])).get('k') == 'ptr':
                return f"{ty['name']} of pointers"
        return None

    # ---- clocks ------------------------------------------------------------------------------------------------------
    def clocks(self, g, params, depth=0):
        """-> (violations, whether the result depends on a clock); params: parameters that do"""
        key = (g['id'], params)
        if key in self.ret_taint:
            return self.ret_taint[key]
        self.ret_taint[key] = ([], False)
        tainted = {g['params'][k]['id'] for k in params}
        bad, ret = [], [False]

        def dep(x):
            for n in walk(x):
                if n['k'] == 'Ref' and n.get('id') in tainted and n.get('d') in ('var', 'binding'):
                    return True
                f = n.get('f')
                if isinstance(f, dict) and 'q' in f:
                    if CLOCK.match(f['q']):
                        return True
                    h = self.p.funcs.get(f.get('id'))
                    if h is not None and h.get('body') is not None and h['id'] != g['id'] and n['k'] == 'Call':
                        if self.clocks(h, frozenset())[1]:
                            return True
            return False

        def prints(x):
            """a statement that only prints to the terminal"""
            k = x.get('k')
            if k is None:
                return True
            if k == 'Block':
                return all(prints(y) for y in x['b'])
            if k == 'If':
                return prints(x['a']) and (not x.get('b') or prints(x['b']))
            if k == 'Expr':
                e = x['e']
                return self.to_terminal(e) or self.updates(e, tainted)
            return k == 'Decl'

        def stmt(x):
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k == 'Block':
                for y in x['b']:
                    stmt(y)
            elif k == 'Decl':
                for d in x['d']:
                    if d.get('init') is not None and dep(d['init']):
                        tainted.add(d['id'])
                        self.nested(d['init'], dep, bad)
            elif k == 'Expr':
                self.expr_stmt(x['e'], dep, tainted, bad, g)
            elif k == 'Return':
                if x.get('e') is not None and dep(x['e']):
                    ret[0] = True
            elif k == 'If':
                if any(dep(x.get(c)) for c in ('c', 'init', 'var')) and not (prints(x['a']) and (not x.get('b') or prints(x['b']))):
                    bad.append((x['l'], 'a branch depends on a clock'))
                stmt(x['a'])
                stmt(x.get('b'))
            elif k in ('For', 'While', 'Do', 'Range', 'Switch'):
                for c, y in x.items():
                    if c in ('k', 'l'):
                        continue
                    if isinstance(y, dict) and self.is_stmt(y):
                        stmt(y)
                    elif isinstance(y, (dict, list)) and dep(y):
                        bad.append((x['l'], 'a loop depends on a clock'))
            elif k == 'Throw':
                pass
            else:
                for y in x.values():
                    if isinstance(y, dict) and self.is_stmt(y):
                        stmt(y)
                    elif isinstance(y, list):
                        for z in y:
                            if isinstance(z, dict) and self.is_stmt(z):
                                stmt(z)
                    elif isinstance(y, dict) and 'k' in y and dep(y):
                        bad.append((x.get('l', g['l']), 'a statement depends on a clock'))
        n = -1
        while n != len(tainted):
            n = len(tainted)
            bad.clear()
            for i in g.get('inits') or []:
                if i.get('e') is not None and dep(i['e']):
                    bad.append((g['l'], f"the member {i.get('field', 'of the base')} depends on a clock"))
            stmt(g.get('body'))
        r = (sorted(set(bad)), ret[0])
        self.ret_taint[key] = r
        return r

    STMTS = {'Block', 'Decl', 'Expr', 'Return', 'If', 'For', 'While', 'Do', 'Range', 'Switch', 'Break', 'Continue', 'Throw', 'Try', 'Null'}

    def is_stmt(self, x):
        return x.get('k') in self.STMTS

    def to_terminal(self, e):
        """printing on the terminal (or a user function whose only effect that is)"""
        if e.get('k') in ('Temp', 'Cast', 'Load'):
            return self.to_terminal(e['e'])
        if e.get('k') != 'Call':
            return False
        q = e.get('f', {}).get('q', '')
        a = e.get('args') or []
        if q in ('fmt::print', 'fmt::println', 'fmt::v9::print', 'printf', 'puts', 'std::printf', 'std::puts'):
            if not a:
                return True
            s = a[0]
            t = self.p.tstr(self.p.strip(s['t'])) if 't' in s else ''
            if 'format_string' in t or q in ('printf', 'puts', 'std::printf', 'std::puts') or 'char' in t:
                return True
            return any(n['k'] == 'Ref' and n.get('q') in TERMINAL for n in walk(s))
        if q in ('std::operator<<', 'std::basic_ostream::operator<<'):
            root = a[0] if a else e.get('e')
            for n in walk([root, e.get('obj')]):
                if n['k'] == 'Ref' and n.get('q') in TERMINAL:
                    return True
        return False

    def updates(self, e, tainted):
        """assignment to a local that depends on a clock anyway"""
        if e.get('k') in ('Asg', 'CAsg'):
            t = e.get('a') or e.get('x') or {}
            return t.get('k') == 'Ref' and t.get('id') in tainted
        if e.get('k') == 'Call' and e.get('f', {}).get('q', '').endswith('operator='):
            t = (e.get('args') or [{}])[0]
            return t.get('k') == 'Ref' and t.get('id') in tainted
        return False

    def nested(self, e, dep, bad):
        """user functions inside an initialiser that receive a value depending on a clock"""
        for n in walk(e):
            if n['k'] in ('Call', 'Construct') and self.user(n):
                self.pass_on(n, dep, bad)

    def user(self, n):
        f = n.get('f')
        h = self.p.funcs.get(f.get('id')) if isinstance(f, dict) else None
        return h if h is not None and h.get('body') is not None else None

    def pass_on(self, n, dep, bad):
        h = self.user(n)
        a = n.get('args') or []
        off = len(a) - len(h['params'])
        t = frozenset(k for k in range(len(h['params'])) if 0 <= k + off < len(a) and dep(a[k + off]))
        if off > 0 and dep(a[0]):
            bad.append((n.get('l', 0), f"{h['q']} is called on a value that depends on a clock"))
        if t:
            b, _ = self.clocks(h, t)
            bad.extend(b)

    def expr_stmt(self, e, dep, tainted, bad, g):
        k = e.get('k')
        if k == 'Temp' or (k == 'Cast' and 'e' in e):
            return self.expr_stmt(e['e'], dep, tainted, bad, g)
        if not dep(e):
            return
        if self.to_terminal(e):
            return
        l = e.get('l', g['l'])
        if k in ('Asg', 'CAsg'):
            lhs = e.get('a') if isinstance(e.get('a'), dict) else e.get('x')
            if isinstance(lhs, dict) and lhs.get('k') == 'Ref' and lhs.get('d') == 'var':
                tainted.add(lhs['id'])
                return
        if k == 'Call':
            f = e['f']
            a = e.get('args') or []
            if f['q'].split('::')[-1] in ('operator=', 'operator+=', 'operator-=', 'push_back', 'emplace_back', 'append') and a and a[0].get(
                    'k') == 'Ref' and a[0].get('d') == 'var':
                tainted.add(a[0]['id'])
                return
            if CLOCK.match(f['q']):
                return
            if self.user(e):
                self.pass_on(e, dep, bad)
                return
        bad.append((l, 'a value that depends on a clock is used'))

    # ---- initialisation ------------------------------------------------------------------------------------------------
    def scalar(self, t):
        ty = self.p.ty(t)
        k = ty.get('k')
        if k in ('bool', 'int', 'real', 'enum', 'ptr'):
            return True
        if k == 'arr':
            return self.scalar(ty['to'])
        if k == 'rec' and ty.get('name') == 'std::array':
            a = ty.get('args')
            return bool(a) and 't' in a[0] and self.scalar(a[0]['t'])
        return False

    def uninit(self, g):
        p = self.p
        cand = {}
        for n in walk(g.get('body')):
            if n['k'] == 'Decl':
                for d in n['d']:
                    if d.get('t') is None or d.get('static'):
                        continue
                    i = d.get('init')
                    t = d['t']
                    if p.ty(t).get('k') == 'ref':
                        continue
                    if i is None and self.scalar(t):
                        cand[d['id']] = d
                    elif isinstance(i, dict) and i.get('k') == 'Construct' and not i.get('args') and not i.get('list') and p.ty(t).get(
                            'name') == 'std::array' and self.scalar(t):
                        cand[d['id']] = d
        if not cand:
            return [], []
        bad, unsure, seen = [], [], set()

        # in the order of the text: is there any assignment before the first read?
        def visit(x, state):
            if isinstance(x, list):
                for y in x:
                    visit(y, state)
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k == 'If':
                visit(x.get('init'), state)
                visit(x.get('c'), state)
                s1, s2 = set(state), set(state)
                visit(x.get('a'), s1)
                visit(x.get('b'), s2)
                ends = [self.ends(x.get('a')), self.ends(x.get('b'))]
                state |= (s2 if ends[0] else s1 if ends[1] else s1 & s2)
                seen.update(s1 | s2)
                return
            if k in ('For', 'While', 'Range', 'Lambda'):
                if k == 'For':
                    visit(x.get('init'), state)
                s = set(state)
                for c, y in x.items():
                    if c != 'init' or k != 'For':
                        visit(y, s)
                seen.update(s)
                return
            if k in ('Asg',):
                visit(x.get('b') if 'b' in x else x.get('y'), state)
                lhs = x.get('a') if 'a' in x else x.get('x')
                if isinstance(lhs, dict) and lhs.get('k') == 'Ref' and lhs.get('id') in cand:
                    state.add(lhs['id'])
                    seen.add(lhs['id'])
                else:
                    visit(lhs, state)
                return
            if k == 'Load' and isinstance(x.get('e'), dict) and x['e'].get('k') == 'Ref' and x['e'].get('id') in cand:
                i = x['e']['id']
                if i not in state:
                    (unsure if i in seen else bad).append((x['l'], f"{cand[i]['name']} may be read before it has a value"))
                return
            if k == 'Ref' and x.get('id') in cand:
                # element access, reference, address: taken as giving a value
                state.add(x['id'])
                seen.add(x['id'])
                return
            for c, y in x.items():
                if c not in ('f', 't', 'l', 'k'):
                    visit(y, state)
        visit(g.get('body'), set())
        return bad, unsure

    def ends(self, x):
        if not isinstance(x, dict):
            return False
        if x.get('k') == 'Block':
            return any(self.ends(y) for y in x['b'])
        return x.get('k') in ('Return', 'Throw', 'Break', 'Continue')

    def members(self, g):
        if not g.get('ctor'):
            return []
        p = self.p
        rid = p.ty(p.strip(g['cls'])).get('rid')
        if rid is None:
            return []
        inits = g.get('inits') or []
        if any(i.get('delegate') or ('field' not in i and 'base' not in i) for i in inits):
            return []
        if any(q['t'] is not None and p.ty(p.strip(q['t'])).get('rid') == rid for q in g['params']) and len(g['params']) == 1:
            return []  # copies and moves
        have = {i.get('field') for i in inits if i.get('e') is not None}
        body = set()
        for s in (g.get('body') or {}).get('b', []) if isinstance(g.get('body'), dict) else []:
            e = s.get('e') if s.get('k') == 'Expr' else None
            while isinstance(e, dict) and e.get('k') == 'Asg':
                lhs = e.get('a') if 'a' in e else e.get('x')
                if isinstance(lhs, dict) and lhs.get('k') == 'Member':
                    body.add(lhs['name'])
                e = e.get('b')
        out = []
        for f in p.recs[rid]['fields']:
            if self.scalar(f['t']) and f['name'] not in have and f['name'] not in body and f.get('init') is None:
                out.append((g['l'], f"{g['q']} leaves {f['name']} without a value"))
        return out


def verify(p, roots):
    """-> (results, fails, unsupported) in the form check.py uses"""
    ef = Effects(p)
    ids = [f['id'] for q in roots for f in p.byq.get(q, []) if f.get('body') is not None]
    res, uns = [], [f'{q}: no such function' for q in roots if not any(f.get('body') is not None for f in p.byq.get(q, []))]
    for i in sorted(ef.reachable(ids)):
        g = p.funcs[i]
        if g.get('body') is None:
            if g.get('dflt') or not (g.get('inits') or []):
                continue
        obs = ef.check(g)
        r = dict(id=i, g=g, obs=[], fails=[])
        for name, ok, line, msg, certain in obs:
            r['obs'].append((name, ok, line, msg, certain))
            if not ok and not certain:
                uns.append(f"{g['q']} (line {line}): {msg}")
        res.append(r)
    return res, uns
