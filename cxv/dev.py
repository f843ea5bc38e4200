"""development helper: python3-vt -m cxv.dev NAME..."""
import sys, time, os
from . import prog, driver, solve
from .spec import Registry
from .theory import Lemma
import contracts.all as CA

def main():
    p = prog.Prog(os.environ.get('AST', '/tmp/t/ast.json'))
    reg = Registry(p)
    reg.pid = os.environ.get('PID')
    CA.add(reg)
    pats = sys.argv[1:]
    tmo = int(os.environ.get('TMO', '10'))
    lem = set()
    for f in p.funcs.values():
        if f.get('body') is None: continue
        c = reg.find(f)
        if c is None or not c.verify: continue
        cls = p.tstr(f['cls']) if f.get('cls') is not None else ''
        name = f"{f['q']} {cls} {p.targ_str(f)}"
        if not all(x in name for x in pats): continue
        from .spec import generic_of
        if generic_of(p, c, f) is not f: continue
        t0 = time.time()
        r = driver.verify(p, reg, f, c)
        t1 = time.time()
        print(f'== {name}: {len(r.obs)} obligations, {r.paths} paths, {t1-t0:.1f}s', 'ERROR ' + r.error if r.error else '')
        if r.error and hasattr(r, 'trace'): print(r.trace)
        for n in r.notes: print('   note', n)
        if os.environ.get('KEPT'): print('   kept', r.kept)
        lem |= r.lemmas
        if os.environ.get('NOSOLVE'): continue
        js = solve.discharge_all(r.obs, tmo)
        for j in js:
            if not j.ok or os.environ.get('V'):
                print('   ', 'ok  ' if j.ok else 'FAIL', j.ob.name, 'line', j.ob.line, j.by, f'{j.t:.1f}s', j.out)
                if not j.ok and os.environ.get('DUMP'):
                    fn = f"/tmp/t/fail_{len(os.listdir('/tmp/t'))}.smt2"
                    open(fn, 'w').write(solve.smt2(j.ob.pc, j.ob.goal)); print('      ', fn)
        print(f'   {sum(j.ok for j in js)}/{len(js)} in {time.time()-t1:.1f}s; max {max([j.t for j in js], default=0):.1f}')
        for k, pc in enumerate(r.covers[:6]):
            import z3
            o, dt = solve.run_solver([solve.Z3, '-T:2'], solve.smt2(pc, z3.BoolVal(False)), 2)
            if o == 'unsat':
                print('    VACUOUS path', k)
    from .theory import lemmas_closure
    from .exec import Obligation
    obs = [Obligation(n, 'lemma', h, g, l, 0) for l, n, h, g in lemmas_closure(lem)]
    for j in solve.discharge_all(obs, tmo):
        if not j.ok or os.environ.get('V'):
            print('   ', 'ok  ' if j.ok else 'FAIL', j.ob.name, j.by, f'{j.t:.1f}s', j.out)
            if not j.ok and os.environ.get('DUMP'):
                fn = f"/tmp/t/fail_{len(os.listdir('/tmp/t'))}.smt2"
                open(fn, 'w').write(solve.smt2(j.ob.pc, j.ob.goal)); print('      ', fn)
main()
