#!/opt/veriftools/pyvenv/bin/python3
"""Decide one property: python3-vt check.py ID   (environment: VERIF_TIER=quick|thorough, VERIF_SEED)

1. export the typed AST of /repo's current sources, 2. verify every function the property rests on against its
contract (all obligations must be accepted by a solver), 3. replay harness against the real code: a short run
next to an accepted proof, a long search for a failing input when an obligation fails or when the code is outside
the verifier's subset.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CXV_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
BUDGET = 840 if TIER == 'quick' else 3300
CPUS = max(2, min(8, os.cpu_count() or 8))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def left():
    return BUDGET - (time.time() - T0)


class Broken(Exception):
    """the sources do not compile, or similar: nothing can be decided by proof"""


# ---- front end ------------------------------------------------------------------------------------------
def build_frontend(dest):
    src = os.path.join(HERE, 'frontend', 'cxvfe.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(dest, f'cxvfe-{h}')
    if os.path.exists(exe):
        return exe
    os.makedirs(dest, exist_ok=True)
    tmp = exe + f'.{os.getpid()}'
    cmd = ['clang++-18', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18', '/usr/lib/llvm-18/lib/libLLVM.so.1',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
    if r.returncode:
        raise Broken('the front end does not build: ' + r.stderr[:2000])
    os.replace(tmp, exe)
    return exe


def frontend(scratch):
    for d in (os.path.join(HERE, 'build'), scratch):
        try:
            return build_frontend(d)
        except OSError:
            continue
    raise Broken('no place to build the front end')


FLAGS = ['-std=c++20', f'-I{REPO}/include', f'-I{REPO}/src', '-include', os.path.join(HERE, 'tu', 'fmtopt.hpp')]


def export_ast(scratch):
    exe = frontend(scratch)
    out = os.path.join(scratch, 'ast.json')
    r = subprocess.run([exe, out, os.path.join(HERE, 'tu', 'all.cpp'), '--'] + FLAGS + ['-w'],
                       capture_output=True, text=True, timeout=200)
    if r.returncode or not os.path.exists(out):
        raise Broken('the sources cannot be exported: ' + (r.stderr or r.stdout)[-1500:])
    return out


# ---- proof ------------------------------------------------------------------------------------------------
G = {}


def fname(p, g):
    cls = ' of ' + p.tstr(g['cls']) if g.get('cls') is not None else ''
    ta = p.targ_str(g)
    ps = ','.join(p.tstr(q['t']) for q in g['params'])
    return f"{g['q']}{'<' + ta + '>' if ta else ''}({ps}){cls}"


def task(gid, tmo):
    """verify one function (in a worker process)"""
    import copy
    c = G['reg'].find(G['p'].funcs[gid])
    first = task_with(gid, tmo, c)
    if first['error'] or first['vacuous'] or first['fails']:
        for loops in c.alts:
            d = copy.copy(c)
            d.loops = loops
            r = task_with(gid, tmo, d, stop=True)
            if not (r['error'] or r['vacuous'] or r['fails']):
                return r
            if first['error'] and not r['error']:
                first = r
    return first


def task_with(gid, tmo, c, stop=False):
    from cxv import driver, solve
    p, reg = G['p'], G['reg']
    g = p.funcs[gid]
    t0 = time.time()
    r = driver.verify(p, reg, g, c)
    t1 = time.time()
    out = dict(id=gid, name=fname(p, g), file=g['file'], line=g['l'], error=r.error, trace=getattr(r, 'trace', None),
               notes=sorted(r.notes), used=sorted(r.used), inlined=sorted(p.funcs[i]['q'] for i in r.inlined
                                                                          if i in p.funcs),
               std=sorted(r.std), lemmas=sorted(r.lemmas), paths=r.paths, vc_s=round(t1 - t0, 2), obs=[],
               trivial=getattr(r, 'trivial', 0), fails=[], by={}, solver_s=0.0, vacuous=None)
    if r.error:
        return out
    texts = {}
    js = solve.discharge_all(r.obs, tmo, workers=max(2, min(CPUS, len(r.obs) // 30)), stop=stop)
    for j in js:
        out['obs'].append((j.ob.name, j.ob.kind, j.ob.line, j.ok, j.by, round(j.t, 3)))
        out['solver_s'] += j.t
        if j.ok:
            out['by'][j.by] = out['by'].get(j.by, 0) + 1
        else:
            out['fails'].append(dict(name=j.ob.name, kind=j.ob.kind, line=j.ob.line, out=j.out,
                                     strategies=[(n, c_, t_, to) for n, c_, t_, to in solve.strategies(j.ob, 40)]))
    # the assumptions of the contract and of the paths must not be contradictory
    from cxv.exec import Obligation
    import z3
    if r.covers:
        bad = 0
        for pc in r.covers[:6]:
            out_, dt = solve.run_solver([solve.Z3, '-T:2'], solve.smt2(pc, z3.BoolVal(False)), 2)
            if out_ == 'unsat':
                bad += 1
        if bad == min(6, len(r.covers)):
            out['vacuous'] = 'every path to the end of the function contradicts the assumptions'
    return out


def lemma_task(name, tmo):
    from cxv import solve
    from cxv.theory import Lemma
    from cxv.exec import Obligation
    Lemma.pending.clear()
    obs = [Obligation(f'{name}: {n}', 'lemma', h, g, 'lemma ' + name, 0) for n, h, g in Lemma.all[name].obligations()]
    uses = sorted(Lemma.pending)
    js = solve.discharge_all(obs, tmo, workers=2)
    return dict(name=name, uses=uses, obs=[(j.ob.name, 'lemma', 0, j.ok, j.by, round(j.t, 3)) for j in js],
                by=[j.by for j in js if j.ok], solver_s=sum(j.t for j in js),
                fails=[dict(name=j.ob.name, kind='lemma', line=0, out=j.out,
                            strategies=[(n, c_, t_, to) for n, c_, t_, to in solve.strategies(j.ob, 40)])
                       for j in js if not j.ok])


def retry(fails, deadline):
    """failed obligations once more, with longer limits and little else running"""
    from cxv import solve

    def work(f):
        for n, cmd, text, to in f['strategies']:
            if time.time() > deadline:
                return False
            out, dt = solve.run_solver(cmd, text, to, max(2, deadline - time.time()))
            if out == 'unsat':
                f['by'] = n + ' (retry)'
                return True
            f['out'] = out if f['out'] in ('', 'timeout', 'unknown') else f['out']
        return False
    with cf.ThreadPoolExecutor(4) as tp:
        return list(tp.map(work, fails))


def prove(prop, ast, deadline):
    from cxv import prog
    from cxv.spec import Registry, generic_of
    from cxv.theory import Lemma
    import contracts.all as CA
    p = prog.Prog(ast)
    reg = Registry(p)
    reg.pid = prop['pid']
    CA.add(reg)
    G['p'], G['reg'] = p, reg
    roots, missing = [], []
    for q in prop['roots']:
        q, _, flt = q.partition('|')
        fs = [f for f in p.byq.get(q, []) if f.get('body') is not None and not f.get('dflt')
              and all(x in fname(p, f) for x in flt.split('&'))]
        fs = [f for f in fs if reg.find(f) is not None and reg.find(f).verify]
        fs = [f for f in fs if generic_of(p, reg.find(f), f) is f]
        if not fs:
            missing.append(q)
        roots += [f['id'] for f in fs]
    done, lem_done, res, lem = {}, set(), [], []
    ctx = mp.get_context('fork')
    unsupported = [f'{q}: no such function' for q in missing]
    with cf.ProcessPoolExecutor(max_workers=max(2, CPUS - 1), mp_context=ctx) as ex:
        futs = {}

        def submit(gid):
            if gid in done:
                return
            done[gid] = True
            futs[ex.submit(task, gid, 10)] = ('f', gid)

        def submit_lemma(n):
            if n in lem_done:
                return
            lem_done.add(n)
            futs[ex.submit(lemma_task, n, 10)] = ('l', n)
        # big functions first
        for gid in sorted(roots, key=lambda i: -len(json.dumps(p.funcs[i].get('body')))):
            submit(gid)
        while futs:
            ready, _ = cf.wait(list(futs), timeout=max(1, deadline - time.time()), return_when=cf.FIRST_COMPLETED)
            if not ready:
                for f in futs:
                    f.cancel()
                for w in list(getattr(ex, '_processes', {}).values()):
                    w.kill()
                unsupported.append('the time for the proof ran out')
                break
            for f in ready:
                kind, x = futs.pop(f)
                try:
                    r = f.result()
                except Exception as e:
                    unsupported.append(f'{x}: {type(e).__name__}: {e}')
                    continue
                if kind == 'f':
                    res.append(r)
                    for u in r['used']:
                        g = p.funcs.get(u)
                        c = reg.find(g) if g else None
                        if c is not None and g['q'] in prop.get('other', {}):
                            G.setdefault('trusted', set()).add(f"{fname(p, g)}: discharged by check {prop['other'][g['q']]}")
                        elif c is not None and c.verify and g.get('body') is not None:
                            submit(generic_of(p, c, g)['id'])
                        elif c is not None:
                            G.setdefault('trusted', set()).add(fname(p, g))
                    for n in r['lemmas']:
                        submit_lemma(n)
                else:
                    lem.append(r)
                    for n in r['uses']:
                        submit_lemma(n)
    if prop.get('effects'):
        from cxv import effects
        er, eu = effects.verify(p, prop['effects'])
        unsupported += eu
        for r in er:
            g = r['g']
            res.append(dict(id=g['id'], name=fname(p, g), file=g['file'], line=g['l'], error=None, trace=None, notes=[], used=[], inlined=[],
                            std=[], lemmas=[], paths=0, vc_s=0, obs=[('effects: ' + n, 'effect', l, ok, 'effects', 0) for n, ok, l, m, sure in r['obs']
                                                                     if ok or sure], trivial=0, solver_s=0.0, vacuous=None,
                            by={'effects': sum(1 for o in r['obs'] if o[1])},
                            fails=[dict(name=f'effects: {n}: {m}', kind='effect', line=l, out='', strategies=[])
                                   for n, ok, l, m, sure in r['obs'] if not ok and sure]))
    for r in res:
        if r['error']:
            unsupported.append(f"{r['name']}: {r['error']}")
        if r['vacuous']:
            unsupported.append(f"{r['name']}: {r['vacuous']}")
    fails = [(r['name'], r['file'], f) for r in res + [dict(x, file='') for x in lem] for f in r['fails']]
    return dict(res=res, lem=lem, fails=fails, unsupported=unsupported, trusted=sorted(G.get('trusted', ())))


# ---- replay harness -------------------------------------------------------------------------------------------
HFLAGS = ['-g1', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=float-divide-by-zero',
          '-D_GLIBCXX_ASSERTIONS', '-Wno-everything']


def build_harness(prop, scratch):
    """the harness and, where needed, the repository's own translation units, all from the current sources"""
    objs, jobs = [], []
    cxx = 'clang++-18'
    srcs = [os.path.join(HERE, 'replay', prop['harness'] + '.cpp')]
    if prop.get('src'):
        for s in sorted(glob.glob(f'{REPO}/src/**/*.cpp', recursive=True)):
            if os.path.basename(s) == 'main.cpp':
                continue
            b = os.path.basename(s)[:-4]
            if prop['src'] is True or b in prop['src']:
                srcs.append(s)
    for s in srcs:
        o = os.path.join(scratch, hashlib.sha256(s.encode()).hexdigest()[:10] + '.o')
        objs.append(o)
        jobs.append([cxx] + HFLAGS + FLAGS + [f'-I{HERE}/replay', '-c', s, '-o', o])
    with cf.ThreadPoolExecutor(CPUS) as tp:
        rs = list(tp.map(lambda c: subprocess.run(c, capture_output=True, text=True, timeout=400), jobs))
    for r, c in zip(rs, jobs):
        if r.returncode:
            return None, f'does not compile: {" ".join(c)}\n{r.stderr[-3000:]}'
    exe = os.path.join(scratch, 'harness')
    r = subprocess.run([cxx] + HFLAGS + objs + ['-o', exe, '-lfmt', '-ltomlplusplus'], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-3000:]
    return exe, ''


def run_harness(exe, scratch, secs, seed):
    """returns (failure or None, dict(cases, checks, distinct, samples))"""
    import struct
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:hard_rss_limit_mb=3500:allocator_may_return_null=0',
               UBSAN_OPTIONS='print_stacktrace=1')
    ps = []
    for k in range(CPUS):
        d = os.path.join(scratch, f'run{k}')
        os.makedirs(d, exist_ok=True)
        cfile, ofile = os.path.join(d, '.cxv-case'), os.path.join(d, '.cxv-log')
        ps.append((subprocess.Popen([exe, 'search', str(secs), str(seed), str(k), str(CPUS), cfile],
                                    stdout=open(ofile, 'w'), stderr=subprocess.STDOUT,
                                    env=dict(env, REPLAY_DIR=d), cwd=d), cfile, ofile))
    end = time.time() + secs + 75
    bad, n = None, dict(cases=0, checks=0, distinct=0, samples=[])
    pend = list(ps)
    while pend and time.time() < end:
        for x in list(pend):
            if x[0].poll() is not None:
                pend.remove(x)
                if x[0].returncode != 0 and bad is None:
                    bad = x
        if bad is not None:
            break
        time.sleep(0.05)
    hung = bad is None and pend
    for x in ps:
        if x[0].poll() is None:
            x[0].kill()
            x[0].wait()
    for _, cfile, _ in ps:
        try:
            b = open(cfile, 'rb').read()
            i, dn, ck, di = struct.unpack('QQQQ', b[:32])
            n['cases'] += dn
            n['checks'] += ck
            n['distinct'] += di
            if len(n['samples']) < 3:
                n['samples'].append(b[32:].split(b'\0')[0].decode(errors='replace')[:600])
        except (OSError, struct.error):
            pass
    if bad is None:
        if hung:
            # no single case exceeded its limit of processor time: the machine is slow
            n['slow'] = True
        return None, n
    proc, cfile, ofile = bad
    txt = open(ofile, errors='replace').read()
    b = open(cfile, 'rb').read() if os.path.exists(cfile) else b''
    idx = struct.unpack('Q', b[:8])[0] if len(b) >= 8 else 0
    desc = b[32:].split(b'\0')[0].decode(errors='replace')
    if 'FAIL case=' in txt:
        what = txt[txt.index('FAIL case='):][:4000]
    elif 'TIMEOUT' in txt:
        what = 'the case did not finish within 30 s of processor time'
    else:
        what = f'the process ended with status {proc.returncode}: ' + txt[-3000:]
    return dict(case=idx, seed=seed, input=desc, what=what), n


# ---- known findings --------------------------------------------------------------------------------------------
def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding:') and f'property={pid} ' in l:
                out.append(l)
    except OSError:
        pass
    return out


# ---- main --------------------------------------------------------------------------------------------------------
def main():
    from props import PROPS, TRUSTED, COMMON_ASSUMPTIONS
    pid = sys.argv[1]
    prop = PROPS[pid]
    scratch = tempfile.mkdtemp(prefix='cxv-', dir='/tmp')
    try:
        return run(pid, prop, scratch, TRUSTED, COMMON_ASSUMPTIONS)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run(pid, prop, scratch, TRUSTED, COMMON):
    hexe = {}
    tp = cf.ThreadPoolExecutor(1)
    hb = None
    ast, broken = None, None
    try:
        ast = export_ast(scratch)
    except Exception as e:
        broken = f'{type(e).__name__}: {e}'
    pr = None
    # harness objects compile while the proof runs
    hb = tp.submit(build_harness, prop, scratch)
    if ast:
        try:
            pr = prove(prop, ast, T0 + min(BUDGET * 0.5, 420 if TIER == 'quick' else 1600))
        except Exception as e:
            import traceback
            broken = f'{type(e).__name__}: {e}\n{traceback.format_exc()}'
    try:
        exe, herr = hb.result()
    except Exception as e:
        exe, herr = None, f'{type(e).__name__}: {e}'
    bad, n = None, dict(cases=0, checks=0, distinct=0, samples=[])

    def more(secs, seed):
        b, n2 = run_harness(exe, scratch, secs, seed)
        for k in n2:
            n[k] = n[k] + n2[k] if k != 'slow' and k in n else n2[k]
        return b
    if pr and pr['fails']:
        if exe:
            bad = more(25, SEED)
        if bad is None:
            # once more, with longer limits and nothing else running
            ok = retry([f for _, _, f in pr['fails'][:16]], min(T0 + BUDGET - 250, time.time() + 240))
            pr['fails'] = [x for x, o in zip(pr['fails'], ok + [False] * len(pr['fails'])) if not o]
    proved = pr is not None and not pr['fails'] and not pr['unsupported'] and pr['res']
    failed = pr is not None and pr['fails']
    t_h = prop.get('conform_s', 6) if proved else prop.get('search_s', 90)
    if TIER == 'thorough':
        t_h = 240
    if exe and bad is None:
        bad = more(max(5, min(t_h, left() - 90)), SEED + (1000 if failed else 0))
    cases, checks = n['cases'], n['checks']
    wall = time.time() - T0
    res = pr['res'] if pr else []
    lem = pr['lem'] if pr else []
    nob = sum(len(r['obs']) + r['trivial'] for r in res) + sum(len(l['obs']) for l in lem)
    nfail = len(pr['fails']) if pr else 0
    by = {}
    for r in res:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
        by['simplifier'] = by.get('simplifier', 0) + r['trivial']
    for l in lem:
        for k in l['by']:
            by[k] = by.get(k, 0) + 1
    std = sorted({s for r in res for s in r['std']})
    violations = []
    status = 'proved' if proved else ('failed obligations' if failed else 'bounded only')
    rep = os.path.join(os.environ.get('CXV_EVID') or os.path.join(HERE, 'evidence'), f'{pid}-replay.txt')
    line = None
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if os.path.exists(rep):
        os.unlink(rep)
    if bad or failed:
        with open(rep, 'w') as f:
            f.write(f'property {pid}: {prop["title"]}\n')
            if bad:
                f.write('failing input on the real code:\n')
                f.write(f'  case {bad["case"]} of seed {bad["seed"]} of replay/{prop["harness"]}.cpp\n')
                f.write(f'  input: {bad["input"]}\n  observed: {bad["what"]}\n')
                f.write(f'  again: python3-vt check.py {pid} replay {bad["seed"]} {bad["case"]}\n\n')
            else:
                f.write(f'no failing input found in {cases} cases of replay/{prop["harness"]}.cpp\n')
            if pr and pr['fails']:
                f.write('failed obligations (function, obligation, line, solver output):\n')
                for fn, file, o in pr['fails']:
                    f.write(f'  {fn}\n    {file}:{o["line"]}: {o["kind"]}: {o["name"]}\n    solver: {o["out"]}\n')
            if pr and pr['unsupported']:
                f.write('outside the verifier:\n')
                for u in pr['unsupported']:
                    f.write(f'  {u}\n')
        line = f'VIOLATION property={pid} replay={rep}' + ('' if bad else ' no-failing-input-found')
        violations.append(dict(replay=rep, input=(bad or {}).get('input', ''), what=(bad or {}).get(
            'what', 'obligation not accepted: ' + '; '.join(f'{fn}: {o["name"]}' for fn, _, o in (pr['fails'] if pr else [])[:5]))[:3000]))
    level = prop['level'] if proved or failed else 'exploration'
    cov = dict(
        obligations=nob, discharged=nob - nfail,
        checker_cmd=f'VERIF_TIER={TIER} VERIF_SEED={SEED} {sys.executable} {HERE}/check.py {pid}',
        trusted_base=[
            'clang 18 (typed AST of the translation unit /verif/tu/all.cpp, which includes the sources of /repo)',
            'cxv: export, symbolic execution, weakest-precondition generation (/verif/frontend, /verif/cxv)',
            'z3 (z3-new) and cvc5',
            'contracts of std functions used: ' + ', '.join(std)] + list(prop.get('trusted', ())),
        status=status,
        functions_under_contract=[dict(
            function=r['name'], file=r['file'].replace(REPO + '/', ''), line=r['line'], obligations=len(r['obs']) + r['trivial'],
            discharged=sum(1 for o in r['obs'] if o[3]) + r['trivial'], solver_s=round(r['solver_s'], 2), vc_s=r['vc_s'],
            paths=r['paths'], inlined=r['inlined'][:40], error=r['error'], notes=r['notes']) for r in res],
        lemmas=[dict(lemma=l['name'], obligations=len(l['obs']), discharged=sum(1 for o in l['obs'] if o[3])) for l in lem],
        by_back_end=by, solver_s=round(sum(r['solver_s'] for r in res) + sum(l['solver_s'] for l in lem), 2),
        failed_obligations=[dict(function=fn, obligation=o['name'], line=o['line'], solver=o['out'])
                            for fn, _, o in (pr['fails'] if pr else [])],
        outside_the_verifier=(pr['unsupported'] if pr else []) + ([broken] if broken else []),
        trusted_contracts=(pr['trusted'] if pr else []),
        bounded=dict(harness=f'replay/{prop["harness"]}.cpp', what=prop.get('bounded', 'conformance run next to the proof'),
                     cases=cases, distinct_cases=n['distinct'], checks=checks, samples=n['samples'], seconds=round(t_h, 1), error=herr or None,
                     counted_as_proved=False),
    )
    ev = dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=cov, wall_s=round(time.time() - T0, 2),
              assumptions=list(COMMON) + list(prop.get('assumptions', ())), violations=len(violations))
    if violations:
        cov['violation'] = violations
    if level == 'exploration':
        cov.update(evaluations=cases, distinct_nontrivial=n['distinct'], samples=n['samples'],
                   rule='cases of the replay harness, numbered and drawn from VERIF_SEED; non-trivial: a new input on which '
                        'at least one comparison with the oracle was made')
        cov['note'] = ('the proof could not be redone on this source; the bounded check stood in for it' if prop['roots'] else
                       'no function is under contract for this property yet; only the bounded check decides it')
    with open(os.path.join(os.environ.get('CXV_EVID') or os.path.join(HERE, 'evidence'), f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(pid):
        print('KNOWN-FINDING: ' + k.split(':', 1)[1].strip())
    print(f'{pid}: {status}: {nob - nfail}/{nob} obligations, {len(res)} functions, {len(lem)} lemmas; '
          f'{cases} cases, {checks} checks of the real code; {time.time() - T0:.0f} s')
    for u in cov['outside_the_verifier']:
        print('  outside the verifier: ' + str(u)[:400])
    if herr:
        print('  harness: ' + herr[-600:])
    for fn, _, o in (pr['fails'] if pr else [])[:20]:
        print(f'  failed: {fn}: {o["name"]} (line {o["line"]}) {o["out"]}')
    if bad:
        print('  failing input: ' + bad['input'][:600])
        print('  ' + bad['what'][:1200])
    if line:
        print(line)
        return 1
    return 0


def replay():
    from props import PROPS
    pid = sys.argv[1]
    scratch = tempfile.mkdtemp(prefix='cxv-', dir='/tmp')
    try:
        exe, err = build_harness(PROPS[pid], scratch)
        if not exe:
            print(err)
            return 2
        return subprocess.run([exe, 'replay', sys.argv[3], sys.argv[4]], env=dict(
            os.environ, REPLAY_DIR=scratch, ASAN_OPTIONS='detect_leaks=0')).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'setup':
        build_frontend(os.path.join(HERE, 'build'))
        sys.exit(0)
    if len(sys.argv) > 4 and sys.argv[2] == 'replay':
        sys.exit(replay())
    sys.exit(main())
