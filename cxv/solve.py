"""Discharge obligations with SMT solvers (subprocesses, in parallel)."""
import os
import shutil
import subprocess
import tempfile
import time
import hashlib
from concurrent.futures import ThreadPoolExecutor
import z3
from .theory import Fn

Z3 = os.environ.get('CXV_Z3', 'z3-new')
CVC5 = os.environ.get('CXV_CVC5', 'cvc5')


def symbols(ts):
    seen, todo, names = set(), list(ts), set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                names.add(x.decl().name())
            todo.extend(x.children())
    return names


def unfolds(ts):
    """defining equations at the ground occurrences of recursive functions"""
    seen, todo, out = set(), list(ts), []
    while todo:
        x = todo.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() > 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in Fn.all:
                out.append(Fn.all[x.decl().name()].unfold(*x.children()))
            todo.extend(x.children())
    return out


def smt2(pc, goal, axioms=()):
    s = z3.Solver()
    for t in unfolds(list(pc) + [goal]):
        s.add(t)
    for t in axioms:
        s.add(t)
    for t in pc:
        s.add(t)
    s.add(z3.Not(goal))
    return s.to_smt2()


SLACK = 8  # limits are processor seconds; the wall clock may show this many times as much on a busy machine
PRLIMIT = ['prlimit'] if shutil.which('prlimit') else None


class Result:
    pass


def cpu_of(pid):
    """state and processor time of a process"""
    try:
        f = open(f'/proc/{pid}/stat').read().rsplit(')', 1)[1].split()
        return f[0], int(f[11]) + int(f[12])
    except (OSError, IndexError, ValueError):
        return '?', -1


def run(cmd, timeout):
    """runs a solver; one that sleeps instead of working is ended"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    end, last, idle = time.time() + timeout, None, 0
    try:
        while True:
            try:
                r = Result()
                r.stdout, r.stderr = p.communicate(timeout=max(0.1, min(3, end - time.time())))
                r.returncode = p.returncode
                return r
            except subprocess.TimeoutExpired:
                now = cpu_of(p.pid)
                idle = idle + 1 if now == last and now[0] != 'R' else 0
                last = now
                if idle >= 3 or time.time() >= end:
                    raise
    finally:
        if p.poll() is None:
            p.kill()
            p.communicate()


def run_solver(cmd, text, timeout, wall=None):
    if PRLIMIT:
        cmd = [f'-T:{int(c[3:]) * SLACK}' if c.startswith('-T:') else f'--tlimit={int(c[9:]) * SLACK}' if c.startswith('--tlimit=') else c
               for c in cmd]
        cmd = PRLIMIT + [f'--cpu={max(1, int(timeout))}:{max(1, int(timeout))}'] + cmd  # killed at the limit (z3 may hang in a signal handler)
        timeout *= SLACK
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        name = f.name
    t0 = time.time()
    try:
        r = run(cmd + [name], timeout + 5 if wall is None else min(timeout + 5, wall))
        out = r.stdout.strip().split('\n')[0] if r.stdout else 'timeout' if r.returncode in (-24, -9, 152, 137) else 'error ' + r.stderr[:200]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(name)
    return out, time.time() - t0


def strategies(ob, tmo):
    """(name, command, text, limit)"""
    return first(ob, tmo) + later(ob, tmo)


def first(ob, tmo):
    base = smt2(ob.pc, ob.goal)
    ob.text = base
    short = min(tmo, 3)
    return [('z3', [Z3, f'-T:{short}'], base, short),
            ('cvc5', [CVC5, '--lang=smt2', f'--tlimit={short * 1000}', '--full-saturate-quant'], '(set-logic ALL)\n' + base, short)]


def later(ob, tmo):
    base = ob.text
    names = symbols(list(ob.pc) + [ob.goal])
    ax = [Fn.all[n].axiom() for n in sorted(names) if n in Fn.all]
    out = []
    if ax:
        full = smt2(ob.pc, ob.goal, ax)
        out.append(('z3+defs', [Z3, f'-T:{tmo}', 'smt.auto_config=false', 'smt.mbqi=false'], full, tmo))
    return out + [
        ('z3-ematch', [Z3, f'-T:{tmo}', 'smt.auto_config=false', 'smt.mbqi=false'], base, tmo),
        ('cvc5', [CVC5, '--lang=smt2', f'--tlimit={tmo * 1000}', '--full-saturate-quant'], '(set-logic ALL)\n' + base, tmo),
        ('z3-long', [Z3, f'-T:{3 * tmo}', 'smt.random_seed=7'], base, 3 * tmo)]


class Job:
    pass


def discharge_all(obs, tmo=10, workers=8, stop=False):
    """stop: give up at the first obligation that stays undischarged; z3 objects are not thread safe: the texts are produced by this thread, only the solvers run in parallel"""
    jobs, res, todo = [], {}, {}

    def work(st, t, last):
        for name, cmd, text, to in st:
            out, dt = run_solver(cmd, text, to)
            t += dt
            if out == 'unsat':
                return True, name, t, out
            last = last or out
        return False, '', t, last
    with ThreadPoolExecutor(workers) as tp:
        for ob in obs:
            j = Job()
            j.ob = ob
            st = first(ob, tmo)
            j.key = hashlib.sha256(st[0][2].encode()).hexdigest()
            if j.key not in todo:
                todo[j.key] = (ob, tp.submit(work, st, 0.0, ''))
            jobs.append(j)
        again, halt = {}, False
        for key, (ob, f) in todo.items():
            if halt and f.cancel():
                res[key] = (False, '', 0.0, 'not tried')
                continue
            res[key] = r = f.result()
            if stop and r[3] == 'sat' and not r[0]:
                halt = True
            if not r[0] and not halt:
                again[key] = tp.submit(work, later(ob, tmo), r[2], r[3])
        for key, f in again.items():
            if halt and f.cancel():
                continue
            res[key] = r = f.result()
            halt = halt or stop and not r[0]
    for j in jobs:
        j.ok, j.by, j.t, j.out = res[j.key]
    return jobs
