"""Discharging obligations with several SMT solvers in parallel."""
import itertools
import os
import shutil
import subprocess
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
import z3

Z3NEW = shutil.which("z3-new") or shutil.which("z3")
Z3OLD = shutil.which("z3")
CVC5 = shutil.which("cvc5")


def smt2(facts, goal, logic=None):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()


def has_quant(t, seen):
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


_syms = {}


def symbols(t):
    """Uninterpreted symbols of a term and whether it contains quantifiers (cached together with the term)."""
    r = _syms.get(t.get_id())
    if r is not None:
        return r[1], r[2]
    out, seen, st, quant = set(), set(), [t], False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            quant = True
            st.append(x.body())
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        st.extend(x.children())
    _syms[t.get_id()] = (t, frozenset(out), quant)
    return frozenset(out), quant


def relevant(facts, goal, depth):
    """Quantified facts connected with the goal by rare symbols, and all ground facts.

    Proving a goal from a subset of the facts is sound."""
    info = [symbols(f) for f in facts]
    count = {}
    for sy, q in info:
        for x in sy:
            count[x] = count.get(x, 0) + 1
    have, picked = set(symbols(goal)[0]), set()
    for _ in range(depth):
        new = set()
        for i, (sy, q) in enumerate(info):
            if not q or i in picked or not sy:
                continue
            low = min(count[x] for x in sy)
            if any(x in have and count[x] <= 1.5 * low + 1 for x in sy):
                new.add(i)
        if not new:
            break
        picked |= new
        for i in new:
            have |= info[i][0]
    out = [f for i, f in enumerate(facts) if i in picked or not info[i][1]]
    return out if len(out) < len(facts) else None


class Result:
    def __init__(self, status, backend, secs, model=""):
        self.status, self.backend, self.secs, self.model = status, backend, secs, model


def run(cmd, timeout):
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 5)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    return out, time.time() - t


def nombqi(t, seed=0):
    return ("z3-5", [Z3NEW, "-T:%d" % t, "smt.mbqi=false", "auto_config=false", "smt.random_seed=%d" % seed], t)


def eager(t, seed=1):
    """Matches terms in branches that are not decided, too."""
    return ("z3-5", [Z3NEW, "-T:%d" % t, "smt.mbqi=false", "auto_config=false", "smt.relevancy=1", "smt.random_seed=%d" % seed], t)


def simplex(t):
    return ("z3-5", [Z3NEW, "-T:%d" % t, "smt.mbqi=false", "auto_config=false", "smt.arith.solver=2"], t)


def plain(t, seed=0):
    return ("z3-5", [Z3NEW, "-T:%d" % t, "smt.random_seed=%d" % seed], t)


def cvc(t, *opts):
    return ("cvc5", [CVC5, "--tlimit=%d" % (t * 1000), "--no-stats"] + list(opts), t)


def stages(timeout):
    """Solvers that are tried one after another in the first round."""
    short = min(timeout, 3)
    old = ("z3-4.8", [Z3OLD, "-T:%d" % short], short)
    out = [nombqi(short), old, eager(short), plain(short)]
    if timeout > short:
        out += [cvc(short), nombqi(min(timeout, 15))]
    return out


def portfolio(timeout):
    """Solvers that are tried at the same time for the obligations that remain."""
    t = timeout
    return [nombqi(t), nombqi(t, 1), eager(t, 1), eager(t, 2), simplex(t), plain(t), plain(t, 1), cvc(t), ("z3-4.8", [Z3OLD, "-T:%d" % t], t),
            ("z3-4.8", [Z3OLD, "-T:%d" % t, "smt.mbqi=false", "auto_config=false"], t)]


def race(text, timeout):
    """Run the portfolio; the first decisive answer counts."""
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    f.write(text)
    f.close()
    t0 = time.time()
    procs = []
    try:
        for name, cmd, to in portfolio(timeout):
            if cmd[0]:
                procs.append((name, "smt.mbqi=false" in cmd, subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        live = list(procs)
        while live and time.time() - t0 < timeout + 5:
            for x in list(live):
                name, incomplete, p = x
                if p.poll() is None:
                    continue
                live.remove(x)
                out = p.stdout.read().strip()
                first = out.splitlines()[0] if out else ""
                if first == "unsat" or first == "sat" and not incomplete:
                    return Result(first, name, time.time() - t0, "" if first == "unsat" else out[:20000])
            time.sleep(0.05)
        return Result("unknown", "all", time.time() - t0, "no solver decided the obligation within %d s" % timeout)
    finally:
        for _, _, p in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
        os.unlink(f.name)


LOCK = threading.Lock()


def focus(o, timeout):
    """Attempts with the relevant facts only."""
    size = None
    for d in (1, 2, 4):
        with LOCK:
            fs = relevant(o.facts, o.goal, d)
            if fs is None:
                break
            if size == len(fs):
                continue
            size = len(fs)
            text = smt2(fs, o.goal)
        r = solve_text(text, min(timeout, 3), quick=True)
        if r.status == "unsat":
            r.backend += "/relevant"
            return r
    return None


def solve_text(text, timeout, want_model=False, quick=False, skip=0):
    """unsat/sat/unknown for one smt2 text."""
    f = tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False)
    total = 0.0
    try:
        f.write(text)
        f.close()
        status = "unknown"
        sat_by = None
        last = ""
        for name, cmd, to in stages(timeout)[skip:1 if quick else None]:
            if cmd[0] is None:
                continue
            out, secs = run(cmd + [f.name], to)
            total += secs
            first = out.strip().splitlines()[0] if out.strip() else ""
            if first == "unsat":
                return Result("unsat", name, total)
            if first == "sat":
                if name == "z3-5" and "smt.mbqi=false" in cmd:
                    continue
                model = ""
                if want_model:
                    with open(f.name, "a") as g:
                        g.write("\n(get-model)\n")
                    o2, s2 = run(cmd + [f.name], to)
                    model = o2[:20000]
                return Result("sat", name, total, model)
            last = out[:300]
        return Result("unknown", "all", total, last)
    finally:
        try:
            os.unlink(f.name)
        except OSError:
            pass


def merge_conditions(goal, limit=5):
    """Conditions of the paths that are merged in the arrays of the goal."""
    out, seen, st = {}, set(), [goal]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_array(x) and closed(x.arg(0)):
            out.setdefault(x.arg(0).get_id(), x.arg(0))
        st.extend(x.children())
    return list(out.values()) if 0 < len(out) <= limit else []


def closed(t):
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return False
        st.extend([x.body()] if z3.is_quantifier(x) else x.children())
    return True


def split(o, pool, timeout):
    """Prove the goal for each combination of the conditions under which paths were merged."""
    conds = merge_conditions(o.goal)
    if not conds:
        return None
    cases = []
    for vals in itertools.product((True, False), repeat=len(conds)):
        sub = [(c, z3.BoolVal(v)) for c, v in zip(conds, vals)]
        facts = [c if v else z3.Not(c) for c, v in zip(conds, vals)] + [z3.simplify(z3.substitute(f, *sub)) for f in o.facts]
        if any(z3.is_false(f) for f in facts):
            continue
        cases.append(smt2(facts, z3.simplify(z3.substitute(o.goal, *sub))))
    bad = []

    def one(text):
        r = Result("unknown", "", 0) if bad else solve_text(text, timeout)
        if r.status != "unsat":
            bad.append(r)
        return r
    rs = list(pool.map(one, cases))
    if not bad:
        return Result("unsat", rs[0].backend if rs else "simplifier", sum(r.secs for r in rs))
    return None


def discharge(obls, timeout=60, jobs=None, deadline=None, progress=None, quick=False, keep_going=False):
    jobs = jobs or os.cpu_count() or 4
    texts = []
    res = [None] * len(obls)
    work = []
    for i, o in enumerate(obls):
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            res[i] = Result("unsat", "simplifier", 0.0)
            continue
        work.append((i, smt2(o.facts, o.goal)))

    def one(w):
        i, text = w
        if deadline is not None and time.time() > deadline:
            return i, Result("unknown", "deadline", 0.0)
        if not quick:
            r = solve_text(text, timeout, quick=True)
            if r.status == "unsat":
                return i, r
            f = focus(obls[i], timeout)
            if f is not None:
                f.secs += r.secs
                return i, f
        x = solve_text(text, timeout, want_model=True, quick=quick, skip=0 if quick else 1)
        if not quick:
            x.secs += r.secs
        return i, x
    with ThreadPoolExecutor(jobs) as ex:
        for i, r in ex.map(one, work):
            res[i] = r
            if progress:
                progress(obls[i], r)
    if not quick and timeout > 3:
        # second round: case analysis or all solvers on one obligation at a time; stops at the first failure
        for i, text in work:
            if res[i].status == "unknown":
                if deadline is not None and time.time() > deadline:
                    res[i] = Result("unknown", "deadline", res[i].secs)
                    continue
                if any(r is not None and r.status == "sat" for r in res):
                    break
                with ThreadPoolExecutor(jobs) as pool:
                    r = split(obls[i], pool, min(timeout, 15)) or race(text, timeout)
                r.secs += res[i].secs
                res[i] = r
                if r.status != "unsat" and not keep_going:
                    break
    return res
