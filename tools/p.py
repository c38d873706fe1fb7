"""Debug driver: python3-vt tools/p.py spec [func-substring] [-v]"""
import os; os.environ["CHECK_DEBUG"]="1"
import sys, importlib, time
sys.path.insert(0, "/verif")
from cxxwp import prove, solve
import z3
spec = importlib.import_module("specs." + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ""
to = int(sys.argv[3]) if len(sys.argv) > 3 else 10
opat = sys.argv[4] if len(sys.argv) > 4 else ""
t = time.time()
for m in spec.modules("quick"):
    for c in m.contracts:
        if pat not in c.name and not c.assumed:
            c.assumed = True
    import copy
    reps = []
    orig = m.contracts
    u = prove.unit(m.source, m.filters, m.flags)
    print("unit", m.source, "%.1fs" % (time.time() - t))
    class MM(prove.Module): pass
    for r in prove.generate(m, lambda c: pat in c.name):
        print("==", r.func, "obls", len(r.obls), "ERR " + r.error if r.error else "", "inl", sorted(x.split("::")[-1] for x in r.inlined), "used", sorted(r.used), "%.1fs" % (time.time() - t))
        obls = [o for o in r.obls if opat in o.name]
        res = solve.discharge(obls, to, 8, keep_going=True)
        for o, x in zip(obls, res):
            if x.status != "unsat" or "-v" in sys.argv:
                print("   ", x.status, o.name, x.backend, "%.2f" % x.secs, "facts", len(o.facts))
            if x.status != "unsat" and "-d" in sys.argv:
                print(x.model[:3000])
            if x.status != "unsat" and "-s" in sys.argv:
                open("/tmp/w/fail.smt2", "w").write(solve.smt2(o.facts, o.goal))
        if not r.error:
            cr = solve.discharge(r.canary, 3, 8, quick=True)
            for o, x in zip(r.canary, cr):
                if x.status == "unsat":
                    print("    VACUOUS", o.name)
print("total %.1fs" % (time.time() - t))
