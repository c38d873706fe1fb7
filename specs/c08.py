"""C08: exact arithmetic helpers of theory terms (T=int)."""
import z3
from cxxwp.interp import Contract, trunc_div
from cxxwp.prove import Module
from . import har

PROP = "C08"
LEVEL = "proof"
MIN, MAX = -2 ** 31, 2 ** 31 - 1
POW = z3.Function("power", z3.IntSort(), z3.IntSort(), z3.RealSort())


def rng(x):
    return z3.And(x >= MIN, x <= MAX)


def trunc(r):
    return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))


def binary(name, val, defined, sign=None):
    def ens(s):
        a, b = s.arg(0), s.arg(1)
        return [("exact", s.result == val(a, b)), ("defined", defined(a, b)), ("range", rng(s.result))]

    def thr(s):
        a, b = s.arg(0), s.arg(1)
        out = [("only-if-undefined", z3.Not(defined(a, b)))]
        if sign:
            if "overflow_error" in s.thrown:
                out.append(("overflow-sign", sign(a, b) > MAX))
            elif "underflow_error" in s.thrown:
                out.append(("underflow-sign", sign(a, b) < MIN))
            else:
                out.append(("kind-of-error", z3.BoolVal(False)))
        return out
    return Contract(name, targs=["int"], ensures=ens, ensures_throw=thr, mode="exact")


def ext_pow(ex, argn, n):
    # assumed contract of std::pow for an integral base and exponent: the exact power (as a real number)
    a, b = ex.rv(argn[0]), ex.rv(argn[1])
    ia = z3.ToInt(a) if a.sort() == z3.RealSort() else a
    ib = z3.ToInt(b) if b.sort() == z3.RealSort() else b
    return POW(ia, ib)


def contracts():
    cs = [
        binary("safe_add", lambda a, b: a + b, lambda a, b: rng(a + b), lambda a, b: a + b),
        binary("safe_sub", lambda a, b: a - b, lambda a, b: rng(a - b), lambda a, b: a - b),
        binary("safe_mul", lambda a, b: a * b, lambda a, b: rng(a * b), lambda a, b: a * b),
        binary("safe_div", trunc_div, lambda a, b: z3.And(b != 0, rng(trunc_div(a, b)))),
        binary("safe_mod", lambda a, b: a - b * trunc_div(a, b), lambda a, b: z3.And(b != 0, rng(trunc_div(a, b)))),
        Contract("safe_inv", targs=["int"], mode="exact",
                 ensures=lambda s: [("exact", s.result == -s.arg(0)), ("range", rng(s.result))],
                 ensures_throw=lambda s: [("only-if-undefined", z3.Not(rng(-s.arg(0))))]),
    ]

    def pdef(a, b):
        return z3.And(z3.Not(z3.And(a == 0, b < 0)), POW(a, b) <= MAX, POW(a, b) >= MIN)
    cs.append(Contract("safe_pow", targs=["int"], mode="exact",
                       ensures=lambda s: [("exact", s.result == trunc(POW(s.arg(0), s.arg(1)))), ("defined", pdef(s.arg(0), s.arg(1)))],
                       ensures_throw=lambda s: [("only-if-undefined", z3.Not(pdef(s.arg(0), s.arg(1))))]))
    return cs


def modules(tier):
    return [Module("arith", "libclingo-dl/src/parsing.cc", contracts(), externals={"call:pow": ext_pow})]


HARNESS = [har.parse()]
SECS = (4, 60)
SEARCH_SECS = 20
ASSUMPTIONS = ["std::pow applied to integral arguments returns the exact power whenever the power fits into 32 bits, and a value outside of the 32 bit range otherwise",
               "only the instantiation T=int is covered"]
BOUNDED_SCOPE = "random and boundary operands, compared with 128 bit arithmetic, directly and through the evaluation of theory terms"
RULE = "operands drawn from boundary values, small numbers and uniformly; non-trivial: negative operands or no representable result"
EXPLANATION = "Each function returns the exact mathematical result if it exists and fits into 32 bits, and throws otherwise; the arithmetic of the machine is exact in the encoding (bit width, wrap-around and undefined behaviour are obligations)."
