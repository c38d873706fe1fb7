"""C21: decoding of quoted strings.

The text at address p is described by two functions over addresses, both fixed
by their recursive definition: esc(i) -- the character at i is escaped by a
backslash -- and out(i) -- the number of characters decoded before i."""
import z3
from cxxwp.exec import mk_and
from cxxwp.interp import Contract, Loop
from cxxwp.prove import Module
from . import har

PROP = "C21"
LEVEL = "proof"
I, B = z3.IntSort(), z3.BoolSort()
CH = z3.Const("$chars.[]", z3.ArraySort(I, I))
esc = z3.Function("esc", I, B)
out = z3.Function("out", I, I)
BS, QU, NN = 92, 34, 110


def c(i):
    return z3.Select(CH, i)


def define(i):
    """Defining equations of esc and out for the step from i to i+1."""
    intro = z3.And(c(i) == BS, z3.Not(esc(i)))
    return z3.And(esc(i + 1) == intro, out(i + 1) == out(i) + z3.If(intro, 0, 1))


def start(p):
    return z3.If(c(p) == QU, p + 1, p)


def value(i):
    return z3.If(esc(i), z3.If(c(i) == NN, 10, c(i)), c(i))


def emits(i):
    return z3.Not(z3.And(c(i) == BS, z3.Not(esc(i))))


def stop(i):
    return z3.Or(c(i) == 0, z3.And(z3.Not(esc(i)), c(i) == QU, c(i + 1) == 0))


def decoded(res, b, e):
    k = z3.Int("k")
    return [("length", res.len == out(e)),
            ("chars", z3.ForAll([k], z3.Implies(z3.And(b <= k, k < e, emits(k)), z3.And(
                out(k) >= 0, out(k) < out(e), res[out(k)] == value(k))))),
            ("monotone", z3.ForAll([k], z3.Implies(z3.And(b <= k, k <= e), z3.And(0 <= out(k), out(k) <= out(e)))))]


def contracts():
    k = z3.Int("k")
    END = z3.Int("end")

    def req(s):
        p = s.argobj(0).idx
        b = start(p)
        # the text ends at END, escape sequences before it are well-formed
        return [("end", z3.And(END >= b, stop(END))), ("first", z3.ForAll([k], z3.Implies(z3.And(b <= k, k < END), z3.Not(stop(k))))),
                ("wellformed", z3.ForAll([k], z3.Implies(z3.And(b <= k, k < END, esc(k)), z3.Or(c(k) == NN, c(k) == BS, c(k) == QU)))),
                ("esc0", z3.Not(esc(b))), ("out0", out(b) == 0), ("define", z3.ForAll([k], z3.Implies(k >= b, define(k)), patterns=[esc(k), out(k)]))]

    def ens(s):
        p = s.argobj(0).idx
        return decoded(ResView(s), start(p), END)

    def inv(l):
        b = start(l.argobj(0).idx)
        i = l.i
        r = l.local("res")
        return [("range", z3.And(b <= i, i <= END)), ("slash", l.local("slash") == esc(i))] + decoded(r, b, i)

    return [Contract("unquote", requires=req, ensures=ens, loops=[Loop(inv, hints=lambda l: [define(l.i)])])]


class ResView:
    """A returned string value."""

    def __init__(self, s):
        self.b = s.result

    @property
    def len(self):
        return self.b.leaves[("len",)]

    def __getitem__(self, i):
        return z3.Select(self.b.leaves[("[]",)], i)


def lemmas():
    """Decoding the quoted form of a text t of length n yields t.

    pos(k) is the address of the encoding of t(k) in the quoted form."""
    t = z3.Function("text", I, I)
    pos = z3.Function("pos", I, I)
    k, n, p = z3.Ints("k n p")
    special = lambda x: z3.Or(x == 10, x == BS, x == QU)
    enc = lambda x: z3.If(x == 10, NN, x)
    quoted = lambda k: z3.And(t(k) != 0, z3.If(special(t(k)), z3.And(c(pos(k)) == BS, c(pos(k) + 1) == enc(t(k)), pos(k + 1) == pos(k) + 2),
                                               z3.And(c(pos(k)) == t(k), pos(k + 1) == pos(k) + 1)))
    base = [c(p) == QU, pos(0) == p + 1, z3.Not(esc(start(p))), out(start(p)) == 0]
    hyp = z3.And(z3.Not(esc(pos(k))), out(pos(k)) == k)
    defs = [define(pos(k)), define(pos(k) + 1)]
    fin = [c(pos(n)) == QU, c(pos(n) + 1) == 0, z3.Not(esc(pos(n))), out(pos(n)) == n]
    # the character following a position is not the end of the string: either more of the text or the closing quote follows
    nxt = z3.If(k + 1 < n, quoted(k + 1), z3.And(c(pos(k + 1)) == QU, c(pos(k + 1) + 1) == 0))
    return [("roundtrip.start", base, z3.And(z3.Not(esc(pos(0))), out(pos(0)) == 0)),
            ("roundtrip.step", [0 <= k, k < n, hyp, quoted(k)] + defs, z3.And(z3.Not(esc(pos(k + 1))), out(pos(k + 1)) == k + 1)),
            ("roundtrip.value", [0 <= k, k < n, hyp, quoted(k)] + defs,
             z3.If(special(t(k)), z3.And(z3.Not(emits(pos(k))), emits(pos(k) + 1), out(pos(k) + 1) == k, value(pos(k) + 1) == t(k)),
                   z3.And(emits(pos(k)), value(pos(k)) == t(k)))),
            ("roundtrip.not-stopped", [0 <= k, k < n, hyp, quoted(k), nxt] + defs,
             z3.And(z3.Not(stop(pos(k))), z3.Implies(special(t(k)), z3.Not(stop(pos(k) + 1))),
                    z3.Implies(z3.And(special(t(k)), esc(pos(k) + 1)), z3.Or(c(pos(k) + 1) == NN, c(pos(k) + 1) == BS, c(pos(k) + 1) == QU)))),
            ("roundtrip.end", fin, stop(pos(n)))]


def modules(tier):
    return [Module("unquote", "libclingo-dl/src/parsing.cc", contracts(), lemmas=lemmas())]


HARNESS = [har.parse()]
SECS = (4, 60)
SEARCH_SECS = 20
ASSUMPTIONS = ["std::string is a sequence of characters without further structure",
               "the decoded text is a well-formed quoted string (every backslash introduces one of the three escape sequences); clingo only produces such strings"]
BOUNDED_SCOPE = "random texts over all characters, quoted and decoded; random well-formed quoted strings decoded by an independent decoder"
RULE = "random strings; non-trivial: contains an escape sequence"
EXPLANATION = "The result is the unique text whose quoted form is the input, for every well-formed quoted text of any length."
