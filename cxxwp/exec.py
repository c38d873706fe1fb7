"""Symbolic execution of clang ASTs generating proof obligations.

Functions are executed against contracts; loops are cut at invariants; callees
with contracts are replaced by them, all other callees with a body are inlined.
The result is a list of obligations (named formulas that have to be valid)."""
import itertools
import z3
from .ast import ToolLimit, Unit, split_top

z3.set_param("pp.max_depth", 10000000)

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
_ctr = itertools.count()


def fresh_name(base):
    return "%s!%d" % (base, next(_ctr))


def arr(sort, dims):
    for _ in range(dims):
        sort = z3.ArraySort(I, sort)
    return sort


def sel(t, idxs):
    for i in idxs:
        t = z3.Select(t, i)
    return t


def upd(t, idxs, v):
    if not idxs:
        return v
    return z3.Store(t, idxs[0], upd(z3.Select(t, idxs[0]), idxs[1:], v))


def iv(n):
    return z3.IntVal(n)


def is_z3(v):
    return isinstance(v, z3.ExprRef)


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def simp(t):
    return z3.simplify(t)


def mk_and(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return z3.And(*xs)


def ite(c, a, b):
    if a.eq(b):
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.sort() == B:
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return z3.Not(c)
    return z3.If(c, a, b)


# ---------------------------------------------------------------------------
# values
class LV:
    """An lvalue: a root object and a path of fields and indices."""
    __slots__ = ("root", "path", "ty")

    def __init__(self, root, path=(), ty=None):
        self.root, self.path, self.ty = root, path, ty

    def field(self, name, ty):
        return LV(self.root, self.path + (name,), ty)

    def index(self, idx, ty):
        return LV(self.root, self.path + (idx,), ty)

    def key(self):
        return tuple(p if isinstance(p, str) else "[]" for p in self.path)

    def idxs(self):
        return [p for p in self.path if not isinstance(p, str)]

    def __repr__(self):
        return "LV(%s,%s)" % (self.root, self.path)


class Blob:
    """An aggregate rvalue."""
    __slots__ = ("ty", "leaves", "objs")

    def __init__(self, ty, leaves, objs=None):
        self.ty, self.leaves, self.objs = ty, leaves, objs or {}


class Ptr:
    """A pointer or iterator: container lvalue and index (stride one), or the
    address of an lvalue if index is None."""
    __slots__ = ("lv", "idx", "rev", "null")

    def __init__(self, lv, idx=None, rev=False, null=FALSE):
        self.lv, self.idx, self.rev, self.null = lv, idx, rev, null

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.lv, self.idx)


class Lam:
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class Ext:
    """A value handled by an external model (opaque object with Python data)."""

    def __init__(self, kind, **data):
        self.kind = kind
        self.data = data


class Dead(Exception):
    """The current path ended (exception, return, break, ...)."""


class Ret(Exception):
    pass


# ---------------------------------------------------------------------------
class State:
    __slots__ = ("mem", "pc", "log")

    def __init__(self, mem=None, pc=None, log=None):
        self.mem = mem if mem is not None else {}
        self.pc = pc if pc is not None else []   # list of (tag, formula); tag b(ranch) or f(act)
        self.log = log if log is not None else set()  # written keys

    def copy(self):
        return State(dict(self.mem), list(self.pc), set(self.log))


class Obligation:
    def __init__(self, name, facts, goal, kind="", func="", info=None):
        self.name, self.facts, self.goal, self.kind, self.func = name, facts, goal, kind, func
        self.info = info or {}


def abstract_arrays(terms):
    """Replace variable-free array terms by constants (what holds for all arrays holds for these)."""
    memo, names = {}, {}

    def ground(t):
        st = [t]
        while st:
            x = st.pop()
            if z3.is_var(x):
                return False
            st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
        return True

    def sub(t):
        i = t.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_quantifier(t):
            vs = [z3.Const("%s!%d" % (t.var_name(k), i), t.var_sort(k)) for k in range(t.num_vars())]
            body = sub_body(z3.substitute_vars(t.body(), *reversed(vs)), vs)
            r = z3.ForAll(vs, body) if t.is_forall() else z3.Exists(vs, body)
        elif z3.is_array(t) and t.num_args() and not z3.is_select(t) and ground(t) and not bound_in(t):
            r = names.setdefault(i, z3.FreshConst(t.sort(), "array"))
        elif t.num_args():
            r = t.decl()(*[sub(c) for c in t.children()])
        else:
            r = t
        memo[i] = (t, r)
        return r
    bound = []

    def bound_in(t):
        st, ids = [t], {v.get_id() for v in bound}
        while st:
            x = st.pop()
            if x.get_id() in ids:
                return True
            st.extend(x.children() if not z3.is_quantifier(x) else [x.body()])
        return False

    def sub_body(t, vs):
        bound.extend(vs)
        r = sub(t)
        return r
    return [sub(t) for t in terms]


class Contract:
    """Contract of a function: requires/ensures are functions from a Spec view
    to lists of (name, formula)."""

    def __init__(self, name, requires=None, ensures=None, modifies=(), throws=None, pure=False, result=None,
                 loops=(), setup=None, mode="math", bounds=False, ghosts=None, assumed=False, lemmas=None, targs=None,
                 unit=None, inline=(), note="", ensures_throw=None, cuts=None, defs=None, ptrs=None, induct=None, induct_post=None,
                 elsewhere=None, post_cuts=None, effect=None, arity=None, casts=False, rules=None):
        self.rules = rules                     # (name, premises, conclusion): rule induction at the end
        self.casts = casts                     # conversions of numbers out of range yield arbitrary values
        self.arity = arity                     # selects one of several overloads
        self.effect = effect                   # update of ghost state at calls
        self.post_cuts = post_cuts              # intermediate assertions before the postconditions
        self.skip = False             # proved in another module
        self.paths = False            # postconditions are obligations for each return separately
        self.elsewhere = elsewhere              # obligations that another contract of the same function discharges
        self.name = name
        self.requires = requires
        self.ensures = ensures
        self.modifies = modifies      # set of leaf patterns or function
        self.loops = list(loops)
        self.setup = setup
        self.mode = mode
        self.bounds = bounds
        self.assumed = assumed
        self.targs = targs
        self.result = result
        self.throws = throws
        self.ensures_throw = ensures_throw
        self.note = note
        self.lemmas = lemmas
        self.defs = defs              # defining equations of specification functions (assumed everywhere)
        self.induct = induct          # (name, lo, hi, P): proved by strong induction, then used
        self.induct_post = induct_post
        self.ptrs = ptrs or {}        # types of the objects void pointers refer to


class Loop:
    """Loop specification: invariants over the loop view."""

    def __init__(self, inv=None, name="", hints=None, match=None, unroll=None, exit_hints=None, body_hints=None, assume=None,
                 body_cuts=None, exit_cuts=None, step_cuts=None, given=None, entry_cuts=None):
        self.entry_cuts = entry_cuts
        self.given = given            # invariants of this loop that another contract of the function establishes
        self.assume = assume          # assumptions about the state in an iteration (reported)
        self.body_cuts, self.exit_cuts, self.step_cuts = body_cuts, exit_cuts, step_cuts   # intermediate assertions
        self.inv, self.name, self.hints, self.match, self.unroll = inv, name, hints, match, unroll
        self.exit_hints = exit_hints
        self.body_hints = body_hints


# ---------------------------------------------------------------------------
# views used by specifications
class View:
    def __init__(self, ex, st, lv, ty):
        object.__setattr__(self, "_", (ex, st, lv, ty))

    def __getattr__(self, name):
        ex, st, lv, ty = self._
        if ty[0] == "rec":
            fs = ex.unit.fields(ty[1])
            if name not in fs:
                raise ToolLimit("annotation mentions unknown member %s of %s" % (name, ty[1]))
            fty = fs[name][0]
            if fty[0] == "ref":
                tgt = st.mem.get((lv.root, lv.key() + (name, "@")))
                if tgt is None:
                    tgt = ex.default_obj(lv.field(name, fty), fty)
                return mkview(ex, st, tgt, tgt.ty or fty[1])
            return mkview(ex, st, lv.field(name, fty), fty)
        if ty[0] == "vec" and name == "len":
            return ex.read_leaf(st, lv, ("len",), I)
        if ty[0] == "tup":
            if name in ("first", "second"):
                k = 0 if name == "first" else 1
                return mkview(ex, st, lv.field(str(k), ty[1][k]), ty[1][k])
            if name.startswith("_") and name[1:].isdigit():
                k = int(name[1:])
                return mkview(ex, st, lv.field(str(k), ty[1][k]), ty[1][k])
        if ty[0] == "opt":
            if name == "has":
                return ex.read_leaf(st, lv, ("has",), B)
            if name == "val":
                return mkview(ex, st, lv.field("val", ty[1]), ty[1])
        raise ToolLimit("annotation: no member %s in %s" % (name, ty))

    def __getitem__(self, i):
        ex, st, lv, ty = self._
        if isinstance(i, int):
            i = iv(i)
        if ty[0] in ("vec", "array"):
            return mkview(ex, st, lv.index(i, ty[1]), ty[1])
        raise ToolLimit("annotation: cannot index " + str(ty))

    @property
    def raw(self):
        """All leaves below (dict)."""
        ex, st, lv, ty = self._
        return ex.read(st, lv, ty).leaves

    def back(self):
        return self[self.len - 1]

    def eq(self, other):
        """Structural equality of aggregate views (vectors pointwise)."""
        a, b = self.raw, other.raw
        return mk_and([a[k] == b[k] for k in a])


class MapView:
    """Contents of an unordered map or multimap."""

    def __init__(self, ex, st, lv, ty):
        self._ = (ex, st, lv, ty)

    def leaf(self, name, dims, sort):
        ex, st, lv, ty = self._
        if lv.idxs():
            raise ToolLimit("annotation: map in container")
        return ex.get_mem(st, lv.root, lv.key() + (name,) + ("[]",) * dims, arr(sort, dims))

    def has(self, k):
        return z3.Select(self.leaf("dom", 1, B), k)

    def val(self, k):
        return z3.Select(self.leaf("val", 1, I), k)

    def n(self, k):
        return z3.Select(self.leaf("n", 1, I), k)

    def at(self, k, p):
        return z3.Select(z3.Select(self.leaf("at", 2, I), k), p)


def mkview(ex, st, lv, ty):
    if ty[0] in ("map", "mmap"):
        return MapView(ex, st, lv, ty)
    if ty[0] in ("rec", "vec", "tup", "opt", "array"):
        return View(ex, st, lv, ty)
    if ty[0] == "ref":
        ty = ty[1]
        return mkview(ex, st, lv, ty)
    if ty[0] in ("int", "bool", "enum", "double", "opq"):
        return ex.read_leaf(st, lv, (), ex.sort_of(ty), rng=False)
    obj = st.mem.get((lv.root, lv.key() + ("@",)))
    if obj is not None:
        return obj
    raise ToolLimit("annotation: cannot view type %s" % (ty,))


class SpecCtx:
    """What specifications see of a state."""

    def __init__(self, ex, st, frame, pre=None, result=None, thrown=None):
        self.ex, self.st, self.frame = ex, st, frame
        self.pre = pre
        self.result = result
        self.thrown = thrown

    def at(self, st):
        return SpecCtx(self.ex, st, self.frame, self.pre, self.result)

    @property
    def old(self):
        return SpecCtx(self.ex, self.pre, self.frame, self.pre)

    @property
    def outer(self):
        """View of the state from the function that is verified (in loops of inlined functions)."""
        return SpecCtx(self.ex, self.st, self.ex.top, self.pre, self.result)

    @property
    def this(self):
        lv = self.frame.this
        return View(self.ex, self.st, lv, lv.ty)

    def obj(self, root):
        lv = self.ex.roots[root]
        return View(self.ex, self.st, lv, lv.ty)

    def ghost(self, name):
        return self.ex.ghosts[name]

    def arg(self, k):
        b = self.frame.params[k]
        if isinstance(b, LV):
            return mkview(self.ex, self.st, b, b.ty)
        return b

    def deref(self, k):
        """The object a pointer argument refers to."""
        o = SpecCtx(self.ex, self.pre if self.pre is not None else self.st, self.frame).argobj(k)
        return mkview(self.ex, self.st, o.lv if o.idx is None else o.lv.index(o.idx, o.lv.ty[1]), o.lv.ty if o.idx is None else o.lv.ty[1])

    def argobj(self, k):
        """Python level value (pointer, iterator) of a parameter."""
        b = self.frame.params[k]
        if isinstance(b, LV):
            o = self.st.mem.get((b.root, b.key() + ("@",)))
            return o if o is not None else b
        return b

    def has_local(self, name):
        return self.ex.lookup_local(self.frame, name) is not None

    def local(self, name):
        v = self.ex.lookup_local(self.frame, name)
        if v is None:
            raise ToolLimit("annotation mentions unknown local variable " + name)
        if isinstance(v, LV):
            o = self.st.mem.get((v.root, v.key() + ("@",)))
            if o is not None:
                return o
            return mkview(self.ex, self.st, v, v.ty)
        return v

    def leaf(self, lv, suffix, sort):
        return self.ex.read_leaf(self.st, lv, suffix, sort)

    def g(self, name, sort=None):
        """Ghost state variable (part of the symbolic state)."""
        key = ("ghost", (name,))
        return self.st.mem.get(key, self.ex.ghost_init(name, sort))


class Frame:
    def __init__(self, func, this=None):
        self.func = func
        self.this = this
        self.env = {}         # var decl id -> LV or value
        self.names = {}       # name -> list of ids in order of declaration
        self.params = []
        self.returns = []     # (state, value)
        self.ret_ty = None
        self.parent = None
        self.entry = None
        self.contract = None
        self.loopno = 0


class Exec:
    def __init__(self, unit, contracts=(), externals=None, mode="math"):
        self.unit = unit
        self.contracts = {}   # decl id -> contract
        self.clist = []
        self.externals = externals or {}
        self.obls = []
        self.assumptions = set()
        self.inlined = set()
        self.used_contracts = set()
        self.roots = {}
        self.ghosts = {}
        self.ghost_inits = {}
        self.st = State()
        self.frame = None
        self.dry = 0
        self.mode = mode
        self.bounds = False
        self.fname = ""
        self.loop_specs = []
        self.loop_used = 0
        self.brk = []
        self.throws = []
        self.depth = 0
        self.anon_defaults = {}
        self.max_inline = 40
        self.global_facts = []
        self.strings = {}
        self.path_stack = []

    # -- contracts ----------------------------------------------------------
    def register(self, c):
        nodes = self.unit.find(c.name, c.targs)
        if not nodes and c.assumed:
            nodes = self.unit.find_decls(c.name)
        if c.arity is not None:
            nodes = [n for n in nodes if sum(x.get("kind") == "ParmVarDecl" for x in n.get("inner", ())) == c.arity]
        if not nodes:
            if c.assumed == "optional":
                return
            raise ToolLimit("function %s not found in %s" % (c.name, self.unit.source))
        for n in nodes:
            i = n["id"]
            self.contracts[i] = c
            p = n.get("previousDecl")
            while p:
                self.contracts[p] = c
                p = self.unit.decls[p].get("previousDecl") if p in self.unit.decls else None
        c.node = nodes[0]
        self.clist.append(c)

    # -- memory ---------------------------------------------------------------
    def sort_of(self, ty):
        k = ty[0]
        if k in ("int", "enum", "opq", "ptr", "func", "lambda", "iter"):
            return I
        if k == "bool":
            return B
        if k == "double":
            return R
        if k == "ref":
            return self.sort_of(ty[1])
        raise ToolLimit("no sort for type %s" % (ty,))

    def leaves(self, ty, depth=0):
        """[(suffix, sort, scalar type)]"""
        if depth > 8:
            raise ToolLimit("recursive type")
        k = ty[0]
        if k in ("int", "bool", "double", "enum", "opq"):
            return [((), self.sort_of(ty), ty)]
        if k == "vec":
            out = [(("len",), I, ("len",))]
            for s, so, t in self.leaves(ty[1], depth + 1):
                out.append((("[]",) + s, z3.ArraySort(I, so), t))
            return out
        if k == "array":
            return [(("[]",) + s, z3.ArraySort(I, so), t) for s, so, t in self.leaves(ty[1], depth + 1)]
        if k == "rec":
            out = []
            for n, (fty, _) in self.unit.fields(ty[1]).items():
                if fty[0] in ("ref", "ptr", "lambda", "iter", "map", "mmap", "func"):
                    continue
                for s, so, t in self.leaves(fty, depth + 1):
                    out.append(((n,) + s, so, t))
            return out
        if k == "tup":
            out = []
            for n, fty in enumerate(ty[1]):
                for s, so, t in self.leaves(fty, depth + 1):
                    out.append(((str(n),) + s, so, t))
            return out
        if k == "opt":
            return [(("has",), B, ("bool",))] + [(("val",) + s, so, t) for s, so, t in self.leaves(ty[1], depth + 1)]
        if k == "map" and ty[2][0] == "iter":
            return [(("dom", "[]"), z3.ArraySort(I, B), ("bool",)), (("val", "[]"), z3.ArraySort(I, I), ("int", 64, True))]
        if k == "map":
            return [(("dom", "[]"), z3.ArraySort(I, B), ("bool",))] + [
                (("val", "[]") + s, z3.ArraySort(I, so), t) for s, so, t in self.leaves(ty[2], depth + 1)]
        if k == "mmap":
            return [(("n", "[]"), z3.ArraySort(I, I), ("len",))] + [
                (("at", "[]", "[]") + s, arr(so, 2), t) for s, so, t in self.leaves(ty[2], depth + 1)]
        if k in ("ptr", "lambda", "iter", "func", "void"):
            return []
        raise ToolLimit("type %s not supported" % (ty,))

    def objs_of(self, st, lv):
        """Python objects stored below an lvalue."""
        out = {}
        k = lv.key()
        for (r, key), v in st.mem.items():
            if r == lv.root and key[:len(k)] == k and key[-1] == "@":
                out[key[len(k):]] = v
        return out

    def init_leaf(self, root, key, sort):
        name = "%s.%s" % (root, ".".join(key)) if key else str(root)
        return z3.Const(name, sort)

    def get_mem(self, st, root, key, sort):
        v = st.mem.get((root, key))
        if v is None:
            v = self.init_leaf(root, key, sort)
        return v

    def read_leaf(self, st, lv, suffix, sort, rng=True):
        key = lv.key() + suffix
        idxs = lv.idxs()
        t = self.get_mem(st, lv.root, key, arr(sort, len(idxs)))
        v = sel(t, idxs)
        if suffix == ("len",) and not z3.is_int_value(v) and st is self.st:
            self.fact(z3.And(v >= 0, v < 2 ** 32 - 1))
        return v

    def read(self, st, lv, ty):
        k = ty[0]
        if k == "ref":
            return self.read(st, lv, ty[1])
        obj = st.mem.get((lv.root, lv.key() + ("@",)))
        if obj is not None:
            return obj
        if k in ("int", "bool", "double", "enum", "opq"):
            v = self.read_leaf(st, lv, (), self.sort_of(ty))
            self.range_fact(v, ty)
            return v
        if k in ("ptr", "iter", "lambda", "map", "mmap", "func"):
            return self.default_obj(lv, ty)
        out = {}
        idxs = lv.idxs()
        for s, so, t in self.leaves(ty):
            key = lv.key() + s
            out[s] = sel(self.get_mem(st, lv.root, key, arr(so, len(idxs))), idxs)
            if s and s[-1] == "len" and "[]" not in s and not z3.is_int_value(out[s]):
                self.fact(z3.And(out[s] >= 0, out[s] < 2 ** 32 - 1))
        return Blob(ty, out, self.objs_of(st, lv))

    def default_obj(self, lv, ty):
        key = (lv.root, lv.key())
        if ty[0] in ("ref", "ptr"):
            if lv.idxs():
                if ty[0] == "ptr":
                    raise ToolLimit("pointer stored in container")
                self.assumptions.add("the object referenced by member %s of a container element is not aliased by other state" % ".".join(lv.key()))
                return LV("*" + ".".join(str(x) for x in (lv.root,) + lv.key()), tuple(lv.idxs()), ty[1])
            if key not in self.anon_defaults:
                root = "*" + ".".join(str(x) for x in (lv.root,) + lv.key())
                inner = ty[1]
                self.anon_defaults[key] = LV(root, (), inner)
                self.assumptions.add("the object referenced by member %s is not aliased by other state" % ".".join(lv.key()))
            tgt = self.anon_defaults[key]
            if ty[0] == "ptr":
                return Ptr(tgt)
            return tgt
        if ty[0] in ("map", "mmap", "opq", "lambda"):
            return Ext(ty[0], lv=lv, ty=ty)
        raise ToolLimit("uninitialised object of type %s at %s" % (ty, lv))

    def range_fact(self, v, ty):
        if self.dry:
            return
        if ty[0] == "int" and not z3.is_int_value(v):
            bits, sg = ty[1], ty[2]
            if not sg:
                self.fact(z3.And(v >= 0, v <= 2 ** bits - 1))
            elif self.mode == "exact" or bits == 8:
                self.fact(z3.And(v >= -2 ** (bits - 1), v <= 2 ** (bits - 1) - 1))

    def fact(self, f):
        if z3.is_true(f):
            return
        self.st.pc.append(("f", f))

    def branch(self, f):
        self.st.pc.append(("b", f))

    def write_leaf(self, st, lv, suffix, v, sort=None):
        key = lv.key() + suffix
        idxs = lv.idxs()
        k = (lv.root, key)
        if idxs:
            t = self.get_mem(st, lv.root, key, arr(v.sort(), len(idxs)))
            v = upd(t, idxs, v)
        st.mem[k] = v
        st.log.add(k)

    def write(self, st, lv, v, ty=None):
        k = (lv.root, lv.key() + ("@",))
        if isinstance(v, Blob):
            for s, t in v.leaves.items():
                self.write_leaf(st, lv, s, t)
            for s, o in v.objs.items():
                kk = (lv.root, lv.key() + s)
                if "[]" in kk[1]:
                    self.assumptions.add("the object referenced by member %s of a container element is not aliased by other state" % ".".join(kk[1][:-1]))
                    continue
                st.mem[kk] = o
                st.log.add(kk)
            return
        if is_z3(v):
            if k in st.mem:
                del st.mem[k]
            self.write_leaf(st, lv, (), v)
            return
        if lv.idxs():
            raise ToolLimit("object of kind %s stored in container" % type(v).__name__)
        st.mem[k] = v
        st.log.add(k)

    # -- merging --------------------------------------------------------------
    def merge_obj(self, c, a, b):
        if a is b:
            return a
        for x, y, cond in ((a, b, c), (b, a, z3.Not(c))):
            if isinstance(x, Ext) and x.kind == "func" and isinstance(y, Ptr) and y.lv is None:
                # function pointer or null
                return Ext("func", **dict(x.data, null=z3.Or(z3.Not(cond), x.data.get("null", FALSE))))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            lv = self.merge_lv(c, a.lv, b.lv) if (a.lv is not None and b.lv is not None) else (a.lv or b.lv)
            if lv is None and a.lv is not b.lv:
                return None
            if a.rev != b.rev or (a.idx is None) != (b.idx is None):
                if a.lv is None or b.lv is None:
                    o = a if a.lv is not None else b
                    return Ptr(o.lv, o.idx, o.rev, ite(c, a.null, b.null))
                return None
            idx = None if a.idx is None else ite(c, a.idx, b.idx)
            return Ptr(lv, idx, a.rev, ite(c, a.null, b.null))
        if isinstance(a, LV) and isinstance(b, LV):
            return self.merge_lv(c, a, b)
        if isinstance(a, Ext) and isinstance(b, Ext) and a.kind == b.kind:
            d = {}
            for k in a.data:
                x, y = a.data[k], b.data.get(k)
                if x is y:
                    d[k] = x
                elif is_z3(x) and is_z3(y):
                    d[k] = ite(c, x, y)
                elif isinstance(x, LV) and isinstance(y, LV):
                    m = self.merge_lv(c, x, y)
                    if m is None:
                        return None
                    d[k] = m
                elif x == y:
                    d[k] = x
                else:
                    return None
            return Ext(a.kind, **d)
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return ite(c, a, b)
        return None

    def merge_lv(self, c, a, b):
        if a.root != b.root or a.key() != b.key():
            return None
        path = []
        for x, y in zip(a.path, b.path):
            if isinstance(x, str):
                path.append(x)
            else:
                path.append(ite(c, x, y))
        return LV(a.root, tuple(path), a.ty)

    def merge(self, s1, s2):
        """Merge two states that diverged at a branch."""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        n = 0
        m = min(len(s1.pc), len(s2.pc))
        while n < m and s1.pc[n][0] == s2.pc[n][0] and s1.pc[n][1] is s2.pc[n][1]:
            n += 1
        while n < m and s1.pc[n][0] == s2.pc[n][0] and s1.pc[n][1].eq(s2.pc[n][1]):
            n += 1
        g1 = mk_and([f for t, f in s1.pc[n:] if t == "b"])
        g2 = mk_and([f for t, f in s2.pc[n:] if t == "b"])
        pc = list(s1.pc[:n])
        exclusive = z3.is_true(simp(z3.Or(g1, g2)))
        if not exclusive:
            pc.append(("b", z3.Or(g1, g2)))
        if z3.is_true(g1) and z3.is_true(g2):
            raise ToolLimit("internal: merging states without distinguishing branch")
        c = g1 if not z3.is_true(g1) else z3.Not(g2)
        for t, f in s1.pc[n:]:
            if t == "f":
                pc.append(("f", z3.Implies(g1, f)))
        for t, f in s2.pc[n:]:
            if t == "f":
                pc.append(("f", z3.Implies(g2, f)))
        mem = {}
        for k in set(s1.mem) | set(s2.mem):
            a, b = s1.mem.get(k), s2.mem.get(k)
            if a is b:
                mem[k] = a
                continue
            if a is None or b is None:
                o = a if a is not None else b
                if is_z3(o):
                    if isinstance(k[0], str) and ("#" in k[0]) and k[0] not in self.live_roots:
                        # local of one branch
                        mem[k] = o
                        continue
                    ini = self.ghost_inits.get(k[1][0]) if k[0] == "ghost" else self.init_leaf(k[0], k[1], o.sort())
                    if a is None:
                        a = ini
                    else:
                        b = ini
                    mem[k] = ite(c, a, b)
                else:
                    mem[k] = o
                continue
            if is_z3(a) and is_z3(b):
                if a.sort() != b.sort():
                    raise ToolLimit("sort mismatch merging %s" % (k,))
                mem[k] = ite(c, a, b)
            else:
                o = self.merge_obj(c, a, b)
                if o is not None:
                    mem[k] = o
                else:
                    mem[k] = Ext("unmergeable")
        return State(mem, pc, s1.log | s2.log)

    def merge_many(self, sts):
        """Merge (state, value) pairs."""
        if not sts:
            return None, None
        sts = list(sts)
        st, val = sts[0]
        tmp = None
        for s2, v2 in sts[1:]:
            # store values in memory to merge them uniformly
            a, b = st.copy(), s2.copy()
            if val is not None or v2 is not None:
                self._put(a, val)
                self._put(b, v2)
            st = self.merge(a, b)
            if val is not None or v2 is not None:
                val = self._take(st, val)
        return st, val

    def _put(self, st, v):
        if isinstance(v, Blob):
            for s, t in v.leaves.items():
                st.mem[("$ret", s)] = t
            for s, o in v.objs.items():
                st.mem[("$ret", s)] = o
        elif v is not None:
            st.mem[("$ret", ("@@",))] = v

    def _take(self, st, like):
        if isinstance(like, Blob):
            out = Blob(like.ty, {s: st.mem.pop(("$ret", s)) for s in like.leaves},
                       {s: st.mem.pop(("$ret", s)) for s in like.objs})
            return out
        v = st.mem.pop(("$ret", ("@@",)), None)
        if isinstance(v, Ext) and v.kind == "unmergeable":
            raise ToolLimit("cannot merge returned values")
        return v

    # -- obligations --------------------------------------------------------
    def oblige_cuts(self, items, prefix):
        """Assertions that are proved and then used; (name, formula, names) is proved from the named assertions alone."""
        proved = {}
        for it in items:
            nm, f = it[:2]
            self.oblige(prefix + nm, f, "cut", [g for x in it[2] for g in proved[x]] if len(it) > 2 else None)
            proved.setdefault(nm, []).append(f)
            self.fact(f)

    def oblige(self, name, goal, kind="", hyps=None):
        if self.dry:
            return
        g = goal
        if z3.is_true(g):
            pass
        facts = [f for _, f in self.st.pc] if hyps is None else list(hyps)
        skip = getattr(getattr(self, "contract", None), "elsewhere", None)
        if skip is not None and skip(name):
            return
        if hyps is not None:
            *facts, g = abstract_arrays(facts + [g])
        for i, part in enumerate(conjuncts(g)):
            nm = name if i == 0 and not is_conj(g) else "%s.%d" % (name, i)
            self.obls.append(Obligation(nm, facts, part, kind, self.fname))

    def assume(self, f):
        self.fact(f)

    # -- locals ---------------------------------------------------------------
    @property
    def live_roots(self):
        s = set()
        fr = self.frame
        while fr is not None:
            for v in fr.env.values():
                if isinstance(v, LV):
                    s.add(v.root)
            fr = fr.parent
        return s

    def new_root(self, name, ty):
        r = "%s#%d" % (name or "tmp", next(_ctr))
        return LV(r, (), ty)

    def lookup_local(self, frame, name):
        ids = frame.names.get(name)
        if ids:
            for i in reversed(ids):
                if i in frame.env:
                    return frame.env[i]
        return None

    def declare(self, node, ty, value=None, alias=None):
        """Bind a variable."""
        fr = self.frame
        name = node.get("name", "")
        if alias is not None:
            fr.env[node["id"]] = alias
        else:
            lv = self.new_root(name, ty)
            fr.env[node["id"]] = lv
            if value is not None:
                self.write(self.st, lv, value)
        fr.names.setdefault(name, []).append(node["id"])

    def var(self, did, node=None):
        fr = self.frame
        while fr is not None:
            if did in fr.env:
                return fr.env[did]
            fr = fr.parent
        return None


def conjuncts(g):
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    return [g]


def is_conj(g):
    return z3.is_and(g) and g.num_args() > 1
