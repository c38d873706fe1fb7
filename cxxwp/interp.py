"""Statements, expressions and calls."""
import z3
from .ast import ToolLimit
from .exec import (Exec, State, Frame, LV, Blob, Ptr, Lam, Ext, Dead, Contract, Loop, SpecCtx, View, mkview, Obligation,
                   sel, upd, iv, is_z3, TRUE, FALSE, simp, mk_and, ite, fresh_name, arr, I, B, R, conjuncts, _ctr)

STRLEN = z3.Function("strlen", z3.IntSort(), z3.IntSort())      # length of the zero terminated string at an address
CHARS = LV("$chars", (), ("array", ("int", 8, True), None))


def inner(n):
    return [c for c in n.get("inner", ()) if c.get("kind") is not None]


def trunc_div(a, b):
    return z3.If(a >= 0, a / b, -((-a) / b))


class LoopCtx(SpecCtx):
    """View of a loop iteration for invariants."""

    def __init__(self, ex, st, frame, pre, entry, idx, node, range_lv=None, end=None, start=None):
        super().__init__(ex, st, frame, pre)
        self.entry_st = entry
        self.idx = idx
        self.node = node
        self.range_lv = range_lv
        self.end = end
        self.start = start

    @property
    def entry(self):
        return SpecCtx(self.ex, self.entry_st, self.frame, self.pre)

    @property
    def head(self):
        """The state at the start of the iteration."""
        return SpecCtx(self.ex, self.head_st, self.frame, self.pre)

    def snap(self, name):
        """The state at the entry of an enclosing or earlier loop."""
        return SpecCtx(self.ex, self.ex.snaps[name], self.frame, self.pre)

    def loop(self, name):
        """The view of an enclosing loop in the same state."""
        return self.ex.loop_views[name](self.st)

    @property
    def i(self):
        if self.idx is None:
            raise ToolLimit("annotation: loop has no progress variable")
        v = self.idx(self.st)
        return v

    @property
    def i0(self):
        return self.idx(self.entry_st)


def has_ite(t):
    """Terms with connectives cannot be used as patterns."""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_bool(x) or z3.is_app_of(x, z3.Z3_OP_ITE) or z3.is_quantifier(x):
            return True
        st += x.children()
    return False


class Interp(Exec):

    # ======================================================================
    # statements
    def block(self, nodes):
        for n in nodes:
            self.stmt(n)

    def stmt(self, n):
        k = n.get("kind")
        if k is None or k == "NullStmt":
            return
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        self.block(inner(n))

    def s_AttributedStmt(self, n):
        self.block([c for c in inner(n) if not c["kind"].endswith("Attr")])

    def s_DeclStmt(self, n):
        for d in inner(n):
            self.decl(d)

    def decl(self, d):
        k = d["kind"]
        if k in ("UsingDecl", "TypeAliasDecl", "TypedefDecl", "StaticAssertDecl", "CXXRecordDecl", "UsingDirectiveDecl",
                 "UsingShadowDecl", "EnumDecl"):
            return
        if k == "DecompositionDecl":
            return self.decomp(d)
        if k != "VarDecl":
            raise ToolLimit("declaration " + k)
        init = [c for c in inner(d) if not c["kind"].endswith("Attr") and c["kind"] not in ("FullComment",)]
        ty = self.unit.ty(d["type"])
        if d.get("storageClass") == "static" and not d.get("constexpr"):
            return self.static_var(d, ty, init)
        if ty[0] == "ref":
            v = self.ev(init[0])
            if isinstance(v, LV) and v.ty is None:
                v = LV(v.root, v.path, self.ety(init[0]))
            if not isinstance(v, LV) and not isinstance(v, (Ext, Lam)):
                v = self.materialize(v, self.ety(init[0]))
            return self.declare(d, ty, alias=v)
        if not init:
            return self.declare(d, self.strip_opq(ty, d))
        if ty[0] in ("opq", "void"):
            t2 = self.ety(init[0])
            if t2[0] not in ("opq", "void"):
                ty = t2
        v = self.rv(init[0], ty)
        self.declare(d, ty, value=v)

    def strip_opq(self, ty, d):
        return ty

    def static_var(self, d, ty, init):
        key = ("static", d["id"])
        if not hasattr(self, "statics"):
            self.statics = {}
        if key not in self.statics:
            lv = LV("static_%s" % d.get("name"), (), ty)
            self.statics[key] = lv
        self.frame.env[d["id"]] = self.statics[key]
        self.frame.names.setdefault(d.get("name", ""), []).append(d["id"])
        self.assumptions.add("static local %s has an arbitrary value on entry" % d.get("name"))

    def decomp(self, d):
        ch = inner(d)
        init = [c for c in ch if c["kind"] != "BindingDecl"][0]
        binds = [c for c in ch if c["kind"] == "BindingDecl"]
        ty = self.unit.ty(d["type"])
        v = self.ev(init)
        ety = self.ety(init)
        if ty[0] != "ref":
            v = self.materialize(self.to_rv(v, ety), ety)
        elif not isinstance(v, LV) and not isinstance(v, Ext):
            v = self.materialize(v, ety)
        if isinstance(v, LV) and v.ty is None:
            v = LV(v.root, v.path, ety)
        for k, b in enumerate(binds):
            if isinstance(v, Ext):
                t = self.ext_binding(v, k)
            elif ety[0] == "tup":
                t = v.field(str(k), ety[1][k])
                o = self.st.mem.get((t.root, t.key() + ("@",)))
                if isinstance(o, LV):
                    t = o
            elif ety[0] == "rec":
                fs = list(self.unit.fields(ety[1]).items())
                t = v.field(fs[k][0], fs[k][1][0])
            else:
                raise ToolLimit("structured binding of %s" % (ety,))
            self.frame.env[b["id"]] = t
            self.frame.names.setdefault(b.get("name", ""), []).append(b["id"])

    def ext_binding(self, v, k):
        if v.kind == "mapentry":
            return self.map_entry(v.data["it"], k)
        h = self.externals.get("binding:" + v.kind)
        if h:
            return h(self, v, k)
        raise ToolLimit("structured binding of external " + v.kind)

    def materialize(self, v, ty):
        if isinstance(v, Blob) and v.ty[0] != "void":
            ty = v.ty
        lv = self.new_root("tmp", ty)
        self.write(self.st, lv, v)
        return lv

    def s_ReturnStmt(self, n):
        ch = inner(n)
        v = None
        if ch:
            if self.frame.ret_ty and self.frame.ret_ty[0] == "ref":
                v = self.ev(ch[0])
                if isinstance(v, LV) and v.ty is None:
                    v = LV(v.root, v.path, self.ety(ch[0]))
            else:
                v = self.rv(ch[0], self.frame.ret_ty)
        self.frame.returns.append((self.st, v))
        self.st = None
        raise Dead()

    def s_IfStmt(self, n):
        ch = list(n.get("inner", ()))
        idx = 0
        if n.get("hasInit"):
            self.stmt(ch[0])
            idx = 1
        if n.get("hasVar"):
            self.stmt(ch[idx])
            idx += 1
        cond = self.cond(ch[idx])
        then = ch[idx + 1]
        els = ch[idx + 2] if len(ch) > idx + 2 else None
        self.fork(cond, lambda: self.stmt(then), lambda: self.stmt(els) if els is not None else None)

    def fork(self, cond, then, els):
        c = simp(cond)
        if z3.is_true(c):
            return then()
        if z3.is_false(c):
            return els()
        base = self.st
        out = []
        for f, thunk in ((cond, then), (z3.Not(cond), els)):
            self.st = base.copy()
            self.branch(f)
            try:
                v = thunk()
                out.append((self.st, v))
            except Dead:
                pass
        if not out:
            self.st = None
            raise Dead()
        self.st, v = self.merge_many(out)
        return v

    def s_SwitchStmt(self, n):
        ch = inner(n)
        if len(ch) > 2:
            raise ToolLimit("switch with init")
        val = self.rv(ch[0])
        items = inner(ch[1])
        # flatten case labels
        flat = []

        def add(s):
            if s["kind"] == "CaseStmt":
                c = inner(s)
                flat.append(("case", self.caseval(c[0])))
                if len(c) > 1:
                    add(c[1])
            elif s["kind"] == "DefaultStmt":
                flat.append(("default", None))
                c = inner(s)
                if c:
                    add(c[0])
            else:
                flat.append(("stmt", s))
        for s in items:
            add(s)
        cases = [v for k, v in flat if k == "case"]
        base = self.st
        rec = {"break": [], "continue": None}
        self.brk.append(rec)
        ends = []
        cur = None
        try:
            def enter(cur, cond):
                s = base.copy()
                s.pc.append(("b", cond))
                return s if cur is None else self.merge(cur, s)
            has_default = any(k == "default" for k, _ in flat)
            for k, v in flat:
                if k == "case":
                    if z3.is_false(simp(val == v)):
                        continue
                    cur = enter(cur, val == v)
                elif k == "default":
                    cur = enter(cur, mk_and([val != x for x in cases]))
                elif cur is not None:
                    self.st = cur
                    try:
                        self.stmt(v)
                        cur = self.st
                    except Dead:
                        cur = None
            if cur is not None:
                ends.append(cur)
            if not has_default:
                s = base.copy()
                s.pc.append(("b", mk_and([val != x for x in cases])))
                ends.append(s)
        finally:
            self.brk.pop()
        ends += rec["break"]
        if not ends:
            self.st = None
            raise Dead()
        st = ends[0]
        for s in ends[1:]:
            st = self.merge(st, s)
        self.st = st

    def caseval(self, n):
        if n["kind"] == "ConstantExpr" and "value" in n:
            return iv(int(n["value"]))
        v = simp(self.rv(n))
        if z3.is_true(v):
            return iv(1)
        return v

    def s_BreakStmt(self, n):
        for r in reversed(self.brk):
            r["break"].append(self.st)
            self.st = None
            raise Dead()

    def s_ContinueStmt(self, n):
        for r in reversed(self.brk):
            if r["continue"] is not None:
                r["continue"].append(self.st)
                self.st = None
                raise Dead()

    def s_WhileStmt(self, n):
        ch = [c for c in n.get("inner", ())]
        if n.get("hasVar"):
            raise ToolLimit("while with declaration")
        self.loop(n, lambda: self.cond(ch[0]), lambda: self.stmt(ch[1]), lambda: None,
                  idx=lambda: self.find_counter(None, ch[0], ch[1]))

    def s_DoStmt(self, n):
        ch = inner(n)
        first = [True]
        # do { B } while (C)  ==  B; while (C) { B }  (breaks inside the first copy are not supported)
        rec = {"break": [], "continue": []}
        self.brk.append(rec)
        try:
            try:
                self.stmt(ch[0])
                ends = [self.st]
            except Dead:
                ends = []
        finally:
            self.brk.pop()
        ends += rec["continue"]
        st = None
        for s in ends:
            st = s if st is None else self.merge(st, s)
        outs = []
        if st is not None:
            self.st = st
            try:
                self.loop(n, lambda: self.cond(ch[1]), lambda: self.stmt(ch[0]), lambda: None,
                          idx=lambda: self.find_counter(None, ch[1], ch[0]))
                outs.append(self.st)
            except Dead:
                pass
        outs += rec["break"]
        if not outs:
            self.st = None
            raise Dead()
        st = outs[0]
        for s in outs[1:]:
            st = self.merge(st, s)
        self.st = st

    def s_ForStmt(self, n):
        ch = n.get("inner", ())
        init, var, cond, inc, body = ch[0], ch[1], ch[2], ch[3], ch[4]
        if init.get("kind"):
            self.stmt(init)
        if var.get("kind"):
            raise ToolLimit("for with condition variable")
        self.loop(n, (lambda: self.cond(cond)) if cond.get("kind") else (lambda: TRUE), lambda: self.stmt(body),
                  (lambda: self.ev(inc)) if inc.get("kind") else (lambda: None),
                  idx=lambda: self.find_counter(inc if inc.get("kind") else None, cond, body))

    def refs(self, n, out):
        if n.get("kind") == "DeclRefExpr":
            out.append(n["referencedDecl"]["id"])
        for c in n.get("inner", ()):
            if c.get("kind") and c["kind"] != "LambdaExpr":
                self.refs(c, out)
        return out

    def mutated(self, n, out):
        """Variables syntactically incremented/assigned in n."""
        k = n.get("kind")
        if k in ("UnaryOperator",) and n.get("opcode") in ("++", "--") or k == "CompoundAssignOperator" or \
                k == "BinaryOperator" and n.get("opcode") == "=":
            t = inner(n)[0]
            while t["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                t = inner(t)[0]
            if t["kind"] == "DeclRefExpr":
                out.append(t["referencedDecl"]["id"])
        if k == "CXXOperatorCallExpr":
            ch = inner(n)
            nm = self.callee_name(ch[0])
            if nm in ("operator++", "operator--", "operator+=", "operator="):
                t = ch[1]
                while t["kind"] in ("ParenExpr", "ImplicitCastExpr"):
                    t = inner(t)[0]
                if t["kind"] == "DeclRefExpr":
                    out.append(t["referencedDecl"]["id"])
        for c in n.get("inner", ()):
            if c.get("kind"):
                self.mutated(c, out)
        return out

    def find_counter(self, inc, cond, body):
        """Progress variable of a loop: the variable changed in the increment, or
        a variable of the condition changed in the body."""
        cands = []
        if inc is not None:
            cands += self.mutated(inc, [])
        mut = self.mutated(body, []) if body is not None else []
        crefs = self.refs(cond, []) if cond is not None and cond.get("kind") else []
        cands += [d for d in crefs if d in mut]
        cands += mut
        for d in cands:
            v = self.var(d)
            if isinstance(v, LV) and self.counter_val(self.st, v) is not None:
                return lambda st, v=v: self.counter_val(st, v)
        return None

    def counter_val(self, st, lv):
        o = st.mem.get((lv.root, lv.key() + ("@",)))
        if isinstance(o, Ptr) and o.idx is not None:
            return o.idx
        if isinstance(o, Ext) and o.kind == "mapit" and "pos" in o.data:
            return o.data["pos"]
        if lv.ty and lv.ty[0] == "int":
            return self.read_leaf(st, lv, (), I, rng=False)
        return None

    def s_CXXForRangeStmt(self, n):
        ch = n.get("inner", ())
        if ch[0].get("kind"):
            self.stmt(ch[0])
        rng_decl = inner(ch[1])[0]
        rng_init = inner(rng_decl)[0]
        var = inner(ch[6])[0]
        body = ch[7]
        rv = self.ev(rng_init)
        ety = self.ety(rng_init)
        if isinstance(rv, LV):
            o = self.st.mem.get((rv.root, rv.key() + ("@",)))
            if o is not None and isinstance(o, Ext):
                rv = o
        if isinstance(rv, Blob) or isinstance(rv, LV):
            if isinstance(rv, Blob):
                ety = rv.ty
                rv = self.materialize(rv, ety)
            elif rv.ty is not None and ety[0] != "vec":
                ety = rv.ty
            if ety[0] == "vec":
                end = self.read_leaf(self.st, rv, ("len",), I)
            elif ety[0] == "array" and ety[2] is not None:
                end = iv(ety[2])
            else:
                raise ToolLimit("range-for over %s" % (ety,))
            elem = lambda i: rv.index(i, ety[1])
            ety1 = ety[1]
        elif isinstance(rv, Ext) and "range" in rv.data:
            end, elem, ety1 = rv.data["range"](self, rv)
            ety1 = ety1
        else:
            raise ToolLimit("range-for over %s" % (rv,))
        ctr = self.new_root("$i", ("int", 64, False))
        self.write(self.st, ctr, iv(0))

        def cond():
            return self.read_leaf(self.st, ctr, (), I) < end

        def bdy():
            i = self.read_leaf(self.st, ctr, (), I)
            e = elem(i)
            vty = self.unit.ty(var["type"])
            if var["kind"] == "DecompositionDecl":
                self.decomp_from(var, e, ety1)
            elif vty[0] == "ref" or isinstance(e, Ext):
                self.declare(var, vty, alias=e if isinstance(e, (LV, Ext)) else self.materialize(e, ety1))
            else:
                v = self.to_rv(e, ety1)
                self.declare(var, ety1 if vty[0] in ("opq", "void") else vty, value=v)
            self.stmt(body)

        def inc():
            i = self.read_leaf(self.st, ctr, (), I)
            self.write(self.st, ctr, i + 1)
        self.loop(n, cond, bdy, inc, idx=lambda: (lambda st: self.read_leaf(st, ctr, (), I, rng=False)), auto=lambda st: mk_and(
            [self.read_leaf(st, ctr, (), I, rng=False) >= 0, self.read_leaf(st, ctr, (), I, rng=False) <= z3.If(end >= 0, end, iv(0))]),
            range_lv=rv, end=end)

    def decomp_from(self, d, e, ety):
        binds = [c for c in inner(d) if c["kind"] == "BindingDecl"]
        vty = self.unit.ty(d["type"])
        if isinstance(e, LV) and vty[0] != "ref":
            e = self.materialize(self.read(self.st, e, ety), ety)
        for k, b in enumerate(binds):
            if isinstance(e, Ext):
                t = self.ext_binding(e, k)
            elif ety[0] == "tup":
                t = e.field(str(k), ety[1][k])
            else:
                fs = list(self.unit.fields(ety[1]).items())
                t = e.field(fs[k][0], fs[k][1][0])
            self.frame.env[b["id"]] = t
            self.frame.names.setdefault(b.get("name", ""), []).append(b["id"])

    # -- loops ----------------------------------------------------------------
    def loop_spec(self, n):
        key = (tuple(self.path_stack), n["id"])
        if key not in self.loop_ids:
            self.loop_ids[key] = len(self.loop_ids)
        k = self.loop_ids[key]
        if k >= len(self.loop_specs):
            raise ToolLimit("loop %d of %s has no invariant (the code has more loops than annotated)" % (k, self.fname))
        return k, self.loop_specs[k]

    def loop(self, n, cond, body, inc, idx=None, auto=None, range_lv=None, end=None):
        k, spec = self.loop_spec(n)
        if spec is not None and spec.unroll:
            return self.loop_unroll(n, cond, body, inc, spec.unroll)
        entry = self.st.copy()
        idxf = idx() if idx else None
        fr = self.frame
        pre = self.top.entry

        headst = [entry]

        def ctx(st):
            c = LoopCtx(self, st, fr, pre, entry, idxf, n, range_lv, end)
            c.head_st = headst[0]
            return c

        def inv(st):
            out = []
            if auto:
                out.append(("counter", auto(st)))
            elif idxf is not None:
                # a progress counter stays between its start and the extremes of its steps; spec may refine
                pass
            if spec is not None and spec.inv is not None:
                out += list(spec.inv(ctx(st)))
            return out

        label = "loop%d%s" % (k, ":" + spec.name if spec is not None and spec.name else "")
        if spec is not None and spec.name:
            self.snaps[spec.name] = entry
            self.loop_views[spec.name] = ctx

        def cuts(fs, what):
            self.oblige_cuts(fs(ctx(self.st)) if fs is not None else (), "%s.%s." % (label, what))
        if not self.dry:
            if spec is not None:
                cuts(spec.entry_cuts, "entry")
            for nm, f in inv(self.st):
                self.oblige("%s.init.%s" % (label, nm), f, "loop-init")
        # write set
        written = set()
        base = self.st
        for _ in range(8):
            self.dry += 1
            ctr_state = self.frame_snapshot()
            try:
                st = base.copy()
                st.log = set()
                self.havoc(st, written)
                self.st = st
                logs = set()
                rec = {"break": [], "continue": []}
                self.brk.append(rec)
                rets = len(fr.returns)
                thr = len(self.throws)
                try:
                    c = cond()
                    self.branch(c)
                    try:
                        body()
                        rec["continue"].append(self.st)
                    except Dead:
                        pass
                    for s in rec["continue"]:
                        logs |= s.log
                    for s in rec["break"]:
                        logs |= s.log
                    for s in rec["continue"]:
                        self.st = s
                        try:
                            inc()
                            logs |= self.st.log
                        except Dead:
                            pass
                except Dead:
                    pass
                finally:
                    self.brk.pop()
                f2 = fr
                for s, _v in fr.returns[rets:]:
                    logs |= s.log
                del fr.returns[rets:]
                del self.throws[thr:]
            finally:
                self.dry -= 1
                self.frame_restore(ctr_state)
            logs = {x for x in logs if self.pre_existing(x, base)}
            if logs <= written:
                break
            written |= logs
        else:
            raise ToolLimit("loop write set does not stabilise")
        # arbitrary iteration
        st = base.copy()
        hav = self.havoc(st, written)
        st.log = set(base.log) | written
        self.st = st
        self.ranges_after_havoc(st, written)
        for nm, f in inv(st):
            self.fact(f)
        if spec is not None and spec.given:
            for nm, f in spec.given(ctx(st)):
                self.fact(f)
        if spec is not None and spec.hints:
            for f in spec.hints(ctx(st)):
                self.fact(f)
        rec = {"break": [], "continue": []}
        c = cond()
        head = self.st
        outs = []
        # exit
        ex = head.copy()
        ex.pc.append(("b", z3.Not(c)))
        if not z3.is_true(simp(c)):
            outs.append(ex)
        self.st = head.copy()
        self.branch(c)
        headst[0] = self.st.copy()
        if spec is not None and spec.name:
            self.snaps[spec.name + ".head"] = headst[0]
        if not z3.is_false(simp(c)):
            if spec is not None and spec.assume:
                for f in spec.assume(ctx(self.st)):
                    self.fact(f)
            if spec is not None and spec.body_hints:
                for f in spec.body_hints(ctx(self.st)):
                    self.fact(f)
            if spec is not None:
                cuts(spec.body_cuts, "body")
            self.brk.append(rec)
            try:
                body()
                rec["continue"].append(self.st)
            except Dead:
                pass
            finally:
                self.brk.pop()
            if rec["continue"]:
                s = rec["continue"][0]
                for s2 in rec["continue"][1:]:
                    s = self.merge(s, s2)
                self.st = s
                try:
                    inc()
                    if not self.dry:
                        if spec is not None:
                            cuts(spec.step_cuts, "end")
                        for nm, f in inv(self.st):
                            self.oblige("%s.step.%s" % (label, nm), f, "loop-step")
                except Dead:
                    pass
            outs += rec["break"]
        if not outs:
            self.st = None
            raise Dead()
        s = outs[0]
        for s2 in outs[1:]:
            s = self.merge(s, s2)
        self.st = s
        if spec is not None and spec.exit_hints:
            for f in spec.exit_hints(ctx(s)):
                self.fact(f)
        if spec is not None:
            cuts(spec.exit_cuts, "exit")

    def loop_unroll(self, n, cond, body, inc, bound):
        """Unroll a loop completely; an obligation states that the bound suffices."""
        outs = []
        for it in range(bound + 1):
            c = cond()
            cs = simp(c)
            if z3.is_false(cs):
                outs.append(self.st)
                self.st = None
                break
            if not z3.is_true(cs):
                e = self.st.copy()
                e.pc.append(("b", z3.Not(c)))
                outs.append(e)
                self.st = self.st.copy()
                self.branch(c)
            if it == bound:
                self.oblige("unwinding", FALSE, "unwind")
                self.st = None
                break
            rec = {"break": [], "continue": []}
            self.brk.append(rec)
            try:
                body()
                rec["continue"].append(self.st)
            except Dead:
                pass
            finally:
                self.brk.pop()
            outs += rec["break"]
            if not rec["continue"]:
                self.st = None
                break
            s = rec["continue"][0]
            for s2 in rec["continue"][1:]:
                s = self.merge(s, s2)
            self.st = s
            try:
                inc()
            except Dead:
                break
        if not outs:
            self.st = None
            raise Dead()
        s = outs[0]
        for s2 in outs[1:]:
            s = self.merge(s, s2)
        self.st = s

    def frame_snapshot(self):
        fr, out = self.frame, []
        while fr is not None:
            out.append((fr, dict(fr.env), {k: list(v) for k, v in fr.names.items()}, len(fr.returns)))
            fr = fr.parent
        return out

    def frame_restore(self, snap):
        for fr, env, names, nret in snap:
            fr.env, fr.names = env, names
            del fr.returns[nret:]

    def pre_existing(self, key, base):
        root = key[0]
        if not (isinstance(root, str) and "#" in root):
            return True
        return root in self._live(base) or any(k[0] == root for k in base.mem)

    def _live(self, base):
        return self.live_roots

    def havoc(self, st, keys):
        out = {}
        for k in keys:
            root, key = k
            if key and key[-1] == "@":
                o = st.mem.get(k)
                if isinstance(o, Ptr):
                    idx = None if o.idx is None else z3.Const(fresh_name("%s.idx" % root), I)
                    lv = o.lv
                    if lv is not None and o.idx is None and lv.idxs():
                        lv = LV(lv.root, tuple(p if isinstance(p, str) else z3.Const(fresh_name("pidx"), I)
                                               for p in lv.path), lv.ty)
                    st.mem[k] = Ptr(lv, idx, o.rev, z3.Const(fresh_name("null"), B) if not z3.is_false(o.null) else FALSE)
                elif isinstance(o, Ext):
                    d = {}
                    for kk, vv in o.data.items():
                        d[kk] = z3.Const(fresh_name("%s.%s" % (o.kind, kk)), vv.sort()) if is_z3(vv) and kk in o.data.get("havoc", ()) else vv
                    st.mem[k] = Ext(o.kind, **d)
                elif o is None:
                    st.mem.pop(k, None)
                else:
                    raise ToolLimit("cannot havoc object at %s" % (k,))
                continue
            sort = None
            if k in st.mem and is_z3(st.mem[k]):
                sort = st.mem[k].sort()
            elif k in self.known_sorts:
                sort = self.known_sorts[k]
            else:
                sort = self.sort_of_key(k)
            c = z3.Const(fresh_name("%s.%s" % (root, ".".join(key))), sort)
            st.mem[k] = c
            st.log.add(k)
            out[k] = c
        return out

    @property
    def known_sorts(self):
        if not hasattr(self, "_known"):
            self._known = {}
        return self._known

    def write_leaf(self, st, lv, suffix, v, sort=None):
        super().write_leaf(st, lv, suffix, v, sort)
        k = (lv.root, lv.key() + suffix)
        self.known_sorts[k] = st.mem[k].sort()

    def sort_of_key(self, k):
        root, key = k
        if root == "ghost":
            return self.ghost_inits[key[0]].sort()
        raise ToolLimit("unknown sort of %s" % (k,))

    def ranges_after_havoc(self, st, keys):
        for k in keys:
            root, key = k
            if key and key[-1] == "len" and "[]" not in key and k in st.mem:
                v = st.mem[k]
                self.fact(z3.And(v >= 0, v < 2 ** 32 - 1))
        # ranges of unsigned scalars
        fr = self.frame
        while fr is not None:
            for v in fr.env.values():
                if isinstance(v, LV) and v.ty and v.ty[0] == "int" and (v.root, v.key()) in keys and not v.idxs():
                    self.range_fact(st.mem[(v.root, v.key())], v.ty)
            fr = fr.parent

    def ghost_init(self, name, sort=None):
        if name not in self.ghost_inits:
            if sort is None:
                raise ToolLimit("unknown ghost " + name)
            self.ghost_inits[name] = z3.Const("ghost." + name, sort)
        return self.ghost_inits[name]

    def ghost_get(self, name):
        return self.st.mem.get(("ghost", (name,)), self.ghost_inits[name])

    def ghost_set(self, name, v):
        self.st.mem[("ghost", (name,))] = v
        self.st.log.add(("ghost", (name,)))

    # -- exceptions -------------------------------------------------------------
    def s_CXXTryStmt(self, n):
        ch = inner(n)
        handlers = ch[1:]
        if len(handlers) != 1:
            raise ToolLimit("several exception handlers")
        hc = list(handlers[0].get("inner", ()))
        if hc[0].get("kind"):
            raise ToolLimit("typed exception handler")
        saved, self.throws = self.throws, []
        outs = []
        try:
            try:
                self.stmt(ch[0])
                outs.append((self.st, None))
            except Dead:
                pass
            caught = self.throws
        finally:
            self.throws = saved
        for st, _what in caught:
            self.st = st
            try:
                self.stmt(hc[-1])
                outs.append((self.st, None))
            except Dead:
                pass
        if not outs:
            self.st = None
            raise Dead()
        self.st, _ = self.merge_many(outs)

    def throw(self, what):
        self.throws.append((self.st, what))
        self.st = None
        raise Dead()

    # ======================================================================
    # expressions
    def ety(self, n):
        return self.unit.ty(n.get("type"))

    def to_rv(self, v, ty):
        if isinstance(v, LV):
            t = v.ty if (ty is None or ty[0] in ("opq", "void") and v.ty is not None) else ty
            if t[0] == "ref":
                t = t[1]
            if v.ty is not None and v.ty[0] in ("tup", "vec", "rec", "opt") and t[0] in ("tup", "vec", "rec", "opt") and t != v.ty:
                t = v.ty
            return self.read(self.st, v, t)
        return v

    def rv(self, n, want=None):
        v = self.ev(n)
        return self.to_rv(v, self.ety(n))

    def cond(self, n):
        v = self.rv(n)
        return self.to_bool(v)

    def to_bool(self, v):
        if isinstance(v, Ptr):
            return z3.Not(v.null)
        if isinstance(v, Blob) and v.ty[0] == "opt":
            return v.leaves[("has",)]
        if is_z3(v):
            if v.sort() == B:
                return v
            return v != 0
        raise ToolLimit("condition of kind %s" % type(v).__name__)

    def ev(self, n):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise ToolLimit("expression %s" % k)
        return m(n)

    def e_ParenExpr(self, n):
        return self.ev(inner(n)[0])

    def e_ExprWithCleanups(self, n):
        return self.ev(inner(n)[0])

    def e_ConstantExpr(self, n):
        if n.get("value") in ("true", "false"):
            return z3.BoolVal(n["value"] == "true")
        return self.ev(inner(n)[0])

    def e_CXXBindTemporaryExpr(self, n):
        return self.ev(inner(n)[0])

    def e_SubstNonTypeTemplateParmExpr(self, n):
        return self.ev(inner(n)[-1])

    def e_CXXDefaultArgExpr(self, n):
        ch = inner(n)
        if ch:
            return self.ev(ch[0])
        raise ToolLimit("default argument")

    def e_CXXDefaultInitExpr(self, n):
        ch = inner(n)
        if ch:
            return self.ev(ch[0])
        raise ToolLimit("default init")

    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(inner(n)[0])
        if isinstance(v, LV):
            return v
        return v

    def e_IntegerLiteral(self, n):
        return iv(int(n["value"]))

    def e_CharacterLiteral(self, n):
        return iv(int(n["value"]))

    def e_FloatingLiteral(self, n):
        return z3.RealVal(n["value"])

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n["value"]))

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None, None, null=TRUE)

    def e_GNUNullExpr(self, n):
        return Ptr(None, None, null=TRUE)

    def e_StringLiteral(self, n):
        s = n["value"]
        return self.str_lit(s)

    def str_lit(self, quoted):
        import ast as pyast
        try:
            txt = pyast.literal_eval(quoted)
        except Exception:
            raise ToolLimit("string literal " + quoted)
        return self.str_const(txt)

    def str_const(self, txt):
        data = txt.encode("latin-1", "replace")
        if txt not in self.strings:
            addr = 1000000 + 1000 * len(self.strings)
            self.strings[txt] = addr
        addr = self.strings[txt]
        mem = z3.Const("$chars.[]", z3.ArraySort(I, I))
        tag = ("$lit", txt)
        facts = [z3.Select(mem, iv(addr + i)) == iv(c) for i, c in enumerate(list(data) + [0])]
        if not any(f.eq(facts[0]) for _, f in self.st.pc[:400] if True):
            for f in facts:
                self.fact(f)
        return Ptr(CHARS, iv(addr))

    def e_CXXThisExpr(self, n):
        fr = self.frame
        if fr.this is None:
            raise ToolLimit("this without object")
        return Ptr(fr.this)

    def e_DeclRefExpr(self, n):
        rd = n["referencedDecl"]
        did = rd["id"]
        v = self.var(did)
        if v is not None:
            return v
        if rd["kind"] == "EnumConstantDecl":
            if did in self.unit.enum_vals:
                return iv(self.unit.enum_vals[did])
            return iv(self.ext_enum(rd, n))
        if rd["kind"] in ("VarDecl", "VarTemplateSpecializationDecl"):
            d = self.unit.decls.get(did)
            if d is not None:
                # constants
                init = [c for c in inner(d) if not c["kind"].endswith("Attr") and c["kind"] != "FullComment"]
                if init and (d.get("constexpr") or "const" in d["type"]["qualType"]):
                    return self.rv(init[0])
            return self.ext_global(rd, n)
        if rd["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return Ext("func", decl=did, name=rd.get("name"))
        if rd["kind"] == "BindingDecl" or rd["kind"] == "ParmVarDecl":
            raise ToolLimit("unbound variable " + rd.get("name", "?"))
        if rd["kind"] == "NonTypeTemplateParmDecl":
            raise ToolLimit("template parameter")
        raise ToolLimit("reference to " + rd["kind"])

    def ext_enum(self, rd, n):
        h = self.externals.get("enum")
        t = rd["type"]["qualType"].split("::")[-1]
        if h:
            v = h(t, rd["name"])
            if v is not None:
                return v
        # deterministic code for enumerators declared in other libraries
        return 10000 + (hash_name(t + "::" + rd["name"]) % 1000000)

    def ext_global(self, rd, n):
        if rd.get("name") == "nullopt":
            return Ext("nullopt")
        h = self.externals.get("global:" + rd.get("name", ""))
        if h:
            return h(self, n)
        raise ToolLimit("global variable " + rd.get("name", "?"))

    def e_MemberExpr(self, n):
        name = n.get("name", "")
        base = inner(n)[0]
        if n.get("isArrow"):
            p = self.rv(base)
            if isinstance(p, Ext):
                return self.ext_member(p, name, n)
            obj = self.deref(p)
        else:
            obj = self.ev(base)
        if isinstance(obj, Ext):
            return self.ext_member(obj, name, n)
        if isinstance(obj, Blob):
            obj = self.materialize(obj, obj.ty)
        if isinstance(obj, LV) and not name:
            return LV(obj.root, obj.path, ("anon",))    # members of an anonymous union belong to the enclosing object
        if isinstance(obj, LV):
            o = self.st.mem.get((obj.root, obj.key() + ("@",)))
            if isinstance(o, Ext):
                return self.ext_member(o, name, n)
            bty = obj.ty or self.ety(base)
            if bty[0] == "ref":
                bty = bty[1]
            if bty[0] == "tup":
                k = {"first": "0", "second": "1"}[name]
                f = obj.field(k, bty[1][int(k)])
            else:
                fty = None
                if bty[0] == "rec":
                    fs = self.unit.fields(bty[1])
                    if name in fs:
                        fty = fs[name][0]
                ety = self.ety(n)
                if fty is None or fty[0] in ("opq", "void"):
                    fty = ety if fty is None or ety[0] != "opq" else fty
                if fty[0] == "ref":
                    tgt = self.st.mem.get((obj.root, obj.key() + (name, "@")))
                    if tgt is not None:
                        return tgt
                    lv = self.default_obj(obj.field(name, fty), ("ref", ety if ety[0] != "opq" else fty[1]))
                    return lv
                if fty[0] == "opq" and ety[0] != "opq":
                    fty = ety
                f = obj.field(name, fty)
            o = self.st.mem.get((f.root, f.key() + ("@",)))
            return f
        raise ToolLimit("member %s of %s" % (name, obj))

    def ext_member(self, obj, name, n):
        if obj.kind == "mapentry" and name in ("first", "second"):
            return self.map_entry(obj.data["it"], 0 if name == "first" else 1)
        h = self.externals.get("member:" + obj.kind + "." + name) or self.externals.get("member:" + obj.kind)
        if h:
            return h(self, obj, name, n)
        raise ToolLimit("member %s of external %s" % (name, obj.kind))

    def deref(self, p):
        if isinstance(p, LV):
            p = self.to_rv(p, None)
        if isinstance(p, Ptr):
            if not z3.is_false(p.null):
                self.oblige("non-null", z3.Not(p.null), "null")
            if p.lv is None:
                raise ToolLimit("null dereference")
            if p.idx is None:
                return p.lv
            if self.bounds and p.lv.root != "$chars":
                ln = self.container_len(p.lv)
                if ln is not None:
                    self.oblige("in-bounds", z3.And(self.pos(p) >= 0, self.pos(p) < ln), "bounds")
            ety = p.lv.ty[1] if p.lv.ty and p.lv.ty[0] in ("vec", "array") else None
            return p.lv.index(self.pos(p), ety)
        if isinstance(p, Ext):
            h = self.externals.get("deref:" + p.kind)
            if h:
                return h(self, p)
        raise ToolLimit("dereference of %s" % (p,))

    def container_len(self, lv):
        if lv.ty and lv.ty[0] == "vec":
            return self.read_leaf(self.st, lv, ("len",), I)
        if lv.ty and lv.ty[0] == "array" and lv.ty[2] is not None:
            return iv(lv.ty[2])
        return None

    def pos(self, p):
        if p.rev:
            # reverse iterator at distance idx from the end
            ln = p.base if hasattr(p, "base") else None
            return self.read_leaf(self.st, p.lv, ("len",), I) - 1 - p.idx
        return p.idx

    # -- casts ----------------------------------------------------------------
    def e_ImplicitCastExpr(self, n):
        return self.cast(n)

    def e_CXXStaticCastExpr(self, n):
        return self.cast(n)

    def e_CStyleCastExpr(self, n):
        return self.cast(n)

    def e_CXXFunctionalCastExpr(self, n):
        return self.cast(n)

    def e_CXXConstCastExpr(self, n):
        return self.ev(inner(n)[0])

    def e_CXXReinterpretCastExpr(self, n):
        raise ToolLimit("reinterpret_cast")

    def cast(self, n):
        ck = n.get("castKind")
        src = inner(n)[0]
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "FunctionToPointerDecay",
                  "ConstructorConversion", "UserDefinedConversion", "BuiltinFnToFnPtr"):
            return self.ev(src)
        if ck == "ToVoid":
            self.ev(src)
            return None
        if ck == "BitCast":
            v = self.rv(src)
            if isinstance(v, Ptr):
                return v
            raise ToolLimit("pointer cast")
        if ck == "LValueToRValue":
            v = self.ev(src)
            return self.to_rv(v, self.ety(n))
        if ck == "ArrayToPointerDecay":
            v = self.ev(src)
            if isinstance(v, Ptr):
                return v
            if isinstance(v, LV):
                return Ptr(LV(v.root, v.path, v.ty or self.ety(src)), iv(0))
            raise ToolLimit("array decay")
        if ck == "NullToPointer":
            return Ptr(None, None, null=TRUE)
        if ck == "PointerToBoolean":
            return self.to_bool(self.rv(src))
        v = self.rv(src)
        st, dt = self.ety(src), self.ety(n)
        return self.convert(v, st, dt, ck, n)

    def convert(self, v, st, dt, ck, n=None):
        if ck in ("IntegralToBoolean",):
            return v != 0 if v.sort() == I else v
        if ck == "FloatingToBoolean":
            return v != 0
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            if dt[0] == "bool":
                return v != 0 if v.sort() == I else v
            if v.sort() == B:
                return ite(v, iv(1), iv(0))
            return self.int_cast(v, st, dt)
        if ck == "IntegralToFloating":
            if v.sort() == B:
                v = ite(v, iv(1), iv(0))
            return z3.ToReal(v)
        if ck in ("FloatingCast",):
            return v
        if ck == "FloatingToIntegral":
            r = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if getattr(self, "mode", None) == "exact" and dt[0] == "int":
                lo, hi = (-(2 ** (dt[1] - 1)), 2 ** (dt[1] - 1)) if dt[2] else (0, 2 ** dt[1])
                ok = z3.And(v > lo - 1, v < hi)
                if self.contract.casts:
                    # the result of the conversion is some value of the type
                    u = z3.Const(fresh_name("converted"), I)
                    self.fact(z3.And(lo <= u, u < hi))
                    self.assumptions.add("converting a floating point number that is out of range yields an arbitrary integer")
                    return z3.If(ok, r, u)
                self.oblige("cast-in-range", ok, "overflow")
            return r
        raise ToolLimit("cast " + str(ck))

    def int_cast(self, v, st, dt):
        if z3.is_int_value(simp(v)):
            x = simp(v).as_long()
            if dt[0] == "int":
                x %= 2 ** dt[1]
                if dt[2] and x >= 2 ** (dt[1] - 1):
                    x -= 2 ** dt[1]
            return iv(x)
        if dt[0] != "int":
            return v
        if st[0] == "bool":
            return v
        sb, ss = (st[1], st[2]) if st[0] == "int" else (32, True)
        db, ds = dt[1], dt[2]
        if st[0] == "enum" or st[0] == "opq":
            return v
        if ds == ss and db >= sb or (not ss and ds and db > sb):
            return v
        m = 2 ** db
        if not ds:
            if ss:     # signed to unsigned
                if db >= sb:
                    return z3.If(v < 0, v + m, v)
                return v % m
            return z3.If(v < m, v, v % m) if db < sb else v
        # to signed
        h = m // 2
        if not ss and db == sb:
            return z3.If(v >= h, v - m, v)
        w = v % m
        return z3.If(z3.And(v >= -h, v < h), v, z3.If(w >= h, w - m, w))

    def wrap(self, t, ty):
        """Result of an arithmetic operation in the given type."""
        if ty[0] != "int":
            return t
        bits, sg = ty[1], ty[2]
        m = 2 ** bits
        if z3.is_int_value(simp(t)):
            x = simp(t).as_long()
            if not sg:
                return iv(x % m)
        if sg:
            if self.mode == "exact":
                self.oblige("no-signed-overflow", z3.And(t >= -(m // 2), t < m // 2), "overflow")
            return t
        return z3.If(t < 0, t + m, z3.If(t >= m, t - m, t))

    # -- operators --------------------------------------------------------------
    def e_UnaryOperator(self, n):
        op = n["opcode"]
        sub = inner(n)[0]
        if op in ("++", "--"):
            lv = self.ev(sub)
            return self.incdec(lv, op, n.get("isPostfix"), self.ety(sub))
        if op == "*":
            return self.deref(self.rv(sub))
        if op == "&":
            if sub["kind"] == "DeclRefExpr" and sub["referencedDecl"]["kind"] == "FieldDecl":
                return Ext("memptr", field=sub["referencedDecl"]["name"])
            v = self.ev(sub)
            if isinstance(v, LV):
                if v.path and not isinstance(v.path[-1], str):
                    return Ptr(LV(v.root, v.path[:-1], ("vec", v.ty) if v.ty else None), v.path[-1])
                return Ptr(v)
            if isinstance(v, Ext):
                return v
            raise ToolLimit("address of %s" % (v,))
        if op == "!":
            return z3.Not(self.cond(sub))
        if op == "__extension__":
            return self.ev(sub)
        v = self.rv(sub)
        if op == "-":
            if v.sort() == R:
                return -v
            if v.sort() == B:
                v = ite(v, iv(1), iv(0))
            return self.wrap(simp(-v) if z3.is_int_value(v) else -v, self.ety(n))
        if op == "+":
            return v
        raise ToolLimit("unary " + op)

    def incdec(self, lv, op, post, ty):
        if not isinstance(lv, LV):
            raise ToolLimit("++ on %s" % (lv,))
        old = self.to_rv(lv, ty)
        d = 1 if op == "++" else -1
        if isinstance(old, Ptr):
            new = Ptr(old.lv, old.idx + d, old.rev, old.null)
            self.write(self.st, lv, new)
        elif isinstance(old, Ext):
            h = self.externals.get("incdec:" + old.kind)
            if not h:
                raise ToolLimit("increment of " + old.kind)
            new = h(self, old, d)
            self.write(self.st, lv, new)
        elif old.sort() == B:
            new = TRUE
            self.write(self.st, lv, new)
        else:
            t = ty if ty[0] == "int" else (lv.ty or ty)
            new = self.wrap(old + d, t)
            self.write(self.st, lv, new)
        return old if post else lv

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = inner(n)
        if op == ",":
            self.ev(a)
            return self.ev(b)
        if op == "&&":
            c = self.cond(a)
            return self.short(c, lambda: self.cond(b), True)
        if op == "||":
            c = self.cond(a)
            return self.short(c, lambda: self.cond(b), False)
        if op in (".*", "->*"):
            o = self.ev(a) if op == ".*" else self.deref(self.rv(a))
            m = self.rv(b)
            if isinstance(o, Blob):
                o = self.materialize(o, o.ty)
            if not isinstance(m, Ext) or m.kind != "memptr" or not isinstance(o, LV):
                raise ToolLimit("member pointer")
            oty = o.ty if o.ty is not None else self.ety(a)
            return o.field(m.data["field"], self.unit.fields(oty[1])[m.data["field"]][0])
        if op == "=":
            v = self.rv(b)
            lv = self.ev(a)
            if isinstance(v, Blob) is False and is_z3(v) is False and isinstance(lv, LV) and not isinstance(v, (Ptr, Lam, Ext)):
                raise ToolLimit("assignment of %s" % (v,))
            if is_z3(v) and isinstance(lv, LV) and lv.ty and lv.ty[0] == "bool" and v.sort() == I:
                v = v != 0
            if not isinstance(lv, LV):
                raise ToolLimit("assignment to %s" % (lv,))
            self.write(self.st, lv, v)
            return lv
        x = self.rv(a)
        y = self.rv(b)
        return self.arith(op, x, y, self.ety(n), self.ety(a), self.ety(b))

    def short(self, c, thunk, conj):
        cs = simp(c)
        if conj and z3.is_false(cs):
            return FALSE
        if not conj and z3.is_true(cs):
            return TRUE
        if z3.is_true(cs) or z3.is_false(cs):
            return thunk()
        base = self.st
        st = base.copy()
        n0 = len(st.pc)
        self.st = st
        self.branch(c if conj else z3.Not(c))
        mem0 = dict(st.mem)
        log0 = st.log
        dead = False
        try:
            v = thunk()
            s1 = self.st
        except Dead:
            dead = True
            s1 = None
        if dead:
            self.st = base
            self.branch(z3.Not(c) if conj else c)
            return FALSE if conj else TRUE
        nb = [f for t, f in s1.pc[n0 + 1:] if t == "b"]
        same = len(s1.mem) == len(mem0) and all(s1.mem.get(k) is x for k, x in mem0.items())
        if same and not nb:
            self.st = base
            guard = c if conj else z3.Not(c)
            for t, f in s1.pc[n0 + 1:]:
                self.fact(z3.Implies(guard, f))
            return z3.And(c, v) if conj else z3.Or(c, v)
        s2 = base.copy()
        s2.pc.append(("b", z3.Not(c) if conj else c))
        self.st, r = self.merge_many([(s1, v), (s2, FALSE if conj else TRUE)])
        return r

    def e_ConditionalOperator(self, n):
        c, a, b = inner(n)
        # assert macro
        fa = self.assert_call(b)
        if fa:
            if fa == "fail":
                g = self.cond(c)
                self.oblige("assert", g, "assert")
                self.fact(g)
                return None
        cv = self.cond(c)
        cs = simp(cv)
        if z3.is_true(cs):
            return self.ev(a)
        if z3.is_false(cs):
            return self.ev(b)
        lval = n.get("valueCategory") == "lvalue"
        f = (lambda x: self.ev(x)) if lval else (lambda x: self.rv(x))
        return self.fork(cv, lambda: f(a), lambda: f(b))

    def assert_call(self, n):
        while n["kind"] in ("ParenExpr", "ExprWithCleanups", "ImplicitCastExpr", "CXXFunctionalCastExpr"):
            ch = inner(n)
            if not ch:
                return None
            n = ch[0]
        if n["kind"] == "CallExpr":
            nm = self.callee_name(inner(n)[0])
            if nm == "__assert_fail":
                return "fail"
        return None

    def callee_name(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = inner(n)[0]
        if n["kind"] == "DeclRefExpr":
            return n["referencedDecl"].get("name")
        if n["kind"] == "MemberExpr":
            return n.get("name")
        return None

    def e_CompoundAssignOperator(self, n):
        op = n["opcode"][:-1]
        a, b = inner(n)
        y = self.rv(b)
        lv = self.ev(a)
        x = self.to_rv(lv, self.ety(a))
        if isinstance(x, Ptr):
            v = self.ptr_arith(op, x, y)
        else:
            cty = self.unit.ty(n.get("computeResultType")) if n.get("computeResultType") else self.ety(n)
            lty = self.ety(a)
            if x.sort() == B:
                x = ite(x, iv(1), iv(0))
            if is_z3(y) and x.sort() != y.sort() and x.sort() == R:
                y = z3.ToReal(y)
            v = self.arith(op, x, y, cty, lty, self.ety(b))
            if lty[0] == "int" and cty[0] == "int" and lty != cty:
                v = self.int_cast(v, cty, lty)
            if lty[0] == "bool":
                v = v != 0 if v.sort() == I else v
        self.write(self.st, lv, v)
        return lv

    def ptr_arith(self, op, p, d):
        if not isinstance(p, Ptr) or p.idx is None:
            raise ToolLimit("pointer arithmetic")
        return Ptr(p.lv, p.idx + d if op == "+" else p.idx - d, p.rev, p.null)

    def arith(self, op, x, y, ty, ta, tb):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.ptr_op(op, x, y)
        if isinstance(x, (Ext, Blob)) or isinstance(y, (Ext, Blob)):
            raise ToolLimit("operator %s on objects" % op)
        if x.sort() == B and y.sort() == B and op in ("==", "!="):
            return x == y if op == "==" else x != y
        if x.sort() == B:
            x = ite(x, iv(1), iv(0))
        if y.sort() == B:
            y = ite(y, iv(1), iv(0))
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == I else x
            y = z3.ToReal(y) if y.sort() == I else y
        if op == "==":
            return x == y
        if op == "!=":
            return x != y
        if op == "<":
            return x < y
        if op == "<=":
            return x <= y
        if op == ">":
            return x > y
        if op == ">=":
            return x >= y
        if op == "+":
            return self.wrap(x + y, ty)
        if op == "-":
            return self.wrap(x - y, ty)
        if op == "*":
            if ty[0] == "int" and not ty[2]:
                t = simp(x * y)
                if z3.is_int_value(t):
                    return iv(t.as_long() % 2 ** ty[1])
                t = x * y
                return z3.If(t < 2 ** ty[1], t, t % (2 ** ty[1]))
            return self.wrap(x * y, ty)
        if op in ("/", "%"):
            if x.sort() == R:
                return x / y
            self.oblige("division-by-zero", y != 0, "div")
            if ty[0] == "int" and ty[2] and self.mode == "exact":
                lo = -2 ** (ty[1] - 1)
                self.oblige("no-division-overflow", z3.Not(z3.And(x == lo, y == -1)), "overflow")
            if ty[0] == "int" and not ty[2]:
                return x / y if op == "/" else x % y
            q = trunc_div(x, y)
            return q if op == "/" else x - y * q
        if op == "<<" and z3.is_int_value(simp(y)):
            return self.wrap(x * (2 ** simp(y).as_long()), ty) if ty[2] else (x * 2 ** simp(y).as_long()) % (2 ** ty[1])
        if op == ">>" and z3.is_int_value(simp(y)):
            return x / iv(2 ** simp(y).as_long())
        raise ToolLimit("operator " + op)

    def ptr_op(self, op, x, y):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if op in ("==", "!="):
                if x.lv is None or y.lv is None:
                    o = x if x.lv is not None else y
                    e = o.null if o.lv is not None else TRUE
                elif x.idx is not None and y.idx is not None and self.same_container(x.lv, y.lv):
                    e = x.idx == y.idx
                elif x.idx is None and y.idx is None and x.lv.root == y.lv.root and x.lv.key() == y.lv.key():
                    e = mk_and([p == q for p, q in zip(x.lv.idxs(), y.lv.idxs())])
                else:
                    raise ToolLimit("pointer comparison")
                return e if op == "==" else z3.Not(e)
            if self.same_container(x.lv, y.lv) and x.idx is not None and y.idx is not None:
                if op == "-":
                    return x.idx - y.idx
                return {"<": x.idx < y.idx, "<=": x.idx <= y.idx, ">": x.idx > y.idx, ">=": x.idx >= y.idx}[op]
            raise ToolLimit("pointer operation " + op)
        if isinstance(x, Ptr) and op in ("+", "-"):
            return self.ptr_arith(op, x, y)
        if isinstance(y, Ptr) and op == "+":
            return self.ptr_arith(op, y, x)
        raise ToolLimit("pointer operation " + op)

    def same_container(self, a, b):
        return a is not None and b is not None and a.root == b.root and a.key() == b.key()

    def e_UnaryExprOrTypeTraitExpr(self, n):
        raise ToolLimit("sizeof")

    def e_ArraySubscriptExpr(self, n):
        a, b = inner(n)
        p = self.rv(a)
        i = self.rv(b)
        if isinstance(p, Ptr):
            return self.deref(Ptr(p.lv, (p.idx if p.idx is not None else iv(0)) + i, p.rev, p.null))
        raise ToolLimit("subscript")

    def e_LambdaExpr(self, n):
        env = {}
        return Lam(n, self.frame, self.frame.this)

    def e_CXXThrowExpr(self, n):
        ch = inner(n)
        t = ch[0].get("type", {}).get("qualType", "?") if ch else "rethrow"
        self.throw(t)

    def e_InitListExpr(self, n):
        ty = self.ety(n)
        ch = inner(n)
        if ty[0] == "rec":
            leaves, objs = {}, {}
            fs = list(self.unit.fields(ty[1]).items())
            for (name, (fty, fnode)), c in zip(fs, ch):
                if c["kind"] == "CXXDefaultInitExpr" and not inner(c) and fnode is not None:
                    init = [x for x in inner(fnode) if not x["kind"].endswith("Comment") and not x["kind"].endswith("Attr")]
                    self.set_part(leaves, objs, (name,), self.rv(init[-1]), fty)
                    continue
                self.set_part(leaves, objs, (name,), self.ev(c) if fty[0] == "ref" else self.rv(c), fty)
            return Blob(ty, leaves, objs)
        if ty[0] in ("int", "bool", "double", "enum"):
            if ch:
                return self.rv(ch[0])
            return iv(0) if ty[0] != "bool" else FALSE
        if ty[0] == "tup":
            leaves, objs = {}, {}
            for k, c in enumerate(ch):
                self.set_part(leaves, objs, (str(k),), self.rv(c), ty[1][k])
            return Blob(ty, leaves, objs)
        if ty[0] == "array":
            return Ext("list", items=[self.rv(c) for c in ch])
        if ty[0] == "ptr":
            return self.rv(ch[0]) if ch else Ptr(None, None, null=TRUE)
        raise ToolLimit("initializer list of %s" % (ty,))

    def set_part(self, leaves, objs, pre, v, ty):
        if isinstance(v, Blob):
            for s, t in v.leaves.items():
                leaves[pre + s] = t
            for s, t in v.objs.items():
                objs[pre + s] = t
        elif is_z3(v):
            if ty is not None and ty[0] == "bool" and v.sort() == I:
                v = v != 0
            if ty is not None and ty[0] == "double" and v.sort() == I:
                v = z3.ToReal(v)
            if ty is not None and ty[0] == "opt":
                leaves[pre + ("has",)] = TRUE
                leaves[pre + ("val",)] = v
                return
            leaves[pre] = v
        elif v is None:
            pass
        else:
            objs[pre + ("@",)] = v

    def e_ImplicitValueInitExpr(self, n):
        return self.default_value(self.ety(n))

    def e_CXXScalarValueInitExpr(self, n):
        return self.default_value(self.ety(n))

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(inner(n)[0])

    def default_value(self, ty):
        k = ty[0]
        if k in ("int", "enum", "opq"):
            return iv(0)
        if k == "bool":
            return FALSE
        if k == "double":
            return z3.RealVal(0)
        if k == "vec":
            return self.empty_vec(ty)
        if k == "opt":
            leaves = {("has",): FALSE}
            for s, so, _ in self.leaves(ty[1]):
                leaves[("val",) + s] = self.zero(so)
            return Blob(ty, leaves)
        if k in ("map", "mmap"):
            return Blob(ty, {s: self.zero(so) for s, so, _ in self.leaves(ty)})
        if k == "tup":
            leaves, objs = {}, {}
            for i, t in enumerate(ty[1]):
                self.set_part(leaves, objs, (str(i),), self.default_value(t), t)
            return Blob(ty, leaves, objs)
        if k == "rec":
            return self.default_record(ty)
        if k in ("ptr",):
            return Ptr(None, None, null=TRUE)
        raise ToolLimit("default value of %s" % (ty,))

    def default_record(self, ty):
        leaves, objs = {}, {}
        for name, (fty, node) in self.unit.fields(ty[1]).items():
            init = [c for c in inner(node)] if node is not None else []
            init = [c for c in init if not c["kind"].endswith("Comment") and not c["kind"].endswith("Attr")]
            if node is not None and node.get("isBitfield"):
                init = init[1:]
            if fty[0] in ("ref", "map", "mmap"):
                continue
            if init and node.get("hasInClassInitializer"):
                v = self.rv(init[-1])
                if isinstance(v, Ext):
                    continue
            else:
                v = self.default_value(fty)
            self.set_part(leaves, objs, (name,), v, fty)
        return Blob(ty, leaves, objs)

    def zero(self, sort):
        if sort == I:
            return iv(0)
        if sort == B:
            return FALSE
        if sort == R:
            return z3.RealVal(0)
        return z3.K(sort.domain(), self.zero(sort.range()))

    def empty_vec(self, ty, length=None):
        leaves = {("len",): length if length is not None else iv(0)}
        for s, so, _ in self.leaves(ty[1]):
            leaves[("[]",) + s] = z3.K(I, self.zero(so))
        return Blob(ty, leaves)

    # -- construction -------------------------------------------------------
    def e_CXXConstructExpr(self, n):
        return self.construct(n)

    def e_CXXTemporaryObjectExpr(self, n):
        return self.construct(n)

    def construct(self, n):
        ty = self.ety(n)
        args = inner(n)
        h = self.ext_for("ctor:", ty, n)
        if h:
            return h(self, n, args)
        if ty[0] == "vec" and len(ty) > 2 and len(args) == 2 and args[1]["kind"] == "CXXDefaultArgExpr":
            args = args[:1]     # allocator
        if len(args) == 1 and args[0]["kind"] != "CXXDefaultArgExpr":
            v = self.ev(args[0])
            aty = self.ety(args[0])
            if isinstance(v, LV):
                if v.ty is None:
                    v = LV(v.root, v.path, aty)
                if self.same_type(aty, ty) or self.same_type(v.ty, ty):
                    return self.read(self.st, v, v.ty)
                v = self.to_rv(v, aty)
            if isinstance(v, (Lam,)):
                return v
            if isinstance(v, Blob) and self.same_type(v.ty, ty):
                return v
            if isinstance(v, (Ptr,)) and ty[0] in ("iter", "ptr"):
                return v
            if isinstance(v, Ext) and ty[0] not in ("vec",) and not (ty[0] == "opt" and v.kind == "nullopt"):
                return v
            if ty[0] == "opt":
                if isinstance(v, Ext) and v.kind == "nullopt":
                    return self.default_value(ty)
                leaves, objs = {("has",): TRUE}, {}
                self.set_part(leaves, objs, ("val",), v, ty[1])
                return Blob(ty, leaves, objs)
            if ty[0] == "vec":
                if isinstance(v, Ext) and v.kind == "list":
                    return self.vec_from_list(ty, v.data["items"])
                if isinstance(v, Ptr) and len(ty) > 2:
                    return self.string_from_ptr(v, ty)
                if is_z3(v):
                    return self.vec_filled(ty, v, self.default_value(ty[1]))
            if ty[0] == "rec" and ty[1] == "Duration":
                return Blob(ty, {("rep",): v if v.sort() == R else z3.ToReal(v)})
            if ty[0] == "tup":
                pass
            args_v = [v]
        else:
            args_v = None
        if not args or all(a["kind"] == "CXXDefaultArgExpr" for a in args):
            if ty[0] == "rec" and self.unit.records.get(ty[1]) is not None:
                ctor = self.find_ctor(ty, n)
                if ctor is not None:
                    return self.run_ctor(ty, ctor, [])
            return self.default_value(ty)
        if ty[0] == "tup":
            leaves, objs = {}, {}
            vs = [self.rv(a) for a in args]
            if len(vs) == len(ty[1]):
                for k, v in enumerate(vs):
                    self.set_part(leaves, objs, (str(k),), v, ty[1][k])
                return Blob(ty, leaves, objs)
            if len(vs) == 1 and isinstance(vs[0], Blob):
                return Blob(ty, vs[0].leaves, vs[0].objs)
        if ty[0] == "vec":
            vs = [self.rv(a) for a in args if a["kind"] != "CXXDefaultArgExpr"]
            if len(vs) == 2 and isinstance(vs[0], Ptr) and isinstance(vs[1], Ptr):
                return self.vec_from_range(ty, vs[0], vs[1])
            if len(vs) == 2 and is_z3(vs[0]):
                return self.vec_filled(ty, vs[0], vs[1])
        if ty[0] == "rec":
            ctor = self.find_ctor(ty, n)
            if ctor is not None:
                vals = args_v if args_v is not None else [self.ev(a) for a in args]
                return self.run_ctor(ty, ctor, vals, args)
        raise ToolLimit("constructor of %s with %d arguments" % (ty, len(args)))

    def same_type(self, a, b):
        if a is None or b is None:
            return False
        if a[0] == "ref":
            a = a[1]
        if b[0] == "ref":
            b = b[1]
        if a == b:
            return True
        return a[0] == b[0] == "vec" and self.same_type(a[1], b[1])

    def find_ctor(self, ty, n):
        rec = self.unit.records.get(ty[1])
        want = (n.get("ctorType") or {}).get("qualType")
        cands = []
        name = ty[1]
        for q, node in self.unit.funcs:
            if node["kind"] == "CXXConstructorDecl" and q.rsplit("::", 1)[0] == name and not node.get("isImplicit"):
                if want is None or node["type"]["qualType"] == want:
                    cands.append(node)
        if not cands and rec is not None:
            for c in rec.get("inner", ()):
                if c.get("kind") == "CXXConstructorDecl" and not c.get("isImplicit") and c["type"]["qualType"] == want:
                    d = self.unit.defs.get(c["id"])
                    if d is not None:
                        cands.append(d)
        return cands[0] if cands else None

    def run_ctor(self, ty, ctor, vals, args=()):
        obj = self.new_root("obj", ty)
        fr = self.push_frame(ctor, obj, vals, args)
        try:
            self.init_members(obj, ty, ctor)
            body = [c for c in ctor.get("inner", ()) if c.get("kind") == "CompoundStmt"]
            self.run_body(fr, body[0] if body else None)
        finally:
            self.pop_frame(fr)
        return self.read(self.st, obj, ty)

    def init_members(self, obj, ty, ctor):
        rec_fields = self.unit.fields(ty[1])
        done = set()
        inits = [c for c in ctor.get("inner", ()) if c.get("kind") == "CXXCtorInitializer"]
        for c in inits:
            tgt = c.get("anyInit")
            if tgt is None:
                continue
            name = tgt.get("name")
            e = inner(c)[0]
            fty = rec_fields[name][0]
            if e["kind"] == "CXXDefaultInitExpr" and not inner(e):
                continue
            if fty[0] == "ref":
                while e["kind"] == "InitListExpr" and len(inner(e)) == 1:
                    e = inner(e)[0]
                v = self.ev(e)
                if isinstance(v, LV):
                    if v.ty is None or v.ty[0] == "opq":
                        v = LV(v.root, v.path, fty[1])
                    self.st.mem[(obj.root, obj.key() + (name, "@"))] = v
            else:
                v = self.rv(e)
                if is_z3(v) and fty[0] == "bool" and v.sort() == I:
                    v = v != 0
                self.write(self.st, obj.field(name, fty), v)
            done.add(name)
        for name, (fty, node) in rec_fields.items():
            if name in done or fty[0] == "ref":
                continue
            if node is not None and node.get("hasInClassInitializer"):
                init = [c for c in inner(node) if not c["kind"].endswith("Comment")]
                self.write(self.st, obj.field(name, fty), self.rv(init[-1]))
            elif fty[0] in ("vec", "opt", "rec", "tup", "map", "mmap"):
                self.write(self.st, obj.field(name, fty), self.default_value(fty))

    def vec_from_list(self, ty, items):
        b = self.empty_vec(ty, iv(len(items)))
        for i, v in enumerate(items):
            self.blob_store(b, ty, iv(i), v)
        return b

    def blob_store(self, b, ty, i, v):
        if isinstance(v, Blob):
            for s, t in v.leaves.items():
                b.leaves[("[]",) + s] = z3.Store(b.leaves[("[]",) + s], i, t)
        elif is_z3(v):
            b.leaves[("[]",)] = z3.Store(b.leaves[("[]",)], i, v)
        else:
            raise ToolLimit("cannot store object in vector")

    def vec_filled(self, ty, n, v):
        b = self.empty_vec(ty, n)
        if isinstance(v, Blob):
            for s, t in v.leaves.items():
                b.leaves[("[]",) + s] = z3.K(I, t)
        elif is_z3(v):
            b.leaves[("[]",)] = z3.K(I, v)
        return b

    def vec_from_range(self, ty, p, q):
        if z3.is_int_value(simp(p.idx)) and simp(p.idx).as_long() == 0 and not p.rev:
            src = self.read(self.st, p.lv, p.lv.ty)
            b = Blob(ty, dict(src.leaves), {})
            b.leaves[("len",)] = q.idx
            return b
        raise ToolLimit("vector from general range")

    def char_span(self, p):
        """Length of the text at an address."""
        if not (isinstance(p, Ptr) and p.lv is not None and p.lv.root == "$chars"):
            raise ToolLimit("text at an unknown address")
        i = simp(p.idx)
        txt = {v: t for t, v in self.strings.items()}.get(i.as_long()) if z3.is_int_value(i) else None
        if txt is not None:
            return iv(len(txt.encode("latin-1", "replace")))
        n, k, mem = STRLEN(p.idx), z3.Int("sk"), z3.Const("$chars.[]", z3.ArraySort(I, I))
        self.fact(z3.And(0 <= n, n < 2 ** 30, mem[p.idx + n] == 0))
        self.fact(z3.ForAll([k], z3.Implies(z3.And(p.idx <= k, k < p.idx + n), mem[k] != 0), patterns=[mem[k]]))
        return n

    def string_from_ptr(self, p, ty):
        n, k, mem = self.char_span(p), z3.Int("sk"), z3.Const("$chars.[]", z3.ArraySort(I, I))
        a = z3.Const(fresh_name("text"), z3.ArraySort(I, I))
        if z3.is_int_value(n):
            for j in range(n.as_long()):
                self.fact(a[j] == mem[p.idx + j])
        else:
            self.fact(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), a[k] == mem[p.idx + k]), patterns=[a[k]]))
        return Blob(ty, {("len",): n, ("[]",): a})

    def string_append(self, lv, p):
        m, n, k, mem = self.vlen(lv), self.char_span(p), z3.Int("sk"), z3.Const("$chars.[]", z3.ArraySort(I, I))
        o = sel(self.get_mem(self.st, lv.root, lv.key() + ("[]",), arr(z3.ArraySort(I, I), len(lv.idxs()))), lv.idxs())
        a = z3.Const(fresh_name("text"), z3.ArraySort(I, I))
        self.fact(z3.ForAll([k], a[k] == z3.If(k < m, o[k], mem[p.idx + (k - m)]), patterns=[a[k]]))
        self.write_leaf(self.st, lv, ("[]",), a)
        self.set_len(lv, m + n)
        return lv

    # ======================================================================
    # calls
    def ext_for(self, pre, ty, n=None):
        name = None
        if ty[0] == "rec":
            name = ty[1]
        elif ty[0] == "opq":
            name = ty[1]
        elif ty[0] in ("iter", "vec", "tup", "opt", "lambda"):
            return None
        if name is None:
            return None
        nm = name.replace("(anonymous namespace)::", "")
        for cand in (nm, nm.replace("ClingoDL::", "")):
            h = self.externals.get(pre + cand)
            if h:
                return h
        return None

    def push_frame(self, node, this, vals, argnodes=()):
        fr = Frame(node, this)
        fr.parent = None
        fr.caller = self.frame
        fr.ret_ty = self.ret_type(node)
        params = [c for c in node.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
        self.frame_stack.append(self.frame)
        old = self.frame
        self.path_stack.append(node["id"])
        if len(self.path_stack) > self.max_inline:
            raise ToolLimit("call depth (recursion without contract)")
        for k, p in enumerate(params):
            ty = self.unit.ty(p["type"])
            if k >= len(vals):
                init = [c for c in inner(p)]
                if not init:
                    raise ToolLimit("missing argument")
                v = self.rv(init[0])
            else:
                v = vals[k]
            self.bind_param(fr, p, ty, v, argnodes[k] if k < len(argnodes) else None)
        self.frame = fr
        return fr

    def bind_param(self, fr, p, ty, v, argnode=None):
        name = p.get("name", "")
        if ty[0] == "ref":
            if isinstance(v, LV):
                if v.ty is None and argnode is not None:
                    v = LV(v.root, v.path, self.ety(argnode))
                b = v
            elif isinstance(v, (Ext, Lam)):
                b = v
            else:
                t = ty[1]
                if argnode is not None and t[0] in ("opq", "void"):
                    t = self.ety(argnode)
                b = self.materialize(v, t)
        else:
            if isinstance(v, LV):
                t = ty
                if t[0] in ("opq", "void"):
                    t = v.ty if v.ty is not None else self.ety(argnode)
                v = self.to_rv(v, t)
                ty = t
            if isinstance(v, (Ext, Lam)):
                b = v
                lv = self.new_root(name, ty)
                self.write(self.st, lv, v)
                b = lv if isinstance(v, Ext) else v
            else:
                if isinstance(v, Blob):
                    ty = v.ty
                lv = self.new_root(name, ty)
                self.write(self.st, lv, v)
                b = lv
        fr.env[p["id"]] = b
        fr.names.setdefault(name, []).append(p["id"])
        fr.params.append(b)

    def pop_frame(self, fr):
        self.frame = self.frame_stack.pop()
        self.path_stack.pop()

    def ret_type(self, node):
        q = node["type"].get("qualType", "")
        # "auto (x) -> T" style types are printed as "T (args)"
        t = q
        if "->" in q:
            t = q.split("->")[-1].strip()
        else:
            depth, k = 0, None
            for i, c in enumerate(q):
                if c == "<":
                    depth += 1
                elif c == ">":
                    depth -= 1
                elif c == "(" and depth == 0 and not q[i:].startswith("(anonymous"):
                    k = i
                    break
            t = q[:k].strip() if k else q
        if t in ("auto", "decltype(auto)"):
            return None
        try:
            return self.unit.parse_type(t)
        except ToolLimit:
            return None

    def run_body(self, fr, body):
        saved_brk = self.brk
        self.brk = []
        n0 = len(fr.returns)
        try:
            if body is not None:
                try:
                    self.stmt(body)
                    fr.returns.append((self.st, None))
                except Dead:
                    pass
        finally:
            self.brk = saved_brk
        if not fr.returns:
            self.st = None
            raise Dead()
        self.const_refs(fr)
        self.st, v = self.merge_many(fr.returns)
        return v

    def const_refs(self, fr):
        """References to const scalars: read the values if different objects are returned."""
        vals = [v for _, v in fr.returns]
        if len(vals) < 2 or not all(isinstance(v, LV) for v in vals):
            return
        if all(v.root == vals[0].root and v.key() == vals[0].key() for v in vals):
            return
        if "const" not in fr.func["type"].get("qualType", "").split("(")[0] and "const" not in fr.func["type"].get("qualType", "").split("->")[-1]:
            return
        out = []
        for st, v in fr.returns:
            if v.ty is None or v.ty[0] not in ("int", "bool", "enum", "double"):
                return
            self.st = st
            out.append((st, self.read(st, v, v.ty)))
        fr.returns[:] = out

    def call(self, node, this, vals, argnodes=(), closure=None):
        """Call a function with a body: by contract or inlined."""
        c = self.contracts.get(node["id"])
        if c is not None and not (self.top is not None and False):
            return self.call_contract(c, node, this, vals, argnodes)
        q = self.unit.qual.get(node["id"], "?")
        self.inlined.add(q)
        fr = self.push_frame(node, this, vals, argnodes)
        try:
            if closure is not None:
                fr.parent = closure
            body = [x for x in node.get("inner", ()) if x.get("kind") == "CompoundStmt"]
            if node.get("kind") == "CXXConstructorDecl":
                raise ToolLimit("constructor call")
            v = self.run_body(fr, body[0])
        finally:
            self.pop_frame(fr)
        return v

    def call_contract(self, c, node, this, vals, argnodes):
        self.used_contracts.add(c.name)
        fr = self.push_frame(node, this, vals, argnodes)
        self.frame = self.frame_stack[-1]
        try:
            pre = self.st.copy()
            ctx = SpecCtx(self, self.st, fr, pre)
            if c.defs:
                for f in c.defs(ctx):
                    self.fact(f)
            if c.requires:
                for nm, f in c.requires(ctx):
                    self.oblige("call %s.pre.%s" % (c.name, nm), f, "call-pre")
                    self.fact(f)
            pre = self.st.copy()
            if c.modifies is None:
                raise ToolLimit("call of a function whose contract has no frame: " + c.name)
            mods = c.modifies(ctx) if callable(c.modifies) else list(c.modifies)
            keys = set()
            prefix = {}
            for m in mods:
                ks = self.resolve_mod(fr, m)
                base = fr.this if m.split(".")[0] == "this" else None
                if m.startswith("arg"):
                    base = fr.params[int(m.replace("[]", "").split(".")[0][3:])]
                if isinstance(base, LV) and base.idxs():
                    for k in ks:
                        # several arguments may be elements of one array; use the coarsest
                        if k[0] == base.root and (k not in prefix or all(a.eq(b) for a, b in zip(prefix[k], base.idxs()))) and k not in keys:
                            prefix[k] = base.idxs()
                        else:
                            prefix[k] = []
                else:
                    for k in ks:
                        prefix[k] = []
                keys |= ks
            before = {k: self.st.mem.get(k) for k in keys}
            self.havoc(self.st, keys)
            for k, ix in prefix.items():
                if ix:
                    new = self.st.mem[k]
                    old = before[k] if before[k] is not None else self.init_leaf(k[0], k[1], new.sort())
                    self.st.mem[k] = upd(old, ix, z3.Const(fresh_name("%s.%s" % (k[0], ".".join(k[1]))), sel(new, ix).sort()))
            self.ranges_after_havoc(self.st, keys)
            rty = self.ret_type(node) or ("void",)
            res = None
            if c.result is not None:
                res = c.result(SpecCtx(self, self.st, fr, pre))
            elif rty[0] == "ref":
                raise ToolLimit("contract for function returning a reference")
            elif rty[0] != "void":
                res = self.fresh_value(rty, c.name + ".ret")
            post = SpecCtx(self, self.st, fr, pre, res)
            if c.ensures:
                for nm, f in c.ensures(post):
                    self.fact(f)
            if c.effect:
                c.effect(self, post)
            return res
        finally:
            self.path_stack.pop()
            self.frame_stack.pop()

    def fresh_value(self, ty, name):
        k = ty[0]
        if k in ("int", "enum", "opq", "bool", "double"):
            v = z3.Const(fresh_name(name), self.sort_of(ty))
            self.range_fact(v, ty)
            return v
        out = {}
        for s, so, t in self.leaves(ty):
            out[s] = z3.Const(fresh_name(name + "." + ".".join(s)), so)
            if s and s[-1] == "len" and "[]" not in s:
                self.fact(z3.And(out[s] >= 0, out[s] < 2 ** 32 - 1))
        return Blob(ty, out)

    def resolve_mod(self, fr, m):
        """'this.a.b[].c', 'arg0.x', 'ghost:g', 'arg1' -> keys of all leaves below."""
        if m.startswith("ghost:"):
            return {("ghost", (m[6:],))}
        parts = m.replace("[]", ".[]").split(".")
        if parts[0] == "this":
            lv = fr.this
        elif parts[0].startswith("*arg"):
            lv = fr.params[int(parts[0][4:])]
            o = self.st.mem.get((lv.root, lv.key() + ("@",)))
            if not isinstance(o, Ptr) or o.lv is None:
                raise ToolLimit("annotation: modifies " + m)
            lv = o.lv if o.idx is None else o.lv.index(o.idx, o.lv.ty[1])
        elif parts[0].startswith("arg"):
            lv = fr.params[int(parts[0][3:])]
            if isinstance(lv, Ext):
                return set()
        elif parts[0] in self.roots:
            lv = self.roots[parts[0]]
        else:
            raise ToolLimit("annotation: modifies " + m)
        ty = lv.ty
        for p in parts[1:]:
            if ty[0] == "ref":
                ty = ty[1]
            if p == "[]":
                lv = lv.index(iv(0), ty[1])
                ty = ty[1]
            elif ty[0] == "rec":
                fs = self.unit.fields(ty[1])
                if p not in fs:
                    raise ToolLimit("annotation mentions unknown member %s of %s" % (p, ty[1]))
                fty = fs[p][0]
                if fty[0] == "ref":
                    tgt = self.st.mem.get((lv.root, lv.key() + (p, "@")))
                    if tgt is None:
                        tgt = self.default_obj(lv.field(p, fty), fty)
                    lv, ty = tgt, tgt.ty
                else:
                    lv, ty = lv.field(p, fty), fty
            elif ty[0] == "vec" and p == "len":
                return {(lv.root, lv.key() + ("len",))}
            elif ty[0] == "tup":
                k = {"first": "0", "second": "1"}.get(p, p)
                lv, ty = lv.field(k, ty[1][int(k)]), ty[1][int(k)]
            else:
                raise ToolLimit("annotation: modifies " + m)
        out = set()
        if ty[0] == "ref":
            ty = ty[1]
        nd = len(lv.idxs())
        for s, so, _ in self.leaves(ty):
            k = (lv.root, lv.key() + s)
            self.known_sorts.setdefault(k, arr(so, nd))
            out.add(k)
        return out

    # -- call expressions -----------------------------------------------------
    def e_CXXMemberCallExpr(self, n):
        ch = inner(n)
        me = ch[0]
        while me["kind"] in ("ParenExpr", "ImplicitCastExpr"):
            me = inner(me)[0]
        if me["kind"] != "MemberExpr":
            raise ToolLimit("call through member pointer")
        argn = ch[1:]
        name = me.get("name")
        base = inner(me)[0]
        md = self.unit.defs.get(me.get("referencedMemberDecl"))
        bty = self.ety(base)
        if me.get("isArrow"):
            p = self.rv(base)
            if isinstance(p, Ext):
                obj = p
            else:
                obj = self.deref(p)
            bty = bty[1] if bty[0] == "ptr" else bty
        else:
            obj = self.ev(base)
        if isinstance(obj, LV):
            o = self.st.mem.get((obj.root, obj.key() + ("@",)))
            if o is not None and not (isinstance(o, LV)):
                pobj = obj
                obj = o if not isinstance(o, Ptr) else obj
        oty = bty
        if isinstance(obj, LV) and obj.ty is not None and obj.ty[0] not in ("opq", "void"):
            oty = obj.ty if obj.ty[0] != "ref" else obj.ty[1]
        h = self.ext_for("method:", oty) or self.ext_for("method:", bty)
        if isinstance(obj, Ext):
            h2 = self.externals.get("method:" + obj.kind)
            if h2:
                h = h2
        if h:
            r = h(self, obj, name, argn, n)
            if r is not NotImplemented:
                return r
        if oty[0] == "rec" and oty[1] == "Duration" and name == "count":
            v = self.to_rv(obj, oty) if isinstance(obj, LV) else obj
            return v.leaves[("rep",)]
        if md is not None or me.get("referencedMemberDecl") in self.contracts:
            node = md if md is not None else self.unit.decls[me["referencedMemberDecl"]]
            if isinstance(obj, Blob):
                obj = self.materialize(obj, obj.ty)
            if isinstance(obj, LV):
                want = self.unit.qual.get(node["id"], "").rsplit("::", 1)[0]
                if want in self.unit.records and (obj.ty is None or obj.ty[0] != "rec" or obj.ty[1] != want):
                    obj = LV(obj.root, obj.path, ("rec", want))
            vals = self.eval_args(node, argn)
            return self.call(node, obj, vals, argn)
        if isinstance(obj, Blob):
            obj = self.materialize(obj, obj.ty)
        if isinstance(obj, LV) and oty[0] == "vec":
            return self.vec_method(obj, oty, name, argn, n)
        if isinstance(obj, LV) and oty[0] in ("map", "mmap"):
            return self.map_method(obj, oty, name, argn, n)
        if isinstance(obj, LV) and oty[0] == "opt":
            return self.opt_method(obj, oty, name, argn, n)
        if is_z3(obj) or isinstance(obj, (LV, Ext, Ptr)):
            key = None
            if oty[0] == "opq":
                key = oty[1]
            raise ToolLimit("call of member %s of %s" % (name, oty))
        raise ToolLimit("call of member %s of %s" % (name, oty))

    def eval_args(self, node, argn):
        params = [c for c in node.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
        out = []
        for k, a in enumerate(argn):
            if a["kind"] == "CXXDefaultArgExpr" and not inner(a):
                continue
            ty = self.unit.ty(params[k]["type"]) if k < len(params) else ("void",)
            if ty[0] == "ref":
                v = self.ev(a)
                if isinstance(v, LV) and v.ty is None:
                    v = LV(v.root, v.path, self.ety(a))
                out.append(v)
            else:
                v = self.ev(a)
                out.append(v if isinstance(v, (Lam, Ext)) else self.to_rv(v, self.ety(a)))
        return out

    def e_CallExpr(self, n):
        ch = inner(n)
        cal = ch[0]
        while cal["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            cal = inner(cal)[0]
        argn = ch[1:]
        if cal["kind"] != "DeclRefExpr":
            # call through function pointer value or overloaded lambda
            f = self.rv(cal)
            return self.call_value(f, argn, n)
        rd = cal["referencedDecl"]
        did = rd["id"]
        name = rd.get("name")
        if rd["kind"] in ("VarDecl", "ParmVarDecl"):
            f = self.rv(cal)
            return self.call_value(f, argn, n)
        h = self.externals.get("call:" + name)
        if h:
            r = h(self, argn, n)
            if r is not NotImplemented:
                return r
        if name == "numeric_cast" and len(argn) == 1:
            # a conversion (the checks in nc_check only abort the program)
            return self.int_cast(self.rv(argn[0]), self.ety(argn[0]), self.ety(n))
        node = self.unit.defs.get(did)
        if node is None and did in self.contracts:
            node = self.unit.decls[did]
        if node is not None:
            if node["kind"] == "CXXMethodDecl" and node.get("storageClass") != "static":
                raise ToolLimit("unbound method call")
            return self.call(node, None, self.eval_args(node, argn), argn)
        m = getattr(self, "f_" + name, None)
        if m:
            return m(argn, n)
        raise ToolLimit("call of function %s without body or model" % name)

    def call_value(self, f, argn, n):
        if isinstance(f, LV):
            f = self.to_rv(f, f.ty)
        if isinstance(f, Ext) and f.kind == "func":
            node = self.unit.defs.get(f.data["decl"])
            if node is not None:
                return self.call(node, None, self.eval_args(node, argn), argn)
        if isinstance(f, Lam):
            return self.call_lambda(f, argn=argn)
        if isinstance(f, Ext):
            h = self.externals.get("invoke:" + f.kind)
            if h:
                return h(self, f, argn, n)
        raise ToolLimit("call through value %s" % (f,))

    def lambda_method(self, lam):
        rec = [c for c in inner(lam.node) if c["kind"] == "CXXRecordDecl"][0]
        for c in rec.get("inner", ()):
            if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()":
                return c
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                ms = [m for m in c.get("inner", ()) if m.get("kind") == "CXXMethodDecl"]
                good = [m for m in ms if self.unit.targs(m)] or ms
                return good[-1]
        raise ToolLimit("lambda without call operator")

    def call_lambda(self, lam, argn=None, vals=None):
        m = self.lambda_method(lam)
        if vals is None:
            vals = self.eval_args(m, argn)
        caps = [c for c in inner(lam.node) if c["kind"] == "CXXRecordDecl"][0]
        fr = self.push_frame(m, lam.this, vals, argn or ())
        fr.parent = lam.env
        try:
            body = [x for x in m.get("inner", ()) if x.get("kind") == "CompoundStmt"]
            if not body:
                body = [x for x in inner(lam.node) if x.get("kind") == "CompoundStmt"]
            v = self.run_body(fr, body[0])
        finally:
            self.pop_frame(fr)
        return v

    def e_CXXOperatorCallExpr(self, n):
        ch = inner(n)
        name = self.callee_name(ch[0])
        args = ch[1:]
        cal = ch[0]
        while cal["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            cal = inner(cal)[0]
        did = cal["referencedDecl"]["id"] if cal["kind"] == "DeclRefExpr" else None
        if name == "operator()":
            f = self.ev(args[0])
            if isinstance(f, LV):
                o = self.st.mem.get((f.root, f.key() + ("@",)))
                f = o if o is not None else f
            if isinstance(f, Lam):
                return self.call_lambda(f, argn=args[1:])
            if isinstance(f, Ext):
                h = self.externals.get("invoke:" + f.kind)
                if h:
                    return h(self, f, args[1:], n)
            h = self.ext_for("invoke:", self.ety(args[0]))
            if h:
                return h(self, f, args[1:], n)
            node = self.unit.defs.get(did)
            if node is not None and isinstance(f, LV):
                return self.call(node, f, self.eval_args(node, args[1:]), args[1:])
            raise ToolLimit("call operator of %s of type %s" % (f, self.ety(args[0])))
        a0 = self.ev(args[0])
        t0 = self.ety(args[0])
        if isinstance(a0, LV):
            o = self.st.mem.get((a0.root, a0.key() + ("@",)))
            if isinstance(o, (Ext, Lam)):
                val0 = o
            else:
                val0 = None
            if a0.ty is not None and t0[0] in ("opq", "void") and a0.ty[0] != "void":
                t0 = a0.ty
        else:
            val0 = a0
        h = None
        if isinstance(val0, Ext) and val0.kind in ("mapit", "mapend"):
            return self.map_op(name, val0, a0, args, n)
        if isinstance(val0, Ext):
            h = self.externals.get("op:" + val0.kind)
        h = h or self.ext_for("op:", t0)
        if h:
            r = h(self, name, a0, args, n)
            if r is not NotImplemented:
                return r
        if t0[0] == "ref":
            t0 = t0[1]
        if name == "operator[]":
            if isinstance(a0, Blob):
                a0 = self.materialize(a0, a0.ty)
            i = self.rv(args[1])
            if isinstance(a0, LV) and t0[0] == "vec":
                return self.vec_at(a0, t0, i)
            p = self.to_rv(a0, t0)
            if isinstance(p, Ptr):
                return self.deref(Ptr(p.lv, p.idx + i, p.rev, p.null))
        if t0[0] == "iter" or isinstance(a0, Ptr):
            return self.iter_op(name, a0, args, n)
        if name == "operator=":
            v = self.rv(args[1])
            if isinstance(a0, Ext) and a0.kind == "tie":
                if not isinstance(v, Blob):
                    raise ToolLimit("tie")
                for k, lv in enumerate(a0.data["lvs"]):
                    part = {s[1:]: t for s, t in v.leaves.items() if s[0] == str(k)}
                    self.write(self.st, lv, part[()] if list(part) == [()] else Blob(lv.ty, part))
                return None
            if isinstance(a0, LV):
                if t0[0] == "opt" and not (isinstance(v, Blob) and v.ty[0] == "opt"):
                    if isinstance(v, Ext) and v.kind == "nullopt":
                        v = self.default_value(t0)
                    else:
                        leaves, objs = {("has",): TRUE}, {}
                        self.set_part(leaves, objs, ("val",), v, t0[1])
                        v = Blob(t0, leaves, objs)
                if isinstance(v, Ext) and v.kind == "list" and t0[0] == "vec":
                    v = self.vec_from_list(t0, v.data["items"])
                node = self.unit.defs.get(did)
                if node is not None and not node.get("isImplicit") and not node.get("explicitlyDefaulted"):
                    return self.call(node, a0, [v], args[1:])
                self.write(self.st, a0, v)
                return a0
        if t0[0] == "opt":
            if name == "operator*":
                if isinstance(a0, Blob):
                    a0 = self.materialize(a0, a0.ty)
                self.oblige("optional-has-value", self.read_leaf(self.st, a0, ("has",), B), "null")
                return a0.field("val", t0[1])
            if name == "operator->":
                if isinstance(a0, Blob):
                    a0 = self.materialize(a0, a0.ty)
                self.oblige("optional-has-value", self.read_leaf(self.st, a0, ("has",), B), "null")
                return Ptr(a0.field("val", t0[1]))
        if t0[0] == "vec" and len(t0) > 2 and name == "operator+=" and isinstance(a0, LV):
            v = self.rv(args[1])
            if isinstance(v, Ptr):
                return self.string_append(LV(a0.root, a0.path, t0), v)
        if t0[0] == "rec" and t0[1] == "Duration" and name in ("operator+=",):
            y = self.rv(args[1])
            yv = y.leaves[("rep",)] if isinstance(y, Blob) else z3.Const(fresh_name("duration"), R)
            x = self.read_leaf(self.st, a0, ("rep",), R)
            self.write_leaf(self.st, a0, ("rep",), x + yv)
            return a0
        if name in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>=") and len(args) == 2:
            x = self.to_rv(a0, t0)
            y = self.rv(args[1])
            if is_z3(x) and is_z3(y):
                return self.arith(name[8:], x, y, ("bool",), t0, t0)
            ob = [isinstance(v, Blob) and v.ty is not None and v.ty[0] == "opt" and ("val",) in v.leaves for v in (x, y)]
            if any(ob) and all(o or is_z3(v) or (isinstance(v, Ext) and v.kind == "nullopt") for o, v in zip(ob, (x, y))):
                # an empty optional is smaller than any value
                hv = [(v.leaves[("has",)], v.leaves[("val",)]) if o else ((FALSE, iv(0)) if isinstance(v, Ext) else (TRUE, v)) for o, v in zip(ob, (x, y))]
                (xh, xv), (yh, yv) = hv
                eq = z3.And(xh == yh, z3.Implies(xh, xv == yv))
                lt = z3.And(yh, z3.Or(z3.Not(xh), xv < yv))
                return {"==": eq, "!=": z3.Not(eq), "<": lt, "<=": z3.Or(lt, eq), ">": z3.Not(z3.Or(lt, eq)), ">=": z3.Not(lt)}[name[8:]]
            if isinstance(x, Blob) and isinstance(y, Blob) and name in ("operator==", "operator!="):
                if x.ty[0] in ("tup",) and set(x.leaves) == set(y.leaves) and not any("[]" in s for s in x.leaves):
                    e = mk_and([x.leaves[s] == y.leaves[s] for s in x.leaves])
                    return e if name == "operator==" else z3.Not(e)
        node = self.unit.defs.get(did)
        if node is not None:
            if node["kind"] == "CXXMethodDecl":
                obj = a0 if isinstance(a0, LV) else self.materialize(a0, t0)
                return self.call(node, obj, self.eval_args(node, args[1:]), args[1:])
            return self.call(node, None, self.eval_args(node, args), args)
        raise ToolLimit("operator %s on %s" % (name, t0))

    # -- iterators ---------------------------------------------------------------
    def iter_op(self, name, a0, args, n):
        def val(v, t):
            x = self.to_rv(v, t)
            if not isinstance(x, Ptr):
                raise ToolLimit("iterator operation on %s" % (x,))
            return x
        p = val(a0, ("iter", False))
        if name == "operator*":
            return self.deref(p)
        if name == "operator->":
            lv = self.deref(p)
            return Ptr(lv)
        if name == "operator[]":
            return self.deref(Ptr(p.lv, p.idx + self.rv(args[1]), p.rev, p.null))
        if name in ("operator++", "operator--"):
            post = len(args) > 1
            return self.incdec(a0, name[8:], post, ("iter", p.rev))
        if name in ("operator+", "operator-") and len(args) == 2:
            y = self.rv(args[1])
            if isinstance(y, Ptr):
                return self.ptr_op("-", p, y) if not p.rev else self.ptr_op("-", p, y)
            return self.ptr_arith(name[8:], p, y)
        if name in ("operator+=", "operator-="):
            y = self.rv(args[1])
            self.write(self.st, a0, self.ptr_arith(name[8], p, y))
            return a0
        if name in ("operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="):
            q = val(self.ev(args[1]), ("iter", False))
            return self.ptr_op(name[8:], p, q)
        if name == "operator=":
            q = val(self.ev(args[1]), ("iter", False))
            self.write(self.st, a0, q)
            return a0
        raise ToolLimit("iterator " + name)

    # -- vectors -------------------------------------------------------------
    def vec_at(self, lv, ty, i):
        if self.bounds:
            ln = self.read_leaf(self.st, lv, ("len",), I)
            self.oblige("in-bounds", z3.And(i >= 0, i < ln), "bounds")
        return lv.index(i, ty[1])

    def vlen(self, lv):
        return self.read_leaf(self.st, lv, ("len",), I)

    def set_len(self, lv, v):
        self.write_leaf(self.st, lv, ("len",), v)

    def vec_method(self, lv, ty, name, argn, n):
        ety = ty[1]
        if lv.ty is None or lv.ty[0] != "vec":
            lv = LV(lv.root, lv.path, ty)
        ln = None

        def L():
            return self.vlen(lv)
        if name in ("size", "length"):
            return L()
        if name == "empty":
            return L() == 0
        if name in ("back",):
            ln = L()
            if self.bounds:
                self.oblige("non-empty", ln > 0, "bounds")
            return lv.index(simp(ln - 1) if z3.is_int_value(ln) else ln - 1, ety)
        if name == "front":
            if self.bounds:
                self.oblige("non-empty", L() > 0, "bounds")
            return lv.index(iv(0), ety)
        if name in ("push_back", "emplace_back"):
            v = self.elem_from_args(ety, argn)
            ln = L()
            self.write(self.st, lv.index(ln, ety), v)
            self.set_len(lv, simp(ln + 1) if z3.is_int_value(ln) else ln + 1)
            return lv.index(ln, ety)
        if name == "pop_back":
            ln = L()
            self.oblige("pop_back-non-empty", ln > 0, "bounds")
            self.set_len(lv, ln - 1)
            return None
        if name == "clear":
            self.set_len(lv, iv(0))
            return None
        if name == "reserve" or name == "shrink_to_fit":
            for a in argn:
                self.rv(a)
            return None
        if name == "data":
            return Ptr(lv, iv(0))
        if name in ("begin", "cbegin"):
            return Ptr(lv, iv(0))
        if name in ("end", "cend"):
            return Ptr(lv, L())
        if name == "rbegin":
            return Ptr(lv, iv(0), rev=True)
        if name == "rend":
            return Ptr(lv, L(), rev=True)
        if name == "at":
            i = self.rv(argn[0])
            self.fork(z3.And(i >= 0, i < L()), lambda: None, lambda: self.throw("std::out_of_range"))
            return lv.index(i, ety)
        if name == "resize":
            m = self.rv(argn[0])
            if len(argn) > 1:
                v = self.rv(argn[1])
            elif self.is_shrink(lv, m):
                v = None
            else:
                v = self.default_value(ety)
            self.vec_resize(lv, ety, m, v)
            return None
        if name == "erase":
            ps = [self.rv(a) for a in argn]
            return self.vec_erase(lv, ety, ps)
        if name == "insert":
            ps = [self.rv(a) for a in argn]
            return self.vec_insert(lv, ety, ps, argn)
        if name == "c_str" and len(ty) > 2:
            return Ext("cstr", lv=lv)
        h = self.externals.get("vec:" + name)
        if h:
            return h(self, lv, ty, argn, n)
        raise ToolLimit("vector method " + name)

    def is_shrink(self, lv, m):
        return False

    def elem_from_args(self, ety, argn):
        if len(argn) == 0:
            return self.default_value(ety)
        if len(argn) == 1:
            v = self.rv(argn[0])
            if is_z3(v):
                aty = self.ety(argn[0])
                if ety[0] == "bool" and v.sort() == I:
                    v = v != 0
                elif ety[0] == "int" and aty[0] == "int" and aty != ety:
                    v = self.int_cast(v, aty, ety)
                elif ety[0] == "int" and v.sort() == B:
                    v = ite(v, iv(1), iv(0))
            if isinstance(v, Blob) and v.ty != ety and ety[0] in ("tup", "rec"):
                v = Blob(ety, v.leaves, v.objs)
            if not isinstance(v, Blob) and ety[0] in ("rec",):
                return self.construct_from(ety, [v], argn)
            if isinstance(v, (Ptr, Ext, Lam)):
                h = self.externals.get("elem")
                if h:
                    return h(self, ety, v)
            return v
        if ety[0] == "rec":
            return self.construct_from(ety, [self.ev(a) for a in argn], argn)
        vals = [self.rv(a) for a in argn]
        if ety[0] == "tup":
            leaves, objs = {}, {}
            for k, v in enumerate(vals):
                if is_z3(v) and ety[1][k][0] == "int":
                    aty = self.ety(argn[k])
                    if aty[0] == "int" and aty != ety[1][k]:
                        v = self.int_cast(v, aty, ety[1][k])
                self.set_part(leaves, objs, (str(k),), v, ety[1][k])
            return Blob(ety, leaves, objs)
        return self.construct_from(ety, vals, argn)

    def construct_from(self, ety, vals, argn):
        h = self.ext_for("emplace:", ety)
        if h:
            return h(self, ety, [self.to_rv(v, self.ety(a)) if isinstance(v, LV) else v for v, a in zip(vals, argn)], argn)
        if ety[0] == "rec":
            cands = []
            for q, node in self.unit.funcs:
                if node["kind"] == "CXXConstructorDecl" and q.rsplit("::", 1)[0] == ety[1] and not node.get("isImplicit"):
                    params = [c for c in node.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
                    if len(params) == len(vals):
                        cands.append(node)
            if len(cands) == 1:
                # conversions of forwarded arguments do not appear in the syntax tree
                params = [self.unit.ty(c["type"]) for c in cands[0].get("inner", ()) if c.get("kind") == "ParmVarDecl"]
                vs = []
                for v, a, pt in zip(vals, argn, params):
                    at = self.ety(a)
                    if at[0] == "ref":
                        at = at[1]
                    if pt != at and pt[0] in ("int", "bool", "double") and at[0] in ("int", "bool", "double"):
                        v = self.to_rv(v, at) if isinstance(v, LV) else v
                        ck = {("int", "double"): "FloatingToIntegral", ("double", "int"): "IntegralToFloating", ("double", "bool"): "IntegralToFloating",
                              ("bool", "int"): "IntegralToBoolean", ("bool", "double"): "FloatingToBoolean"}.get((pt[0], at[0]), "IntegralCast")
                        v = self.convert(v, at, pt, ck)
                    vs.append(v)
                return self.run_ctor(ety, cands[0], vs, argn)
        raise ToolLimit("emplace of %s with %d arguments" % (ety, len(vals)))

    def vec_resize(self, lv, ety, m, v):
        old = self.vlen(lv)
        # elements beyond the old size get the default value
        if v is not None:
            leaves = v.leaves if isinstance(v, Blob) else {(): v}
            for s, d in leaves.items():
                key = lv.key() + ("[]",) + s
                idxs = lv.idxs()
                a = sel(self.get_mem(self.st, lv.root, key, arr(z3.ArraySort(I, d.sort()), len(idxs))), idxs)
                na = z3.Const(fresh_name("resized." + ".".join(s)), a.sort())
                j = z3.Int("rj")
                self.fact(z3.ForAll([j], z3.Select(na, j) == z3.If(z3.And(j >= old, j < m), d, z3.Select(a, j)),
                                    patterns=[z3.Select(na, j)]))
                self.write_leaf(self.st, LV(lv.root, lv.path, None), ("[]",) + s, na)
        self.set_len(lv, m)

    def vec_erase(self, lv, ety, ps):
        if len(ps) == 1:
            ps = [ps[0], Ptr(ps[0].lv, ps[0].idx + 1)]
        a, b = ps[0].idx, ps[1].idx
        ln = self.vlen(lv)
        self.oblige("erase-range", z3.And(0 <= a, a <= b, b <= ln), "bounds")
        if z3.is_true(simp(b == ln)) or b.eq(ln):
            self.set_len(lv, a)
            return Ptr(lv, a)
        for s, so, t in self.leaves(ety):
            key = lv.key() + ("[]",) + s
            idxs = lv.idxs()
            o = sel(self.get_mem(self.st, lv.root, key, arr(z3.ArraySort(I, so), len(idxs))), idxs)
            na = z3.Const(fresh_name("erased"), o.sort())
            j = z3.Int("ej")
            self.fact(z3.ForAll([j], z3.Select(na, j) == z3.If(j < a, z3.Select(o, j), z3.Select(o, j + (b - a))),
                                patterns=[z3.Select(na, j)]))
            if z3.is_select(o) and has_ite(o):
                f = z3.Const(fresh_name("elements"), o.sort())
                self.fact(f == o)
                o = f
            if o.num_args() == 0 or z3.is_select(o):
                self.fact(z3.ForAll([j], z3.And(z3.Implies(j < a, z3.Select(na, j) == z3.Select(o, j)), z3.Implies(j >= b, z3.Select(na, j - (b - a)) == z3.Select(o, j))),
                                    patterns=[z3.Select(o, j)]))
            else:
                self.fact(z3.ForAll([j], z3.Implies(j >= b, z3.Select(na, j - (b - a)) == z3.Select(o, j))))
            self.write_leaf(self.st, lv, ("[]",) + s, na)
        self.set_len(lv, ln - (b - a))
        return Ptr(lv, a)

    def vec_insert(self, lv, ety, ps, argn):
        ln = self.vlen(lv)
        if len(ps) == 3 and isinstance(ps[0], Ptr) and z3.is_true(simp(ps[0].idx == ln)):
            p, q = ps[1], ps[2]
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.idx is not None:
                for s, so, t in self.leaves(ety):
                    idxs = lv.idxs()
                    o = sel(self.get_mem(self.st, lv.root, lv.key() + ("[]",) + s, arr(z3.ArraySort(I, so), len(idxs))), idxs)
                    src = sel(self.get_mem(self.st, p.lv.root, p.lv.key() + ("[]",) + s,
                                           arr(z3.ArraySort(I, so), len(p.lv.idxs()))), p.lv.idxs())
                    na = z3.Const(fresh_name("inserted"), o.sort())
                    j = z3.Int("nj")
                    self.fact(z3.ForAll([j], z3.Select(na, j) == z3.If(
                        j < ln, z3.Select(o, j), z3.If(j < ln + (q.idx - p.idx), z3.Select(src, p.idx + (j - ln)), z3.Select(o, j))),
                        patterns=[z3.Select(na, j)]))
                    self.write_leaf(self.st, lv, ("[]",) + s, na)
                self.set_len(lv, ln + (q.idx - p.idx))
                return Ptr(lv, ln)
        raise ToolLimit("vector insert")

    # -- unordered maps ------------------------------------------------------
    # A map is given by its domain and values, a multimap by the number of
    # entries per key and the entries in the (arbitrary) order of iteration.
    def map_leaf(self, lv, name, dims, sort=I):
        if lv.idxs():
            raise ToolLimit("map in container")
        return self.get_mem(self.st, lv.root, lv.key() + (name,) + ("[]",) * dims, arr(sort, dims))

    def map_set(self, lv, name, dims, v):
        self.write_leaf(self.st, lv, (name,) + ("[]",) * dims, v)

    def map_count(self, lv, key):
        c = z3.Select(self.map_leaf(lv, "n", 1), key)
        self.fact(c >= 0)
        return c

    def map_it(self, lv, ty, key, pos=None):
        if ty[0] == "map":
            return Ext("mapit", lv=lv, key=key, ty=ty, has=z3.Select(self.map_leaf(lv, "dom", 1, B), key))
        return Ext("mapit", lv=lv, key=key, ty=ty, pos=pos, havoc=("pos",))

    def map_method(self, lv, ty, name, argn, n):
        h = self.externals.get("map:" + name)
        if h:
            r = h(self, lv, ty, argn, n)
            if r is not NotImplemented:
                return r
        if name in ("find", "equal_range"):
            key = self.rv(argn[0])
            if not is_z3(key):
                raise ToolLimit("map key")
            if ty[0] == "mmap":
                self.map_count(lv, key)
            if name == "find":
                return self.map_it(lv, ty, key, iv(0))
            if ty[0] == "mmap":
                a, b = self.map_it(lv, ty, key, iv(0)), self.map_it(lv, ty, key, self.map_count(lv, key))
                return Blob(("tup", (("opq", "iterator"), ("opq", "iterator"))), {}, {("0", "@"): a, ("1", "@"): b})
        if name in ("end", "cend"):
            return Ext("mapend", lv=lv)
        if name == "reserve":
            return None
        if name == "clear":
            for s, so, _ in self.leaves(ty)[:1]:
                self.write_leaf(self.st, lv, s, self.zero(so))
            return None
        if name == "emplace":
            vs = [self.rv(a) for a in argn]
            if len(vs) == 1 and isinstance(vs[0], Blob):
                key, val = vs[0].leaves[("0",)], vs[0].leaves[("1",)]
            else:
                key, val = vs
            if ty[0] == "map" and ty[2][0] == "iter" and isinstance(val, Ptr) and val.idx is not None and not val.rev and not val.lv.idxs():
                # all iterators in a map refer to the same container
                tgt = self.iter_targets.setdefault((lv.root, lv.key()), val.lv)
                if (tgt.root, tgt.key()) != (val.lv.root, val.lv.key()):
                    raise ToolLimit("iterators into different containers")
                val = val.idx
            if not is_z3(val) or not is_z3(key):
                raise ToolLimit("map value")
            if ty[0] == "map":
                dom, cur = self.map_leaf(lv, "dom", 1, B), self.map_leaf(lv, "val", 1)
                old = z3.Select(dom, key)
                it = Ext("mapit", lv=lv, key=key, ty=ty, has=TRUE)
                self.map_set(lv, "val", 1, z3.Store(cur, key, z3.If(old, z3.Select(cur, key), val)))
                self.map_set(lv, "dom", 1, z3.Store(dom, key, TRUE))
                return Blob(("tup", (("opq", "iterator"), ("bool",))), {("1",): z3.Not(old)}, {("0", "@"): it})
            # inserted at an arbitrary position among the entries of equal keys
            c = self.map_count(lv, key)
            at = self.map_leaf(lv, "at", 2)
            row = z3.Const(fresh_name("row"), z3.ArraySort(I, I))
            p, j = z3.Const(fresh_name("position"), I), z3.Int("mj")
            self.fact(z3.And(0 <= p, p <= c))
            self.fact(z3.ForAll([j], z3.Select(row, j) == z3.If(j < p, sel(at, [key, j]), z3.If(j == p, val, sel(at, [key, j - 1]))),
                                patterns=[z3.Select(row, j)]))
            old = z3.Const(fresh_name("oldrow"), z3.ArraySort(I, I))
            self.fact(old == z3.Select(at, key))
            self.fact(z3.ForAll([j], z3.And(z3.Implies(j < p, z3.Select(row, j) == z3.Select(old, j)), z3.Implies(j >= p, z3.Select(row, j + 1) == z3.Select(old, j))),
                                patterns=[z3.Select(old, j)]))
            self.map_set(lv, "at", 2, z3.Store(at, key, row))
            self.map_set(lv, "n", 1, z3.Store(self.map_leaf(lv, "n", 1), key, c + 1))
            return self.map_it(lv, ty, key, p)
        if name == "erase" and ty[0] == "mmap" and len(argn) == 2:
            a, b = self.rv(argn[0]), self.rv(argn[1])
            if not (isinstance(a, Ext) and isinstance(b, Ext) and a.kind == b.kind == "mapit"):
                raise ToolLimit("erase of map range")
            k = a.data["key"]
            self.oblige("erase-whole-range", z3.And(k == b.data["key"], a.data["pos"] == 0, b.data["pos"] == self.map_count(lv, k)), "bounds")
            self.map_set(lv, "n", 1, z3.Store(self.map_leaf(lv, "n", 1), k, iv(0)))
            return None
        if name == "insert" and ty[0] == "mmap" and len(argn) == 2:
            a, b = self.rv(argn[0]), self.rv(argn[1])
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.lv.idxs():
                raise ToolLimit("insert into map")
            old_n, old_at = self.map_leaf(lv, "n", 1), self.map_leaf(lv, "at", 2)
            nn = z3.Const(fresh_name("inserted.n"), old_n.sort())
            na = z3.Const(fresh_name("inserted.at"), old_at.sort())
            k, p, q = z3.Ints("ik ip iq")
            src = lambda f, i: z3.Select(self.get_mem(self.st, a.lv.root, a.lv.key() + ("[]", f), z3.ArraySort(I, I)), i)
            self.fact(z3.ForAll([k], z3.Select(nn, k) >= z3.Select(old_n, k), patterns=[z3.Select(nn, k)]))
            # every entry stems from the old entries or the range
            self.fact(z3.ForAll([k, p], z3.Implies(z3.And(0 <= p, p < z3.Select(nn, k)), z3.Or(
                z3.Exists([q], z3.And(0 <= q, q < z3.Select(old_n, k), sel(old_at, [k, q]) == sel(na, [k, p]))),
                z3.Exists([q], z3.And(a.idx <= q, q < b.idx, src("0", q) == k, src("1", q) == sel(na, [k, p]))))),
                patterns=[sel(na, [k, p])]))
            self.map_set(lv, "n", 1, nn)
            self.map_set(lv, "at", 2, na)
            return None
        raise ToolLimit("map method " + name)

    def map_entry(self, it, k):
        d = it.data
        lv, ty, key = d["lv"], d["ty"], d["key"]
        if ty[0] == "map":
            self.oblige("map-entry", d["has"], "null")
            if k == 0:
                return key
            if ty[2][0] == "iter":
                tgt = self.iter_targets.get((lv.root, lv.key()))
                if tgt is None:
                    raise ToolLimit("iterator of unknown container")
                return Ptr(tgt, z3.Select(self.map_leaf(lv, "val", 1), key))
            return LV(lv.root, lv.path + ("val", key), ty[2])
        c = self.map_count(lv, key)
        if k == 0:
            other = z3.Const(fresh_name("otherkey"), I)
            self.fact(other != key)
            return z3.If(d["pos"] < c, key, other)
        self.oblige("map-entry", z3.And(0 <= d["pos"], d["pos"] < c), "null")
        return LV(lv.root, lv.path + ("at", key, d["pos"]), ty[2])

    def map_op(self, name, it, a0, args, n):
        if name in ("operator->", "operator*"):
            return Ext("mapentry", it=it)
        if name == "operator++" and it.kind == "mapit" and "pos" in it.data:
            new = Ext("mapit", **dict(it.data, pos=it.data["pos"] + 1))
            self.write(self.st, a0, new)
            return it if len(args) > 1 else a0
        if name in ("operator==", "operator!="):
            o = self.rv(args[1])
            a, b = (it, o) if it.kind == "mapit" else (o, it)
            if a.kind == "mapit" and b.kind == "mapend":
                if "has" in a.data:
                    e = z3.Not(a.data["has"])
                else:
                    c = self.map_count(a.data["lv"], a.data["key"])
                    last = z3.Const(fresh_name("last"), B)
                    e = z3.And(a.data["pos"] >= c, z3.Or(c == 0, last))
            elif a.kind == b.kind == "mapit" and "pos" in a.data:
                self.oblige("iterators-of-one-range", a.data["key"] == b.data["key"], "null")
                e = a.data["pos"] == b.data["pos"]
            else:
                raise ToolLimit("comparison of map iterators")
            return e if name == "operator==" else z3.Not(e)
        if name == "operator=":
            v = self.rv(args[1])
            self.write(self.st, a0, v)
            return a0
        raise ToolLimit("map iterator " + name)

    def opt_method(self, lv, ty, name, argn, n):
        if name == "has_value" or name == "operator bool":
            return self.read_leaf(self.st, lv, ("has",), B)
        if name == "value":
            h = self.read_leaf(self.st, lv, ("has",), B)
            self.fork(h, lambda: None, lambda: self.throw("std::bad_optional_access"))
            return lv.field("val", ty[1])
        if name == "value_or":
            d = self.rv(argn[0])
            h = self.read_leaf(self.st, lv, ("has",), B)
            v = self.read(self.st, lv.field("val", ty[1]), ty[1])
            return ite(h, v, d)
        if name == "reset":
            self.write_leaf(self.st, lv, ("has",), FALSE)
            return None
        if name == "emplace":
            self.write(self.st, lv.field("val", ty[1]), self.elem_from_args(ty[1], argn))
            self.write_leaf(self.st, lv, ("has",), TRUE)
            return lv.field("val", ty[1])
        raise ToolLimit("optional method " + name)

    # -- functions of the standard library --------------------------------------
    def f_max(self, argn, n):
        if not argn:
            return self.f_limits("max", n)
        a, b = self.rv(argn[0]), self.rv(argn[1])
        return z3.If(a < b, b, a)

    def f_min(self, argn, n):
        if not argn:
            return self.f_limits("min", n)
        a, b = self.rv(argn[0]), self.rv(argn[1])
        return z3.If(b < a, b, a)

    def f_zero(self, argn, n):
        return Blob(("rec", "Duration"), {("rep",): z3.RealVal(0)})

    def f_abs(self, argn, n):
        a = self.rv(argn[0])
        return z3.If(a < 0, -a, a)

    def f_move(self, argn, n):
        return self.ev(argn[0])

    def f_forward(self, argn, n):
        return self.ev(argn[0])

    def f_swap(self, argn, n):
        a, b = self.ev(argn[0]), self.ev(argn[1])
        x = self.to_rv(a, self.ety(argn[0]))
        y = self.to_rv(b, self.ety(argn[1]))
        self.write(self.st, a, y)
        self.write(self.st, b, x)

    def f_make_pair(self, argn, n):
        vs = [self.rv(a) for a in argn]
        ty = self.ety(n)
        leaves, objs = {}, {}
        for k, v in enumerate(vs):
            self.set_part(leaves, objs, (str(k),), v, ty[1][k] if ty[0] == "tup" else None)
        return Blob(ty, leaves, objs)

    f_make_tuple = f_make_pair

    def f_tie(self, argn, n):
        return Ext("tie", lvs=[self.ev(a) for a in argn])

    def f_get(self, argn, n):
        raise ToolLimit("std::get")

    def f_iter_swap(self, argn, n):
        p, q = self.rv(argn[0]), self.rv(argn[1])
        a, b = self.deref(p), self.deref(q)
        x, y = self.to_rv(a, a.ty), self.to_rv(b, b.ty)
        self.write(self.st, a, y)
        self.write(self.st, b, x)

    def f_distance(self, argn, n):
        p, q = self.rv(argn[0]), self.rv(argn[1])
        return self.ptr_op("-", q, p)

    def f_next(self, argn, n):
        p = self.rv(argn[0])
        d = self.rv(argn[1]) if len(argn) > 1 and argn[1]["kind"] != "CXXDefaultArgExpr" else iv(1)
        return self.ptr_arith("+", p, d)

    def f_prev(self, argn, n):
        p = self.rv(argn[0])
        d = self.rv(argn[1]) if len(argn) > 1 and argn[1]["kind"] != "CXXDefaultArgExpr" else iv(1)
        return self.ptr_arith("-", p, d)

    def f_strcmp(self, argn, n):
        a, b = self.rv(argn[0]), self.rv(argn[1])
        return z3.If(self.str_eq(a, b), iv(0), iv(1))

    def str_eq(self, a, b):
        """Equality of zero terminated strings; one of them is a literal."""
        inv = {v: k for k, v in self.strings.items()}
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ptr) and x.idx is not None and z3.is_int_value(simp(x.idx)) and simp(x.idx).as_long() in inv:
                txt = inv[simp(x.idx).as_long()].encode("latin-1")
                if isinstance(y, Ptr):
                    if z3.is_int_value(simp(y.idx)) and simp(y.idx).as_long() in inv:
                        return z3.BoolVal(inv[simp(y.idx).as_long()].encode("latin-1") == txt)
                    mem = z3.Const("$chars.[]", z3.ArraySort(I, I))
                    return mk_and([z3.Select(mem, y.idx + i) == c for i, c in enumerate(list(txt) + [0])])
                if isinstance(y, Ext):
                    h = self.externals.get("streq:" + y.kind)
                    if h:
                        return h(self, y, inv[simp(x.idx).as_long()])
        raise ToolLimit("strcmp of two non-literals")

    def f_remove_if(self, argn, n):
        p, q = self.rv(argn[0]), self.rv(argn[1])
        lam = self.ev(argn[2])
        if not isinstance(lam, Lam) or p.rev:
            raise ToolLimit("remove_if")
        it = self.new_root("$it", ("int", 64, False))
        jt = self.new_root("$jt", ("int", 64, False))
        self.write(self.st, it, p.idx)
        self.write(self.st, jt, p.idx)
        ety = p.lv.ty[1]
        rd = lambda lv: self.read_leaf(self.st, lv, (), I)
        # make counters visible to annotations
        self.frame.env["$it"] = it
        self.frame.names.setdefault("$it", []).append("$it")
        self.frame.env["$jt"] = jt
        self.frame.names.setdefault("$jt", []).append("$jt")

        def body():
            e = p.lv.index(rd(it), ety)
            r = self.call_lambda(lam, vals=[e if self.lam_ref(lam) else self.to_rv(e, ety)])
            r = self.to_bool(r)

            def keep():
                v = self.to_rv(p.lv.index(rd(it), ety), ety)
                self.write(self.st, p.lv.index(rd(jt), ety), v)
                self.write(self.st, jt, rd(jt) + 1)
            self.fork(r, lambda: None, keep)

        def inc():
            self.write(self.st, it, rd(it) + 1)
        self.loop(n, lambda: rd(it) < q.idx, body, inc, idx=lambda: (lambda st: self.read_leaf(st, it, (), I, rng=False)),
                  auto=lambda st: z3.And(self.read_leaf(st, it, (), I, rng=False) >= p.idx,
                                         self.read_leaf(st, it, (), I, rng=False) <= z3.If(q.idx >= p.idx, q.idx, p.idx),
                                         self.read_leaf(st, jt, (), I, rng=False) >= p.idx,
                                         self.read_leaf(st, jt, (), I, rng=False) <= self.read_leaf(st, it, (), I, rng=False)),
                  range_lv=p.lv, end=q.idx)
        return Ptr(p.lv, rd(jt))

    def lam_ref(self, lam):
        m = self.lambda_method(lam)
        params = [c for c in m.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
        return self.unit.ty(params[0]["type"])[0] == "ref"

    def f_limits(self, which, n):
        ty = self.ety(n)
        if ty[0] == "int":
            if which == "max":
                return iv(2 ** (ty[1] - (1 if ty[2] else 0)) - 1)
            return iv(-2 ** (ty[1] - 1) if ty[2] else 0)
        raise ToolLimit("numeric_limits")

    # ======================================================================
    # verification of one function
    def verify(self, c):
        node = c.node
        self.contract = c
        self.st = State()
        self.brk = []
        self.throws = []
        self.frame_stack = []
        self.path_stack = [node["id"]]
        self.loop_ids = {}
        self.loop_specs = c.loops
        self.bounds = c.bounds
        self.mode = c.mode
        self.fname = c.name
        self.dry = 0
        self.snaps = {}
        self.loop_views = {}
        self.top = None
        self._known = {}
        self.iter_targets = {}
        fr = Frame(node)
        fr.ret_ty = self.ret_type(node)
        self.frame = fr
        self.top = fr
        self.roots = {}
        if c.setup:
            c.setup(self, fr, node)
        if fr.this is None and node["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and node.get("storageClass") != "static":
            rec = self.unit.qual[node["id"]].rsplit("::", 1)[0]
            fr.this = LV("this", (), ("rec", rec))
        self.roots.setdefault("this", fr.this)
        params = [p for p in node.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
        if not fr.params:
            for k, p in enumerate(params):
                ty = self.unit.ty(p["type"])
                name = "arg%d" % k
                pt = ty[1] if ty[0] == "ref" else ty
                if pt[0] == "opq":
                    h = self.ext_for("param:", pt)
                    if h:
                        b = h(self, name, p)
                        self.bindp(fr, p, b)
                        continue
                if pt[0] == "ptr":
                    if k in c.ptrs:
                        pt = ("ptr", self.unit.parse_type(c.ptrs[k]))
                        lv = LV(name, (), pt)
                        tgt = LV("*" + name, (), pt[1])
                        self.st.mem[(name, ("@",))] = Ptr(tgt)
                        self.roots["*" + name] = tgt
                        self.bindp(fr, p, lv)
                        continue
                    if pt[1] == ("int", 8, True):
                        lv = LV(name, (), pt)
                        self.st.mem[(name, ("@",))] = Ptr(CHARS, z3.Const(name + ".addr", I))
                        self.fact(z3.And(z3.Const(name + ".addr", I) >= 0, z3.Const(name + ".addr", I) < 1000000 - 100000))
                        self.bindp(fr, p, lv)
                        continue
                    if pt[1][0] in ("int", "rec", "bool"):
                        lv = LV(name, (), pt)
                        tgt = LV("*" + name, (), pt[1])
                        self.st.mem[(name, ("@",))] = Ptr(tgt)
                        self.roots["*" + name] = tgt
                        self.bindp(fr, p, lv)
                        continue
                lv = LV(name, (), pt)
                self.roots[name] = lv
                self.bindp(fr, p, lv)
        fr.entry = None
        pre0 = self.st
        fr.entry = self.st.copy()
        ctx = SpecCtx(self, self.st, fr, fr.entry)
        # scalar parameter ranges
        for b in fr.params:
            if isinstance(b, LV) and b.ty and b.ty[0] == "int":
                self.range_fact(self.read_leaf(self.st, b, (), I), b.ty)
        if c.requires:
            for nm, f in c.requires(ctx):
                self.fact(f)
        if c.lemmas:
            for f in c.lemmas(ctx):
                self.fact(f)
        if c.defs:
            for f in c.defs(ctx):
                self.fact(f)
        if c.induct:
            self.induction(c.induct(ctx))
        fr.entry = self.st.copy()
        self.pre_facts = [f for _, f in self.st.pc]
        body = [x for x in node.get("inner", ()) if x.get("kind") == "CompoundStmt"]
        if not body:
            raise ToolLimit("no body: " + c.name)
        n0 = len(self.obls)
        try:
            if node["kind"] == "CXXConstructorDecl":
                self.init_members(fr.this, fr.this.ty, node)
            self.stmt(body[0])
            fr.returns.append((self.st, None))
        except Dead:
            pass
        # frame condition
        if c.paths and c.ensures:
            for k, (st, v) in enumerate(list(fr.returns)):
                self.st = st.copy()
                for nm, f in c.ensures(SpecCtx(self, self.st, fr, fr.entry, v)):
                    self.oblige("post.%s.return%d" % (nm, k), f, "post")
        if fr.returns:
            self.st, res = self.merge_many(fr.returns)
            if c.modifies is not None:
                self.check_frame(c, fr, ctx)
            post = SpecCtx(self, self.st, fr, fr.entry, res)
            if c.induct_post:
                self.induction(c.induct_post(post))
            for nm, premises, conclusion in (c.rules(post) if c.rules else ()):
                self.oblige_cuts(premises, "induction.%s." % nm)
                self.fact(conclusion)
            self.oblige_cuts(c.post_cuts(post) if c.post_cuts else (), "end.")
            if c.ensures and not c.paths:
                for nm, f in c.ensures(post):
                    self.oblige("post.%s" % nm, f, "post")
            self.final_facts = [f for _, f in self.st.pc]
        else:
            self.final_facts = None
            if c.ensures:
                raise ToolLimit("no path of the function returns")
        for st, what in self.throws:
            self.st = st
            t = SpecCtx(self, st, fr, fr.entry, None, what)
            if c.ensures_throw:
                for nm, f in c.ensures_throw(t):
                    self.oblige("throw.%s" % nm, f, "throw")
        return self.obls[n0:]

    def induction(self, items):
        """Facts for all k in [lo, hi) proved by strong induction."""
        for nm, lo, hi, P in items:
            k, j = z3.Int(fresh_name("ind")), z3.Int(fresh_name("j"))
            hyp = z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < k), P(j)))
            self.oblige("induction.%s" % nm, z3.Implies(z3.And(lo <= k, k < hi, hyp), P(k)), "lemma")
            self.fact(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), P(j))))

    def bindp(self, fr, p, b):
        fr.env[p["id"]] = b
        fr.names.setdefault(p.get("name", ""), []).append(p["id"])
        fr.params.append(b)

    def check_frame(self, c, fr, ctx):
        mods = c.modifies(ctx) if callable(c.modifies) else list(c.modifies)
        keys = set()
        for m in mods:
            keys |= self.resolve_mod(fr, m)
        bad = []
        for k in self.st.log:
            root = k[0]
            if isinstance(root, str) and "#" in root:
                continue
            if root.startswith("static_"):
                continue
            # by-value parameters are local
            local = False
            params = [p for p in c.node.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
            for kk, p in enumerate(params):
                if root == "arg%d" % kk and self.unit.ty(p["type"])[0] != "ref":
                    local = True
            if local:
                continue
            if k in keys or k[1] and k[1][-1] == "@":
                continue
            old = fr.entry.mem.get(k)
            new = self.st.mem.get(k)
            if old is None and is_z3(new):
                old = self.init_leaf(k[0], k[1], new.sort()) if k[0] != "ghost" else self.ghost_inits[k[1][0]]
            if is_z3(new) and is_z3(old):
                self.oblige("frame.%s.%s" % (root, ".".join(k[1])), new == old, "frame")
            else:
                bad.append(k)
        if bad:
            raise ToolLimit("frame of unmodelled objects %s" % bad)


def hash_name(s):
    h = 7
    for c in s:
        h = (h * 131 + ord(c)) % 1000000007
    return h
