"""Loading of clang ASTs: the program text that is verified is extracted from
/repo's working tree on every run by running clang on the real source files."""
import json
import re
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("CXXWP_REPO", "/repo")
CLANG = next((p for p in ("/usr/bin/clang++-18", "/usr/bin/clang++", "clang++") if os.path.exists(p) or "/" not in p))


class ToolLimit(Exception):
    """The verifier cannot handle a construct; the obligation is undecided."""


def split_top(s, sep=","):
    out, depth, cur = [], 0, ""
    for i, c in enumerate(s):
        if c in "<([{":
            depth += 1
        elif c in ">)]}":
            depth -= 1
        if c == sep and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


# ---------------------------------------------------------------------------
# types
INTS = {
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False),
    "int": (32, True), "unsigned int": (32, False), "unsigned": (32, False),
    "long": (64, True), "unsigned long": (64, False),
    "long long": (64, True), "unsigned long long": (64, False),
    "size_t": (64, False), "std::size_t": (64, False), "uint32_t": (32, False), "int32_t": (32, True),
    "uint64_t": (64, False), "int64_t": (64, True), "uint8_t": (8, False), "std::ptrdiff_t": (64, True),
    "ptrdiff_t": (64, True), "wchar_t": (32, True),
    # well known aliases whose desugared form clang does not always print
    "literal_t": (32, True), "Clingo::literal_t": (32, True), "id_t": (32, False), "Clingo::id_t": (32, False),
    "vertex_t": (32, False), "edge_t": (32, False), "level_t": (32, False), "index_t": (32, False),
    "ClingoDL::vertex_t": (32, False), "ClingoDL::edge_t": (32, False), "ClingoDL::level_t": (32, False),
    "index_type": (32, False), "size_type": (64, False), "difference_type": (64, True),
}


class Unit:
    """One translation unit."""

    def __init__(self, source, filters=("ClingoDL",), flags=()):
        self.source = source
        self.decls = {}       # id -> node
        self.qual = {}        # id -> qualified name
        self.parent = {}      # id -> parent node
        self.records = {}     # qualified name -> record node (with definition)
        self.instances = {}   # instances of alias templates -> types
        self.aliases = {}     # name of a type alias -> types
        self.enums = {}       # qualified name -> enum node
        self.funcs = []       # (qualname, node) with bodies
        self.defs = {}        # decl id -> node with body
        self.enum_vals = {}   # enum constant id -> int
        self.enum_of = {}
        self._fields = {}
        path = source if os.path.isabs(source) else os.path.join(REPO, source)
        base = [CLANG, "-std=c++17", "-I", os.path.join(REPO, "libclingo-dl"), "-I",
                os.path.join(REPO, "libclingo-dl/src"), "-I", os.path.join(REPO, "app/src"), "-I", os.path.join(REPO, "app/lib"), *flags, "-fsyntax-only"]
        # Declarations are identified by addresses. With several filters (of equal length, so that the
        # runs allocate the same way) the runs must agree on them, hence no address space randomisation.
        if len({len(f) for f in filters}) > 1:
            raise ToolLimit("filters must have equal length")
        pre = ["setarch", "-R"] if len(filters) > 1 else []

        def run(flt):
            return subprocess.run(pre + base + ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + flt, path],
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        with ThreadPoolExecutor(4) as pool:
            runs = list(pool.map(run, filters))
        for p in runs:
            if p.returncode != 0:
                raise ToolLimit("clang failed on %s: %s" % (source, p.stderr[:2000]))
            self._load(p.stdout)
        self._resolve()

    def _load(self, text):
        dec = json.JSONDecoder()
        i, n = 0, len(text)
        while i < n:
            while i < n and text[i].isspace():
                i += 1
            if i >= n:
                break
            if text.startswith("Dumping", i):
                i = text.index("\n", i)
                continue
            doc, i = dec.raw_decode(text, i)
            if doc.get("id") in self.decls:
                continue
            self._index(doc, "", None)

    @staticmethod
    def targs(node):
        out = []
        for c in node.get("inner", ()):
            if c.get("kind") == "TemplateArgument":
                if "type" in c:
                    out.append(c["type"].get("desugaredQualType", c["type"]["qualType"]))
                elif "value" in c:
                    v = c["value"]
                    out.append(str(v))
                elif c.get("isPack"):
                    out.append("pack")
                else:
                    out.append("?")
        return out

    def _index(self, node, scope, parent):
        kind = node.get("kind")
        if kind is None:
            return
        nid = node.get("id")
        name = node.get("name", "")
        here = scope
        if kind in ("NamespaceDecl",):
            if name == "":
                name = "(anonymous namespace)"
            here = scope + "::" + name if scope else name
            if node.get("isInline"):
                pass
        elif kind in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            q = name
            if kind == "ClassTemplateSpecializationDecl":
                q = name + "<" + ", ".join(self.targs(node)) + ">"
            pid = node.get("parentDeclContextId")
            if pid and pid in self.qual and parent is None:
                scope = self.qual[pid]
            here = scope + "::" + q if scope else q
            self.qual[nid] = here
            self.decls[nid] = node
            if node.get("completeDefinition") or any(c.get("kind") == "FieldDecl" for c in node.get("inner", ())):
                self.records.setdefault(here, node)
                for c in node.get("inner", ()):
                    if c.get("kind") == "DefinitionData":
                        pass
        elif kind == "EnumDecl":
            here = scope + "::" + name if scope else name
            self.enums[here] = node
            self.qual[nid] = here
            self.decls[nid] = node
            val = -1
            for c in node.get("inner", ()):
                if c.get("kind") == "EnumConstantDecl":
                    v = self._const(c)
                    val = v if v is not None else val + 1
                    self.enum_vals[c["id"]] = val
                    self.enum_of[c["id"]] = here + "::" + c["name"]
            return
        elif kind in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            pid = node.get("parentDeclContextId")
            if pid and pid in self.qual and "previousDecl" in node:
                scope = self.qual[pid]
            q = scope + "::" + name if scope else name
            self.qual[nid] = q
            self.decls[nid] = node
            self.parent[nid] = parent
            if any(c.get("kind") == "CompoundStmt" for c in node.get("inner", ())) or node.get("explicitlyDefaulted"):
                self.funcs.append((q, node))
                self.defs[nid] = node
            here = q
            # function bodies may contain local records and lambdas
        elif kind in ("VarDecl", "FieldDecl", "ParmVarDecl"):
            self.decls[nid] = node
            self.qual[nid] = scope + "::" + name
            if parent is not None:
                self.parent[nid] = parent
        elif kind in ("TypeAliasDecl", "TypedefDecl"):
            t = node.get("type", {})
            t = t.get("desugaredQualType") or t.get("qualType", "")
            if "<int>" in scope or ("<" not in scope and "type-parameter" not in t and not re.search(r"\b(T|value_t)\b", t)):
                self.aliases.setdefault(name, {}).setdefault(t, "<int>" in scope)
        elif nid and kind.endswith("Decl"):
            self.decls.setdefault(nid, node)
        if kind == "VarDecl":
            # instances of alias templates
            t = node.get("type", {})
            q, d = t.get("qualType", ""), t.get("desugaredQualType", "")
            if d and q.endswith(">") and "<" in q and "std::" not in q and "iterator" not in q:
                self.instances.setdefault(q.replace("const ", ""), set()).add(d)
        for c in node.get("inner", ()):
            if "kind" in c:
                self._index(c, here, node)

    def _const(self, node):
        for c in node.get("inner", ()):
            if c.get("kind") == "ConstantExpr" and "value" in c:
                return int(c["value"])
            if c.get("kind") == "IntegerLiteral":
                return int(c["value"])
            r = self._const(c)
            if r is not None:
                return r
        return None

    def _resolve(self):
        # link declarations to out-of-line definitions
        for q, node in self.funcs:
            p = node.get("previousDecl")
            while p:
                self.defs[p] = node
                if p in self.decls:
                    p = self.decls[p].get("previousDecl")
                else:
                    p = None

    # -- lookup -----------------------------------------------------------
    def find(self, pattern, ntargs=None):
        """All functions with bodies whose qualified name (without the leading
        ClingoDL::) equals the given pattern; template arguments may restrict."""
        out = []
        pattern = pattern.replace("ClingoDL::", "")
        for q, node in self.funcs:
            qq = q.replace("(anonymous namespace)::", "")
            if qq.startswith("ClingoDL::"):
                qq = qq[len("ClingoDL::"):]
            if qq.replace("ClingoDL::", "") == pattern and not self.is_dependent(node):
                if ntargs is not None:
                    ta = self.targs(node)
                    if [t.replace("(anonymous namespace)::", "").replace("ClingoDL::", "") for t in ta[:len(ntargs)]] != list(ntargs):
                        continue
                out.append(node)
        return out

    def find_decls(self, pattern):
        """Declarations without body of a function of the given name."""
        pattern = pattern.replace("ClingoDL::", "")
        out = []
        for i, node in self.decls.items():
            if node.get("kind") in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                q = self.qual.get(i, "").replace("(anonymous namespace)::", "").replace("ClingoDL::", "")
                if q == pattern:
                    out.append(node)
        return out

    def is_dependent(self, node):
        par = self.parent.get(node["id"])
        # un-instantiated templates carry no template arguments
        if par is not None and par.get("kind") == "FunctionTemplateDecl":
            if not self.targs(node):
                return True
        q = self.qual[node["id"]]
        # member of the class template pattern
        scope = q.rsplit("::", 1)[0]
        return self._dep_scope(node)

    def _dep_scope(self, node):
        stack = [node]

        def dep(n):
            k = n.get("kind", "")
            if k in ("CXXDependentScopeMemberExpr", "DependentScopeDeclRefExpr", "CXXUnresolvedConstructExpr",
                     "UnresolvedLookupExpr", "UnresolvedMemberExpr"):
                return True
            t = n.get("type", {})
            if t.get("qualType") == "<dependent type>":
                return True
            if k == "LambdaExpr" and any(c.get("kind") == "FunctionTemplateDecl" for r in n.get("inner", ()) for c in r.get("inner", ())):
                return False    # generic lambda
            return any(dep(c) for c in n.get("inner", ()))
        return dep(node)

    # -- types --------------------------------------------------------------
    def ty(self, tnode):
        if tnode is None:
            return ("void",)
        return self.parse_type(tnode.get("desugaredQualType") or tnode["qualType"], tnode.get("qualType"))

    def parse_type(self, s, alias=None):
        s = s.strip()
        if s.endswith("&&"):
            return ("ref", self.parse_type(s[:-2]))
        if s.endswith("&"):
            return ("ref", self.parse_type(s[:-1]))
        while True:
            t = s
            for w in ("const ", "volatile ", "struct ", "class ", "enum ", "typename "):
                if s.startswith(w):
                    s = s[len(w):].strip()
            for w in (" const", " volatile", " noexcept"):
                if s.endswith(w):
                    s = s[:-len(w)].strip()
            if s == t:
                break
        if s.endswith("*const"):
            s = s[:-5].strip()
        if s.endswith("*") or s.endswith("*const") or s.endswith("* const"):
            inner = s[:s.rindex("*")].strip()
            return ("ptr", self.parse_type(inner))
        if s in INTS:
            return ("int",) + INTS[s]
        if s == "bool" or s == "_Bool":
            return ("bool",)
        if s in ("double", "float"):
            return ("double",)
        if s in ("void", "auto"):
            return ("void",)
        if s in ("std::nullptr_t", "nullptr_t"):
            return ("ptr", ("void",))
        if s.endswith("]") and "[" in s and "(" not in s:
            k = s.rindex("[")
            n = s[k + 1:-1]
            return ("array", self.parse_type(s[:k]), int(n) if n.isdigit() else None)
        for pre in ("std::vector<", "vector<"):
            if s.startswith(pre) and s.endswith(">"):
                a = split_top(s[len(pre):-1])
                return ("vec", self.parse_type(a[0]))
        for pre in ("std::pair<", "pair<", "std::tuple<", "tuple<"):
            if s.startswith(pre) and s.endswith(">"):
                a = split_top(s[len(pre):-1])
                return ("tup", tuple(self.parse_type(x) for x in a))
        for pre in ("std::optional<", "optional<"):
            if s.startswith(pre) and s.endswith(">"):
                return ("opt", self.parse_type(split_top(s[len(pre):-1])[0]))
        for pre in ("std::reverse_iterator<", "reverse_iterator<"):
            if s.startswith(pre):
                return ("iter", True)
        for pre in ("__gnu_cxx::__normal_iterator<", "__normal_iterator<", "std::__normal_iterator<", "Clingo::ArrayIterator<Clingo::AST::"):
            if s.startswith(pre):
                return ("iter", False)
        for pre in ("std::unordered_map<", "std::unordered_multimap<", "std::map<"):
            if s.startswith(pre) and s.endswith(">"):
                a = split_top(s[len(pre):-1])
                return ("map" if "multi" not in pre else "mmap", self.parse_type(a[0]), self.parse_type(a[1]))
        if s in ("std::string", "std::basic_string<char>", "std::__cxx11::basic_string<char>", "string"):
            return ("vec", ("int", 8, True), "string")
        if s.startswith("std::chrono::duration<double") or s.startswith("duration<double") or s in ("Duration", "ClingoDL::Duration"):
            return ("rec", "Duration")
        if s.startswith("(lambda at"):
            return ("lambda", s)
        if s.startswith("std::function<"):
            return ("opq", s)
        r = self.find_record(s)
        if r is not None:
            return ("rec", r)
        e = self.find_enum(s)
        if e is not None:
            return ("enum", e)
        if "(" in s and s.endswith(")") and "anonymous" not in s:
            return ("func", s)
        m = re.match(r"^std::tuple_element<(\d+), (.*)>::type$", s)
        if m:
            t = self.parse_type(m.group(2))
            if t[0] == "tup" and int(m.group(1)) < len(t[1]):
                return t[1][int(m.group(1))]
        a = self.instances.get(s, ())
        if len(a) == 1:
            return self.parse_type(list(a)[0])
        a = self.aliases.get(s.rsplit("::", 1)[-1])
        if a is not None and "<" not in s:
            a = [t for t in a if a[t]] or list(a)   # members of the instantiation for int come first
            if len(a) != 1 or a[0] == s:
                return ("opq", s)
            t = self.parse_type(a[0])
            if t[0] != "opq":
                return t
        return ("opq", s)

    def find_record(self, s):
        if s in self.records:
            return s
        member = [k for k in self.records if k.endswith("<int>::" + s)]
        if len(member) == 1:        # members of templates whose definition is outside of the class
            return member[0]
        if "ClingoDL::" + s in self.records:
            return "ClingoDL::" + s
        t = s.replace(" ", "")
        hits = [k for k in self.records if k.replace(" ", "") == t or k.replace(" ", "").endswith("::" + t)]
        if len(set(hits)) > 1:      # local records of instances of a template
            hits = [k for k in hits if "<int>" in k]
        if len(set(hits)) == 1 and not s.startswith("std::"):
            return hits[0]
        return None

    def find_enum(self, s):
        for k in self.enums:
            if k == s or k.endswith("::" + s) and not s.startswith("std::"):
                return k
        if s.startswith("Clingo::") and (s.endswith("Type") or s.endswith("TruthValue") or s.endswith("Mode") or s.endswith("Sign") or s.endswith("Attribute")):
            return s
        if s.startswith("clingo_") and not s.endswith("_t"):
            return None
        return None

    def fields(self, rec):
        """name -> (type, node) including bases."""
        if rec in self._fields:
            return self._fields[rec]
        out = {}
        if rec == "Duration":
            out["rep"] = (("double",), None)
            self._fields[rec] = out
            return out
        node = self.records.get(rec)
        if node is None:
            raise ToolLimit("unknown record " + rec)
        for b in node.get("bases", ()):
            bt = self.ty(b["type"])
            if bt[0] == "rec":
                out.update(self.fields(bt[1]))
        anon = 0
        last = None
        for c in node.get("inner", ()):
            if c.get("kind") == "CXXRecordDecl" and not c.get("name"):
                last = c
            if c.get("kind") == "FieldDecl":
                n = c.get("name")
                if n is None and last is not None:
                    # members of an anonymous union belong to the enclosing record
                    for m in last.get("inner", ()):
                        if m.get("kind") == "FieldDecl" and m.get("name"):
                            out[m["name"]] = (self.ty(m["type"]), m)
                    continue
                if n is None:
                    n = "_anon%d" % anon
                    anon += 1
                out[n] = (self.ty(c["type"]), c)
        self._fields[rec] = out
        return out
