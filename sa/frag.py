"""Comparison of two versions of one function edit by edit.

The two syntax trees are aligned statement by statement; what differs is cut out as pairs of fragments. Each fragment is
interpreted on its own, the variables it uses being unknown values that both versions share at that point, under the conditions
that both versions test on the way to it. A fragment pair is compared like two functions whose results are the variables that
are still used afterwards, and whose outcomes are the ways out of the fragment.
"""
import ast
import copy
import math
import operator

from .compare import Ctx, DEF, EQ, TAG, UND, Diff, cmp_paths
from .interp import Budget, Unsupported
from .terms import *  # noqa
from .world import Func

OPERATIONS = {"rstrip", "lstrip", "sorted", "reversed", "casefold", "title", "removesuffix", "removeprefix", "rpartition", "partition", "find", "rfind",
              "escape", "nunique", "value_counts", "cumsum", "cumprod", "cummax", "cummin", "median", "std", "prod", "basename", "dirname", "abspath",
              "realpath", "set", "frozenset", "sum", "min", "max", "abs", "round", "trunc", "sort_index", "reset_index", "rename", "nlargest", "nsmallest"}
OPERATIONS |= {x for x in dir(operator) + dir(math) if not x.startswith("_")}
BLOCKS = ("body", "orelse", "finalbody")
READING = {"items", "keys", "values", "get", "get_indexer", "astype", "index", "count", "copy", "any", "all", "eq", "to_numpy", "startswith", "endswith", "split"}
PURE = {"len", "isinstance", "min", "max", "int", "bool", "abs", "type"}


class Clean(ast.NodeTransformer):
    """Drops what has no meaning, and renames."""

    def __init__(self, ren):
        self.ren = ren

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return None
        return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)

    def visit_Expr(self, n):
        self.generic_visit(n)
        return None if isinstance(n.value, (ast.Constant, ast.Name)) else n

    def visit_Pass(self, n):
        return None

    def visit_arg(self, n):
        n.annotation = None
        n.arg = self.ren.get(n.arg, n.arg)
        return n

    def visit_Name(self, n):
        n.id = self.ren.get(n.id, n.id)
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        v = n.value
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(v, ast.Name) and v.id == n.targets[0].id:
            return None
        return n

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        body, orelse = [x for x in n.body if not isinstance(x, ast.Pass)], [x for x in n.orelse if not isinstance(x, ast.Pass)]
        t = n.test
        if orelse and (not body or negative(t)):
            n.test, n.body, n.orelse = (t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else positive(t)), orelse, body
        return n


FLIP = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq}


def negative(t):
    return isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) or isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in FLIP


def positive(t):
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in FLIP:
        return ast.copy_location(ast.Compare(t.left, [FLIP[type(t.ops[0])]()], t.comparators), t)
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)


def clean(fn, ren):
    n = Clean(ren).visit(copy.deepcopy(fn))
    for x in ast.walk(n):
        for b in BLOCKS:
            v = getattr(x, b, None)
            if isinstance(v, list) and not v and b == "body":
                x.body = [ast.Pass()]
    return ast.fix_missing_locations(n)


def stored(nodes):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in out:
                out.append(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name not in out:
                out.append(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name and x.name not in out:
                out.append(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out.extend((a.asname or a.name).split(".")[0] for a in x.names)
    inner = comp_targets(nodes)
    return [x for x in out if x not in inner]


def stored_here(n):
    """Names that a statement itself binds, not those in it."""
    if not isinstance(n, (ast.stmt, ast.NamedExpr, ast.ExceptHandler)):
        return set()
    out = set()
    for f, v in ast.iter_fields(n):
        if f in ("body", "orelse", "finalbody", "handlers"):
            continue
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, ast.AST) and not isinstance(x, ast.stmt):
                out |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del))}
    if isinstance(n, ast.NamedExpr):
        return {n.target.id}
    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
        out.add(n.name)
    return out


def comp_targets(nodes):
    """Names bound by comprehensions and lambdas only."""
    c, o = set(), set()
    for n in nodes:
        inside = set()
        for x in ast.walk(n):
            if isinstance(x, ast.comprehension):
                for y in ast.walk(x.target):
                    inside.add(id(y))
                    if isinstance(y, ast.Name):
                        c.add(y.id)
            elif isinstance(x, ast.Lambda):
                c.update(a.arg for a in x.args.args)
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inside:
                o.add(x.id)
    return c - o


def loaded(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
    return out - comp_targets(nodes)


def fn_locals(fn):
    a = fn.args
    ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
    return ps + [x for x in stored(fn.body) if x not in ps]


class Edit:
    def __init__(self, chain, kind, a, s):
        self.chain, self.kind, self.a, self.s = chain, kind, a, s  # chain: [(la, ls, ia, ja, is, js, branch info)]
        self.level, self.diffs = None, []


def lcs(da, ds):
    n, m = len(da), len(ds)
    L = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            L[i][j] = max(L[i + 1][j], L[i][j + 1])
            if da[i] == ds[j]:
                L[i][j] = max(L[i][j], L[i + 1][j + 1] + 1 + len(da[i]))
    i = j = 0
    out = []
    while i < n and j < m:
        if da[i] == ds[j] and L[i][j] == L[i + 1][j + 1] + 1 + len(da[i]):
            out.append((i, j))
            i += 1
            j += 1
        elif L[i + 1][j] >= L[i][j + 1]:
            i += 1
        else:
            j += 1
    return out


def compatible(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, ast.Assign):
        return ast.dump(ast.Tuple(x.targets)) == ast.dump(ast.Tuple(y.targets))
    if isinstance(x, ast.AugAssign):
        return ast.dump(x.target) == ast.dump(y.target)
    if isinstance(x, ast.For):
        return ast.dump(x.target) == ast.dump(y.target)
    if isinstance(x, ast.With):
        return ast.dump(ast.List([i.context_expr for i in x.items])) == ast.dump(ast.List([i.context_expr for i in y.items])) and alike(x, y)
    if isinstance(x, ast.Try):
        return len(x.handlers) == len(y.handlers) and [ast.dump(h.type) if h.type else "" for h in x.handlers] == [ast.dump(h.type) if h.type else "" for h in y.handlers]
    if isinstance(x, ast.If):
        return ast.dump(x.test) == ast.dump(y.test) or alike(x, y)
    return not isinstance(x, (ast.FunctionDef, ast.ClassDef))


def alike(x, y):
    """Whether compound statements share most of their statements."""
    def leaves(n):
        out = []
        for z in ast.walk(n):
            if isinstance(z, ast.stmt) and not any(hasattr(z, b) for b in BLOCKS):
                out.append(ast.dump(z))
        return out
    lx, ly = leaves(x), leaves(y)
    both = 0
    for z in list(lx):
        if z in ly:
            ly.remove(z)
            both += 1
    if len(lx) == 1 and len(ly) <= 1:
        return True
    return both * 2 >= max(len(lx), both + len(ly))


def align(la, ls, chain, out):
    da, ds = [ast.dump(x) for x in la], [ast.dump(x) for x in ls]
    u0 = v0 = 0
    for u1, v1 in lcs(da, ds) + [(len(la), len(ls))]:
        gap(la, ls, u0, u1, v0, v1, chain, out)
        u0, v0 = u1 + 1, v1 + 1


def gap(la, ls, u0, u1, v0, v1, chain, out):
    """Statements u0..u1 of one list stand for v0..v1 of the other."""
    def nested(u, v):
        return isinstance(la[u], (ast.If, ast.For, ast.While, ast.Try, ast.With)) and compatible(la[u], ls[v]) and alike(la[u], ls[v])
    while u0 < u1 and v0 < v1 and u1 - u0 != v1 - v0:
        if nested(u1 - 1, v1 - 1):
            u1, v1 = u1 - 1, v1 - 1
            pair(la, ls, u1, v1, chain, out)
        elif nested(u0, v0):
            pair(la, ls, u0, v0, chain, out)
            u0, v0 = u0 + 1, v0 + 1
        else:
            break
    if u0 == u1 and v0 == v1:
        return
    if u1 - u0 == v1 - v0 and all(compatible(la[u], ls[v]) for u, v in zip(range(u0, u1), range(v0, v1))):
        for u, v in zip(range(u0, u1), range(v0, v1)):
            pair(la, ls, u, v, chain, out)
        return
    out.append(Edit(chain + [(la, ls, u0, u1, v0, v1, None)], "block", la[u0:u1], ls[v0:v1]))


def pair(la, ls, u, v, chain, out):
    x, y = la[u], ls[v]

    def sub(branch, bx, by):
        align(bx, by, chain + [(la, ls, u, u + 1, v, v + 1, branch)], out)

    def test(ex, ey, how):
        if ast.dump(ex) != ast.dump(ey):
            out.append(Edit(chain + [(la, ls, u, u + 1, v, v + 1, None)], how, [ex], [ey]))
    if isinstance(x, (ast.If, ast.While)):
        test(x.test, y.test, "test")
        sub("then" if isinstance(x, ast.If) else "while", x.body, y.body)
        sub("else" if isinstance(x, ast.If) else "out", x.orelse, y.orelse)
    elif isinstance(x, ast.For):
        test(x.iter, y.iter, "iter")
        sub("for", x.body, y.body)
        sub("out", x.orelse, y.orelse)
    elif isinstance(x, ast.With):
        sub("with", x.body, y.body)
    elif isinstance(x, ast.Try):
        sub("try", x.body, y.body)
        for hx, hy in zip(x.handlers, y.handlers):
            sub("handler", hx.body, hy.body)
        sub("tryelse", x.orelse, y.orelse)
        sub("finally", x.finalbody, y.finalbody)
    else:
        out.append(Edit(chain + [(la, ls, u, u + 1, v, v + 1, None)], "block", [x], [y]))


def exits(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Outs(ast.NodeTransformer):
    """Ways out of a fragment as results."""

    def __init__(self, outs):
        self.outs, self.loops = outs, 0

    def result(self, tag, extra=()):
        return ast.Return(ast.Tuple([ast.Constant(tag)] + list(extra) + [ast.Name(x, ast.Load()) for x in self.outs], ast.Load()))

    def visit_Return(self, n):
        return ast.Return(ast.Tuple([ast.Constant("__return__"), n.value or ast.Constant(None)], ast.Load()))

    def visit_Continue(self, n):
        return n if self.loops else self.result("__continue__")

    def visit_Break(self, n):
        return n if self.loops else self.result("__break__")

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n

    def loop(self, n):
        self.loops += 1
        n.body = [self.visit(x) for x in n.body]
        self.loops -= 1
        n.orelse = [self.visit(x) for x in n.orelse]
        return n

    visit_For = visit_While = loop


class Fragments:
    def __init__(self, E, q):
        self.E, self.q = E, q
        self.rewritten = False
        self.fa, self.fs = E.wa.funcs[q], E.ws.funcs[q]
        al = E.alias.get(q, {})
        self.A = clean(self.fa.node, al)
        self.S = clean(self.fs.node, {})
        la, ls = fn_locals(self.A), fn_locals(self.S)
        oa, os_ = [x for x in la if x not in ls], [x for x in ls if x not in la]
        if oa and len(oa) == len(os_):
            ren = dict(zip(oa, os_))
            b = Clean(ren).visit(copy.deepcopy(self.A))
            if size(self.edits_of(b, self.S)) < size(self.edits_of(self.A, self.S)):
                self.A = b
        self.ok = [ast.dump(x) for x in params(self.A)] == [ast.dump(x) for x in params(self.S)]
        self.names = set(fn_locals(self.A)) | set(fn_locals(self.S))
        free = enclosing(E.wa, q) | enclosing(E.ws, q)
        la, ls = set(fn_locals(self.A)), set(fn_locals(self.S))
        self.own = (la - ls - free, ls - la - free)  # variables of one version only
        self.names |= free
        self.free = free
        self.captured = set()
        for n in (self.A, self.S):
            for z in ast.walk(n):
                if isinstance(z, (ast.FunctionDef, ast.Lambda)) and z is not n:
                    self.captured |= loaded([z])
        self.env = self.same_env()

    def edits_of(self, A, S):
        out = []
        align(A.body, S.body, [], out)
        return out

    def same_env(self):
        """Whether global names mean the same in both versions."""
        E = self.E
        ga = {x.id for x in ast.walk(self.A) if isinstance(x, ast.Name)} - self.names
        gs = {x.id for x in ast.walk(self.S) if isinstance(x, ast.Name)} - self.names
        for n in ga & gs:
            x, y = E.wa.resolve(self.fa.module, n), E.ws.resolve(self.fs.module, n)
            if x != y:
                return False
            if x and x.startswith("oups.") and x not in E.ws.funcs and x not in E.ws.classes:
                cx, cy = E.wa.constant(x), E.ws.constant(x)
                if (cx is None) != (cy is None):
                    return False
                if cx and cx[1] is not None and cy[1] is not None and ast.dump(cx[1]) != ast.dump(cy[1]):
                    return False
        return True

    # ------------------------------------------------------------ one edit
    def context(self, chain):
        """Conditions and values that both versions share on the way to the fragment."""
        pre = []
        for lv, (la, ls, ia, ja, is_, js, branch) in enumerate(chain):
            last = lv == len(chain) - 1
            # statements before, equal on both sides
            before = []
            i, j = ia - 1, is_ - 1
            while i >= 0 and j >= 0 and ast.dump(la[i]) == ast.dump(ls[j]):
                before.append(la[i])
                i -= 1
                j -= 1
            before.reverse()
            for st in before:
                w = set(stored([st]))
                pre = [(c, x) for c, x in pre if not (w & c)]
                if isinstance(st, ast.If) and exits(st.body) and not st.orelse and plain(st.test) and not stored([st.test]):
                    pre.append((loaded([st.test]), ast.If(st.test, [ast.Return(ast.Constant("__skip__"))], [])))
                elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and plain(st.value) \
                        and st.targets[0].id not in loaded([st.value]):
                    pre.append((loaded([st.value]) | {st.targets[0].id}, st))
            if not last:
                x, y = la[ia], ls[is_]
                w = set(stored([x])) | set(stored([y]))
                if branch not in ("then", "else", "with", "try"):
                    pre = [(c, z) for c, z in pre if not (w & c)]
                if branch in ("then", "else", "while") and ast.dump(x.test) == ast.dump(y.test) and plain(x.test) and not stored([x.test]):
                    t = x.test if branch == "else" else ast.UnaryOp(ast.Not(), x.test)
                    pre.append((loaded([x.test]), ast.If(t, [ast.Return(ast.Constant("__skip__"))], [])))
        return [x for c, x in pre]

    def live(self, e):
        """Variables a fragment stores and that may be read after it, in either version."""
        out = []
        for x in sorted((set(stored(e.a + e.s)) & self.names) - self.own[0] - self.own[1]):
            if x in self.captured or any(live_after(e.chain, side, x) for side in (0, 1)):
                out.append(x)
        return out

    def unbound(self, e):
        """Variables that have no value yet where the fragment starts."""
        seen = {x.arg for fn in (self.A, self.S) for x in params(fn)} | self.free
        for k, (la, ls, ia, ja, is_, js, branch) in enumerate(e.chain):
            seen |= set(stored(la[:ia] + ls[:is_]))
            if k < len(e.chain) - 1:
                x, y = la[ia], ls[is_]
                if branch in ("then", "else", "with") :
                    hs = [z.test for z in (x, y) if hasattr(z, "test")] + [i for z in (x, y) for i in getattr(z, "items", ())]
                    seen |= set(stored(hs))
                else:
                    seen |= set(stored([x, y]))
        return self.names - seen

    def reads_own(self, e):
        """Variables of one version only whose values from before the edit are read in it."""
        return tuple({x for x in own if x in loaded(ns) and (e.kind != "block" or "R" in seq(ns, x))} for own, ns in zip(self.own, (e.a, e.s)))

    def definition(self, side, x, depth=0):
        """Assignments that give such a variable its value, if what it is made of stays the same all along."""
        fn = (self.A, self.S)[side]
        ds = [n for n in ast.walk(fn) if x in stored_here(n)]
        if len(ds) != 1 or not isinstance(ds[0], ast.Assign) or len(ds[0].targets) != 1 or not isinstance(ds[0].targets[0], ast.Name) or depth > 3:
            return None
        v = ds[0].value
        if not plain(v) or any(isinstance(n, ast.Call) and n.func.id not in ("isinstance", "int", "bool", "type") for n in ast.walk(v)):
            return None
        out = []
        ps = {p.arg for p in params(fn)}
        for y in sorted(loaded([v])):
            w = [n for n in ast.walk(fn) if y in stored_here(n)]
            if len(w) > (0 if y in ps else 1):
                if any(n.lineno >= ds[0].lineno for n in w) or any(y in stored(n.body) for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While))):
                    return None
            if y in self.own[side]:
                d = self.definition(side, y, depth + 1)
                if d is None:
                    return None
                out += d
        return out + [ds[0]]

    def settled(self, side, ds, e):
        """Whether what the definitions read of containers and objects is not changed before the edit."""
        roots = set()
        for d in ds:
            for n in ast.walk(d.value):
                if isinstance(n, (ast.Subscript, ast.Attribute)) or isinstance(n, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in n.ops):
                    roots |= loaded([n])
        if not roots:
            return True
        ns = (e.a, e.s)[side]
        lo, hi = min(d.lineno for d in ds), max(n.lineno for n in ns)
        fn = (self.A, self.S)[side]
        for lp in ast.walk(fn):
            if isinstance(lp, (ast.For, ast.While)) and lp.lineno <= hi and any(x is y for x in ast.walk(lp) for y in ns):
                hi = max(hi, max(getattr(x, "lineno", 0) for x in ast.walk(lp)))
        for n in ast.walk(fn):
            if not lo <= getattr(n, "lineno", 0) <= hi:
                continue
            if isinstance(n, ast.Call):
                f = n.func
                if isinstance(f, ast.Attribute) and f.attr not in READING and roots & loaded([f.value]):
                    return False
                if not (isinstance(f, ast.Name) and f.id in PURE) and not (isinstance(f, ast.Attribute) and f.attr in READING) \
                        and any(isinstance(x, ast.Name) and x.id in roots for x in n.args + [k.value for k in n.keywords]):
                    return False
            elif isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)) and roots & loaded([n.value]):
                return False
        return True

    def build(self, nodes, kind, outs, pre, ps, fk=(), at=None, defs=()):
        nodes = copy.deepcopy(nodes)
        pre = copy.deepcopy(list(defs) + pre)
        o = Outs(outs)
        end = o.visit_Return(ast.Return(None)) if at == "function" else o.result("__continue__" if at == "loop" else "__next__")
        if kind == "test":
            body = [ast.If(nodes[0], [o.result("__true__")], [o.result("__false__")])]
        elif kind == "iter":
            v = ast.Name("__it", ast.Load())
            body = [ast.Assign([ast.Name("__it", ast.Store())], nodes[0]), o.result("__iter__", [v])]
        else:
            for x in fk:
                nodes = [ast.If(ast.Name(x, ast.Load()), [Known(x, True).visit(copy.deepcopy(n)) for n in nodes],
                                [Known(x, False).visit(copy.deepcopy(n)) for n in nodes])]
            body = [o.visit(x) for x in nodes] + [end]
        cls = self.fa.cls
        order = sorted(ps)
        if cls and self.fs.node.args.args:
            first = self.fs.node.args.args[0].arg
            order = [first] + [x for x in order if x != first]
        args = ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in order], kwonlyargs=[], kw_defaults=[], defaults=[])
        fn = ast.FunctionDef(name="fragment", args=args, body=pre + body, decorator_list=[])
        return ast.fix_missing_locations(ast.Module([fn], [])).body[0]

    def paths(self, w, f, node):
        g = Func(w, f.module, f.qual, node, f.cls)
        I = self.E.interp(w, self.E.inv)
        I.alias = {}
        return I.summary_of(g)

    def decide(self, e):
        outs = self.live(e)
        pre = self.context(e.chain)
        fk = forks(e.a + e.s)
        at = last_of(e.chain) if e.kind == "block" else None
        ps = (loaded(e.a + e.s) | set(outs) | loaded(pre)) & self.names
        ps -= self.unbound(e)
        own = self.reads_own(e)
        defs = ([], [])
        for side in (0, 1):
            for x in sorted(own[side]):
                d = self.definition(side, x)
                if d is None or not self.settled(side, d, e):
                    e.level, e.diffs = UND, [Diff(self.q, UND, "edit", ((const(x), const("-"), "variable of one version"),), ({}, ()))]
                    return
                defs[side].extend(z for z in d if z not in defs[side])
        ps |= loaded(defs[0] + defs[1]) & self.names
        ps -= own[0] | own[1]
        try:
            A = self.paths(self.E.wa, self.fa, self.build(e.a, e.kind, outs, pre, ps, fk, at, defs[0]))
            S = self.paths(self.E.ws, self.fs, self.build(e.s, e.kind, outs, pre, ps, fk, at, defs[1]))
        except (Unsupported, Budget, RecursionError) as x:
            e.level = UND
            e.diffs = [Diff(self.q, UND, "edit", ((const(type(x).__name__), const(str(x)), "outside of the subset"),), ({}, ()))]
            return
        C = Ctx(self.E.vocab | OPERATIONS, self.E.deadline)
        C.strict = self.E.strict
        cs = [[(p.facts, {"kind": const(p.kind), "value": p.value, "ev": p.ev}) for p in P] for P in (A, S)]
        C.ref = cs[1]
        ds = cmp_paths(cs[0], cs[1], {}, C, qual=self.q)
        if C.capped:
            e.level, e.diffs = UND, ds
            return
        if self.another_form([e]) or own[0] or own[1]:
            for d in ds:
                if d.level == DEF:
                    d.level = UND
        for d in ds:
            if d.level == DEF and any(w in ("order of effects", "moment of read", "moment of call") for _, _, w in d.loci):
                d.level = UND
        e.diffs = ds
        e.level = max([d.level for d in ds], default=EQ) if not any(d.level == DEF for d in ds) else DEF

    # ------------------------------------------------------------ all of them
    def run(self):
        """(level, diffs): EQ when every edit leaves the meaning unchanged."""
        if not self.ok or not self.env:
            return UND, []
        es = self.edits_of(self.A, self.S)
        if not es:
            return EQ, []
        if len(es) > 12:
            return UND, []
        for e in es:
            if e.level is None:
                self.decide(e)
        rest = [e for e in es if e.level != EQ]
        if not rest:
            return EQ, []
        self.rewritten = self.another_form(rest)
        own = [x for e in rest for x in self.reads_own(e)]
        if any(own):
            own = set().union(*own)
            rest = [e for e in es if e in rest or own & set(stored(e.a + e.s))]
        if len(rest) == 1:
            return rest[0].level, [d for d in rest[0].diffs]
        m = self.merge(rest)
        if m is not None:
            self.decide(m)
            if m.level != UND:
                return m.level, m.diffs
        if all(e.level == DEF for e in rest) and self.independent(rest):
            return DEF, [d for e in rest for d in e.diffs if d.level == DEF]
        return UND, []

    def another_form(self, es):
        """Whether loops, comprehensions, recursion are written in another way."""
        if file_ops(es, 0) != file_ops(es, 1):
            return False
        for e in es:
            if loops_of(e.a) != loops_of(e.s) and not within(e.a, e.s) and not within(e.s, e.a):
                return True
            if loops_of(e.a) and set(stored(e.a)) != set(stored(e.s)) and not within(e.a, e.s) and not within(e.s, e.a):
                return True
            wa, ws = ([x for n in ns for x in ast.walk(n) if isinstance(x, ast.While)] for ns in (e.a, e.s))
            if any(ast.dump(x.test) != ast.dump(y.test) and ast.dump(ast.Module(x.body, [])) != ast.dump(ast.Module(y.body, [])) for x, y in zip(wa, ws)):
                return True
            u = e.chain[-1]
            if e.kind == "test" and isinstance(u[0][u[2]], ast.While) and any(o is not e and any(c[0] is u[0] for c in o.chain) for o in es):
                return True
        return False

    def merge(self, es):
        chains = [e.chain for e in es]
        k = 0
        while all(len(c) > k for c in chains) and len({(id(c[k][0]), id(c[k][1])) for c in chains}) == 1:
            k += 1
        k -= 1
        if k < 0:
            return None
        la, ls = chains[0][k][:2]
        ia, ja = min(c[k][2] for c in chains), max(c[k][3] for c in chains)
        is_, js = min(c[k][4] for c in chains), max(c[k][5] for c in chains)
        if k == 0 and ja - ia >= len(la) - 1 and len(la) > 6:
            return None
        return Edit(chains[0][:k] + [(la, ls, ia, ja, is_, js, None)], "block", la[ia:ja], ls[is_:js])

    def independent(self, es):
        if any(not e.a for e in es) and any(not e.s for e in es):
            return False
        for e in es:
            # the branches of a condition, or what follows it, were changed with it
            if e.kind == "test" and any(o is not e and any(c[0] is e.chain[-1][0] for c in o.chain) for o in es):
                return False
        w = [set(stored(e.a + e.s)) for e in es]
        r = [loaded(e.a + e.s) for e in es]
        return all(not (w[i] & (r[j] | w[j])) for i in range(len(es)) for j in range(len(es)) if i != j)


FILEOPS = {"rmdir", "removedirs", "rmtree", "remove", "unlink", "mkdir", "makedirs", "rename", "renames", "replace", "move", "copytree", "rm", "touch"}


def file_ops(es, side):
    """Operations on files that a version makes: what is written in another way makes the same ones."""
    ns = [n for e in es for n in (e.s if side else e.a)]
    return {x.id if isinstance(x, ast.Name) else x.attr for n in ns for x in ast.walk(n)
            if isinstance(x, ast.Name) and x.id in FILEOPS or isinstance(x, ast.Attribute) and x.attr in FILEOPS}


LOOPNODES = (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
LOOPCALLS = {"map", "filter", "any", "all", "sum", "enumerate", "zip", "range", "next", "iter", "chain"}
LOOPMETHS = {"extend", "update", "join", "fromkeys"}


def loops_of(nodes):
    """Ways of repeating that a fragment uses."""
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, LOOPNODES):
                out.append("while" if isinstance(x, ast.While) else "for")
            elif isinstance(x, ast.YieldFrom):
                out.append("for")
            elif isinstance(x, ast.Call):
                f = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
                if f in (LOOPCALLS if isinstance(x.func, ast.Name) else LOOPMETHS):
                    out.append("call " + f)
    return sorted(out)


def within(a, s):
    """Whether one fragment is the other one with statements or operands left out."""
    def tokens(ns):
        return [t for n in ns for t in tokens_of(n) if t not in ("(", ")", "[", "]", ",")]
    it = iter(tokens(s))
    return all(any(t == u for u in it) for t in tokens(a))


def tokens_of(n):
    return ast.unparse(ast.fix_missing_locations(copy.deepcopy(n))).replace("(", " ( ").replace(")", " ) ").replace(",", " , ").replace("[", " [ ").replace("]", " ] ") \
        .replace(".", " . ").replace(":", " : ").split()


def forks(nodes):
    """Variables that conditions in loops test and that the loops leave as they are: told apart before."""
    out = []
    for n in nodes:
        for lp in ast.walk(n):
            if not isinstance(lp, (ast.For, ast.While)):
                continue
            w = set(stored([lp]))
            for z in ast.walk(lp):
                if not isinstance(z, (ast.If, ast.IfExp, ast.While)):
                    continue
                todo = [z.test]
                while todo:
                    t = todo.pop()
                    if isinstance(t, ast.BoolOp):
                        todo.extend(t.values)
                    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                        todo.append(t.operand)
                    elif isinstance(t, ast.Name) and t.id not in w and t.id not in out:
                        out.append(t.id)
    out = [x for x in out if x not in stored(nodes)]
    if len(out) > 3:
        return []
    return sorted(out)


class Known(ast.NodeTransformer):
    """A variable of known truth in conditions."""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def cond(self, t):
        if isinstance(t, ast.Name) and t.id == self.name:
            return ast.Constant(self.value)
        if isinstance(t, ast.BoolOp):
            t.values = [self.cond(v) for v in t.values]
        elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t.operand = self.cond(t.operand)
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.cond(n.test)
        return n

    visit_While = visit_IfExp = visit_If


def plain(n):
    """An expression of names, constants and simple operations."""
    for x in ast.walk(n):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id in PURE):
                return False
        elif isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp, ast.NamedExpr,
                            ast.List, ast.Dict, ast.Set)):
            return False
    return True


def seq(stmts, x):
    """What may happen to the present value of x: R read, N still there at the end, C still there when an iteration ends."""
    acc = {"N"}
    for st in stmts:
        if "N" not in acc:
            break
        acc = (acc - {"N"}) | events(st, x)
    return acc


def reads(n, x):
    return n is not None and x in loaded([n])


def events(st, x):
    if isinstance(st, (ast.If, ast.While)):
        if reads(st.test, x):
            return {"R"}
        if x in stored([st.test]):
            return set()
        r = seq(st.body, x)
        if isinstance(st, ast.If):
            return r | seq(st.orelse, x)
        return {"R"} if "R" in r else {"N"} | seq(st.orelse, x)
    if isinstance(st, ast.For):
        if reads(st.iter, x):
            return {"R"}
        r = seq(st.body, x) if x not in stored([st.target]) else set()
        return ({"R"} if "R" in r else set()) | seq(st.orelse, x) | {"N"}
    if isinstance(st, ast.With):
        if any(reads(i.context_expr, x) for i in st.items):
            return {"R"}
        if any(i.optional_vars is not None and x in stored([i.optional_vars]) for i in st.items):
            return set()
        return seq(st.body, x)
    if isinstance(st, ast.Try):
        r = seq(st.body + st.orelse, x)
        for h in st.handlers:
            r = r | (seq(h.body, x) if h.name != x else set())
        f = seq(st.finalbody, x)
        return r | (f & {"R"}) if "N" in f else (r - {"N"}) | f
    if isinstance(st, (ast.Return, ast.Raise)):
        return {"R"} if x in loaded([st]) else set()
    if isinstance(st, (ast.Break, ast.Continue)):
        return {"C"}
    if x in loaded([st]) - (set(stored([st])) if isinstance(st, ast.Delete) else set()):
        return {"R"}
    return set() if x in stored([st]) else {"N"}


def live_after(chain, side, x):
    st = {"N"}
    for k in range(len(chain) - 1, -1, -1):
        la, ls, ia, ja, is_, js, _ = chain[k]
        rest = la[ja:] if side == 0 else ls[js:]
        if "N" in st:
            st = (st - {"N"}) | seq(rest, x)
        if "R" in st or "C" not in st and "N" not in st:
            return "R" in st
        if k == 0:
            return False
        pa, ps, iu, _, iv, _, branch = chain[k - 1]
        p = pa[iu] if side == 0 else ps[iv]
        if branch in ("for", "while"):
            t = {"N"} if branch == "for" else {"R"} if reads(p.test, x) else {"N"}
            if branch == "while" and "R" in t:
                return True
            if not (branch == "for" and x in stored([p.target])) and "R" in seq(p.body, x):
                return True
            st = {"N"} if "R" not in seq(p.orelse, x) else {"R"}
            if "R" in st:
                return True
        elif branch in ("try", "handler", "tryelse"):
            if branch == "try" and any("R" in seq(h.body, x) for h in p.handlers) or "R" in seq(p.finalbody, x):
                return True
    return False


def last_of(chain):
    """What ends together with a fragment after which nothing follows: an iteration, the function."""
    for k in range(len(chain) - 1, -1, -1):
        la, ls, ia, ja, is_, js, _ = chain[k]
        if la[ja:] or ls[js:]:
            return None
        if k == 0:
            return "function"
        b = chain[k - 1][6]
        if b in ("for", "while"):
            return "loop"
        if b not in ("then", "else", "with"):
            return None
    return None


def params(fn):
    a = fn.args
    return a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]


def enclosing(w, q):
    """Local names of the functions a nested function stands in."""
    out = set()
    while ".<locals>." in q:
        q = q.rpartition(".<locals>.")[0]
        f = w.funcs.get(q)
        if f is not None:
            out |= set(fn_locals(f.node))
    return out


def size(es):
    return sum(len(ast.dump(x)) for e in es for x in e.a + e.s)
