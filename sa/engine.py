"""Comparison of the analysed tree with the reviewed reference summaries, function by function."""
import ast
import builtins
import os
import time

from . import loops, theory
from .compare import Ctx, Diff, TD, DEF, EQ, TAG, UND, cmp_paths, summarise
from . import frag
from .frag import Fragments
from .interp import ANN_TY, Budget, Frame, Interp, Lazy, P, St, Unsupported
from .loops import RAW
from .tables import *  # noqa
from .terms import *  # noqa
from .world import Func, World

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
EXTRA_VOCAB = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__) | {
    "sum", "max", "min", "mean", "any", "all", "abs", "first", "last", "head", "tail", "iloc", "loc", "values", "keys", "items",
    "copy", "append", "extend", "update", "pop", "remove", "clear", "insert", "add", "sort", "sort_values", "reverse", "index",
    "isin", "isna", "notna", "dropna", "fillna", "ffill", "bfill", "shift", "diff", "unique", "duplicated", "drop_duplicates",
    "argsort", "searchsorted", "zeros", "ones", "empty", "full", "concat", "concatenate", "minimum", "maximum", "floor", "ceil",
    "round", "startswith", "endswith", "split", "rsplit", "join", "replace", "strip", "lower", "upper", "ne", "eq", "lt", "le",
    "gt", "ge", "size", "shape", "ndim", "dtype", "astype", "columns", "empty", "nan", "inf", "NaT", "NA", "walk", "listdir",
    "isdir", "isfile", "exists", "rmtree", "rmdir", "makedirs", "unlink", "listdir",
}


class Result:
    __slots__ = ("qual", "status", "diffs", "npaths_a", "npaths_s", "nev", "leaves", "note", "wall", "line", "file", "inlined", "capped", "how")

    def __init__(self, qual):
        self.qual, self.status, self.diffs, self.note = qual, "same", [], ""
        self.npaths_a = self.npaths_s = self.nev = self.leaves = self.capped = 0
        self.wall, self.line, self.file, self.inlined, self.how = 0.0, 0, "", (), ""


def norm_dump(node):
    """Syntax tree of a definition, without docstrings, annotations of locals and positions."""
    n = ast.parse(ast.unparse(node)) if False else node
    return ast.dump(_Strip().visit(_clone(n)))


def _clone(n):
    import copy
    return copy.deepcopy(n)


class _Strip(ast.NodeTransformer):
    def generic_visit(self, node):
        super().generic_visit(node)
        b = getattr(node, "body", None)
        if isinstance(b, list) and b and isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
                node.body = b[1:]
        return node


class Engine:
    def __init__(self, root, spec=SPEC, fast=True, deadline=None):
        self.t0 = time.time()
        self.deadline = deadline
        self.fast = fast
        self.frags = self.strict = True
        self.ws = World(spec)
        self.wa = World(root)
        theory.ENUMS["oups.aggstream.aggstream.AggResType"] = enum_names(self.ws, "oups.aggstream.aggstream.AggResType")
        self.relocate()
        self.tables()
        self.vocab = vocabulary(self.ws)
        self.param_types()
        self.params_renamed()
        self.attrs_renamed()
        self.inv = {q for q in self.ws.funcs if q in self.wa.funcs}
        self.gone = sorted(set(self.ws.funcs) - self.inv)
        self.cache_s, self.cache_a = {}, {}
        self.changed = {q for q in self.inv if self.dump(self.ws, q) != self.dump(self.wa, q)}
        self.env_same = self.environment(self.ws) == self.environment(self.wa)
        self.results = {}
        self.n_sites = 0

    # ------------------------------------------------------------ correspondence of names
    def tables(self):
        """Keys of the constant tables of both trees."""
        theory.KEYS.clear()
        for mn, m in self.ws.modules.items():
            for n in m.assigns:
                ks = [table_keys(w.constant(mn + "." + n)) for w in (self.ws, self.wa)]
                if all(k is not None for k in ks):
                    theory.KEYS[mn + "." + n] = ks

    def relocate(self):
        """Definitions of the reference found in another module of the analysed tree."""
        wa, ws = self.wa, self.ws
        wa.moved = {}
        for q in ws.funcs:
            if q in wa.funcs or ".<locals>." in q or q in wa.moved.values():
                continue
            base = q.rpartition(".")[2]
            if ws.funcs[q].cls:
                continue
            c = [x for x in wa.funcs if x.rpartition(".")[2] == base and x not in ws.funcs and ".<locals>." not in x and not wa.funcs[x].cls]
            if len(c) == 1:
                f = wa.funcs.pop(c[0])
                wa.moved[c[0]] = q
                for x in [x for x in wa.funcs if x.startswith(c[0] + ".<locals>.")]:
                    fx = wa.funcs.pop(x)
                    fx.qual = q + x[len(c[0]):]
                    wa.funcs[fx.qual] = fx
                f.qual = q
                wa.funcs[q] = f
        for mname, m in ws.modules.items():
            for n in m.assigns:
                q = mname + "." + n
                ma = wa.modules.get(mname)
                if ma is not None and n in ma.assigns:
                    continue
                c = [x for x, y in wa.modules.items() if n in y.assigns and not (x in ws.modules and n in ws.modules[x].assigns)]
                if len(c) == 1:
                    wa.moved[c[0] + "." + n] = q
        if wa.moved:
            canon0, const0 = wa.canon, wa.constant
            back = {v: k for k, v in wa.moved.items()}
            wa.canon = lambda q, depth=0: wa.moved.get(canon0(q, depth), canon0(q, depth))
            wa.constant = lambda q: const0(back.get(q, q))

    def param_types(self):
        seen = {}
        for q, f in sorted(self.ws.funcs.items()):
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                t = ANN_TY.get(x.annotation.id) if isinstance(x.annotation, ast.Name) else None
                seen.setdefault(x.arg, set()).add(t)
        for n, ts in seen.items():
            ts.discard(None)
            if len(ts) == 1:
                set_param_type(P(n), ts.pop())

    def params_renamed(self):
        """Parameters are matched by name, then by position."""
        self.alias = {}
        for q, fs in self.ws.funcs.items():
            fa = self.wa.funcs.get(q)
            if fa is None:
                continue
            ps, pa = all_params(fs.node.args), all_params(fa.node.args)
            if len(ps) == len(pa):
                m = {x: y for x, y in zip(pa, ps) if x != y and x not in ps and y not in pa}
                if m:
                    self.alias[q] = m

    def attrs_renamed(self):
        """Private attributes renamed as a whole."""
        def attrs(w):
            out = {}
            for m in w.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        out[n.attr] = out.get(n.attr, 0) + 1
            return out
        a, s = attrs(self.wa), attrs(self.ws)
        self.attr_map = {}
        lost = [x for x in s if x not in a and x.startswith("_") and not x.startswith("__")]
        new = [x for x in a if x not in s and not x.startswith("__")]
        new = [x for x in new if x.startswith("_")]
        if len(lost) == 1 and len(new) == 1 and lost[0] != new[0]:
            self.attr_map[new[0]] = lost[0]

    def environment(self, w):
        """What functions see besides their own text."""
        out = []
        for name in sorted(w.modules):
            m = w.modules[name]
            rest = [n for n in m.tree.body if not isinstance(n, (ast.FunctionDef, ast.ClassDef))
                    and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
            out.append((name, tuple(ast.dump(n) for n in rest if not isinstance(n, (ast.Import, ast.ImportFrom))), tuple(sorted(m.imports.items()))))
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef):
                    out.append((name, n.name, tuple(ast.dump(x) for x in n.bases), tuple(ast.dump(x) for x in n.decorator_list)))
        return out, sorted(w.funcs), tuple((q, tuple(f.decorators()), tuple(all_params(f.node.args)))
                                           for q, f in sorted(w.funcs.items()))

    def dump(self, w, q):
        return norm_dump(w.funcs[q].node)

    # ------------------------------------------------------------ summaries
    def interp(self, w, inv):
        I = Interp(w, inv)
        if w is self.wa:
            I.attr_map = self.attr_map
            I.alias = self.alias
        return I

    def summary(self, w, q, inv, key):
        cache = self.cache_s if w is self.ws else self.cache_a
        k = (q, key)
        if k not in cache:
            I = self.interp(w, inv)
            try:
                ps = I.summary(q)
                cache[k] = (ps, I.n_steps, tuple(sorted(I.inlined)))
            except (Unsupported, Budget, RecursionError) as e:
                cache[k] = (None, type(e).__name__ + " " + str(e), ())
        return cache[k]

    def compare(self, q, out=frozenset()):
        """Compare one function; functions in 'out' are seen through rather than opaque."""
        t0 = time.time()
        r = Result(q)
        if q not in self.inv:
            r.status = "gone"
            r.note = "definition no longer there: seen through its callers"
            return r
        fa = self.wa.funcs[q]
        r.line, r.file = fa.node.lineno, fa.file
        inv = self.inv - set(out)
        key = tuple(sorted(out))
        same_text = (not out and self.fast and self.env_same and q not in self.changed and not self.gone
                     and not any(h in self.wa.funcs for h in self.new_funcs()))
        lv, fds, rewritten = UND, [], False
        if not out and self.frags and q in self.changed:
            try:
                fr = Fragments(self, q)
                lv, fds = fr.run()
                rewritten = fr.rewritten
            except Exception as x:
                r.note = "not compared edit by edit: " + type(x).__name__
            if lv == EQ:
                r.how = "edit by edit"
                r.diffs = self.signature(q)
                r.status = "differs" if any(d.level == DEF for d in r.diffs) else "undecided" if r.diffs else "same"
                r.note = "; ".join(sorted({d.what for d in r.diffs}))
                r.wall = time.time() - t0
                return r
        S, ns, _ = self.summary(self.ws, q, inv, key)
        if same_text:
            A, na, inl = S, ns, ()
        else:
            A, na, inl = self.summary(self.wa, q, inv, key)
        r.inlined = inl
        if S is None or A is None:
            r.status = "undecided"
            r.note = "outside of the analysed subset of Python: " + str(ns if S is None else na)
            if lv == DEF:
                r.status, r.diffs, r.how = "differs", fds, "edit by edit"
            r.wall = time.time() - t0
            return r
        r.npaths_a, r.npaths_s = len(A), len(S)
        r.nev = sum(len(p.ev) for p in A)
        if A is not S:
            late = self.deadline
            if lv == DEF:
                late = min(time.time() + 150, late or time.time() + 150)
            C = Ctx(self.vocab, late)
            rt = self.ws.funcs[q].node.returns
            # of a condition, None and False are one answer
            cs = cond_comps if isinstance(rt, ast.Name) and rt.id == "bool" else comps
            C.ref = [(p.facts, cs(p)) for p in S]
            pa = [(p.facts, cs(p)) for p in A]
            ps = [(p.facts, cs(p)) for p in S]
            r.diffs = cmp_paths(pa, ps, {}, C, qual=q)
            r.leaves, r.capped = C.leaves, C.capped
            if rewritten:
                for d in r.diffs:
                    d.level = max(d.level, UND)
            r.diffs += self.signature(q)
            if any(d.level == DEF for d in r.diffs):
                r.status = "differs"
            elif C.capped:
                r.status = "undecided"
                r.note = "time is up"
            elif r.diffs:
                r.status = "undecided"
                r.note = "; ".join(sorted({d.what for d in r.diffs}))
            if r.status == "undecided" and lv == DEF:
                r.status, r.diffs, r.how = "differs", fds, "edit by edit"
            if r.status == "undecided" and not out:
                d = self.turned(q)
                if d is not None:
                    r.status, r.diffs, r.how = "differs", [d], "a single operator turned"
        r.wall = time.time() - t0
        return r

    def turned(self, q):
        """
        The only change of the whole tree is one operator replaced by its opposite.

        Rewriting a function into another form takes more than one such place (what is negated in one has to be negated
        in another one), hence this is decided even if the values cannot be related.
        """
        if self.changed != {q} or not self.env_same or self.gone or self.new_funcs():
            return None
        c = []
        if not one_turned(self.wa.funcs[q].node, self.ws.funcs[q].node, c) or len(c) != 1:
            return None
        x, y = c[0]
        return Diff(q, DEF, "operator", ((const(x), const(y), "operator turned"),), ({}, ()))

    def new_funcs(self):
        return [q for q in self.wa.funcs if q not in self.ws.funcs]

    # ------------------------------------------------------------ signatures, constants
    def eval_in(self, w, m, node):
        I = self.interp(w, self.inv)
        f = Frame(None, m, None, None)
        I.frames.append(f)
        try:
            r = I.ev(node, St())
            if len(r) != 1 or r[0][0].ctl:
                return None
            return I.res(r[0][0], r[0][1])
        except (Unsupported, Budget, RecursionError):
            return None
        except Exception:
            return None
        finally:
            I.frames.pop()

    def signature(self, q):
        fa, fs = self.wa.funcs[q], self.ws.funcs[q]
        C = Ctx(self.vocab)
        td = TD(C, {})
        out = []
        da, ds = defaults(fa.node.args), defaults(fs.node.args)
        al = self.alias.get(q, {})
        da = {al.get(k, k): v for k, v in da.items()}
        for k in ds:
            if k in da:
                x, y = self.eval_in(self.wa, fa.module, da[k]), self.eval_in(self.ws, fs.module, ds[k])
                if x is None or y is None or x is y:
                    continue
                r = td.diff(x, y)
                if r[0] != EQ:
                    out.append(Diff(q, r[0], "default of parameter " + k, r[1], ({}, ())))
            elif k in all_params(fa.node.args):
                out.append(Diff(q, DEF if not self.private(q) else UND, "default of parameter " + k, ((const("-"), const(ast.unparse(ds[k])), "missing default"),), ({}, ())))
        # decorators
        xa, xs = self.decos(self.wa, fa), self.decos(self.ws, fs)
        for n in sorted(set(xa) | set(xs)):
            if n not in xa:
                out.append(Diff(q, DEF, "decorator", ((const("-"), const(n), "missing decorator"),), ({}, ())))
            elif n not in xs:
                lv = DEF if n in KNOWN_DECOS else UND
                out.append(Diff(q, lv, "decorator", ((const(n), const("-"), "added decorator"),), ({}, ())))
            elif xa[n] != xs[n]:
                x, y = xa[n], xs[n]
                if x is None or y is None:
                    continue
                r = td.diff(x, y)
                extra = [k for k, v in x.a[1] if k in MEANING_KEYS and k not in dict(y.a[1]) and v is not FALSE] if x.op == y.op == "deco" else []
                lost = [k for k, v in y.a[1] if k not in dict(x.a[1])] if x.op == y.op == "deco" else []
                if lost:
                    out.append(Diff(q, DEF, "decorator", ((const("-"), const(lost[0]), "missing argument of " + n),), ({}, ())))
                elif extra:
                    out.append(Diff(q, DEF, "decorator", ((const(extra[0]), const("-"), "added argument of " + n),), ({}, ())))
                elif r[0] != EQ:
                    out.append(Diff(q, r[0], "decorator", r[1], ({}, ())))
        return out

    def decos(self, w, f):
        out = {}
        for d in f.node.decorator_list:
            c = d.func if isinstance(d, ast.Call) else d
            n = ast.unparse(c)
            if isinstance(c, ast.Name):
                n = w.resolve(f.module, c.id) or n
            if n.endswith(".setter"):
                continue
            t = NONE
            if isinstance(d, ast.Call):
                kws = {k.arg: k.value for k in d.keywords if k.arg not in ("cache", "parallel", "inline", "boundscheck", "nogil", "error_model")}
                args = []
                for a in d.args:
                    if isinstance(a, (ast.List, ast.Tuple)):
                        args.extend(self.sig_terms(w, f.module, x) for x in a.elts)
                    else:
                        args.append(self.sig_terms(w, f.module, a))
                t = mk("deco", mk("set", tuple(sorted(args, key=digest))),
                       tuple(sorted((k, self.sig_terms(w, f.module, v)) for k, v in kws.items() if k is not None)))
            out[n] = t
        return out

    def sig_terms(self, w, m, node):
        t = self.eval_in(w, m, node)
        if t is None:
            t = const(ast.unparse(node))
        if t.op == "c" and t.a[0] == "str":
            t = const(cval(t).replace(" ", ""))
        return t

    def constants(self, only=None):
        """Differences of module-level values: {qualified name: [Diff]}."""
        out = {}
        n = 0
        for mn, m in sorted(self.ws.modules.items()):
            for name, vals in sorted(m.assigns.items()):
                q = mn + "." + name
                if only is not None and q not in only:
                    continue
                ma_q = {v: k for k, v in getattr(self.wa, "moved", {}).items()}.get(q, q)
                ma = self.wa.modules.get(ma_q.rpartition(".")[0])
                n += 1
                if ma is None or name not in ma.assigns:
                    continue
                va = ma.assigns[name]
                if len(vals) == len(va) == 1:
                    if isinstance(vals[0], ast.AugAssign) or isinstance(va[0], ast.AugAssign):
                        continue
                    x, y = self.eval_in(self.wa, ma, va[0]), self.eval_in(self.ws, m, vals[0])
                    if x is not None and x is y:
                        continue
                    C = Ctx(self.vocab | frag.OPERATIONS)
                    C.strict = self.strict
                    if x is None or y is None:
                        A, S = self.value_paths(self.wa, ma, va[0]), self.value_paths(self.ws, m, vals[0])
                        if A and S:
                            C.ref = S
                            ds = cmp_paths(A, S, {}, C, qual=q)
                            if ds:
                                out.setdefault(q, []).extend(ds)
                        continue
                    r = TD(C, {}).diff(x, y)
                    if r[0] == DEF and x.op != y.op and "call" in (x.op, y.op):
                        r = (UND,) + tuple(r[1:])
                    if r[0] == UND and is_lock(y) and not is_lock(x) and not self.has_locks(self.wa):
                        r = (DEF, ((x, y, "no longer a lock"),))
                    if r[0] != EQ:
                        out.setdefault(q, []).append(Diff(q, r[0], "module-level value", r[1], ({}, ())))
        for q, (m, c) in sorted(self.ws.classes.items()):
            if (only is None or q in only) and q in self.wa.classes:
                n += 1
                d = self.bases(q)
                if d:
                    out.setdefault(q, []).append(d)
        return out, n

    def value_paths(self, w, m, node):
        fn = ast.parse("def value():\n    return 0").body[0]
        fn.body[0].value = node
        try:
            ps = self.interp(w, self.inv).summary_of(Func(w, m, m.name + ".value", fn))
        except (Unsupported, Budget, RecursionError):
            return None
        return [(p.facts, comps(p)) for p in ps]

    def has_locks(self, w):
        for m in w.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Name) and (w.resolve(m, x.id) in LOCKS or x.id == "threading"):
                    return True
        return False

    def bases(self, q):
        """Classes that a class no longer derives from."""
        (ma, ca), (ms, cs) = self.wa.classes[q], self.ws.classes[q]
        a = [self.wa.resolve(ma, b.id) if isinstance(b, ast.Name) else None for b in ca.bases]
        s = [self.ws.resolve(ms, b.id) if isinstance(b, ast.Name) else None for b in cs.bases]
        if None in a or None in s:
            return None
        lost = [b for b in s if b not in a]
        if not lost or not all(isinstance(builtin(b), type) for b in a + s):
            return None
        lost = [b for b in lost if not any(issubclass(builtin(x), builtin(b)) for x in a)]
        if lost:
            return Diff(q, DEF, "class", ((const(", ".join(a) or "-"), const(lost[0]), "no longer derives from " + lost[0]),), ({}, ()))
        return None

    def private(self, q):
        b = q.rpartition(".")[2]
        return (b.startswith("_") and not b.startswith("__")) or q in INTERNAL or ".<locals>." in q

    # ------------------------------------------------------------ several functions
    def callers(self, q):
        """Functions calling q, in either tree."""
        b = q.rpartition(".")[2]
        out = set()
        for w in (self.ws, self.wa):
            for p, f in w.funcs.items():
                if p == q or p not in self.inv:
                    continue
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Name) and n.id == b or isinstance(n, ast.Attribute) and n.attr == b:
                        out.add(p)
                        break
        return out

    def run(self, quals):
        """Results of all functions asked for; differences made up for by a caller or callee are dropped."""
        for q in quals:
            if q not in self.results:
                self.results[q] = self.compare(q)
        bad = [q for q in quals if self.results[q].status == "differs"]
        ch = {q for q in self.changed if self.private(q)}
        for q in bad:
            r = self.results[q]
            if r.status != "differs":
                continue
            # helpers of q changed together with it: seen through
            helpers = {h for h in ch if h != q and q in self.callers(h)}
            if helpers:
                r2 = self.compare(q, helpers)
                if r2.status == "same":
                    r2.note = "equal when seen through " + ", ".join(sorted(helpers))
                    self.results[q] = r2
                    continue
            # q itself an internal helper whose callers changed too
            if self.private(q) and ".<locals>." not in q:
                cs = self.callers(q)
                if cs and cs & self.changed:
                    rs = [self.compare(c, {q}) for c in sorted(cs)]
                    if all(x.status == "same" for x in rs):
                        r.status = "compensated"
                        r.note = "equal in all callers: " + ", ".join(sorted(cs))
                        r.diffs = []
        return {q: self.results[q] for q in quals}


KNOWN_DECOS = {"functools.cached_property", "functools.lru_cache", "functools.cache", "builtins.staticmethod", "builtins.classmethod"}
INTERNAL = {
    "oups.store.collection.is_parquet_file", "oups.store.collection.get_keys", "oups.store.utils.strip_path_tail",
    "oups.store.writer.iter_dataframe", "oups.store.writer.check_cmidx", "oups.aggstream.aggstream.agg_iter",
    "oups.aggstream.segmentby.setup_mainbuffer", "oups.aggstream.cumsegagg.setup_chunk_res", "oups.aggstream.utils.dataframe_filter",
    "oups.aggstream.jcumsegagg.jcsagg", "oups.store.writer.write_metadata", "oups.store.utils.files_at_depth",
    "oups.aggstream.segmentby.setup_segmentby", "oups.aggstream.cumsegagg.setup_cumsegagg",
}


MEANING_KEYS = {"fastmath"}  # arguments of decorators that change results
LOCKS = {"threading.Lock", "threading.RLock"}


def is_lock(t):
    return any(x in show(t, 4) for x in LOCKS)


def builtin(q):
    m, _, n = q.partition(".")
    return getattr(builtins, n, None) if m == "builtins" else None


def comps(p):
    return {"kind": const(p.kind), "value": p.value, "ev": p.ev}


def cond_comps(p):
    c = comps(p)
    if p.kind == "return" and p.value is NONE:
        c["value"] = FALSE
    return c


def all_params(a):
    return (["*" + a.vararg.arg] if a.vararg else []) + [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + (["**" + a.kwarg.arg] if a.kwarg else [])


def defaults(a):
    pos = a.posonlyargs + a.args
    d = {x.arg: v for x, v in zip(pos[len(pos) - len(a.defaults):], a.defaults)}
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    return d


def vocabulary(w):
    v = set(EXTRA_VOCAB)
    for m in w.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name):
                v.add(n.id)
            elif isinstance(n, ast.Attribute):
                v.add(n.attr)
            elif isinstance(n, ast.keyword) and n.arg:
                v.add(n.arg)
            elif isinstance(n, ast.arg):
                v.add(n.arg)
            elif isinstance(n, ast.alias):
                v.add(n.name.rpartition(".")[2])
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                v.add(n.name)
    for q in list(EXT_SIG) + list(FS_WRITE_FUNCS) + list(FS_READ_FUNCS):
        v.add(q.rpartition(".")[2])
    v |= set(METH_SIG) | set(FS_WRITE_METHS)
    for s in EXT_SIG.values():
        v |= set(s)
    return v


def table_keys(c):
    if c is None or c[1] is None:
        return None
    n = c[1]
    xs = n.keys if isinstance(n, ast.Dict) else n.elts if isinstance(n, (ast.Set, ast.List, ast.Tuple)) else None
    if xs is None or not all(isinstance(x, ast.Constant) for x in xs):
        return None
    return {x.value for x in xs}


def enum_names(w, q):
    c = w.constant(q)
    try:
        return [e.value for e in c[1].args[1].elts]
    except Exception:
        return ["BINS", "SNAPS", "BOTH"]


TURNS = [{"any", "all"}, {"min", "max"}]
TURNED_OPS = [{ast.And, ast.Or}, {ast.Add, ast.Sub}, {ast.In, ast.NotIn}, {ast.Is, ast.IsNot}, {ast.Eq, ast.NotEq},
              {ast.Lt, ast.Gt}, {ast.LtE, ast.GtE}, {ast.Lt, ast.GtE}, {ast.LtE, ast.Gt}]


def one_turned(x, y, c):
    """Whether trees are the same, except for the operators and functions listed in 'c', replaced by their opposite."""
    if type(x) is not type(y):
        if isinstance(x, (ast.operator, ast.boolop, ast.cmpop)) and any({type(x), type(y)} == t for t in TURNED_OPS):
            c.append((type(x).__name__, type(y).__name__))
            return len(c) == 1
        return False
    if isinstance(x, ast.AST):
        if isinstance(x, ast.Name) and x.id != y.id or isinstance(x, ast.Attribute) and x.attr != y.attr:
            n = "id" if isinstance(x, ast.Name) else "attr"
            u, v = getattr(x, n), getattr(y, n)
            if not any({u, v} == t for t in TURNS):
                return False
            c.append((u, v))
            if n == "id" or len(c) > 1:
                return len(c) == 1
            return one_turned(x.value, y.value, c)
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            fs = [f for f in x._fields if f != "body"]
            bx, by = (n.body[ast.get_docstring(n, False) is not None:] for n in (x, y))
            return all(one_turned(getattr(x, f, None), getattr(y, f, None), c) for f in fs) and one_turned(bx, by, c)
        return all(one_turned(getattr(x, f, None), getattr(y, f, None), c) for f in x._fields)
    if isinstance(x, list):
        return len(x) == len(y) and all(one_turned(u, v, c) for u, v in zip(x, y))
    return x == y
