"""Path-sensitive abstract interpretation of Python functions over value terms.

No code of the analysed tree is run: statements are interpreted on their syntax tree,
in the domain of uninterpreted terms (value numbers). The result for a function
is the set of its paths: branch facts, ordered effects, and outcome.
"""
import ast
import builtins as _b

from . import loops
from .tables import *  # noqa
from .terms import *  # noqa
from .theory import query
from .world import Func, _own_nodes


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Lazy:
    """Value of a variable after a loop, computed on demand."""

    __slots__ = ("f", "v")

    def __init__(self, f):
        self.f, self.v = f, None

    def get(self):
        if self.v is None:
            self.v = self.f()
        return self.v


class St:
    __slots__ = ("env", "heap", "facts", "ev", "ctl", "fs", "occ", "stack")

    def __init__(self):
        self.env, self.heap, self.facts = {}, {}, {}
        self.ev, self.ctl, self.fs, self.occ, self.stack = (), None, 0, {}, ()

    def copy(self):
        s = St.__new__(St)
        s.env, s.heap, s.facts = dict(self.env), dict(self.heap), dict(self.facts)
        s.ev, s.ctl, s.fs, s.occ, s.stack = self.ev, self.ctl, self.fs, dict(self.occ), self.stack
        return s


class Path:
    """One path through a function: facts (in program order), outcome, effects."""

    __slots__ = ("facts", "kind", "value", "ev")

    def __init__(self, facts, kind, value, ev):
        self.facts, self.kind, self.value, self.ev = facts, kind, value, ev


CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne", ast.Is: "is", ast.IsNot: "isnot",
       ast.In: "in", ast.NotIn: "notin"}
BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
       ast.Pow: "pow", ast.BitAnd: "band", ast.BitOr: "bor", ast.BitXor: "bxor", ast.LShift: "lshift", ast.RShift: "rshift",
       ast.MatMult: "matmul"}
SAFE_IN_TRY = {"builtins.len", "builtins.isinstance", "builtins.str", "builtins.list", "builtins.dict", "builtins.tuple",
               "builtins.zip", "builtins.enumerate", "builtins.range", "builtins.iter", "builtins.repr", "joblib.delayed",
               "builtins.type", "builtins.hasattr", "builtins.set", "builtins.callable", "builtins.bool", "builtins.map"}
# what methods of that name raise, as far as the package's handlers are concerned
_ANY = {"Exception", "BaseException"}
RAISES = {"index": _ANY | {"ValueError", "LookupError"}, "append": set(), "extend": _ANY | {"TypeError"}, "remove": _ANY | {"ValueError", "KeyError", "LookupError"},
          "split": _ANY, "rsplit": _ANY, "join": _ANY | {"TypeError"}, "lower": set(), "upper": set(), "strip": set()}
SAFE_METH = {"is_dir", "is_file", "endswith", "startswith", "copy", "keys", "values", "items", "tolist", "to_list", "strip"}
ANN_TY = {"int": "int", "float": "float", "str": "str", "bool": "bool", "list": "list", "dict": "dict", "tuple": "tuple"}
IN_PLACE_BIN = {ast.BitOr, ast.Add, ast.BitAnd, ast.Sub, ast.BitXor}


def P(name):
    return mk("p", name)


def default_of(f, k):
    """Default value of a parameter of an external function or method, None when not known."""
    d = DEFAULTS["functions"].get(f.a[0]) if f.op == "g" else DEFAULTS["methods"].get(f.a[1]) if f.op == "attr" else None
    return const(d[k]) if d and k in d else None


class Interp:
    def __init__(self, world, inventory, budget=60000):
        self.w = world
        self.inv = inventory
        self.budget = budget
        self.n_steps = 0
        self.n_ref = 0
        self.clos = {}
        self.frames = []
        self.try_stack = []
        self.depth = 0
        self.memo_const = {}
        self.attr_map = {}
        self.alias = {}
        self.n_sites = 0
        self.inlined = set()

    # ------------------------------------------------------------ entry
    def summary(self, qual):
        """All paths of a function."""
        return self.summary_of(self.w.funcs[qual])

    def summary_of(self, f):
        qual = f.qual
        self.n_steps = 0
        st = St()
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        first = params[0] if params else None
        al = self.alias.get(qual, {})
        for x in params:
            st.env[x] = P(al.get(x, x))
        if a.vararg:
            st.env[a.vararg.arg] = P("*" + a.vararg.arg)
            set_param_type(P("*" + a.vararg.arg), "tuple")
        if a.kwarg:
            st.env[a.kwarg.arg] = P("**" + a.kwarg.arg)
            set_param_type(P("**" + a.kwarg.arg), "dict")
        cls = f.cls
        static = any(d in ("staticmethod",) for d in f.decorators())
        fr = Frame(f, f.module, cls, st.env.get(first) if cls and not static and first else None, free=".<locals>." in qual)
        self.frames.append(fr)
        try:
            outs = self.block(f.node.body, [st])
            paths = []
            for s in outs:
                k, v = self.outcome(s)
                paths.append(Path(s.facts, k, v, s.ev))
            return paths
        finally:
            self.frames.pop()

    def outcome(self, s):
        if s.ctl is None:
            return "return", NONE
        k = s.ctl[0]
        if k == "ret":
            return "return", self.consume(s, s.ctl[1])
        if k == "exc":
            return "raise", s.ctl[1]
        raise Unsupported("control " + k)

    # ------------------------------------------------------------ helpers
    def step(self, n=1):
        self.n_steps += n
        if self.n_steps > self.budget * 40:
            raise Budget()

    def newref(self, st, val):
        self.n_ref += 1
        r = mk("ref", self.n_ref)
        st.heap[r] = val
        return r

    def res(self, st, t):
        """Functional value of a term: local objects replaced by their content."""
        if t is None:
            return None
        if not ("ref" in flags(t)) and not st.heap:
            return t
        return self._res(st, t, set())

    def _res(self, st, t, busy):
        h = st.heap.get(t)
        if h is not None and t not in busy:
            if isinstance(h, Lazy):
                h = h.get()
            if h is t:
                return t
            return self._res(st, h, busy | {t})
        if t.op in ("list", "tuple", "set"):
            items = [self._res(st, x, busy) for x in t.a[0]]
            if t.op == "list":
                return mk_list(items)
            if t.op == "tuple":
                return mk_tuple(items)
            return mk("set", tuple(items))
        if t.op == "star":
            # items taken at the time: what happens later to where they came from is of no matter
            return mk("star", self._res(st, t.a[0], busy)) if "ref" in flags(t) else t
        if "ref" not in flags(t):
            return t
        m = {}
        for x in subterms(t):
            if x.op == "ref" and x not in busy:
                h = st.heap.get(x)
                if isinstance(h, Lazy):
                    h = h.get()
                if h is not None:
                    m[x] = self._res(st, h, busy | {x})
        return subst(t, m) if m else t

    def cur(self, st, obj):
        h = st.heap.get(obj)
        if isinstance(h, Lazy):
            h = h.get()
        if h is None:
            return obj
        if h.op == "ref" and h is not obj:
            return self.cur(st, h)
        return h

    def root(self, t):
        while True:
            if t.op in ("attr", "sub", "elem", "aft"):
                t = t.a[0]
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("view", "reshape", "to_numpy"):
                t = t.a[0].a[0]
            else:
                return t

    def is_local(self, t):
        r = self.root(t)
        if r.op == "ref":
            return True
        if r.op in ("p", "g", "free", "self"):
            return False
        if r.op == "call" and r.a[0].op == "g" and r.a[0].a[0].startswith(FRESH_PREFIX):
            return True
        if r.op == "call" and r.a[0].op == "attr" and r.a[0].a[1] in FRESH_METHS:
            return True
        if r.op in ("out", "list", "tuple", "dict", "set", "store", "dmerge", "del"):
            return True
        if r.op == "lv":
            return r.a[1].startswith("h:") and r.a[2]
        return False

    def decide(self, st, at):
        """Fork on an atom: [(state, truth)]."""
        if at is TRUE:
            return [(st, True)]
        if at is FALSE:
            return [(st, False)]
        neg_ = False
        if at.op == "not":
            at, neg_ = at.a[0], True
        if at.op == "ite":
            out = []
            for s, c in self.decide(st, at.a[0]):
                for s2, v in self.decide(s, truthy(at.a[1] if c else at.a[2])):
                    out.append((s2, v != neg_))
            return out
        q = query(st.facts, at)
        if q is not None:
            return [(st, q != neg_)]
        s2 = st.copy()
        st.facts[at] = True
        s2.facts[at] = False
        self.step(3)
        return [(st, not neg_), (s2, neg_)]

    def decide_term(self, st, t):
        return self.decide(st, truthy(self.res(st, t)))

    # ------------------------------------------------------------ expressions
    def ev(self, n, st):
        self.step()
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, st)

    def evs(self, nodes, st):
        """Evaluate several expressions in order: [(state, [terms])]."""
        acc = [(st, [])]
        for n in nodes:
            nxt = []
            for s, ts in acc:
                if s.ctl:
                    nxt.append((s, ts))
                    continue
                if n is None:
                    nxt.append((s, ts + [NONE]))
                    continue
                for s2, t in self.ev(n, s):
                    nxt.append((s2, ts + [t]))
            acc = nxt
        return acc

    def e_Constant(self, n, st):
        v = n.value
        return [(st, const(v))]

    def lookup(self, name, st):
        v = st.env.get(name)
        if v is not None:
            return v.get() if isinstance(v, Lazy) else v
        fr = self.frames[-1]
        # enclosing functions
        c = fr.parent
        while c is not None:
            env = c.env_in(st)
            v = env.get(name)
            if v is not None:
                return v.get() if isinstance(v, Lazy) else v
            c = c.parent
        if fr.free:
            # free variable of a nested function analysed on its own
            for q in self.enclosing_locals(fr):
                if name in q:
                    return mk("free", name)
        return self.global_name(fr.module, name)

    def enclosing_locals(self, fr):
        q = fr.func.qual
        out = []
        while ".<locals>." in q:
            q = q.rpartition(".<locals>.")[0]
            f = self.w.funcs.get(q)
            if f is None:
                break
            names = {x.arg for x in f.node.args.args + f.node.args.kwonlyargs + f.node.args.posonlyargs}
            for x in _own_nodes(f.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    names.add(x.id)
                if isinstance(x, ast.FunctionDef):
                    names.add(x.name)
            out.append(names)
        return out

    def global_name(self, module, name):
        q = self.w.resolve(module, name)
        if q is None:
            return mk("undef", name)
        return self.global_term(q)

    def global_term(self, q):
        q = self.w.canon(q)
        t = self.memo_const.get(q)
        if t is not None:
            return t
        t = g(q)
        if q in ("os.path.sep", "os.sep"):
            t = const("/")
        c = self.w.constant(q)
        if c is not None and c[1] is not None:
            m, node = c
            v = self.const_value(m, node)
            if v is not None:
                t = v
        self.memo_const[q] = t
        return t

    def const_value(self, m, node):
        """Value of a module-level constant, when it can be seen as a plain value."""
        if isinstance(node, ast.AugAssign):
            return None
        ok = True
        for x in ast.walk(node):
            if isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Lambda, ast.Yield, ast.Await)):
                ok = False
        if not ok:
            return None
        f = Frame(None, m, None, None)
        self.frames.append(f)
        try:
            r = self.ev(node, St())
        except (Unsupported, Budget):
            return None
        finally:
            self.frames.pop()
        if len(r) != 1 or r[0][0].ctl or r[0][0].ev:
            return None
        st, t = r[0]
        t = self.res(st, t)
        if t.op == "c" or t.op == "tuple" or t.op == "lin" or t.op == "fstr":
            return t
        if t.op == "call" and t.a[0].op == "g" and t.a[0].a[0] in ("numpy.dtype", "pandas.Int64Dtype", "numpy.zeros"):
            return t
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "reshape":
            return t
        if t.op == "g":
            return t
        return None

    def e_Name(self, n, st):
        return [(st, self.lookup(n.id, st))]

    def e_NamedExpr(self, n, st):
        out = []
        for s, t in self.ev(n.value, st):
            if not s.ctl:
                # comprehension scopes share the function scope here
                s.env[n.target.id] = t
            out.append((s, t))
        return out

    def e_JoinedStr(self, n, st):
        vals = []
        for v in n.values:
            vals.append(v.value if isinstance(v, ast.FormattedValue) else v)
        out = []
        for s, ts in self.evs(vals, st):
            if s.ctl:
                out.append((s, None))
                continue
            parts = []
            for v, t in zip(n.values, ts):
                t = self.res(s, t)
                if isinstance(v, ast.FormattedValue):
                    if v.conversion not in (-1, 115) or v.format_spec is not None:
                        t = mk("fmt", t, v.conversion, ast.unparse(v.format_spec) if v.format_spec else "")
                parts.append(t)
            out.append((s, fstr(parts)))
        return out

    def _display(self, n, st, f):
        out = []
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in n.elts]
        for s, ts in self.evs(nodes, st):
            if s.ctl:
                out.append((s, None))
                continue
            items = []
            for e, t in zip(n.elts, ts):
                if isinstance(e, ast.Starred):
                    t = self.res(s, t)
                    items.append(mk("star", t))
                else:
                    items.append(t)
            out.append((s, f(s, items)))
        return out

    def e_List(self, n, st):
        return self._display(n, st, lambda s, i: self.newref(s, mk_list(i)))

    def e_Tuple(self, n, st):
        return self._display(n, st, lambda s, i: mk_tuple(i))

    def e_Set(self, n, st):
        return self._display(n, st, lambda s, i: self.newref(s, mk("set", tuple(sorted((self.res(s, x) for x in i), key=digest)))))

    def e_Dict(self, n, st):
        nodes = []
        for k, v in zip(n.keys, n.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        out = []
        for s, ts in self.evs(nodes, st):
            if s.ctl:
                out.append((s, None))
                continue
            it = iter(ts)
            t = mk("dict", ())
            for k, v in zip(n.keys, n.values):
                if k is not None:
                    kt = self.res(s, next(it))
                    t = store(t, kt, next(it))
                else:
                    t = dict_merge(t, self.res(s, next(it)))
            out.append((s, self.newref(s, t)))
        return out

    def e_UnaryOp(self, n, st):
        out = []
        for s, t in self.ev(n.operand, st):
            if s.ctl:
                out.append((s, None))
                continue
            t = self.res(s, t)
            if isinstance(n.op, ast.Not):
                t = not_(truthy(t))
                q = query(s.facts, t)
                if q is not None:
                    t = TRUE if q else FALSE
            elif isinstance(n.op, ast.USub):
                t = neg(t)
            elif isinstance(n.op, ast.Invert):
                t = invert(t)
            out.append((s, t))
        return out

    def e_BinOp(self, n, st):
        out = []
        for s, ts in self.evs([n.left, n.right], st):
            if s.ctl:
                out.append((s, None))
                continue
            a, b = (self.res(s, x) for x in ts)
            t = self.bin(n.op, a, b)
            if t.op in ("list", "dict", "store", "dmerge"):
                t = self.newref(s, t)
            out.append((s, t))
        return out

    def bin(self, op, a, b):
        return binop(BIN[type(op)], a, b)

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for s2, t in self.ev(v, s):
                    if s2.ctl:
                        out.append((s2, None))
                        continue
                    if last:
                        out.append((s2, t))
                        continue
                    for s3, b in self.decide_term(s2, t):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            r = self.res(s3, t)
                            if ty(r) == "bool":
                                t2 = TRUE if b else FALSE
                            else:
                                t2 = t
                            out.append((s3, t2))
            cur = nxt
        return out

    def e_IfExp(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if s.ctl:
                out.append((s, None))
                continue
            out.extend(self.ev(n.body if b else n.orelse, s))
        return out

    def e_Compare(self, n, st):
        out = []
        if len(n.ops) == 1:
            for s, ts in self.evs([n.left, n.comparators[0]], st):
                if s.ctl:
                    out.append((s, None))
                    continue
                t = self.cmp(s, n.ops[0], *ts)
                b = t.a[0] if t.op == "not" else t
                if b.op == "in" and b.a[1].op == "set" and len(b.a[1].a[0]) <= 3 and all(is_const(i) for i in b.a[1].a[0]):
                    # one of a few constants
                    cur = [s]
                    for i in b.a[1].a[0]:
                        nxt = []
                        for s2 in cur:
                            for s3, v in self.decide(s2, truthy(eq(b.a[0], i))):
                                if v:
                                    out.append((s3, FALSE if t.op == "not" else TRUE))
                                else:
                                    nxt.append(s3)
                        cur = nxt
                    out.extend((x, TRUE if t.op == "not" else FALSE) for x in cur)
                    continue
                if b.op == "eq":
                    u, v = b.a if b.a[1].op in ("list", "tuple") else b.a[::-1]
                    if v.op in ("list", "tuple") and ty(u) == v.op and u.op != v.op and 1 <= len(v.a[0]) <= 2 and not any(i.op == "star" for i in v.a[0]):
                        # a display: its length and items
                        cur = [s]
                        for c in [eq(self.mkcall(g("builtins.len"), (u,), ()), const(len(v.a[0])))] + [eq(sub(u, const(i)), x) for i, x in enumerate(v.a[0])]:
                            nxt = []
                            for s2 in cur:
                                for s3, w in self.decide(s2, truthy(c)):
                                    if w:
                                        nxt.append(s3)
                                    else:
                                        out.append((s3, TRUE if t.op == "not" else FALSE))
                            cur = nxt
                        out.extend((x, FALSE if t.op == "not" else TRUE) for x in cur)
                        continue
                out.append((s, t))
            return out
        # chained comparison: conjunction
        for s, ts in self.evs([n.left] + n.comparators, st):
            if s.ctl:
                out.append((s, None))
                continue
            cur = [s]
            done = []
            for i, op in enumerate(n.ops):
                nxt = []
                for s2 in cur:
                    for s3, b in self.decide(s2, truthy(self.cmp(s2, op, ts[i], ts[i + 1]))):
                        (nxt if b else done).append(s3)
                cur = nxt
            out.extend((x, TRUE) for x in cur)
            out.extend((x, FALSE) for x in done)
        return out

    def cmp(self, s, op, a, b):
        o = CMP[type(op)]
        if o in ("is", "isnot"):
            t = is_(a, b)
            return not_(t) if o == "isnot" else t
        if o in ("in", "notin"):
            x, c = self.res(s, a), self.res(s, b)
            fr = self.frames[-1]
            t = None
            if fr.cls and b is fr.selft:
                q = fr.cls + ".__contains__"
                if q in self.w.funcs:
                    r = self.inline(s.copy(), self.w.funcs[q], [b, a], [])
                    if len(r) == 1 and not r[0][0].ctl:
                        t = truthy(r[0][1])
            if t is None:
                t = contains_(x, c)
            return not_(t) if o == "notin" else t
        a, b = self.res(s, a), self.res(s, b)
        if o == "lt":
            return lt(a, b)
        if o == "gt":
            return lt(b, a)
        if o == "le":
            return le(a, b)
        if o == "ge":
            return le(b, a)
        if o == "eq":
            return eq(a, b)
        return ne(a, b)

    def cond(self, n, st):
        """Branch on an expression: [(state, truth)] (truth None when state exits)."""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, (not b) if b is not None else None) for s, b in self.cond(n.operand, st)]
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            out, cur = [], [st]
            for v in n.values:
                nxt = []
                for s in cur:
                    for s2, b in self.cond(v, s):
                        if s2.ctl:
                            out.append((s2, None))
                        elif b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                cur = nxt
            out.extend((s, is_and) for s in cur)
            return out
        if isinstance(n, ast.IfExp):
            out = []
            for s, b in self.cond(n.test, st):
                if s.ctl:
                    out.append((s, None))
                else:
                    out.extend(self.cond(n.body if b else n.orelse, s))
            return out
        out = []
        for s, t in self.ev(n, st):
            if s.ctl:
                out.append((s, None))
            else:
                out.extend(self.decide_term(s, t))
        return out

    def e_Attribute(self, n, st):
        out = []
        for s, t in self.ev(n.value, st):
            if s.ctl:
                out.append((s, None))
                continue
            out.extend(self.getattr(s, t, n.attr))
        return out

    def getattr(self, s, t, name):
        if t.op == "g":
            q = t.a[0] + "." + name
            if t.a[0] in self.w.classes:
                return [(s, g(q))]
            cst = self.w.constant(t.a[0]) if t.a[0].startswith("oups.") else None
            if cst and isinstance(cst[1], (ast.Dict, ast.List, ast.Set, ast.DictComp)):
                return [(s, mk("attr", t, name))]
            return [(s, self.global_term(q))]
        fr = self.frames[-1]
        if fr.cls and t is fr.selft:
            q = fr.cls + "." + name
            f = self.w.funcs.get(q)
            if f is not None:
                decs = f.decorators()
                if any(d == "property" for d in decs) and q not in self.no_inline_props():
                    return self.inline(s, f, [t], [])
                if any("property" in d for d in decs):
                    return [(s, mk("attr", self.cur_base(s, t), name))]
        c = self.cur(s, t)
        r = attr(c, self.attr_map.get(name, name))
        if r.op == "attr" and t.op == "ref" and r.a[1] == self.attr_map.get(name, name):
            r = mk("attr", t, r.a[1])
        h = s.heap.get(r)
        if r.op == "attr" and r.a[1] == "shape":
            pass
        return [(s, r)]

    def cur_base(self, s, t):
        c = self.cur(s, t)
        while c.op == "store":
            c = c.a[0]
        return c

    def no_inline_props(self):
        return ()

    def e_Subscript(self, n, st):
        out = []
        for s, ts in self.evs([n.value, n.slice], st):
            if s.ctl:
                out.append((s, None))
                continue
            out.extend(self.getitem(s, ts[0], self.res(s, ts[1])))
        return out

    def e_Slice(self, n, st):
        out = []
        for s, ts in self.evs([n.lower, n.upper, n.step], st):
            out.append((s, None if s.ctl else slice_(*[self.res(s, x) for x in ts])))
        return out

    def norm_key(self, obj, k):
        """``df.loc[:, c]`` reads column(s) ``c``, ``x.values[...]``."""
        if obj.op == "attr" and obj.a[1] == "loc" and k.op == "tuple" and len(k.a[0]) == 2:
            a, b = k.a[0]
            if a.op == "slice" and a.a == (NONE, NONE, NONE):
                return obj.a[0], b
        return obj, k

    def getitem(self, s, obj, k):
        obj, k = self.norm_key(obj, k)
        c = self.cur(s, obj)
        if obj.op == "attr" and obj.a[0].op == "ref":
            c = attr(self.cur(s, obj.a[0]), obj.a[1])
            if c.op == "attr" and self.has_slice(k):
                c = obj
        h = self.handlers()
        if h and any(x in ("KeyError", "LookupError", "IndexError", "Exception", "BaseException") for x in h) and k.op != "slice":
            out = []
            for s2, b in self.decide(s, contains_(k, self.res(s, obj))):
                if b:
                    out.append((s2, self._item(s2, obj, c, k)))
                else:
                    s2.ctl = ("exc", mk("exc", "builtins.KeyError"))
                    out.append((s2, None))
            return out
        return [(s, self._item(s, obj, c, k))]

    @staticmethod
    def has_slice(k):
        return k.op == "slice" or (k.op == "tuple" and any(x.op == "slice" for x in k.a[0]))

    def _item(self, s, obj, c, k):
        if c.op == "attr" and c.a[1] == "shape" and k is ZERO:
            return self.mkcall(g("builtins.len"), (self.res(s, c.a[0]),), ())
        if c.op == "res_map":
            pass
        r = sub(c, k)
        if obj.op in ("ref", "attr") and r.op == "sub" and self.has_slice(k) and c.op not in ("list", "tuple", "out"):
            if "ref" in flags(obj):
                # a view on an array of the function: follows its content
                return mk("sub", obj, k)
        return r

    def e_Starred(self, n, st):
        raise Unsupported("starred")

    def e_Lambda(self, n, st):
        self.n_ref += 1
        t = mk("closure", self.n_ref)
        self.clos[t] = Closure(n, self.frames[-1], dict(st.env), None)
        return [(st, t)]

    def e_Yield(self, n, st):
        out = []
        for s, ts in self.evs([n.value], st):
            if not s.ctl:
                s.ev += (("yield", self.consume(s, ts[0])),)
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, n, st):
        v = "%%yf%d_%d" % (len(self.frames), n.lineno)
        loop = ast.For(target=ast.Name(v, ast.Store()), iter=n.value, body=[ast.Expr(ast.Yield(ast.Name(v, ast.Load())))], orelse=[],
                       lineno=n.lineno, col_offset=n.col_offset)
        ast.fix_missing_locations(loop)
        out = []
        for s in self.block([loop], [st]):
            s.env.pop(v, None)
            out.append((s, NONE))
        return out

    # ------------------------------------------------------------ comprehensions
    def e_ListComp(self, n, st):
        return self.comp(n, st, "list")

    def e_SetComp(self, n, st):
        return self.comp(n, st, "set")

    def e_GeneratorExp(self, n, st):
        return self.comp(n, st, "list")

    def e_DictComp(self, n, st):
        return self.comp(n, st, "dict")

    def comp(self, n, st, kind):
        """Desugared to the loop filling a fresh container."""
        acc = "%acc" + str(len(self.frames)) + "_" + str(n.lineno) + "_" + str(n.col_offset)
        if kind == "dict":
            leaf = ast.Expr(AccEmit(acc, "dict", n.key, n.value))
        else:
            leaf = ast.Expr(AccEmit(acc, kind, None, n.elt))
        body = [leaf]
        for gen in reversed(n.generators):
            for c in reversed(gen.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[], lineno=n.lineno, col_offset=n.col_offset)]
        st.env[acc] = self.newref(st, mk({"list": "list", "set": "set", "dict": "dict"}[kind], ()))
        # targets are local to the comprehension
        saved = {}
        for gen in n.generators:
            for x in ast.walk(gen.target):
                if isinstance(x, ast.Name):
                    saved[x.id] = st.env.get(x.id)
        out = []
        for s in self.block(body, [st]):
            t = s.env.pop(acc, None)
            for k, v in saved.items():
                if v is None:
                    s.env.pop(k, None)
                else:
                    s.env[k] = v
            out.append((s, None if s.ctl else t))
        return out

    def e_AccEmit(self, n, st):
        out = []
        nodes = [n.key, n.value] if n.kind == "dict" else [n.value]
        for s, ts in self.evs(nodes, st):
            if s.ctl:
                out.append((s, None))
                continue
            r = self.lookup(n.acc, s)
            c = self.cur(s, r)
            ts = [self.consume(s, x) for x in ts]
            if n.kind == "dict":
                v = store(c, ts[0], ts[1])
            elif n.kind == "set":
                v = mk("setadd", c, ts[0])
            else:
                v = mk_list([mk("star", c), ts[0]])
            s.heap[r] = v
            out.append((s, NONE))
        return out

    # ------------------------------------------------------------ calls
    def handlers(self):
        return self.try_stack[-1] if self.try_stack else None

    def consume(self, st, t):
        """Value of a term handed out to something else."""
        if t is None:
            return None
        if t.op == "closure":
            return self.close(st, t)
        t = self.res(st, t)
        if any(x.op == "closure" for x in subterms(t)):
            m = {x: self.close(st, x) for x in subterms(t) if x.op == "closure"}
            t = subst(t, m)
        own = [x for x in subterms(t) if x.op == "g" and x.a[0] in self.w.funcs and x.a[0] not in self.inv]
        if own:
            # helpers handed out as values
            t = subst(t, {x: self.close_helper(st, x) for x in own})
        return t

    def close_helper(self, st, t):
        f = self.w.funcs[t.a[0]]
        if f.cls or f.is_gen or f.node.decorator_list:
            return t
        return self.close_fn(st, f.node.args, lambda s, ps: self.inline(s, f, ps, []), t)

    def close(self, st, t):
        """Canonical term of a function value."""
        c = self.clos[t]
        if isinstance(c.node, ast.FunctionDef):
            if c.qual in self.inv:
                return mk("fn", c.qual)
        return self.close_fn(st, c.node.args, lambda s, ps: self.call_closure(s, t, ps, []), mk("fn", c.qual or "?lambda"))

    def close_fn(self, st, a, run, opaque):
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg or a.kwarg or a.defaults or a.kw_defaults:
            return opaque
        s = st.copy()
        s.facts, s.ev = {}, ()
        self.n_ref += 1
        uid = self.n_ref
        ps = [mk("lv", uid, x, False) for x in names]
        try:
            rs = run(s, ps)
        except Unsupported:
            return opaque
        paths = []
        for s2, v in rs:
            leaf = mk("raise_", s2.ctl[1]) if s2.ctl else self.consume(s2, v)
            if s2.ev:
                leaf = mk("doing", leaf, tuple(loops.ev_term(e) for e in s2.ev))
            paths.append((s2.facts, leaf))
        tree = build_tree(paths)
        h = 1 + loops.height(tree)
        return mk("lam", h, len(ps), subst(tree, {p: mk("bp", h, i) for i, p in enumerate(ps)}))

    def call_closure(self, st, t, args, kws):
        c = self.clos[t]
        f = Func.__new__(Func)
        f.world, f.module, f.qual, f.node, f.cls = self.w, c.frame.module, c.qual or "<lambda>", c.node, None
        f.is_gen = False if isinstance(c.node, ast.Lambda) else any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(c.node))
        return self.inline(st, f, args, kws, closure=c)

    def e_Call(self, n, st):
        self.n_sites += 1
        fn = n.func
        # any()/all() of a generator
        if isinstance(fn, ast.Name) and fn.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) \
                and self.lookup(fn.id, st) is g("builtins." + fn.id):
            return self.quantifier(n.args[0], st, fn.id == "any")
        out = []
        for s, f in self.ev(fn, st):
            if s.ctl:
                out.append((s, None))
                continue
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in n.args] + [k.value for k in n.keywords]
            for s2, ts in self.evs(nodes, s):
                if s2.ctl:
                    out.append((s2, None))
                    continue
                args = []
                for a, t in zip(n.args, ts):
                    if isinstance(a, ast.Starred):
                        r = self.res(s2, t)
                        if r.op in ("list", "tuple"):
                            args.extend(r.a[0])
                        else:
                            args.append(mk("star", r))
                    else:
                        args.append(t)
                kws = []
                for k, t in zip(n.keywords, ts[len(n.args):]):
                    if k.arg is None:
                        r = self.res(s2, t)
                        kws.extend(self.expand_kw(r))
                    else:
                        kws.append((k.arg, t))
                out.extend(self.call(s2, f, args, kws))
        return out

    def expand_kw(self, r):
        items = []
        c = r
        while c.op == "store" and c.a[1].op == "c" and c.a[1].a[0] == "str":
            items.append((cval(c.a[1]), c.a[2]))
            c = c.a[0]
        if c.op == "dict" and all(k.op == "c" and k.a[0] == "str" for k, v in c.a[0]):
            return [(cval(k), v) for k, v in c.a[0]] + items[::-1]
        return [("**", r)]

    def quantifier(self, gen, st, is_any):
        """any()/all() over a generator: an 'exists' condition."""
        body = [ast.If(test=gen.elt if is_any else ast.UnaryOp(ast.Not(), gen.elt), body=[ast.Return(ast.Constant(True))], orelse=[])]
        for gn in reversed(gen.generators):
            for c in reversed(gn.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=gn.target, iter=gn.iter, body=body, orelse=[], lineno=gen.lineno, col_offset=gen.col_offset)]
        names = set()
        for gn in gen.generators:
            for x in ast.walk(gn.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        saved = {k: st.env.get(k) for k in names}
        out = []
        for s in self.block(body, [st]):
            hit = s.ctl is not None and s.ctl[0] == "ret"
            if hit:
                s.ctl = None
            for k, v in saved.items():
                if v is None:
                    s.env.pop(k, None)
                else:
                    s.env[k] = v
            out.append((s, None if s.ctl else (TRUE if hit == is_any else FALSE)))
        return out

    def mkcall(self, f, args, kws):
        """Call term, arguments normalised for known signatures."""
        args, kws = list(args), list(kws)
        sig = dfl = None
        if f.op == "g":
            sig, dfl = EXT_SIG.get(f.a[0]), EXT_DEF.get(f.a[0], {})
        elif f.op == "attr":
            sig, dfl = METH_SIG.get(f.a[1]), METH_DEF.get(f.a[1], {})
        if sig and not any(a.op == "star" for a in args) and len(args) <= len(sig):
            kw = dict(zip(sig, args))
            for k, v in kws:
                kw[k] = v
            args = []
            for k in sig:
                # leading arguments stay positional
                if k in kw:
                    args.append(kw.pop(k))
                else:
                    break
            rest = sorted(kw.items())
            if dfl:
                while args and sig[len(args) - 1] in dfl and is_const(args[-1]) and cval(args[-1]) == dfl[sig[len(args) - 1]]:
                    args.pop()
                rest = [(k, v) for k, v in rest if not (k in dfl and is_const(v) and cval(v) == dfl[k] and type(cval(v)) is type(dfl[k]))]
            kws = rest
        kws = [(k, v) for k, v in kws if default_of(f, k) is not v]
        if (f.a[1] if f.op == "attr" else f.a[0].rsplit(".", 1)[-1] if f.op == "g" else "") in ("argsort", "sort", "sort_values", "sort_index"):
            kws = [(k, const("mergesort") if k == "kind" and v is const("stable") else v) for k, v in kws]
        if f.op == "g" and f.a[0] == "numpy.isin" and len(args) == 2 and not kws and is_num(one_of(args[1])):
            return eq(args[0], one_of(args[1]))
        if f.op == "attr" and f.a[1] == "isin" and len(args) == 1 and not kws and args[0].op in ("list", "tuple", "set") and is_num(one_of(args[0])):
            return eq(f.a[0], one_of(args[0]))
        return mk("call", f, tuple(args), tuple(sorted(kws, key=lambda p: (p[0], digest(p[1])))))

    def call(self, s, f, args, kws):
        self.step(2)
        if f.op == "closure":
            c = self.clos[f]
            if c.qual in self.inv:
                args = [self.consume(s, a) for a in args]
                return self.opaque(s, mk("fn", c.qual), args, kws)
            return self.call_closure(s, f, args, kws)
        if f.op == "attr" and f.a[1] == "__add__" and len(args) == 1:
            return [(s, add(self.res(s, f.a[0]), self.res(s, args[0])))]
        if f.op == "g":
            name = f.a[0]
            m = getattr(self, "c_" + name.replace(".", "_"), None)
            if m is not None:
                r = m(s, args, dict(kws))
                if r is not None:
                    return r
            if name in self.w.funcs:
                if name in self.inv:
                    return self.package_call(s, self.w.funcs[name], args, kws)
                return self.inline(s, self.w.funcs[name], args, kws)
            if name in self.w.classes:
                return self.construct(s, name, args, kws)
            fields = self.namedtuple(name)
            if fields and not any(a.op == "star" for a in args) and not any(k == "**" for k, v in kws):
                b = dict(zip(fields, args))
                b.update(kws)
                if set(b) == set(fields):
                    args, kws = [b[k] for k in fields], []
            if name in IGNORED_CALLS or name.startswith(IGNORED_PREFIX):
                return [(s, NONE)]
            return self.external(s, f, args, kws)
        if f.op == "attr":
            return self.method(s, f.a[0], f.a[1], args, kws)
        return self.opaque(s, f, args, kws, effect=True)

    def namedtuple(self, name):
        """Names of the fields of a named tuple of the package."""
        c = self.w.constant(name)
        if c is None or not isinstance(c[1], ast.Call) or len(c[1].args) < 2:
            return None
        m, n = c
        if ast.unparse(n.func).rpartition(".")[2] != "namedtuple":
            return None
        x = n.args[1]
        if isinstance(x, ast.Constant) and isinstance(x.value, str):
            return x.value.replace(",", " ").split()
        if isinstance(x, (ast.List, ast.Tuple)) and all(isinstance(y, ast.Constant) for y in x.elts):
            return [y.value for y in x.elts]
        return None

    def construct(self, s, name, args, kws):
        init = self.w.funcs.get(name + ".__init__")
        if init is not None:
            b = self.bind(init.node.args, [NONE] + list(args), kws, init)
            if b is not None:
                b.pop(init.node.args.args[0].arg, None)
                al = self.alias.get(init.qual, {})
                b = {al.get(k, k): v for k, v in b.items()}
                kws = [(k, self.consume(s, v)) for k, v in sorted(b.items())]
                args = []
        args = [self.consume(s, a) for a in args]
        t = mk("call", g(name), tuple(args), tuple(sorted(((k, self.consume(s, v)) for k, v in kws), key=lambda p: p[0])))
        t = self.fsread(s, t)
        return self.may_raise(s, t, t)

    def fsread(self, s, t):
        n = t.a[0].a[0] if t.a[0].op == "g" else None
        if n in FS_READ_FUNCS and s.fs:
            return mk("at", t, s.fs)
        return t

    def may_raise(self, s, callt, value):
        h = self.handlers()
        if h is None or callt.op == "call" and callt.a[0].op == "attr" and callt.a[0].a[1] in RAISES and not (set(h) & RAISES[callt.a[0].a[1]]):
            return [(s, value)]
        at = mk("raises", callt, tuple(h))
        out = []
        for s2, b in self.decide(s, at):
            if b:
                s2.ctl = ("exc", mk("exc?", at))
                out.append((s2, None))
            else:
                out.append((s2, value))
        return out

    def external(self, s, f, args, kws):
        name = f.a[0]
        args = [self.consume(s, a) if a.op != "star" else mk("star", self.consume(s, a.a[0])) for a in args]
        kws = [(k, self.consume(s, v)) for k, v in kws]
        t = self.mkcall(f, args, kws)
        if name in FS_WRITE_FUNCS:
            return self.effect(s, t, ("fs",), [])
        if name in MUT_FUNCS:
            return self.effect(s, t, (), [t.a[1][0]] if t.a[1] else [])
        t = self.fsread(s, t)
        rs = [(s, t)] if name in SAFE_IN_TRY else self.may_raise(s, t, t)
        out = []
        for s2, v in rs:
            if v is not None and (name in ("numpy.zeros", "numpy.ones", "numpy.full", "numpy.empty", "pandas.DataFrame", "numpy.arange", "numpy.insert", "pandas.concat")):
                v = self.newref(s2, v)
            out.append((s2, v))
        return out

    def effect(self, s, t, marks, objs, result=None):
        """Record a call that changes something."""
        fsw = "fs" in marks
        s.ev += (("do", t, tuple(sorted(set(marks))), tuple(objs)),)
        k = s.occ.get(t, 0)
        s.occ[t] = k + 1
        if fsw:
            s.fs += 1
        tag = mk("tag", t, k)
        for o in objs:
            self.touch(s, o, tag)
        for m in marks:
            if m.startswith("glob:"):
                self.touch(s, g(m[5:]), tag)
        return self.may_raise(s, t, mk("resof", t, k) if result is None else result)

    def touch(self, s, o, tag):
        """Content of an object is unknown from now on."""
        for k in [k for k in s.heap if k is not o and k.op in ("attr", "sub") and self.root(k) is self.root(o) and contains(k, o)]:
            del s.heap[k]
        if o.op == "ref":
            s.heap[o] = mk("aft", self.res(s, o), tag)
        else:
            b = o
            while b.op == "aft":
                b = b.a[0]
            s.heap[b] = mk("aft", b, tag)
            if b is not o:
                s.heap[o] = mk("aft", b, tag)

    def package_call(self, s, f, args, kws, selft=None):
        b = self.bind(f.node.args, args, kws, f)
        al = self.alias.get(f.qual)
        if al:
            if b is not None:
                b = {al.get(k, k): v for k, v in b.items()}
            else:
                kws = [(al.get(k, k), v) for k, v in kws]
        eff = EFFECTS.get(f.qual)
        raw = {}
        if b is None:
            cargs = [self.consume(s, a) for a in args]
            t = mk("call", g(f.qual), tuple(cargs), tuple(sorted(((k, self.consume(s, v)) for k, v in kws), key=lambda p: p[0])))
            raw = {k: v for k, v in kws}
            names = [x.arg for x in f.node.args.args]
            for x, y in zip(names, args):
                raw[x] = y
            if len(args) <= len(names) and not any(x.op == "star" for x in args) and len(raw) == len(args) + len(kws):
                al = al or {}
                t = mk("call", g(f.qual), (), tuple(sorted(((al.get(k, k), self.consume(s, v)) for k, v in raw.items()), key=lambda p: p[0])))
        else:
            raw = b
            t = mk("call", g(f.qual), (), tuple(sorted((k, self.consume(s, v)) for k, v in b.items())))
        if eff is not None:
            objs = []
            marks = []
            for e in eff:
                if e == "fs" or e.startswith("glob:"):
                    marks.append(e)
                elif e in raw and raw[e].op != "c":
                    objs.append(raw[e])
            if objs or marks or not eff:
                return self.effect(s, t, tuple(marks), objs)
        if f.qual in CHECKERS:
            return self.effect(s, t, (), [])
        t = self.fsread(s, t)
        rs = self.may_raise(s, t, t)
        if fresh_result(f):
            rs = [(s2, self.newref(s2, v) if v is not None else None) for s2, v in rs]
        return rs

    def opaque(self, s, f, args, kws, effect=False):
        raw = list(args) + [v for k, v in kws]
        args = [self.consume(s, a) for a in args]
        kws = [(k, self.consume(s, v)) for k, v in kws]
        t = self.mkcall(self.consume(s, f), args, kws)
        if effect:
            objs = [r for r in raw if r.op in ("ref", "p", "sub", "attr", "aft") and ty(r) not in ("int", "str", "float", "bool")]
            return self.effect(s, t, (), objs)
        return self.may_raise(s, t, t)

    # ---- binding and inlining
    def bind(self, a, args, kws, f):
        """Parameter name -> argument (defaults included), None if it cannot be told."""
        pos = [x.arg for x in a.posonlyargs + a.args]
        if any(x.op == "star" for x in args) or any(k == "**" for k, v in kws):
            if a.kwarg and not any(x.op == "star" for x in args) and all(k != "**" for k, v in kws):
                pass
            else:
                return None
        if len(args) > len(pos) and not a.vararg:
            return None
        b = dict(zip(pos, args))
        if a.vararg:
            b["*" + a.vararg.arg] = mk_tuple(args[len(pos):])
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        extra = []
        for k, v in kws:
            if k in names:
                b[k] = v
            elif a.kwarg:
                extra.append((const(k), v))
            else:
                return None
        if a.kwarg:
            b["**" + a.kwarg.arg] = mk("dict", tuple(extra))
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if x not in b:
                b[x] = self.default(f, d)
        return b

    def default(self, f, d):
        self.frames.append(Frame(f, f.module, None, None))
        try:
            r = self.ev(d, St())
        finally:
            self.frames.pop()
        if len(r) != 1:
            raise Unsupported("default value")
        return self.res(*r[0])

    def inline(self, st, f, args, kws, closure=None):
        if self.depth > 12:
            raise Unsupported("recursion")
        if any(fr.func is not None and fr.func.node is f.node for fr in self.frames):
            # recursive helper
            return self.opaque(st, g(f.qual), args, kws, effect=True)
        if f.is_gen:
            return self.inline_gen(st, f, args, kws)
        b = self.bind(f.node.args, args, kws, f)
        if b is None:
            return self.opaque(st, g(f.qual), args, kws, effect=True)
        need = {x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
        if not need <= set(b):
            st.ctl = ("exc", mk("exc", "builtins.TypeError"))
            return [(st, None)]
        if not isinstance(f.node, ast.Lambda):
            self.inlined.add(f.qual)
        decs = f.decorators() if not isinstance(f.node, ast.Lambda) else []
        saved = st.env
        new = {}
        for k, v in b.items():
            new[k.lstrip("*")] = v
        parent = None
        if closure is not None:
            parent = Parent(closure)
        fr = Frame(f, f.module, f.cls, None, parent=parent)
        if f.cls and f.node.args.args and "staticmethod" not in decs:
            fr.selft = new.get(f.node.args.args[0].arg)
        elif closure is not None:
            fr.cls, fr.selft = closure.frame.cls, closure.frame.selft
        caller = self.frames[-1]
        st.stack = st.stack + ((caller, saved),)
        st.env = new
        self.frames.append(fr)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                rs = self.ev(f.node.body, st)
                outs = []
                for s, t in rs:
                    if not s.ctl:
                        s.ctl = ("ret", t)
                    outs.append(s)
            else:
                outs = self.block(f.node.body, [st])
        finally:
            self.frames.pop()
            self.depth -= 1
        res = []
        for s in outs:
            s.env = dict(s.stack[-1][1])
            s.stack = s.stack[:-1]
            if s.ctl is None:
                res.append((s, NONE))
            elif s.ctl[0] == "ret":
                v = s.ctl[1]
                s.ctl = None
                res.append((s, v))
            elif s.ctl[0] == "exc":
                res.append((s, None))
            else:
                raise Unsupported("control")
        return res

    def inline_gen(self, st, f, args, kws):
        """A generator helper: its items, when they come from one loop (or a display)."""
        b = self.bind(f.node.args, args, kws, f)
        if b is None:
            return self.opaque(st, g(f.qual), args, kws, effect=True)
        node = ast.FunctionDef(name=f.node.name, args=f.node.args, body=GenToList().convert(f.node.body), decorator_list=[], lineno=1)
        f2 = Func.__new__(Func)
        f2.world, f2.module, f2.qual, f2.node, f2.cls, f2.is_gen = f.world, f.module, f.qual, node, f.cls, False
        return self.inline(st, f2, args, kws)

    # ------------------------------------------------------------ builtins
    def pure(self, s, name, args, kw=()):
        return [(s, self.mkcall(g(name), [self.consume(s, a) for a in args], [(k, self.consume(s, v)) for k, v in dict(kw).items()]))]

    def c_builtins_isinstance(self, s, args, kw):
        if len(args) != 2:
            return None
        x = self.res(s, args[0])
        cs = args[1].a[0] if args[1].op == "tuple" else [args[1]]
        cs = sorted(cs, key=digest)
        if len(cs) == 1:
            return [(s, isinst(x, cs[0]))]
        out, cur = [], [s]
        for c in cs:
            nxt = []
            for s1 in cur:
                for s2, b in self.decide(s1, isinst(x, c)):
                    if b:
                        out.append((s2, TRUE))
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + [(s1, FALSE) for s1 in cur]

    def c_builtins_len(self, s, args, kw):
        x = self.res(s, args[0])
        fr = self.frames[-1]
        if fr.cls and args[0] is fr.selft and fr.cls + ".__len__" in self.w.funcs:
            return self.inline(s, self.w.funcs[fr.cls + ".__len__"], [args[0]], [])
        return [(s, length(x))]

    def c_builtins_bool(self, s, args, kw):
        if not args:
            return [(s, FALSE)]
        return [(s, truthy(self.res(s, args[0])))]

    def c_builtins_str(self, s, args, kw):
        if len(args) == 1 and not kw:
            x = self.res(s, args[0])
            if ty(x) == "str":
                return [(s, x)]
            return [(s, fstr([x]))]
        return None

    def c_builtins_int(self, s, args, kw):
        if len(args) == 1:
            x = self.res(s, args[0])
            if ty(x) == "int":
                return [(s, x)]
            if ty(x) == "bool":
                return [(s1, ONE if b else ZERO) for s1, b in self.decide(s, truthy(x))]
        return None

    def c_builtins_list(self, s, args, kw):
        if not args:
            return [(s, self.newref(s, mk("list", ())))]
        x = self.consume(s, args[0])
        return self.may_list(s, x)

    def may_list(self, s, x):
        if x.op in ("list", "tuple"):
            return [(s, self.newref(s, mk_list(x.a[0])))]
        if x.op == "out" and ty(x) == "list":
            return [(s, self.newref(s, x))]
        return [(s, self.newref(s, mk_list([mk("star", x)])))]

    def c_builtins_tuple(self, s, args, kw):
        if not args:
            return [(s, mk("tuple", ()))]
        x = self.consume(s, args[0])
        if x.op in ("list", "tuple"):
            return [(s, mk_tuple(x.a[0]))]
        return [(s, mk("call", g("builtins.tuple"), (x,), ()))]

    def c_builtins_set(self, s, args, kw):
        if not args:
            return [(s, self.newref(s, mk("set", ())))]
        x = self.consume(s, args[0])
        if x.op in ("list", "tuple", "set") and not any(i.op == "star" for i in x.a[0]):
            return [(s, self.newref(s, mk("set", tuple(sorted(set(x.a[0]), key=digest)))))]
        return [(s, self.newref(s, mk("call", g("builtins.set"), (x,), ())))]

    def c_builtins_dict(self, s, args, kw):
        if "**" in kw:
            return None
        t = mk("dict", ())
        if args:
            x = self.consume(s, args[0])
            if x.op in ("dict", "store", "dmerge", "del"):
                t = x
            elif x.op == "out":
                t = x
            else:
                t = mk("call", g("builtins.dict"), (x,), ())
        for k, v in kw.items():
            t = store(t, const(k), v)
        return [(s, self.newref(s, t))]

    def c_builtins_any(self, s, args, kw):
        return self.any_all(s, args, True)

    def c_builtins_all(self, s, args, kw):
        return self.any_all(s, args, False)

    def any_all(self, s, args, is_any):
        x = self.consume(s, args[0])
        if x.op in ("list", "tuple") and not any(i.op == "star" for i in x.a[0]):
            out, cur = [], [s]
            for i in x.a[0]:
                nxt = []
                for s1 in cur:
                    for s2, b in self.decide(s1, truthy(i)):
                        (out.append((s2, TRUE if is_any else FALSE)) if b == is_any else nxt.append(s2))
                cur = nxt
            return out + [(s1, FALSE if is_any else TRUE) for s1 in cur]
        r = loops.quant_of_comp(x, is_any)
        if r is not None:
            return [(s, r)]
        return [(s, truthy(mk("call", g("builtins.any" if is_any else "builtins.all"), (x,), ())))]

    def _minmax(self, s, args, kw, is_min):
        if kw or len(args) != 2:
            if len(args) == 1 and args[0].op == "tuple" and len(args[0].a[0]) == 2 and not kw:
                args = list(args[0].a[0])
            else:
                return self.pure(s, "builtins.min" if is_min else "builtins.max", args, kw)
        a, b = (self.res(s, x) for x in args)
        if (b.op, digest(b)) < (a.op, digest(a)):
            a, b = b, a
        out = []
        for s2, t in self.decide(s, lt(a, b)):
            out.append((s2, a if t == is_min else b))
        return out

    def c_builtins_min(self, s, args, kw):
        return self._minmax(s, args, kw, True)

    def c_builtins_max(self, s, args, kw):
        return self._minmax(s, args, kw, False)

    def c_builtins_iter(self, s, args, kw):
        return None

    def c_builtins_next(self, s, args, kw):
        x = self.consume(s, args[0])
        if len(args) == 1 and x.op == "call" and x.a[0] is g("builtins.iter"):
            pass
        k = s.occ.get(mk("next", x), 0)
        s.occ[mk("next", x)] = k + 1
        t = mk("nextof", x, k)
        if len(args) == 2:
            h = mk("raises", t, ("StopIteration",))
            out = []
            for s2, b in self.decide(s, h):
                out.append((s2, args[1] if b else t))
            return out
        h = self.handlers()
        if h and any(y in ("StopIteration", "Exception", "BaseException") for y in h):
            out = []
            for s2, b in self.decide(s, mk("raises", t, ("StopIteration",))):
                if b:
                    s2.ctl = ("exc", mk("exc", "builtins.StopIteration"))
                    out.append((s2, None))
                else:
                    out.append((s2, t))
            return out
        return [(s, t)]

    def c_builtins_map(self, s, args, kw):
        if len(args) != 2:
            return None
        f, x = args
        if f.op in ("g", "closure", "attr"):
            # same as a generator calling the function on each item
            fn, xn = "%mf", "%mx"
            s.env[fn], s.env[xn] = f, x
            node = ast.ListComp(elt=ast.Call(func=ast.Name(fn, ast.Load()), args=[ast.Name("%mi", ast.Load())], keywords=[]),
                                generators=[ast.comprehension(target=ast.Name("%mi", ast.Store()), iter=ast.Name(xn, ast.Load()), ifs=[], is_async=0)])
            node.lineno = node.col_offset = 0
            out = self.comp(node, s, "list")
            for s2, t in out:
                s2.env.pop(fn, None)
                s2.env.pop(xn, None)
            return out
        return None

    def c_builtins_filter(self, s, args, kw):
        if len(args) == 2 and args[0].op in ("g", "closure", "attr"):
            s.env["%mf"], s.env["%mx"] = args
            nm = ast.Name("%mi", ast.Load())
            node = ast.ListComp(elt=nm, generators=[ast.comprehension(target=ast.Name("%mi", ast.Store()), iter=ast.Name("%mx", ast.Load()),
                                ifs=[ast.Call(func=ast.Name("%mf", ast.Load()), args=[nm], keywords=[])], is_async=0)])
            node.lineno = node.col_offset = 0
            return self.comp(node, s, "list")
        return None

    def c_builtins_sorted(self, s, args, kw):
        r = self.pure(s, "builtins.sorted", args, kw)
        return [(s2, self.newref(s2, t)) for s2, t in r]

    def c_builtins_getattr(self, s, args, kw):
        if len(args) == 2 and args[1].op == "c" and args[1].a[0] == "str":
            return self.getattr(s, args[0], cval(args[1]))
        return None

    def c_builtins_setattr(self, s, args, kw):
        if len(args) == 3 and args[1].op == "c":
            return [(x, NONE) for x in self.set_attr(s, args[0], cval(args[1]), args[2])]
        return None

    def c_builtins_super(self, s, args, kw):
        return [(s, mk("super"))]

    def c_builtins_callable(self, s, args, kw):
        return [(s, mk("hasattr", mk("callable", self.consume(s, args[0]))))]

    def c_builtins_hasattr(self, s, args, kw):
        return [(s, mk("hasattr", mk("call", g("builtins.hasattr"), tuple(self.consume(s, a) for a in args), ())))]

    def c_numpy_logical_and(self, s, args, kw):
        return [(s, binop("band", *[self.res(s, a) for a in args[:2]]))]

    def c_numpy_logical_not(self, s, args, kw):
        x = self.res(s, args[0])
        return [(s, invert(x))]

    def c_numpy_logical_or(self, s, args, kw):
        return [(s, binop("bor", *[self.res(s, a) for a in args[:2]]))]

    def c_operator_add(self, s, args, kw):
        return [(s, add(self.res(s, args[0]), self.res(s, args[1])))]

    def c_os_path_join(self, s, args, kw):
        return None

    def c_copy_copy(self, s, args, kw):
        x = self.cur(s, args[0])
        if x.op in ("dict", "store", "list", "dmerge"):
            return [(s, self.newref(s, x))]
        return None

    def c_contextlib_suppress(self, s, args, kw):
        return [(s, mk("suppress", tuple(self.consume(s, a) for a in args)))]

    # ------------------------------------------------------------ methods
    def method(self, s, obj, name, args, kws):
        fr = self.frames[-1]
        me = obj
        while me.op == "aft":
            me = me.a[0]
        if fr.cls and me is fr.selft:
            q = fr.cls + "." + name
            f = self.w.funcs.get(q)
            if f is not None:
                obj = me
                decs = f.decorators()
                full = list(args) if "staticmethod" in decs else [obj] + list(args)
                if q in self.inv:
                    return self.package_call(s, f, full, kws)
                return self.inline(s, f, full, kws)
        kw = dict(kws)
        if obj.op == "super":
            return [(s, NONE)]
        c = self.cur(s, obj)
        if name == "__contains__" and len(args) == 1:
            return [(s, contains_(self.res(s, args[0]), self.res(s, obj)))]
        if name == "__getitem__" and len(args) == 1:
            return self.getitem(s, obj, self.res(s, args[0]))
        if name == "__setitem__" and len(args) == 2:
            return [(x, NONE) for x in self.set_item(s, obj, args[0], args[1])]
        if name == "get" and 1 <= len(args) <= 2 and not kws and self.dictish(c, obj):
            k = self.res(s, args[0])
            out = []
            for s2, b in self.decide(s, contains_(k, self.res(s, obj))):
                if b:
                    out.append((s2, self._item(s2, obj, self.cur(s2, obj), k)))
                else:
                    out.append((s2, args[1] if len(args) == 2 else NONE))
            return out
        if name in ("items", "keys", "values") and not args:
            return [(s, mk("call", mk("attr", obj, name), (), ()))]
        if name in CONTAINER_MUT and (name not in ("sort", "update", "pop", "remove", "insert", "add", "append") or not self.framelike(c)):
            r = self.container(s, obj, c, name, args, kw)
            if r is not None:
                return r
        if name == "to_numpy" and "dtype" not in kw and not args:
            cp = kw.get("copy", FALSE)
            if cp is FALSE:
                return self.getattr(s, obj, "values")
        if name in ("endswith", "startswith") and len(args) == 1 and not kws:
            alts = self.consume(s, args[0])
            if alts.op == "tuple" and 1 <= len(alts.a[0]) <= 4 and not any(x.op == "star" for x in alts.a[0]):
                # any of several endings
                o, out, cur = self.res(s, obj), [], [s]
                for x in alts.a[0]:
                    nxt = []
                    for s1 in cur:
                        for s2, b in self.decide(s1, truthy(self.mkcall(mk("attr", o, name), (x,), ()))):
                            if b:
                                out.append((s2, TRUE))
                            else:
                                nxt.append(s2)
                    cur = nxt
                return out + [(s1, FALSE) for s1 in cur]
        if name == "format" and c.op == "c":
            return [(s, mk("call", mk("attr", c, "format"), tuple(self.consume(s, a) for a in args), tuple((k, self.consume(s, v)) for k, v in kws)))]
        if name == "copy" and not args and not kws and (c.op in ("list", "dict", "set", "store", "dmerge", "out") and ty(c) in ("list", "dict", "set", None)) and c.op != "out":
            return [(s, self.newref(s, c))]
        if name == "join" and ty(c) == "str" and len(args) == 1:
            x = self.consume(s, args[0])
            t = mk("call", mk("attr", self.res(s, obj), "join"), (loops.strip_str(x),), ())
            return [(s, t)]
        o = self.res(s, obj)
        args = [self.consume(s, a) if a.op != "star" else mk("star", self.consume(s, a.a[0])) for a in args]
        kws = [(k, self.consume(s, v)) for k, v in kws]
        if name == "index" and len(args) == 1 and not kws and c.op == "list" and len(c.a[0]) == 2 and c.a[0][0].op == "star" and c.a[0][1] is args[0] \
                and query(s.facts, contains_(args[0], c.a[0][0].a[0])) is False:
            return [(s, self.mkcall(g("builtins.len"), [c.a[0][0].a[0]], []))]
        t = self.mkcall(mk("attr", o, name), args, kws)
        if name in FS_WRITE_METHS:
            return self.effect(s, t, ("fs",), [obj])
        if name in INPLACE_METHS and kw.get("inplace") is TRUE:
            k2 = [(k, v) for k, v in kws if k != "inplace"]
            if self.is_local(obj):
                # x.m(inplace=True) is x = x.m() on a local object
                t2 = self.mkcall(mk("attr", o, name), args, k2)
                s.heap[obj] = t2
                return [(s, NONE)]
            return self.effect(s, t, (), [obj], result=NONE)
        if name in OBJ_MUT:
            return self.effect(s, t, (), [obj])
        if name in ("tolist", "to_list"):
            t = mk("call", mk("attr", o, "tolist"), (), ())
        rs = self.may_raise(s, t, t) if name not in SAFE_METH else [(s, t)]
        if name in ("copy", "extract", "reset_index"):
            rs = [(s2, self.newref(s2, v) if v is not None else None) for s2, v in rs]
        return rs

    def framelike(self, c):
        if c.op == "call" and c.a[0].op == "g":
            return c.a[0].a[0] in ("pandas.DataFrame", "pandas.Series") or c.a[0].a[0].startswith("vaex")
        if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] in ("concat", "extract", "sort"):
            return True
        return False

    def dictish(self, c, obj):
        if c.op in ("dict", "store", "dmerge", "del", "aft", "lv", "out", "p", "sub", "attr", "elem", "resof", "g", "call"):
            return not (c.op == "call" and self.framelike(c))
        return False

    def container(self, s, obj, c, name, args, kw):
        """Change of a list, dict or set."""
        val = self.res(s, obj)
        result = NONE
        ar = [self.consume(s, a) for a in args]
        if kw and name not in ("sort", "update", "pop"):
            return None
        keep = args
        if name == "append" and len(ar) == 1:
            new = mk_list([mk("star", c), args[0]])
        elif name == "extend" and len(ar) == 1:
            new = mk_list([mk("star", c), mk("star", loops.as_items(ar[0]))])
        elif name == "update" and len(args) <= 1:
            new = c
            if ar:
                new = dict_merge(new, ar[0])
            for k, v in kw.items():
                new = store(new, const(k), v)
        elif name in ("add",):
            new = mk("setadd", c, ar[0])
            if c.op == "set" and not any(i.op == "star" for i in c.a[0]):
                new = mk("set", tuple(sorted(set(c.a[0]) | {ar[0]}, key=digest)))
        elif name in ("discard", "remove"):
            new = mk("setdel", c, ar[0])
        elif name == "clear":
            new = mk(c.op if c.op in ("list", "dict", "set") else "dict", ())
        elif name == "sort":
            new = self.mkcall(g("builtins.sorted"), [c], [(k, self.consume(s, v)) for k, v in kw.items()])
        elif name == "insert" and len(ar) == 2:
            new = mk_list([ar[1], mk("star", c)]) if ar[0] is ZERO else mk("insert", c, ar[0], ar[1])
        elif name == "setdefault" and 1 <= len(ar) <= 2:
            out = []
            for s2, b in self.decide(s, contains_(ar[0], val)):
                if not b:
                    for s3 in self.set_item(s2, obj, args[0], args[1] if len(args) == 2 else NONE):
                        out.append((s3, args[1] if len(args) == 2 else NONE))
                else:
                    out.append((s2, self._item(s2, obj, self.cur(s2, obj), ar[0])))
            return out
        elif name == "pop":
            return self.pop(s, obj, c, val, args, ar)
        else:
            new = mk("mut", c, name, tuple(ar))
        self.put(s, obj, new, ("mut", name, tuple(ar) + tuple(mk("kw", k, self.consume(s, v)) for k, v in sorted(kw.items()))))
        return [(s, result)]

    def pop(self, s, obj, c, val, args, ar):
        if not ar:
            k = const(-1)
        else:
            k = ar[0]
        if c.op == "list" and k.op == "c" and k.a[0] == "int" and not any(i.op == "star" for i in c.a[0]):
            items = list(c.a[0])
            i = cval(k)
            if -len(items) <= i < len(items):
                v = items.pop(i)
                self.put(s, obj, mk("list", tuple(items)), ("mut", "pop", tuple(ar)))
                return [(s, v)]
        if k.op == "c" and k.a[0] == "int" or not ar:
            # by position
            n = s.occ.get(mk("pop", c, k), 0)
            s.occ[mk("pop", c, k)] = n + 1
            v = mk("popped", c, k)
            self.put(s, obj, mk("del", c, k), ("mut", "pop", tuple(ar)))
            return [(s, v)]
        out = []
        h = self.handlers()
        need = len(ar) == 2 or (h and any(x in ("KeyError", "LookupError", "Exception", "BaseException") for x in h))
        branches = self.decide(s, contains_(k, val)) if need else [(s, True)]
        for s2, b in branches:
            if b:
                v = self._item(s2, obj, self.cur(s2, obj), k)
                self.put(s2, obj, delete(self.cur(s2, obj), k), ("mut", "pop", (k,)))
                out.append((s2, v))
            elif len(ar) == 2:
                out.append((s2, args[1]))
            else:
                s2.ctl = ("exc", mk("exc", "builtins.KeyError"))
                out.append((s2, None))
        return out

    def put(self, s, obj, new, what):
        """New content of an object (an event when it is not an object of the function)."""
        if not self.is_local(obj) or obj.op not in ("ref", "lv", "out"):
            r = self.root(obj)
            loc = self.is_local(obj)
            if loc and r.op in ("ref",):
                # inner part of a local object
                path = self.path_of(obj, r)
                inner = self.put_inner(s, r, obj, new, path)
                if inner:
                    return
            s.ev += ((what[0], self.id_of(s, obj)) + tuple(what[1:]),)
        s.heap[obj] = new

    def put_inner(self, s, r, obj, new, path):
        c = self.cur(s, r)
        if len(path) == 1:
            s.heap[r] = store(c, path[0], new)
            return True
        return False

    def path_of(self, obj, r):
        out = []
        while obj is not r:
            if obj.op == "attr":
                out.append(fld(obj.a[1]))
            elif obj.op in ("sub", "elem"):
                out.append(obj.a[1])
            obj = obj.a[0]
        return out[::-1]

    def id_of(self, s, obj):
        """Name of an object in events: without versions."""
        def strip(t):
            while t.op == "aft":
                t = t.a[0]
            if t.op == "attr":
                return mk("attr", strip(t.a[0]), t.a[1])
            if t.op in ("sub", "elem"):
                return mk(t.op, strip(t.a[0]), t.a[1])
            return t
        t = strip(obj)
        return self.res_id(s, t)

    def res_id(self, s, t):
        if "ref" in flags(t):
            if t.op == "ref":
                return self.res(s, t)
            m = {x: self.res(s, x) for x in subterms(t) if x.op == "ref"}
            return subst(t, m)
        return t

    # ------------------------------------------------------------ statements
    def block(self, stmts, states):
        live = states
        done = []
        for n in stmts:
            nxt = []
            for s in live:
                for s2 in self.stmt(n, s):
                    (done if s2.ctl else nxt).append(s2)
            live = nxt
            if len(live) + len(done) > self.budget:
                raise Budget()
            if not live:
                break
        return live + done

    def stmt(self, n, st):
        self.step()
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(n).__name__)
        return m(n, st)

    def s_Pass(self, n, st):
        return [st]

    def s_Import(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name.split(".")[0]] = g(self.w.canon(a.name if a.asname else a.name.split(".")[0]))
        return [st]

    def s_ImportFrom(self, n, st):
        if n.level:
            raise Unsupported("relative import")
        for a in n.names:
            st.env[a.asname or a.name] = self.global_term(n.module + "." + a.name)
        return [st]

    def s_Global(self, n, st):
        raise Unsupported("global")

    s_Nonlocal = s_Global

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [st]
        return [s for s, t in self.ev(n.value, st)]

    def s_Assert(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if not s.ctl and b is False:
                s.ctl = ("exc", mk("exc", "builtins.AssertionError"))
            out.append(s)
        return out

    def s_Return(self, n, st):
        out = []
        if n.value is None:
            st.ctl = ("ret", NONE)
            return [st]
        for s, t in self.ev(n.value, st):
            if not s.ctl:
                s.ctl = ("ret", t if t.op != "closure" else self.consume(s, t) if self.depth == 0 else t)
            out.append(s)
        return out

    def s_Raise(self, n, st):
        if n.exc is None:
            st.ctl = ("exc", mk("exc", "reraise"))
            return [st]
        e = n.exc
        arg = None
        if isinstance(e, ast.Call):
            arg = e.args
            e = e.func
        out = []
        for s, t in self.ev(e, st):
            if not s.ctl:
                if t.op == "g":
                    s.ctl = ("exc", mk("exc", t.a[0]))
                elif t.op == "caught":
                    s.ctl = ("exc", t.a[0])
                else:
                    # built by a helper
                    r = self.res(s, t)
                    s.ctl = ("exc", mk("exc", "?" ) if r.op != "call" else mk("exc", r.a[0].a[0] if r.a[0].op == "g" else "?"))
                # a helper call giving the exception
                if t.op == "closure" or (t.op == "g" and t.a[0] in self.w.funcs):
                    s.ctl = None
                    for s2, v in self.ev(n.exc, s):
                        if not s2.ctl:
                            v = self.res(s2, v)
                            s2.ctl = ("exc", mk("exc", v.a[0].a[0] if v.op == "call" and v.a[0].op == "g" else "?"))
                        out.append(s2)
                    continue
            out.append(s)
        return out

    def s_Assign(self, n, st):
        out = []
        for s, t in self.ev(n.value, st):
            if s.ctl:
                out.append(s)
                continue
            cur = [s]
            for tg in n.targets:
                nxt = []
                for s2 in cur:
                    nxt.extend([s2] if s2.ctl else self.assign(s2, tg, t))
                cur = nxt
            out.extend(cur)
        return out

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [st]
        out = []
        for s, t in self.ev(n.value, st):
            out.extend([s] if s.ctl else self.assign(s, n.target, t))
        return out

    def assign(self, s, tg, t):
        if isinstance(tg, ast.Name):
            s.env[tg.id] = t
            return [s]
        if isinstance(tg, (ast.Tuple, ast.List)):
            return self.unpack(s, tg.elts, t)
        if isinstance(tg, ast.Attribute):
            out = []
            for s2, o in self.ev(tg.value, s):
                out.extend([s2] if s2.ctl else self.set_attr(s2, o, tg.attr, t))
            return out
        if isinstance(tg, ast.Subscript):
            out = []
            for s2, ts in self.evs([tg.value, tg.slice], s):
                out.extend([s2] if s2.ctl else self.set_item(s2, ts[0], ts[1], t))
            return out
        raise Unsupported("assignment")

    def unpack(self, s, elts, t):
        c = self.cur(s, t)
        if c.op in ("list", "tuple") and not any(x.op == "star" for x in c.a[0]) and not any(isinstance(e, ast.Starred) for e in elts):
            if len(c.a[0]) == len(elts):
                cur = [s]
                for e, x in zip(elts, c.a[0]):
                    cur = [s3 for s2 in cur for s3 in self.assign(s2, e, x)]
                return cur
        if any(isinstance(e, ast.Starred) for e in elts):
            i = [isinstance(e, ast.Starred) for e in elts].index(True)
            cur = [s]
            for j, e in enumerate(elts):
                if j < i:
                    x = sub(c, const(j))
                elif j == i:
                    x = mk_list([mk("star", sub(c, slice_(const(i), const(i - len(elts) + 1) if i < len(elts) - 1 else NONE, NONE)))])
                    e = e.value
                else:
                    x = sub(c, const(j - len(elts)))
                cur = [s3 for s2 in cur for s3 in self.assign(s2, e, x)]
            return cur
        h = self.handlers()
        states = [(s, True)]
        if h and any(x in ("ValueError", "TypeError", "Exception", "BaseException") for x in h):
            states = self.decide(s, mk("unpacks", self.res(s, t), len(elts), tuple(h)))
        out = []
        for s2, ok in states:
            if not ok:
                s2.ctl = ("exc", mk("exc", "builtins.ValueError"))
                out.append(s2)
                continue
            cur = [s2]
            for j, e in enumerate(elts):
                nxt = []
                for s3 in cur:
                    x = sub(c, const(j))
                    nxt.extend(self.assign(s3, e, x))
                cur = nxt
            out.extend(cur)
        return out

    def set_attr(self, s, o, name, v):
        name = self.attr_map.get(name, name)
        fr = self.frames[-1]
        if fr.cls and o is fr.selft:
            f = self.w.funcs.get(fr.cls + "." + name + ".setter")
            if f is not None:
                return [x for x, _ in self.inline(s, f, [o, v], [])]
        return self.set_key(s, o, fld(name), v)

    def set_item(self, s, o, k, v):
        k = self.res(s, k)
        o, k = self.norm_key(o, k)
        return self.set_key(s, o, k, v)

    def set_key(self, s, o, k, v):
        c = self.cur(s, o)
        r = self.root(o)
        if self.is_local(o):
            if o is r or o.op in ("ref", "lv", "out"):
                s.heap[o] = store(c, k, v)
                return [s]
            # part of a local object
            path = self.path_of(o, r)
            rc = self.cur(s, r)
            s.heap[r] = store(rc, mk("path", tuple(path) + (k,)), self.consume(s, v))
            return [s]
        s.ev += (("set", self.id_of(s, o), k, self.consume(s, v)),)
        s.heap[o] = store(c, k, v)
        if o.op == "attr" and o.a[1] in ("loc", "iloc", "at", "iat", "values"):
            b = o.a[0]
            s.heap[b] = store(self.cur(s, b), mk("path", (fld(o.a[1]), k)), self.consume(s, v))
        # inner objects replaced
        for h in [h for h in s.heap if h is not o and h.op in ("sub", "attr") and h.a[0] is o and (h.a[1] is k or fld(h.a[1]) is k if h.op == "attr" else h.a[1] is k)]:
            del s.heap[h]
        if r.op == "g" or "store" in str(ty(r)):
            pass
        return [s]

    def s_Delete(self, n, st):
        cur = [st]
        for tg in n.targets:
            nxt = []
            for s in cur:
                if isinstance(tg, ast.Name):
                    s.env.pop(tg.id, None)
                    nxt.append(s)
                    continue
                if isinstance(tg, ast.Attribute):
                    for s2, o in self.ev(tg.value, s):
                        if not s2.ctl:
                            s2.ev += (("mut", self.id_of(s2, o), "delattr", (const(tg.attr),)),)
                        nxt.append(s2)
                    continue
                if not isinstance(tg, ast.Subscript):
                    raise Unsupported("delete")
                for s2, ts in self.evs([tg.value, tg.slice], s):
                    if not s2.ctl:
                        k = self.res(s2, ts[1])
                        self.put(s2, ts[0], delete(self.cur(s2, ts[0]), k), ("mut", "pop", (k,)))
                    nxt.append(s2)
            cur = nxt
        return cur

    def s_AugAssign(self, n, st):
        out = []
        if isinstance(n.target, ast.Name):
            nodes = [ast.Name(n.target.id, ast.Load()), n.value]
            for s, ts in self.evs(nodes, st):
                if s.ctl:
                    out.append(s)
                    continue
                o = ts[0]
                a, b = self.res(s, ts[0]), self.res(s, ts[1])
                new = self.bin(n.op, a, b)
                if type(n.op) in IN_PLACE_BIN and self.in_place(s, o, a, b):
                    if self.is_local(o):
                        if isinstance(n.op, ast.Add) and ty(a) == "list":
                            new = mk_list([mk("star", a), mk("star", loops.as_items(b))])
                        s.heap[o] = new
                    else:
                        s.ev += (("mut", self.id_of(s, o), "i" + BIN[type(n.op)], (b,)),)
                        s.heap[o] = new
                else:
                    s.env[n.target.id] = new
                out.append(s)
            return out
        if isinstance(n.target, ast.Subscript):
            for s, ts in self.evs([n.target.value, n.target.slice], st):
                if s.ctl:
                    out.append(s)
                    continue
                k = self.res(s, ts[1])
                for s2, a in self.getitem(s, ts[0], k):
                    if s2.ctl:
                        out.append(s2)
                        continue
                    for s3, b in self.ev(n.value, s2):
                        if s3.ctl:
                            out.append(s3)
                            continue
                        out.extend(self.set_item(s3, ts[0], k, self.bin(n.op, self.res(s3, a), self.res(s3, b))))
            return out
        if isinstance(n.target, ast.Attribute):
            for s, o in self.ev(n.target.value, st):
                for s2, a in ([(s, None)] if s.ctl else self.getattr(s, o, n.target.attr)):
                    for s3, b in ([(s2, None)] if s2.ctl else self.ev(n.value, s2)):
                        out.extend([s3] if s3.ctl else self.set_attr(s3, o, n.target.attr, self.bin(n.op, self.res(s3, a), self.res(s3, b))))
            return out
        raise Unsupported("augmented assignment")

    def in_place(self, s, o, a, b):
        if is_num(a) or is_num(b) or ty(a) in ("str", "tuple", "bool"):
            return False
        if o.op == "ref":
            return True
        if o.op in ("p", "sub", "attr", "elem", "aft", "lv"):
            if o.op == "lv" and o.a[1].startswith("h:"):
                return True
            if o.op == "lv":
                return False
            return ty(a) is None or ty(a) in ("list", "dict", "set")
        return False

    def s_If(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if s.ctl:
                out.append(s)
            elif b:
                out.extend(self.block(n.body, [s]))
            else:
                out.extend(self.block(n.orelse, [s]) if n.orelse else [s])
        return out

    def s_With(self, n, st):
        cur = [st]
        ctxs = []
        sup = []
        for it in n.items:
            nxt = []
            for s in cur:
                for s2, t in self.ev(it.context_expr, s):
                    if s2.ctl:
                        nxt.append(s2)
                        continue
                    ct = self.res(s2, t)
                    if ct.op == "suppress":
                        sup.append(tuple(x.a[0].split(".")[-1] if x.op == "g" else "?" for x in ct.a[0]))
                        nxt.append(s2)
                        continue
                    if ct.op == "call" and ct.a[0].op == "g" and ct.a[0].a[0] == "os.scandir":
                        v = t
                    else:
                        s2.ev += (("enter", ct),)
                        ctxs.append(ct)
                        v = mk("entered", ct)
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(s2, it.optional_vars, v))
                    else:
                        nxt.append(s2)
            cur = nxt
        if sup:
            body = [ast.Try(body=n.body, handlers=[ast.ExceptHandler(type=ast.Tuple([ast.Name(x, ast.Load()) for x in sup[0]], ast.Load()), name=None, body=[ast.Pass()])], orelse=[], finalbody=[])]
            return [x for s in cur for x in ([s] if s.ctl else self.block(body, [s]))]
        uniq = list(dict.fromkeys(ctxs))
        out = []
        for s in cur:
            if s.ctl:
                out.append(s)
                continue
            for s2 in self.block(n.body, [s]):
                for ct in reversed(uniq):
                    s2.ev += (("exit", ct),)
                out.append(s2)
        return out

    def handler_names(self, h):
        if h.type is None:
            return ("BaseException",)
        if isinstance(h.type, ast.Tuple):
            return tuple(sorted(self.exc_name(x) for x in h.type.elts))
        return (self.exc_name(h.type),)

    def exc_name(self, x):
        nm = x.id if isinstance(x, ast.Name) else ast.unparse(x)
        if hasattr(_b, nm) and isinstance(getattr(_b, nm), type):
            return getattr(_b, nm).__name__
        return nm.split(".")[-1]

    def catches(self, names, exc):
        """Does a handler for these names catch this exception (None: may)."""
        if exc.op == "exc?":
            return True
        nm = exc.a[0].split(".")[-1]
        if "BaseException" in names or "Exception" in names:
            return True
        if nm in names:
            return True
        mro = self.mro(exc.a[0])
        return any(m in names for m in mro)

    def mro(self, q):
        nm = q.split(".")[-1]
        out = []
        c = self.w.classes.get(q)
        if c is not None:
            for b in c[1].bases:
                out.append(ast.unparse(b).split(".")[-1])
                out.extend(self.mro("builtins." + out[-1]))
            return out
        k = getattr(_b, nm, None)
        if isinstance(k, type) and issubclass(k, BaseException):
            return [x.__name__ for x in k.__mro__]
        return out

    def s_Try(self, n, st):
        names = tuple(x for h in n.handlers for x in self.handler_names(h))
        pushed = bool(n.handlers)
        if pushed:
            self.try_stack.append(names)
        try:
            outs = self.block(n.body, [st])
        finally:
            if pushed:
                self.try_stack.pop()
        res = []
        for s in outs:
            if s.ctl is None:
                res.extend(self.block(n.orelse, [s]) if n.orelse else [s])
                continue
            if s.ctl[0] != "exc":
                res.append(s)
                continue
            exc = s.ctl[1]
            for h in n.handlers:
                if self.catches(self.handler_names(h), exc):
                    s.ctl = None
                    if h.name:
                        s.env[h.name] = mk("caught", exc)
                    hs = self.block(h.body, [s])
                    for s2 in hs:
                        if s2.ctl and s2.ctl[0] == "exc" and s2.ctl[1].op == "exc" and s2.ctl[1].a[0] == "reraise":
                            s2.ctl = ("exc", exc)
                        res.append(s2)
                    break
            else:
                res.append(s)
        if n.finalbody:
            out = []
            for s in res:
                ctl = s.ctl
                s.ctl = None
                for s2 in self.block(n.finalbody, [s]):
                    if s2.ctl is None:
                        s2.ctl = ctl
                    out.append(s2)
            res = out
        return res

    def s_FunctionDef(self, n, st):
        fr = self.frames[-1]
        self.n_ref += 1
        t = mk("closure", self.n_ref)
        q = (fr.func.qual + ".<locals>." + n.name) if fr.func is not None else n.name
        self.clos[t] = Closure(n, fr, st.env, q)
        if n.decorator_list:
            raise Unsupported("decorated nested function")
        st.env[n.name] = t
        return [st]

    def s_Break(self, n, st):
        st.ctl = ("brk",)
        return [st]

    def s_Continue(self, n, st):
        st.ctl = ("cont",)
        return [st]

    # ------------------------------------------------------------ loops
    def s_For(self, n, st):
        out = []
        for s, t in self.ev(n.iter, st):
            if s.ctl:
                out.append(s)
                continue
            out.extend(self.for_(s, n, t))
        return out

    def for_(self, s, n, t):
        dom, binder = loops.domain(self, s, t)
        if dom.op in ("list", "tuple") and len(dom.a[0]) <= 6 and not any(x.op == "star" for x in dom.a[0]):
            # few known items: unrolled
            cur, done = [s], []
            for i in range(len(dom.a[0])):
                nxt = []
                for s1 in cur:
                    for s2 in self.assign(s1, n.target, binder(s1, const(i))):
                        for s3 in self.block(n.body, [s2]):
                            if s3.ctl and s3.ctl[0] == "cont":
                                s3.ctl = None
                            if s3.ctl:
                                done.append(s3)
                            else:
                                nxt.append(s3)
                cur = nxt
            out = []
            for s1 in cur:
                out.extend(self.block(n.orelse, [s1]) if n.orelse else [s1])
            for s1 in done:
                if s1.ctl[0] == "brk":
                    s1.ctl = None
                out.append(s1)
            return out
        return loops.run(self, s, n, dom, binder)

    def s_While(self, n, st):
        return loops.run_while(self, st, n)

    def s_Match(self, n, st):
        raise Unsupported("match")


class Frame:
    def __init__(self, func, module, cls, selft, parent=None, free=False):
        self.func, self.module, self.cls, self.selft, self.parent, self.free = func, module, cls, selft, parent, free


class Closure:
    def __init__(self, node, frame, env, qual):
        self.node, self.frame, self.env, self.qual = node, frame, env, qual


class Parent:
    """Scope enclosing an inlined nested function."""

    def __init__(self, c):
        self.c = c
        self.parent = c.frame.parent

    def env_in(self, st):
        for fr, env in reversed(st.stack):
            if fr is self.c.frame:
                return env
        return self.c.env


class AccEmit(ast.expr):
    _fields = ("acc", "kind", "key", "value")

    def __init__(self, acc, kind, key, value):
        self.acc, self.kind, self.key, self.value = acc, kind, key, value
        self.lineno = self.col_offset = 0


class GenToList:
    """Body of a generator helper turned into the list of its items."""

    def convert(self, body):
        acc = "%gen"
        import copy

        class Tr(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            visit_Lambda = visit_FunctionDef

            def visit_Return(self, n):
                return ast.Return(ast.Name(acc, ast.Load()))

            def visit_Expr(self, n):
                if isinstance(n.value, ast.Yield):
                    return ast.Expr(AccEmit(acc, "list", None, n.value.value or ast.Constant(None)))
                if isinstance(n.value, ast.YieldFrom):
                    return ast.For(target=ast.Name("%yf", ast.Store()), iter=n.value.value, lineno=0, col_offset=0, orelse=[],
                                   body=[ast.Expr(AccEmit(acc, "list", None, ast.Name("%yf", ast.Load())))])
                return n

        new = [Tr().visit(copy.deepcopy(x)) for x in body]
        return [ast.Assign(targets=[ast.Name(acc, ast.Store())], value=ast.List([], ast.Load()))] + new + [ast.Return(ast.Name(acc, ast.Load()))]


def fresh_result(f):
    """Whether a function gives an object it has just made: a display, kept nowhere else."""
    r = _FRESH.get(id(f.node))
    if r is None:
        r = _FRESH[id(f.node)] = (_fresh(f), f.node)
    return r[0]


_FRESH = {}


def _fresh(f):
    if f.is_gen:
        return False
    nodes = list(_own_nodes(f.node))
    disp = (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)
    made, other, bare = set(), set(), {}
    for n in nodes:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            (made if isinstance(n.value, disp) else other).add(n.targets[0].id)
    rets = [n.value for n in nodes if isinstance(n, ast.Return) and n.value is not None]
    if not rets:
        return False
    for r in rets:
        if isinstance(r, disp) or isinstance(r, ast.Constant) and r.value is None:
            continue
        if not (isinstance(r, ast.Name) and r.id in made and r.id not in other):
            return False
        args = f.node.args
        if r.id in {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}:
            return False
        # handed over only to operations that do not keep it
        uses = sum(isinstance(n, ast.Name) and n.id == r.id and isinstance(n.ctx, ast.Load) for n in nodes)
        fine = sum(isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.value, ast.Name) and n.value.id == r.id for n in nodes)
        fine += sum(isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id == r.id for n in nodes)
        fine += sum(isinstance(n, ast.AugAssign) and isinstance(n.value, ast.Name) and n.value.id == r.id for n in nodes)
        if uses > fine:
            return False
    return any(not isinstance(r, ast.Constant) for r in rets)


def one_of(t):
    return t.a[0][0] if t.op in ("list", "tuple", "set") and len(t.a[0]) == 1 else t


def isinst(x, c):
    if x.op == "p" and x.a[0] in DICT_OR_NONE and c is g("builtins.dict"):
        return not_(isnone(x))
    if x.op == "c":
        t = {"str": "builtins.str", "int": "builtins.int", "float": "builtins.float", "NoneType": "?none", "bool": "builtins.bool"}.get(x.a[0])
    else:
        t = {"list": "builtins.list", "dict": "builtins.dict", "set": "builtins.set", "tuple": "builtins.tuple"}.get(ty(x))
        if ty(x) == "str":
            t = "builtins.str"
        if x.op in ("dict", "store", "dmerge") and x.op == "dict":
            t = "builtins.dict"
        if x.op == "call" and x.a[0] is g("pandas.DataFrame"):
            t = "pandas.DataFrame"
    if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("extract", "copy") and t is None:
        # of the type of what it is made from
        return isinst(x.a[0].a[0], c)
    if t is not None and c.op == "g" and c.a[0].startswith(("builtins.", "pandas.", "vaex")):
        if x.op in ("p", "elem", "sub") :
            pass  # annotation only: not a proof
        else:
            return TRUE if t == c.a[0] else FALSE
    return mk("isinstance", x, c)


def length(x):
    if x.op in ("list", "tuple", "set") and not any(i.op == "star" for i in x.a[0]):
        return const(len(x.a[0]))
    if x.op in ("list", "tuple") and any(i.op != "star" for i in x.a[0]) and sum(i.op == "star" for i in x.a[0]) == 1:
        i = [i for i in x.a[0] if i.op == "star"][0]
        y = i.a[0] if ty(i.a[0]) in ("list", "tuple", "dict", "set") else mk("list", (i,))
        return add(length(y), const(len(x.a[0]) - 1), True)
    if x.op == "dict" and not any(k.op == "dstar" for k, v in x.a[0]):
        return const(len(x.a[0]))
    if x.op == "c" and x.a[0] == "str":
        return const(len(cval(x)))
    if x.op == "attr" and x.a[1] in ("index", "values") :
        x = x.a[0]
    if x.op == "call" and x.a[0] in (g("builtins.list"), g("builtins.tuple"), g("builtins.sorted")) and len(x.a[1]) == 1:
        x = x.a[1][0]
    return mk("call", g("builtins.len"), (x,), ())


def delete(c, k):
    if c.op == "dict" and is_const(k) and all(is_const(x) for x, y in c.a[0]):
        return mk("dict", tuple((x, y) for x, y in c.a[0] if x is not k))
    if c.op == "store":
        if c.a[1] is k:
            b = c.a[0]
            if contains_(k, b) is FALSE:
                return b
            return delete(b, k)
        if distinct_keys(c.a[1], k):
            return store(delete(c.a[0], k), c.a[1], c.a[2])
    if c.op == "del" and digest(k) < digest(c.a[1]) and distinct_keys(c.a[1], k):
        return mk("del", delete(c.a[0], k), c.a[1])
    return mk("del", c, k)
