"""Comparison of two sets of paths (the reviewed reference, the analysed code), and of value terms.

Every difference is classified: 'def' when it comes down to a local construct the analysis
understands on both sides (an operator, a constant, a callee, a missing effect, a dropped
condition...), 'und' when the two sides are written in terms the analysis cannot relate.
"""
import time

from . import loops, theory
from .interp import default_of
from .loops import RAW, Raw, _sub_path, ev_sorted, ev_term
from .terms import *  # noqa
from .theory import query

EQ, TAG, DEF, UND = 0, 1, 2, 3
LOOPOPS = {"loop", "out", "lret"}
BOOLOPS = {"lt", "le", "eq", "isnone", "is", "in", "isinstance", "truthy", "exists", "lexit", "raises", "not", "hasattr"}
NEUTRAL_METH = {"copy", "tolist", "to_list", "keys", "view", "to_numpy", "values", "to_pandas", "to_series", "__iter__", "strip", "item"}
NEUTRAL_FUNC = {"builtins.list", "builtins.tuple", "builtins.str", "builtins.int", "builtins.bool", "builtins.float", "builtins.iter",
                "builtins.dict", "builtins.set", "numpy.array", "numpy.asarray", "copy.copy", "copy.deepcopy", "builtins.sorted",
                "builtins.reversed", "builtins.frozenset", "os.path.normpath", "os.fspath", "pathlib.Path"}
SAME_ATTR = [{"columns", "keys"}, {"index", "axes"}, {"iloc", "iat"}, {"loc", "at"}, {"values", "to_numpy"}, {"size", "shape"},
             {"isna", "isnull"}, {"notna", "notnull"}, {"itertuples", "iterrows"}, {"to_list", "tolist"}, {"append", "extend"},
             {"get", "setdefault"}, {"pop", "popitem"}, {"discard", "remove"}]


class Diff:
    __slots__ = ("qual", "level", "what", "loci", "facts")

    def __init__(self, qual, level, what, loci, facts):
        self.qual, self.level, self.what, self.loci, self.facts = qual, level, what, loci, facts

    def text(self):
        return " | ".join([self.what] + [f"{d}: {show(a, 7) if isinstance(a, T) else a} <> reference {show(s, 7) if isinstance(s, T) else s}"
                                          for a, s, d in self.loci])


class Ctx:
    """Comparison of one function: vocabulary, facts, counters."""

    def __init__(self, vocab, deadline=None):
        self.vocab = vocab
        self.memo = {}
        self.raw_memo = {}
        self.pairs = 0
        self.leaves = 0
        self.capped = 0
        self.deadline = deadline
        self.lazy = {}
        self.ref, self.univ = None, None
        self.strict = False  # of a single edit: what cannot be related is another operation

    def late(self):
        return self.deadline is not None and time.time() > self.deadline

    def known(self, t):
        for x in subterms(t):
            if x.op == "g":
                n = x.a[0].rpartition(".")[2]
                if n not in self.vocab:
                    return False
            elif x.op == "attr" and x.a[1] not in self.vocab:
                return False
            elif x.op == "undef" and (x is t or x.a[0]) or x.op == "ref":
                return False
        return True

    def universe(self):
        """All values that occur in the reference function."""
        if self.univ is None:
            u = self.univ = set()
            todo = []

            def push(x):
                if type(x) is T:
                    todo.append(x)
                elif type(x) is tuple:
                    for y in x:
                        push(y)
            for f, c in self.ref or ():
                for a in f:
                    push(a)
                for v in c.values():
                    push(v)
            while todo:
                t = todo.pop()
                if t in u:
                    continue
                for x in subterms(t):
                    if x in u:
                        continue
                    u.add(x)
                    if x.op in LOOPOPS and x in RAW:
                        for p in RAW[x][0].paths:
                            for a in p.facts:
                                push(a)
                            push(p.value)
                            for v in p.upd.values():
                                push(v)
                            push(tuple(p.ev))
        return self.univ

    # ------------------------------------------------------------ loops
    def raw_of(self, t):
        r = RAW.get(t)
        if r is not None:
            return r
        z = self.lazy.get(t)
        if z is None:
            return None
        base, m = z
        b = self.raw_of(base)
        if b is None:
            return None
        raw, order, want, arg = b
        memo = {}
        nr = Raw(raw.uid, raw.ix, self.subst(raw.dom, m), {k: self.subst(v, m) for k, v in raw.inits.items()}, raw.lvs,
                 [self.sub_path(p, m) for p in raw.paths], raw.line)
        r = RAW[t] = (nr, order, want, arg)
        return r

    def subst(self, t, m):
        r = subst(t, m)
        if r is not t and "loop" in flags(t):
            for x in subterms(t):
                if x.op in LOOPOPS and (x in RAW or x in self.lazy):
                    y = subst(x, m)
                    if y is not x and y not in RAW and y not in self.lazy:
                        self.lazy[y] = (x, m)
        return r

    def sub_any(self, x, m):
        if type(x) is T:
            return self.subst(x, m)
        if type(x) is tuple:
            return tuple(self.sub_any(y, m) for y in x)
        return x

    def sub_path(self, p, m):
        facts = {}
        for a, v in p.facts.items():
            b = self.subst(a, m)
            if b.op == "not":
                b, v = b.a[0], not v
            if b in (TRUE, FALSE):
                continue
            facts[b] = v
        return loops.BPath(facts, p.kind, self.subst(p.value, m), {k: self.subst(v, m) for k, v in p.upd.items()},
                           tuple(self.sub_any(e, m) for e in p.ev))


# ---------------------------------------------------------------- values under facts
def linear(at, sub_, m):
    """Sums whose value an equality gives."""
    fx = theory.linform(at)
    if not fx or len(fx[0]) < 2:
        return
    for z in sub_:
        if z.op == "lin" and z not in m:
            fz = lin_diff(z, const(0))
            if fz and [u for u, _ in fz[0]] == [u for u, _ in fx[0]]:
                k = fz[0][0][1] / fx[0][0][1]
                if all(c == k * e for (_, c), (_, e) in zip(fz[0], fx[0])):
                    v = fz[1] - k * fx[1]
                    m[z] = const(int(v) if v == int(v) else v)


def has_items(t):
    if t.op == "sub" and t.a[1].op == "slice":
        i, j, st = t.a[1].a
        if j is NONE and st is NONE and i.op == "c" and i.a[0] == "int" and cval(i) >= 0:
            return lt(i, mk("call", g("builtins.len"), (t.a[0],), ()))
    return truthy(t)


def reduce_(F, t):
    for _ in range(3):
        m = {}
        sub_ = subterms(t)
        for x in sub_:
            if x.op in BOOLOPS:
                q = query(F, x)
                if q is not None:
                    m[x] = TRUE if q else FALSE
            elif x.op == "out":
                L, i, kind = x.a
                if L.a[1].op != "while" and query(F, has_items(L.a[1])) is False:
                    init = L.a[3][i][0]
                    if init.op == "acc":
                        m[x] = {"list": mk("list", ()), "dict": mk("dict", ()), "set": mk("set", ())}.get(kind, x)
                    else:
                        m[x] = init
        for at, v in F.items():
            if not v:
                if at.op == "truthy" and at.a[0] in sub_ and ty(at.a[0]) in ("list", "dict", "tuple"):
                    m.setdefault(at.a[0], mk(ty(at.a[0]), ()))
                elif at.op == "truthy" and at.a[0] in sub_ and ty(at.a[0]) == "bool":
                    m.setdefault(at.a[0], FALSE)
                continue
            if at.op == "eq":
                linear(at, sub_, m)
                x, y = at.a
                if is_const(x):
                    x, y = y, x
                if is_const(y) and not is_const(x) and x in sub_ and x.op != "lin":
                    m[x] = y
                elif x.op in ("list", "dict", "tuple") and not x.a[0] and y in sub_:
                    m[y] = x
                elif y.op in ("list", "dict", "tuple") and not y.a[0] and x in sub_:
                    m[x] = y
            elif at.op == "isnone" and at.a[0] in sub_:
                m[at.a[0]] = NONE
            elif at.op == "isinstance" and at.a[1] is g("builtins.str"):
                y = fstr([at.a[0]])
                if y in sub_:
                    m[y] = at.a[0]
            elif at.op == "truthy" and at.a[0] in sub_ and ty(at.a[0]) == "bool":
                m.setdefault(at.a[0], TRUE)
            elif at.op == "is":
                x, y = at.a
                if theory._enum_of(x):
                    x, y = y, x
                if theory._enum_of(y) and x in sub_:
                    m[x] = y
        if not m:
            return t
        r = subst(t, m)
        if r is t:
            return t
        t = r
    return t


# ---------------------------------------------------------------- terms
class TD:
    """Difference of two terms under facts."""

    def __init__(self, C, F):
        self.C, self.F, self.memo = C, F, {}
        self.cmpx = None

    def same_value(self, a, s):
        """Whether facts make both numbers equal."""
        if self.cmpx is None:
            self.cmpx = {x for f in self.F if f.op in ("lt", "le", "eq") for x, c in (theory.linform(f) or ((), 0))[0]}
        return (a in self.cmpx or s in self.cmpx) and lin_diff(a, s) is not None and query(self.F, eq(a, s)) is True

    def diff(self, a, s):
        if a is s:
            return EQ, ()
        k = (a, s)
        r = self.memo.get(k)
        if r is None and self.F and a.op not in BOOLOPS and self.same_value(a, s):
            r = self.memo[k] = (EQ, ())
        if r is None:
            self.memo[k] = (UND, ())
            r = self._diff(a, s)
            if r[0] == DEF and len(r[1]) > 4:
                r = (UND, r[1])
            self.memo[k] = r
        return r

    def other(self, a, s):
        """Whether a is one of the values of the reference function, but not the one expected."""
        if a.op in ("c", "undef", "at", "aft", "lam", "free", "tag", "evs", "emit", "loop") or a.op.startswith("e_"):
            return False
        if a not in self.C.universe() or not self.C.known(s):
            return False
        x, y = bare(a), bare(s)
        if neutral_core(x) is neutral_core(y):
            return False
        if x.op == y.op == "call" and x.a[0] is y.a[0] and x.a[0].op == "g" and x.a[0].a[0] == "builtins.len":
            return False
        return True

    def join(self, rs):
        st, loci = EQ, ()
        for x, l in rs:
            st = max(st, x)
            if l:
                loci = loci + tuple(y for y in l if y not in loci)
        return st, loci

    def loc(self, a, s, d):
        if self.C.known(a) and self.C.known(s):
            return DEF, ((a, s, d),)
        return UND, ((a, s, d),)

    def und(self, a, s):
        if self.C.strict and self.other_operation(a, s):
            return DEF, ((a, s, "other operation"),)
        return UND, ((a, s, "cannot relate"),)

    def other_operation(self, a, s):
        """Two plain expressions over the same values, of operations whose meaning is known and that no table takes for alike."""
        if not (self.plain(a) and self.plain(s)) or neutral_core(bare(a)) is neutral_core(bare(s)):
            return False
        if a.op in BOOLOPS and s.op in BOOLOPS:
            return False
        for x, y in ((a, s), (s, a)):
            if x.op == "c" and x.a[0] == "int" and cval(x) < 0 and any(is_len(z) for z in subterms(y)):
                return False  # positions from the end
        return bool(soft(names_of(a), names_of(s)))

    def plain(self, t):
        if not self.C.known(t):
            return False
        for x in subterms(t):
            if x.op in NOT_PLAIN or x.op in LOOPOPS:
                return False
        return True

    def form(self, a, s):
        """Possibly the same value in another form."""
        return UND, ((a, s, "another form"),)

    def _diff(self, a, s):
        ao, so = a.op, s.op
        if self.C.strict and so == "undef":
            return EQ, ()  # the reference leaves the variable without a value: it does not use it then
        # tags of position among effects
        if ao == "at" or so == "at":
            r = self.diff(a.a[0] if ao == "at" else a, s.a[0] if so == "at" else s)
            return (TAG, ((a, s, "moment of read"),)) if r[0] == EQ else r
        if ao == "aft" or so == "aft":
            x, y = a, s
            if ao == "aft" and so == "aft":
                r = self.diff(a.a[0], s.a[0])
                if r[0] == EQ and self.operand(a.a[1], s.a[1], a, s)[0] == EQ:
                    return EQ, ()
            else:
                while x.op == "aft":
                    x = x.a[0]
                while y.op == "aft":
                    y = y.a[0]
                r = self.diff(x, y)
            return (TAG, ((a, s, "moment of read"),)) if r[0] == EQ else r
        if ao == "resof" and so == "resof":
            r = self.diff(a.a[0], s.a[0])
            return (TAG, ((a, s, "moment of call"),)) if r[0] == EQ else r
        if ao in LOOPOPS and so in LOOPOPS:
            return self.loop(a, s)
        if ao == "exists" and so == "exists":
            return self.exists(a, s)
        if ao == "lexit" and so == "lexit":
            if a.a[1] != s.a[1]:
                return UND, ((const(a.a[1]), const(s.a[1]), "outcome of loop"),)
            return self.loop(a.a[0], s.a[0])
        for x, y in ((a, s), (s, a)):
            if x in (TRUE, FALSE) and y.op not in ("c",) and query(self.F, truthy(y)) is (x is TRUE):
                return self.form(a, s)
        la, ls = leaf(a), leaf(s)
        if la and ls:
            return self.leaves(a, s)
        if ao == so and ao in ("lt", "le", "eq"):
            r = points(a, s)
            if r is not None:
                return self.loc(a, s, "comparison") if r else self.und(a, s)
        if ao == so == "call" and a.a[0] is not s.a[0]:
            for x, y, d in ((a, s, "added operation"), (s, a, "dropped operation")):
                if wrapped(x, y) is False:
                    return self.loc(a, s, d)
        if ao == so and ao not in ("lin",):
            r = self.same(a, s)
            if r[0] == DEF and ao in BOOLOPS and any(d == "value of another type" for _, _, d in r[1]):
                return self.form(a, s)  # conditions on values of other types may agree
            return r
        if ao == "lin" or so == "lin":
            if not (ao in ("list", "dict", "tuple", "fstr") or so in ("list", "dict", "tuple", "fstr")):
                return self.lin(a, s)
        if a.op in MASKOPS and s.op in MASKOPS:
            r = points(a, s)
            if r is not None:
                return self.loc(a, s, "comparison") if r else self.und(a, s)
        if ao == "not" or so == "not":
            x, y = (a.a[0], s) if ao == "not" else (a, s.a[0])
            if TRUE in (x, y) or FALSE in (x, y):
                return self.diff(*(not_(z) if z in (TRUE, FALSE) else z for z in (x, y)))
            r = self.diff(x, y)
            if r[0] == EQ or x.op == "truthy" and x.a[0] is y or y.op == "truthy" and y.a[0] is x:
                return DEF, ((a, s, "negation"),)
            return UND, r[1]
        if ao in ("lt", "le", "eq") and so in ("lt", "le", "eq"):
            fa, fs = theory.linform(a), theory.linform(s)
            if fa and fs and fa[0] == fs[0]:
                return self.loc(a, s, "comparison")
            if {a.a[0], a.a[1]} == {s.a[0], s.a[1]}:
                return self.loc(a, s, "comparison")
            return self.und(a, s)
        if ao == "store" or so == "store":
            return self.stores(a, s)
        if ao in BOOLOPS and so in BOOLOPS:
            if ao in ("truthy", "isnone") and so in ("truthy", "isnone") and a.a[0] is s.a[0]:
                if ty(a.a[0]) in ("int", "float", "num"):
                    return self.loc(a, s, "test of truth against test of None")
            for x, y in ((a, s), (s, a)):
                if x.op == "eq" and y.op == "truthy" and y.a[0].op == "call" and y.a[0].a[0].op == "attr" and y.a[0].a[0].a[1] in ("endswith", "startswith"):
                    for u, v in (x.a, x.a[::-1]):
                        if u.op == "sub" and u.a[1].op == "slice" and u.a[0] is y.a[0].a[0].a[0] and v in y.a[0].a[1]:
                            return self.loc(a, s, "part of string compared")
                if x.op == "isinstance" and y.op == "hasattr" and y.a[0].op == "call" and y.a[0].a[1][:1] == (x.a[0],):
                    return self.loc(a, s, "test of type against test of attribute")
            return self.und(a, s)
        if ao == "ite" or so == "ite":
            return self.trees(a, s, "value")
        for x, y in ((a, s), (s, a)):
            if x.op in ("list", "dict", "set", "tuple") and not x.a[0] and y.op in LOOPOPS:
                return self.loc(a, s, "other value")
        for x, y in ((a, s), (s, a)):
            if x.op in ("list", "tuple") and len(x.a[0]) == 1 and x.a[0][0].op == "star" and x.a[0][0].a[0] is y:
                return self.form(a, s)
            if x.op == "zip" and y in x.a[0]:
                return self.form(a, s)  # items of sequences taken together
            if filtered(x, y):
                return self.loc(a, s, "items left out")
        # operand of and / or
        for x, y in ((a, s), (s, a)):
            if y.op in BOOLOPS and x.op not in ("c",) and query(self.F, truthy(x)) is not None and query(self.F, y) is None:
                return self.loc(a, s, "operand of condition")
        # wrapped / unwrapped
        w = wrapped(a, s)
        if w is not None:
            return self.form(a, s) if w else self.loc(a, s, "added operation")
        w = wrapped(s, a)
        if w is not None:
            return self.form(a, s) if w else self.loc(a, s, "dropped operation")
        if la or ls:
            x = s if la else a
            y = a if la else s
            if any(z.op in ("undef",) for z in (a, s)):
                return self.und(a, s)
            if x.op in LOOPOPS and y.op == "c":
                return self.loc(a, s, "other value")
            if x.op in LOOPOPS or y.op in ("lv",) or x.op in ("lam", "out"):
                return self.und(a, s)
            if neutral_core(x) is y:
                return self.form(a, s)
            return self.loc(a, s, "other value")
        if {ao, so} <= {"add", "sub2", "mul", "div", "floordiv", "mod", "pow"} and len(a.a) == len(s.a) and a.a == s.a:
            return self.loc(a, s, "operator")
        if ao in ("floordiv", "div", "mod") and so in ("floordiv", "div", "mod") and a.a == s.a:
            return self.loc(a, s, "operator")
        if ao != so and {ao, so} <= {"band", "bor", "bxor"} and a.a == s.a:
            return self.loc(a, s, "operator")
        if {ao, so} in ({"bxor", "dmerge"}, {"band", "dmerge"}):
            xs, ys = (a.a[0], s.a) if so == "dmerge" else (s.a[0], a.a)
            if sorted(map(digest, xs)) == sorted(map(digest, ys)):
                return self.loc(a, s, "operator")
        ka, ks = TYPE_GROUP.get(ty(a)), TYPE_GROUP.get(ty(s))
        if ka and ks and ka != ks:
            return DEF, ((a, s, "value of another type"),)
        return self.und(a, s)

    def leaves(self, a, s):
        if a.op == "c" and s.op == "c":
            va, vs = cval(a), cval(s)
            try:
                if va == vs:
                    return self.und(a, s)
            except Exception:
                pass
            return DEF, ((a, s, "constant"),)
        if a.op == "free" and s.op == "free":
            return self.und(a, s)
        if "undef" in (a.op, s.op):
            return self.und(a, s)
        if a.op == "g" and s.op == "g":
            return self.loc(a, s, "other function or object")
        if a.op == "p" or s.op == "p":
            return self.loc(a, s, "other value")
        if {a.op, s.op} <= {"c", "ix", "lv", "bi", "bv", "p", "g"}:
            return self.loc(a, s, "other value")
        return self.und(a, s)

    def seq(self, xs, ys, a, s, what):
        """Two sequences of terms."""
        if len(xs) == len(ys):
            r = self.join([self.diff(x, y) for x, y in zip(xs, ys)])
            if r[0] != EQ and len(xs) > 1 and sorted(map(digest, xs)) == sorted(map(digest, ys)):
                return self.loc(a, s, "order of " + what)
            return r
        big, small = (xs, ys) if len(xs) > len(ys) else (ys, xs)
        i, extra = 0, []
        for x in big:
            if i < len(small) and small[i] is x:
                i += 1
            else:
                extra.append(x)
        if i == len(small):
            t = mk("tuple", tuple(extra))
            e = mk("tuple", ())
            x, y = (t, e) if big is xs else (e, t)
            return self.loc(x, y, ("added " if big is xs else "missing ") + what)
        return self.und(a, s)

    def bag(self, xs, ys, a, s, what):
        xs, ys = list(xs), list(ys)
        for x in list(xs):
            if x in ys:
                xs.remove(x)
                ys.remove(x)
        if not xs and not ys:
            return EQ, ()
        if len(xs) == 1 and len(ys) == 1:
            return self.diff(xs[0], ys[0])
        if not xs or not ys:
            return self.loc(mk("tuple", tuple(xs)), mk("tuple", tuple(ys)), ("added " if xs else "missing ") + what)
        if len(xs) == len(ys):
            rs = []
            for x in list(xs):
                best = None
                for y in ys:
                    r = self.diff(x, y)
                    if best is None or (r[0], len(r[1])) < (best[0][0], len(best[0][1])):
                        best = (r, y)
                ys.remove(best[1])
                rs.append(best[0])
            return self.join(rs)
        return self.und(a, s)

    def lin(self, a, s):
        from .terms import _lin_parts
        pa, ka = _lin_parts(a)
        ps, ks = _lin_parts(s)
        xa = {x: c for x, c in pa.items() if ps.get(x) != c}
        xs = {x: c for x, c in ps.items() if pa.get(x) != c}
        if not xa and not xs:
            return self.loc(a, s, "offset")
        both = set(xa) & set(xs)
        if both and set(xa) == set(xs) and ka == ks:
            return self.loc(a, s, "sign or factor")
        ua, us = [x for x in xa if x not in xs], [x for x in xs if x not in xa]
        if len(ua) == 1 and len(us) == 1 and not both:
            if xa[ua[0]] == xs[us[0]]:
                r = self.diff(ua[0], us[0])
                return self.join([r] + ([self.loc(a, s, "offset")] if ka != ks else []))
            return self.und(a, s)
        if not ua and not us and ka == ks:
            return self.loc(a, s, "sign or factor")
        if (not xa or not xs) and (pa and ps):
            return self.loc(a, s, "term of sum")
        if not pa or not ps:
            return self.loc(a, s, "other value") if len(pa) + len(ps) <= 1 else self.und(a, s)
        # different terms: paired by likeness
        if len(ua) == len(us) and not both:
            rs = []
            for x in ua:
                c = [y for y in us if xs[y] == xa[x]]
                if not c:
                    return self.und(a, s)
                r = min((self.diff(x, y) for y in c), key=lambda r: (r[0], len(r[1])))
                rs.append(r)
            if ka != ks:
                rs.append(self.loc(a, s, "offset"))
            return self.join(rs)
        return self.und(a, s)

    def same(self, a, s):
        op = a.op
        if op == "sub" and a.a[0] is s.a[0] and any(other_len(x, a.a[0]) != other_len(y, a.a[0]) for x, y in ((a.a[1], s.a[1]),)):
            return self.form(a, s)
        if op == "attr":
            r = self.diff(a.a[0], s.a[0])
            if a.a[1] == s.a[1]:
                return r
            if r[0] == EQ:
                if any(a.a[1] in z and s.a[1] in z for z in SAME_ATTR + ALIKE_NAMES):
                    return self.form(a, s)
                return self.loc(a, s, "other attribute or method")
            return self.und(a, s)
        if op == "call":
            return self.call(a, s)
        if op == "dict":
            return self.dicts(a, s)
        if op == "store":
            return self.stores(a, s)
        if op in ("list", "tuple", "fstr"):
            return self.seq(a.a[0], s.a[0], a, s, "items")
        if op in ("band", "bor", "bxor", "mul", "zip"):
            xs = a.a[0] if op != "zip" else a.a[0]
            return self.bag(xs, s.a[0] if op != "zip" else s.a[0], a, s, "operands")
        if op == "set":
            return self.bag(a.a[0], s.a[0], a, s, "items")
        if op in ("eq", "is"):
            (x, y), (u, v) = a.a, s.a
            if theory.linform(a) and theory.linform(s) and theory.linform(a)[0] == theory.linform(s)[0]:
                return self.loc(a, s, "comparison")
            c = [(self.diff(x, u), self.diff(y, v)), (self.diff(x, v), self.diff(y, u))]
            c = [z for z in c if any(r[0] == EQ for r in z)] or c
            return min((self.join(z) for z in c), key=lambda r: (r[0], len(r[1])))
        if op in ("lt", "le"):
            fa, fs = theory.linform(a), theory.linform(s)
            if fa and fs and fa[0] == fs[0]:
                return self.loc(a, s, "comparison")
            (x, y), (u, v) = a.a, s.a
            if x is v and y is u:
                return self.loc(a, s, "direction of comparison")
            r = self.join([self.diff(x, u), self.diff(y, v)])
            if r[0] == UND and fa and fs:
                da, ds = lin_add(x, y, -1), lin_add(u, v, -1)
                r2 = self.lin(da, ds)
                if r2[0] < UND:
                    return r2
            return r
        if op == "lam":
            if len(a.a) != len(s.a):
                return self.und(a, s)
        if op == "ite":
            if a.a[0] is s.a[0]:
                return self.join([self.diff(a.a[1], s.a[1]), self.diff(a.a[2], s.a[2])])
            if a.a[1] is s.a[1] and a.a[2] is s.a[2]:
                return self.diff(a.a[0], s.a[0])
            return self.paths_of_tree(a, s)
        if op == "raises":
            r = self.diff(a.a[0], s.a[0])
            if a.a[1] != s.a[1]:
                if r[0] == EQ:
                    return DEF, ((const(str(a.a[1])), const(str(s.a[1])), "exceptions handled"),)
                return self.und(a, s)
            return r
        if op in ("emit", "evs"):
            return self.seq(a.a[0], s.a[0], a, s, "items" if op == "emit" else "effects")
        return self.generic(a, s)

    def generic(self, a, s):
        if len(a.a) != len(s.a):
            return self.und(a, s)
        rs = []
        for x, y in zip(a.a, s.a):
            rs.append(self.operand(x, y, a, s))
        return self.join(rs)

    def operand(self, x, y, a, s):
        if x is y or x == y:
            return EQ, ()
        if type(x) is T and type(y) is T:
            return self.diff(x, y)
        if type(x) is tuple and type(y) is tuple and len(x) == len(y):
            return self.join([self.operand(u, v, a, s) for u, v in zip(x, y)])
        if type(x) is str and type(y) is str and a.op == "exc":
            return DEF, ((const(x), const(y), "exception"),)
        if a.op == "fld" and type(x) is str:
            return self.loc(a, s, "attribute set")
        return self.und(a, s)

    def call(self, a, s):
        (f, xa, ka), (h, xs, ks) = a.a, s.a
        for x, y in ((a, s), (s, a)):
            if x.a[0].op == "g" and x.a[0].a[0] in COPIES and x.a[1] and y.a[0].op == "attr" and y.a[0].a[1] == "copy" and y.a[0].a[0] is x.a[1][0]:
                return self.form(a, s)
        rf = self.diff(f, h)
        rs = [rf]
        if rf[0] != EQ:
            ga, gs = TYPE_GROUP.get(ty(a)), TYPE_GROUP.get(ty(s))
            if ga and gs and ga != gs:
                return DEF, ((a, s, "value of another type"),)
        if len(xa) == len(xs):
            r = self.join([self.diff(x, y) for x, y in zip(xa, xs)])
            if r[0] != EQ and len(xa) > 1 and sorted(map(digest, xa)) == sorted(map(digest, xs)):
                r = self.loc(a, s, "order of arguments")
            if r[0] == DEF and f is h is g("builtins.len") and all(x.op in ("p", "lv", "bv") for x in (xa[0], xs[0])):
                return self.form(a, s)  # of variables that may well be equally long
            rs.append(r)
        else:
            r = self.seq(xa, xs, a, s, "arguments")
            rs.append(r)
        da, ds = dict(ka), dict(ks)
        for k in sorted(set(da) | set(ds), key=str):
            if k in da and k in ds:
                rs.append(self.diff(da[k], ds[k]))
            elif k in ds:
                rs.append(self.loc(const("-"), mk("kw", const(str(k)), ds[k]), "missing argument"))
            else:
                d = default_of(f, k) if rf[0] == EQ else None
                if d is not None and is_const(da[k]) and da[k] is not d:
                    rs.append((DEF, ((mk("kw", const(str(k)), da[k]), d, "argument other than its default"),)))
                elif str(k) in self.C.vocab:
                    rs.append(self.loc(mk("kw", const(str(k)), da[k]), const("-"), "added argument"))
                else:
                    rs.append(self.und(a, s))
        if rf[0] == EQ and any(r[0] == DEF for r in rs) and len(xa) == len(xs):
            # an argument both pass, or whose default is known, differs: whatever the others are
            rs = [r for r in rs if r[0] != UND or r[1][0][:2] != (a, s)]
        if rf[0] == EQ and f.op == "g" and not f.a[0].startswith("oups.") and any(k not in da for k in ds) and all(k in ds or str(k) not in self.C.vocab for k in da):
            rs = [r for r in rs if r[0] != UND]
        r = self.join(rs)
        if rf[0] in (DEF,) and len(r[1]) > 1 + (1 if f.op == "attr" else 0):
            # another callee with other arguments: another way to write it, for all that is known
            if any(x is a or True for x in (a,)) and len([z for z in rs[1:] if z[0] != EQ]) > 0 and f.op == "g":
                return self.und(a, s) if self.C.strict else (UND, r[1])
        return r

    def dicts(self, a, s):
        da, ds = dict(a.a[0]), dict(s.a[0])
        rs = []
        for k in list(da) + [k for k in ds if k not in da]:
            if k in da and k in ds:
                rs.append(self.diff(da[k], ds[k]))
            elif k in ds:
                rs.append(self.loc(const("-"), mk("kv", k, ds[k]), "missing entry"))
            else:
                rs.append(self.loc(mk("kv", k, da[k]), const("-"), "added entry"))
        ka, ks = [k for k in da if k in ds], [k for k in ds if k in da]
        if ka != ks and not rs:
            return self.und(a, s)
        r = self.join(rs)
        if r[0] == EQ:
            return EQ, ()  # order of entries
        return r

    def stores(self, a, s):
        def chain(t):
            out = []
            while t.op == "store":
                out.append((t.a[1], t.a[2]))
                t = t.a[0]
            return t, out
        ba, ca = chain(a)
        bs, cs = chain(s)
        rs = [self.diff(ba, bs)]
        da, ds = dict(reversed(ca)), dict(reversed(cs))
        oa, os_ = [k for k in da if k not in ds], [k for k in ds if k not in da]
        for k in da:
            if k in ds:
                rs.append(self.diff(da[k], ds[k]))
        if len(oa) == 1 and len(os_) == 1:
            rk = self.diff(oa[0], os_[0])
            rs.append(rk)
            rs.append(self.diff(da[oa[0]], ds[os_[0]]))
        elif len(oa) == len(os_) and oa:
            return self.und(a, s)
        else:
            for k in os_:
                rs.append(self.loc(const("-"), mk("kv", k, ds[k]), "missing assignment"))
            for k in oa:
                rs.append(self.loc(mk("kv", k, da[k]), const("-"), "added assignment"))
        r = self.join(rs)
        if r[0] == EQ and list(da) != list(ds) and not all(is_const(k) for k in da):
            if not oa and not os_:
                return self.loc(a, s, "order of assignments")
            if len(da) > 1:
                return self.und(a, s)
        return r

    # ------------------------------------------------------------ loops
    def exists(self, a, s):
        rd = self.diff(a.a[0], s.a[0])
        if rd[0] != EQ:
            if a.a[1] is s.a[1]:
                return rd
            return UND, rd[1]
        ha = [x for x in subterms(a.a[1]) if x.op == "bi"]
        hs = [x for x in subterms(s.a[1]) if x.op == "bi"]
        ta, ts = a.a[1], s.a[1]
        if ha and hs:
            xa, xs = max(ha, key=lambda x: x.a[0]), max(hs, key=lambda x: x.a[0])
            if xa is not xs:
                ta = self.C.subst(ta, {xa: xs})
        return self.trees(ta, ts, "condition over items")

    def paths_of_tree(self, a, s):
        return self.trees(a, s, "value")

    def trees(self, ta, ts, what):
        A = [(f, {"value": l}) for f, l in tree_paths(ta)]
        S = [(f, {"value": l}) for f, l in tree_paths(ts)]
        return summarise(cmp_paths(A, S, self.F, self.C))

    def loop(self, a, s):
        ra, rs = self.C.raw_of(a), self.C.raw_of(s)
        if ra is None or rs is None:
            if a.op == "out" and s.op == "out" and a.a[0] is s.a[0]:
                return UND, ((a, s, "other result of loop"),)
            if a.op == "loop" and s.op == "loop":
                rd = self.diff(a.a[1], s.a[1])
                if a.a[2:] == s.a[2:] and rd[0] != EQ:
                    return rd
            return self.und(a, s)
        return self.raws(ra, rs)

    def raws(self, ra, rs):
        (wa, oa, want_a, arg_a), (ws, os_, want_s, arg_s) = ra, rs
        C = self.C
        key = (id(wa), id(ws), want_a, arg_a, want_s, arg_s)
        r = C.raw_memo.get(key)
        if r is not None:
            return r[0]
        C.raw_memo[key] = ((UND, ()), wa, ws)
        r = self._raws(*ra, *rs)
        C.raw_memo[key] = (r, wa, ws)
        return r

    def _raws(self, wa, oa, want_a, arg_a, ws, os_, want_s, arg_s):
        C = self.C
        if want_a != want_s and {want_a, want_s} != {"var", "acc"}:
            return UND, ((const(want_a), const(want_s), "cannot relate loops"),)
        if want_a in ("kind", "ret", "exc") and arg_a != arg_s:
            return DEF, ((const(str(arg_a)), const(str(arg_s)), "outcome of loop"),)
        rd = self.diff(wa.dom, ws.dom)
        if rd[0] == UND:
            return rd
        m, used, mp = {wa.ix: ws.ix}, set(), {}

        def put(x, y):
            mp[x] = y
            used.add(y)
            m[wa.lvs[x]] = ws.lvs[y]
        if want_a in ("var", "acc"):
            put(arg_a, arg_s)
        for x in wa.lvs:
            if x not in mp and x.startswith("e:") and x in ws.lvs and x not in used and wa.inits[x] is ws.inits[x]:
                put(x, x)
        for x in wa.lvs:
            if x not in mp and x.startswith("e:") and x in ws.lvs and x not in used:
                put(x, x)
        for x in wa.lvs:
            if x in mp:
                continue
            c = [y for y in ws.lvs if y not in used and ws.inits[y] is wa.inits[x]]
            c2 = [z for z in wa.lvs if z not in mp and wa.inits[z] is wa.inits[x]]
            if len(c) == 1 and len(c2) == 1:
                put(x, c[0])
        la, ls = [x for x in oa if x not in mp], [y for y in os_ if y not in used]
        if len(la) == len(ls):
            for x, y in zip(la, ls):
                put(x, y)
        need = [(x, mp[x]) for x in wa.lvs if x in mp and (x in oa or mp[x] in os_)]
        lost = [x for x in oa if x not in mp] + [y for y in os_ if y not in used]
        lost_a, lost_s = [x for x in oa if x not in mp], [y for y in os_ if y not in used]
        if lost_a and lost_s:
            return UND, ((const(str(lost_a)), const(str(lost_s)), "cannot relate carried variables"),)
        ms = {ws.lvs[y]: ws.inits[y] for y in lost_s}
        for x in lost_a:
            m[wa.lvs[x]] = wa.inits[x]
        rs = [rd]
        for x, y in need:
            if want_a == "acc" and x == arg_a:
                continue
            rs.append(self.diff(wa.inits[x], ws.inits[y]))

        def comps(p, names, raw, want, arg):
            c = {"kind": const(loops.label(p) if want in ("kind", "ret", "exc") else ("next" if p.kind == "next" else "stop"))}
            for i, n in enumerate(names):
                c["var:%d" % i] = p.upd[n] if p.kind in ("next", "break") else NONE
            if want == "ev":
                c["ev"] = p.ev
            if want in ("ret", "exc"):
                c["value"] = p.value if loops.label(p) == arg else NONE
            return c
        A = []
        for p in wa.paths:
            q = C.sub_path(p, m)
            A.append((q.facts, comps(q, [x for x, y in need], wa, want_a, arg_a)))
        S = []
        for p in ws.paths:
            q = C.sub_path(p, ms) if ms else p
            S.append((q.facts, comps(q, [y for x, y in need], ws, want_s, arg_s)))
        rs.append(summarise(cmp_paths(A, S, self.F, C)))
        r = self.join(rs)
        if lost:
            # a variable changed from one iteration to the next on one side only
            if r[0] != EQ:
                return UND, r[1]
            x = (wa.lvs[lost_a[0]], const("-")) if lost_a else (const("-"), ws.lvs[lost_s[0]])
            return DEF, ((x[0], x[1], "variable updated in loop"),)
        return r


def other_len(i, base):
    """Whether a position is told from the length of something else."""
    return any(x.op == "call" and x.a[0] is g("builtins.len") and x.a[1][0] is not base for x in subterms(i))


def filtered(x, y):
    """Whether x is made of some of the items of y only."""
    if x.op != "out" or x.a[2] not in ("list", "set") or x.a[0].op != "loop" or x.a[0].a[1] is not y:
        return False
    t = x.a[0].a[3][x.a[1]][1]
    if t.op == "tuple":
        return False
    ls = [l for f, l in tree_paths(t)]
    return len(ls) > 1 and all(l.op == "emit" for l in ls) and any(not l.a[0] for l in ls) \
        and all(not l.a[0] or len(l.a[0]) == 1 and l.a[0][0].op == "elem" and l.a[0][0].a[0] is y for l in ls)


NOT_PLAIN = {"exists", "lexit", "raises", "ite", "lam", "emit", "comp", "zip", "closure", "undef", "evs", "insert", "mut", "ref", "popped", "bv", "lv"}
SOFT_NAMES = {x.rpartition(".")[2] for x in NEUTRAL_FUNC} | NEUTRAL_METH | {"len", "shape", "size", "count", "index", "columns", "iloc", "loc", "iat", "at", "get",
                                                                          "bool", "isinstance", "type", "any", "all", "array", "asarray", "empty", "join", "None"}
ALIKE_NAMES = [{"nonzero", "sum", "count_nonzero", "flatnonzero", "argwhere", "where"}, {"rpartition", "rsplit", "dirname", "basename", "rfind"}, {"partition", "split", "find"}, {"pop", "popitem"},
               {"startswith", "removeprefix"}, {"endswith", "removesuffix"}]


def soft(a, b):
    """Names that only one of two expressions has, less those which have another one of like meaning on the other side."""
    x, y = a - b - SOFT_NAMES, b - a - SOFT_NAMES
    for fam in ALIKE_NAMES:
        if x & fam and y & fam:
            x, y = x - fam, y - fam
    return x | y


def names_of(t):
    """Names of the operations a value is made with, whether functions or methods."""
    out = set()
    for x in subterms(t):
        if x.op == "g":
            out.add(x.a[0].rpartition(".")[2])
        elif x.op == "attr":
            out.add(x.a[1])
        elif x.op in ("add", "sub2", "mul", "div", "floordiv", "mod", "pow", "lin", "band", "bor", "invert", "lt", "le", "eq", "in"):
            out.add("'" + x.op)
    return out


COPIES = {"builtins.dict", "builtins.list", "builtins.set", "copy.copy"}


def bare(t):
    while t.op in ("aft", "at", "resof"):
        t = t.a[0]
    return t


def leaf(t):
    return t.op in ("c", "p", "g", "free", "ix", "lv", "bi", "bv", "undef", "self")


ORDERINGS = {"builtins.sorted", "builtins.reversed"}


def neutral_core(t):
    while True:
        if t.op == "call":
            f = t.a[0]
            if f.op == "g" and f.a[0] in NEUTRAL_FUNC and t.a[1] and not (f.a[0] in ORDERINGS and ty(t.a[1][0]) in ("list", "tuple")):
                t = t.a[1][0]
                continue
            if f.op == "attr" and f.a[1] in NEUTRAL_METH:
                t = f.a[0]
                continue
        elif t.op == "attr" and t.a[1] in NEUTRAL_METH:
            t = t.a[0]
            continue
        elif t.op == "sub" and t.a[1].op == "slice" and all(x is NONE for x in t.a[1].a):
            t = t.a[0]
            continue
        elif t.op in ("list", "tuple") and len(t.a[0]) == 1 and t.a[0][0].op == "star":
            t = t.a[0][0].a[0]
            continue
        return t


def wrapped(x, y):
    """Whether x is an operation applied to y: None if not, True if a neutral one."""
    if neutral_core(x) is neutral_core(y):
        return True
    if x.op == "call" and x.a[0] is y:
        return False
    if leaf(y) and y.op in ("c", "g"):
        return None
    t = x
    for _ in range(3):
        if t.op in ("attr", "sub", "elem"):
            t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr":
            t = t.a[0].a[0]
        elif t.op == "call" and t.a[0].op == "g" and t.a[1]:
            t = t.a[1][0]
        elif t.op in ("list", "tuple") and t.a[0] and t.a[0][0].op == "star":
            t = t.a[0][0].a[0]
        elif t.op in ("dmerge", "store", "del", "add", "band", "bor", "mul", "invert", "setadd", "setmerge"):
            z = t.a[0]
            if type(z) is tuple:
                return False if y in z else None
            if t.op == "add" and t.a[1] is y:
                return False
            t = z
        else:
            return None
        if t is y:
            return False
    return None


def forms(r):
    """Whether what cannot be related is but the form of a value."""
    return all(d == "another form" or looped(a) and looped(s) for a, s, d in r[1])


def looped(t):
    return type(t) is T and any(x.op in ("loop", "out", "lexit", "comp") for x in subterms(t))


def summarise(diffs):
    st, loci = EQ, ()
    for d in diffs:
        st = max(st, d.level)
        loci = loci + tuple(x for x in d.loci if x not in loci)
    return st, loci


# ---------------------------------------------------------------- effects
def ev_diff(td, ea, es):
    """Differences between two sequences of effects."""
    la, ls = ev_sorted(ea), ev_sorted(es)
    ta, ts = [ev_term(e) for e in la], [ev_term(e) for e in ls]
    if ta == ts:
        return EQ, ()
    # longest common subsequence
    n, m = len(ta), len(ts)
    L = [[0] * (m + 1) for _ in range(n + 1)]
    for i in range(n - 1, -1, -1):
        for j in range(m - 1, -1, -1):
            L[i][j] = L[i + 1][j + 1] + 1 if ta[i] is ts[j] else max(L[i + 1][j], L[i][j + 1])
    i = j = 0
    ga, gs = [], []
    while i < n or j < m:
        if i < n and j < m and ta[i] is ts[j]:
            i += 1
            j += 1
        elif j >= m or (i < n and L[i + 1][j] >= L[i][j + 1]):
            ga.append(i)
            i += 1
        else:
            gs.append(j)
            j += 1
    rs = []
    other_count = any(sum(e.op == k for e in ta) != sum(e.op == k for e in ts) for k in ("e_mut", "e_set"))
    # moved effects
    for i in list(ga):
        k = [j for j in gs if ts[j] is ta[i]]
        if k:
            ga.remove(i)
            gs.remove(k[0])
            rs.append((DEF if td.C.known(ta[i]) else UND, ((ta[i], ts[k[0]], "order of effects"),)))
    # same kind of effects, other content
    for i in list(ga):
        best = None
        for j in gs:
            if not alike(ta[i], ts[j]):
                continue
            r = td.diff(ta[i], ts[j])
            if best is None or (r[0], len(r[1])) < (best[0][0], len(best[0][1])):
                best = (r, j)
        if best is not None:
            ga.remove(i)
            gs.remove(best[1])
            r = best[0]
            if r[0] == EQ:
                continue
            if r[0] == DEF and other_count and ta[i].op in ("e_mut", "e_set") and bare(ta[i].a[0]) is not bare(ts[best[1]].a[0]):
                r = (UND, r[1])
            if r[0] == UND and n == m and ta[i].op == "e_mut" and bare(ta[i].a[0]) is bare(ts[best[1]].a[0]) and (ta[i].a[1] == "clear") != (ts[best[1]].a[1] == "clear"):
                r = (DEF, ((ta[i], ts[best[1]], "other effect"),))
            if r[0] == UND and n == m and ta[i].op == "e_mut" and bare(ta[i].a[0]) is bare(ts[best[1]].a[0]) and other_operation(ta[i], ts[best[1]]):
                r = (DEF, ((ta[i], ts[best[1]], "other operation"),))
            rs.append(r)
    for j in gs:
        r = mk("none")
        if ga and any(ta[i].op == "e_loop" or ts[j].op == "e_loop" or ta[i].op == ts[j].op for i in ga):
            rs.append((UND, ((mk("tuple", tuple(ta[i] for i in ga)), ts[j], "cannot relate effects"),)))
        else:
            rs.append(td.loc(const("-"), ts[j], "missing effect"))
    for i in ga:
        if ta[i].op in ("e_enter", "e_exit") and ta[i].a[0].op == "g" and ta[i].a[0].a[0].startswith("oups."):
            continue  # a lock held where the reference needs none
        if gs and any(ta[i].op == "e_loop" or ts[j].op == "e_loop" or ta[i].op == ts[j].op for j in gs):
            rs.append((UND, ((ta[i], const("-"), "cannot relate effects"),)))
        else:
            rs.append(td.loc(ta[i], const("-"), "added effect"))
    return td.join(rs)


def other_operation(x, y):
    """The same object changed with the same operand by an operation of another meaning."""
    p, q, u, v = x.a[1], y.a[1], tuple(x.a[2]), tuple(y.a[2])
    if p == q:
        return False
    if {p, q} <= {"ibor", "ibxor", "iband"}:
        return u == v
    for (m, s), (k, t) in (((p, u), (q, v)), ((q, v), (p, u))):
        if m == "insert" and k == "append":
            return len(s) == 2 and s[0] is const(0) and s[1:] == t
    return False


def alike(x, y):
    if x.op != y.op:
        return False
    if x.op == "e_do":
        c, d = x.a[0], y.a[0]
        return c.op == d.op == "call" and (c.a[0] is d.a[0] or (c.a[0].op == d.a[0].op == "attr" and c.a[0].a[1] == d.a[0].a[1])
                                           or c.a[1:] == d.a[1:])
    if x.op == "e_mut":
        return x.a[1] == y.a[1] or x.a[0] is y.a[0]
    if x.op == "e_set":
        return x.a[1] is y.a[1] or x.a[0] is y.a[0] or x.a[2] is y.a[2]
    return True


# ---------------------------------------------------------------- paths
class Node:
    __slots__ = ("paths", "used", "atom", "yes", "no", "leaf")

    def __init__(self, paths, used):
        self.paths, self.used, self.atom, self.yes, self.no, self.leaf = paths, used, None, None, None, None

    def open(self):
        if self.leaf is not None:
            return
        at = None
        for f, c in self.paths:
            for a in f:
                if a not in self.used:
                    at = a
                    break
            if at is not None:
                break
        if at is None:
            self.leaf = self.paths
            return
        self.leaf = ()
        self.atom = at
        y, n = [], []
        for p in self.paths:
            v = p[0].get(at)
            if v is not False:
                y.append(p)
            if v is not True:
                n.append(p)
        u = self.used | {at}
        self.yes, self.no = Node(y, u), Node(n, u)
        self.paths = None


def key_of(p):
    f, c = p
    return (frozenset(f.items()), tuple(sorted((k, tuple(ev_term(e) for e in ev_sorted(v)) if k == "ev" else v) for k, v in c.items())))


class _K:
    pass


def _key(p):
    f, c = p
    ks = tuple(tuple(ev_term(e) for e in ev_sorted(c[k])) if k == "ev" else c[k] for k in sorted(c))
    return (frozenset(f.items()), ks)


def cmp_paths(A, S, base, C, max_def=4, qual=""):
    """Differences of outcomes of paths A (analysed) and S (reference) under facts known from outside."""
    S = [p for p in S if not conflict(base, p[0])]
    A = [p for p in A if not conflict(base, p[0])]
    sk = {}
    for p in S:
        sk[_key(p)] = p
    rest = []
    for p in A:
        C.pairs += 1
        if _key(p) not in sk:
            rest.append(p)
    if not rest:
        return []
    atoms_a = {a for f, _ in A for a in f}
    atoms_s = {a for f, _ in S for a in f}
    vanished = atoms_s - atoms_a
    foreign = [f for f in atoms_a - atoms_s]
    if foreign and mirrored(A, S, base, C, foreign, vanished, max_def, qual):
        return []
    # conditions of the reference that conditions of the analysed code stand for, differing in a construct that is understood
    rename, condloci = {}, {}
    if foreign and vanished:
        td0 = TD(C, base)
        cand = []
        for f, m in likely(foreign, vanished):
            if C.late():
                C.capped += 1
                break
            if points(not_(f), m) is not False:
                r = td0.diff(f, m)
                if r[0] < UND:
                    cand.append((len(r[1]), r[0], digest(f), digest(m), f, m, r[1]))
        cand.sort(key=lambda c: c[:4])
        taken = set()
        for _, lv, _, _, f, m, loci in cand:
            if lv == EQ:
                # one value may be written in several ways, on either side
                rename[f] = rename.get(f, ()) + (m,)
                taken.add(m)
                condloci[f] = (lv, loci)
        for _, lv, _, _, f, m, loci in cand:
            if f in rename or m in taken:
                continue
            rename[f] = (m,)
            taken.add(m)
            condloci[f] = (lv, loci)
        vanished = vanished - taken
        foreign = [f for f in foreign if f not in rename]
    rel = {}

    def related(f):
        if f not in rel:
            r = None
            if query(base, f) is not None:
                r = ()
            elif any((lambda x, y: x and y and x[0] == y[0])(theory.linform(f), theory.linform(m)) and points(f, m) is not False
                     and points(not_(f), m) is not False for m in vanished):
                r = ((f, const("-"), "condition"),)
            elif not vanished and simple(f, C):
                r = ((f, const("-"), "added condition"),)
            elif C.strict and any(other_condition(C, f, m) for m in vanished):
                r = ((f, next(m for m in sorted(vanished, key=digest) if other_condition(C, f, m)), "other condition"),)
            rel[f] = r
        return rel[f]

    if C.ref is None:
        C.ref = S
    outcomes = {}
    for f, c in S:
        for k, v in c.items():
            outcomes.setdefault(k, set()).add(tuple(ev_term(e) for e in ev_sorted(v)) if k == "ev" else v)
    root = Node(S, frozenset())
    out, seen = [], set()
    ndef = 0
    for fa0, ca in rest:
        if ndef >= max_def or C.late():
            if C.late():
                C.capped += 1
            break
        if rename and agrees((fa0, ca), root, base, C):
            # the same outcomes may be told apart by other conditions
            continue
        fa, used = fa0, []
        if rename and any(f in rename for f in fa0):
            fa, bad = {}, False
            for f, v in fa0.items():
                if f in rename:
                    used.append(f)
                for m in rename.get(f, (f,)):
                    if fa.get(m, v) is not v:
                        bad = True
                    fa[m] = v
            if bad:
                continue
            used = [f for f in used if condloci[f][0] != EQ]
        F0 = dict(base)
        F0.update(fa)
        count = [0]
        some = False
        for F, M, cs, fs in walk(root, F0, (), count):
            C.leaves += 1
            if any(query(fs, a) is (not v) for a, v in fa.items() if a not in fs):
                continue
            td = TD(C, F)
            rs = []
            for k in ca if ca.get("kind") is cs.get("kind") else ("kind",):
                x, y = ca[k], cs[k]
                if k == "ev":
                    if x is y or x == y:
                        continue
                    r = ev_diff(td, x, y)
                    if r[0] != EQ:
                        x2, y2 = red_evs(F, x), red_evs(F, y)
                        if (x2, y2) != (x, y):
                            r = ev_diff(td, x2, y2)
                        if r[0] == UND and x and not forms(r) and tuple(ev_term(e) for e in ev_sorted(x)) in outcomes["ev"]:
                            r = (DEF, ((mk("tuple", tuple(ev_term(e) for e in x)), mk("tuple", tuple(ev_term(e) for e in y)), "effects of another path"),))
                else:
                    if x is y:
                        continue
                    x0 = x
                    x, y = reduce_(F, x), reduce_(F, y)
                    r = td.diff(x, y)
                    if r[0] == UND and x0 in outcomes[k] and not leaf(x0) and td.C.known(y) and not forms(r):
                        r = (DEF, ((x, y, "outcome of another path"),))
                    if k == "kind" and r[0] != EQ:
                        r = (DEF, ((x, y, "outcome"),))
                if r[0] != EQ:
                    rs.append((k, r))
            some = True
            if ca.get("kind") is not RAISE and cs.get("kind") is not RAISE:
                for f in fa:
                    if f.op == "raises" and fa[f] and f in foreign and f not in atoms_s and done_in(f.a[0], cs):
                        rs.append(("condition", (DEF, ((f, const("-"), "exception handled"),))))
            if not rs and not used:
                continue
            st = max([r[0] for k, r in rs] + [DEF if used else EQ])
            loci = ()
            for f in used:
                loci += tuple(z for z in condloci[f][1] if z not in loci)
            for k, r in rs:
                loci += tuple(z for z in r[1] if z not in loci)
            if st == TAG:
                st = DEF
            fx = [f for f in fa if f in foreign and query(fs, f) is None]
            mx = [m for m in M if m[0] in vanished]
            cond = ()
            kindd = [k for k, r in rs] or ["condition"]
            if st == DEF:
                for f in fx:
                    r = related(f)
                    if r is None:
                        if any(d == "exception handled" and x is f for x, _, d in loci):
                            continue
                        st = UND
                        cond += ((f, const("?"), "condition not related to reference"),)
                    else:
                        cond += tuple(z for z in r if z not in cond)
                if st == DEF:
                    v = same_conditions(td, fa, fs, M, foreign, vanished)
                    if v is False:
                        continue
                    if v is None:
                        st = UND
                if not fx and mx:
                    if any(related(f) is None for f in foreign):
                        st = UND
                    else:
                        cond += tuple((const("-"), m[0], "missing condition") for m in mx[:2])
            loci2 = cond + loci
            key = (st, tuple((id(a), id(b)) for a, b, d in loci2[:2]))
            if key in seen:
                if st == DEF and len(seen) > 40:
                    break
                continue
            seen.add(key)
            what = "value" if "value" in kindd else "effects" if "ev" in kindd else kindd[0]
            out.append(Diff(qual, st, what, loci2[:5], (fa, [m for m in M])))
            if st == DEF:
                ndef += 1
                break
    return out


def mirrored(A, S, base, C, foreign, vanished, max_def, qual):
    """Whether both versions choose by the order of two values, told the other way around, and make no difference of equal ones."""
    m = {f: mk("lt", f.a[1], f.a[0]) for f in foreign if f.op == "lt"}
    m = {f: x for f, x in m.items() if x in vanished}
    if not m or len(m) > 3:
        return False
    A2 = []
    for f, c in A:
        A2.append(({m.get(a, a): (not v if a in m else v) for a, v in f.items()}, tidy(c)))
    if cmp_paths(A2, [(f, tidy(c)) for f, c in S], base, C, max_def, qual):
        return False
    for x in m.values():
        hi = [(f, c) for f, c in S if f.get(x) is True]
        lo = [(f, c) for f, c in S if f.get(x) is False]
        if not hi or not lo:
            return False
        one = {x.a[1]: x.a[0]} if x.a[0].op == "sub" else {x.a[0]: x.a[1]}
        hi, lo = ([({a: v for a, v in f.items() if a is not x}, tidy(C.sub_any(tuple(sorted(c.items())), one))) for f, c in ps] for ps in (hi, lo))
        if any("loop" in flags(t) for ps in (hi, lo) for _, c in ps for t in (c.get("value", TRUE),)) or cmp_paths(hi, lo, base, C, max_def, qual):
            return False
    return True


def tidy(c):
    """Outcomes without stores of what is there already."""
    c = dict(c)
    if "ev" in c:
        c["ev"] = tuple(e for e in c["ev"] if not (e[0] == "set" and e[3] is mk("sub", e[1], e[2])))
    return c


def other_condition(C, f, m):
    """Whether two conditions on the same value are known to be different ones."""
    for x, y in ((f, m), (m, f)):
        if x.op == "truthy" and y.op == "isnone" and x.a[0] is y.a[0]:
            return not named_callable(x.a[0])
        if x.op == "isinstance" and y.op == "in" and y.a[0].op == "call" and y.a[0].a[0] is g("builtins.type") and y.a[0].a[1][:1] == (x.a[0],):
            return True
        if x.op == "exists" and y.op == "in" and x.a[0] is y.a[1]:
            return True
        if x.op == "isnone" and y.op == "eq" and x.a[0] in y.a and NONE not in y.a:
            return True
        if x.op == "in" and y.op == "eq" and x.a[0] in y.a and x.a[1].op in ("call", "attr", "sub", "p"):
            return True
    if any(x.op in CMP and not (x.op == "truthy" and x.a[0].op == "call") for x in (f, m)):
        return False
    td = TD(C, {})
    subj = {x for x in subterms(f) if x.op in ("p", "attr", "sub", "elem", "self")} & set(subterms(m))
    return bool(subj) and f.op in BOOLOPS and m.op in BOOLOPS and td.plain(f) and td.plain(m) and bool(soft(names_of(f), names_of(m)) - SOFT_CONDS)


CMP = {"lt", "le", "isnone", "truthy"}
SOFT_CONDS = {"'in", "'eq", "'lt", "'le", "hasattr", "getattr"}


def named_callable(t):
    """Objects that are true whenever there are any."""
    if t.op == "p":
        return t.a[0] in CALLABLES or "class" in t.a[0] or t.a[0] == "cls"
    return t.op == "sub" and is_const(t.a[1]) and cval(t.a[1]) in CALLABLES


CALLABLES = {"post", "pre", "lock", "func", "snap_by"}
RAISE = const("raise")


def done_in(call, c):
    """Whether the reference makes the call on its path."""
    return any(e[0] == "do" and e[1] is call for e in c.get("ev", ())) or any(call in subterms(v) for k, v in c.items() if type(v) is T)


def same_conditions(td, fa, fs, M, foreign, vanished):
    """Conditions of either path that the other one does not decide, but that occur elsewhere on both sides: False when two of them are
    the same condition with different outcomes, None when it is not known whether they are, True when they have nothing in common."""
    fo = [f for f in fa if f not in foreign and query(fs, f) is None and looped(f)]
    mo = [m for m in M if m[0] not in vanished and looped(m[0])]
    known = True
    for f in fo:
        for m, v in mo:
            if f.op != m.op:
                continue
            r = td.diff(f, m)
            if r[0] == EQ:
                if fa[f] is not v:
                    return False
            elif r[0] == UND:
                known = None
    return known


TYPE_GROUP = {"int": "number", "float": "number", "num": "number", "bool": "number", "str": "str", "list": "list", "tuple": "list",
              "dict": "dict", "set": "set"}
MASKOPS = {"lt", "le", "eq", "not", "invert", "band", "bor"}


def on_points(t):
    """(subject, constants, truth at a value) of a condition on one value against constants."""
    if t.op in ("not", "invert"):
        r = on_points(t.a[0])
        return r and (r[0], r[1], lambda v: not r[2](v))
    if t.op in ("band", "bor"):
        rs = [on_points(x) for x in (t.a[0] if len(t.a) == 1 else t.a)]
        if any(r is None for r in rs) or len({id(r[0]) for r in rs}) != 1:
            return None
        f = all if t.op == "band" else any
        return rs[0][0], set().union(*[r[1] for r in rs]), lambda v: f(r[2](v) for r in rs)
    if t.op in ("lt", "le", "eq"):
        d = lin_diff(t.a[0], t.a[1])
        if d is None or len(d[0]) != 1:
            return None
        (x, c), k = d[0][0], d[1]
        op = t.op
        return x, {-k / c}, lambda v: c * v + k < 0 if op == "lt" else c * v + k <= 0 if op == "le" else c * v + k == 0
    return None


def points(a, s):
    """Two conditions on the same single value: True when some whole number (a negative one only if it is compared to) tells them apart,
    False when none does, None when they are something else."""
    ra, rs = on_points(a), on_points(s)
    if ra is None or rs is None or ra[0] is not rs[0]:
        return None
    cs = ra[1] | rs[1]
    top = int(max(abs(c) for c in cs)) + 3
    if top > 1000:
        pts = set()
    else:
        pts = set(range(0, top))
    pts |= cs | {c + 1 for c in cs if c >= 0}
    apart = {v for v in pts if ra[2](v) != rs[2](v)}
    if apart == {0} and is_len(ra[0]) and len({(x.a[0] if x.op == "not" else x).op == "eq" for x in (a, s)}) == 2 and 0 not in cs:
        return False  # whether there may be no items is not known
    return bool(apart)


def likely(foreign, vanished, many=400, best=6):
    """Pairs of conditions worth comparing: all of them, or the most alike when there are many."""
    foreign, vanished = sorted(foreign, key=digest), sorted(vanished, key=digest)
    if len(foreign) * len(vanished) <= many:
        for f in foreign:
            for m in vanished:
                yield f, m
        return
    sv = [(m, {id(x) for x in subterms(m)}) for m in vanished]
    for f in foreign:
        sf = {id(x) for x in subterms(f)}
        rank = sorted(((-2 * len(sf & x) / (len(sf) + len(x)), i) for i, (m, x) in enumerate(sv) if m.op == f.op))
        for _, i in rank[:best]:
            yield f, sv[i][0]


def agrees(p, root, base, C):
    """Whether the path has the outcome of the reference wherever it applies, its conditions taken as they are."""
    fa, ca = p
    F0 = dict(base)
    F0.update(fa)
    some, count = False, [0]
    for F, M, cs, fs in walk(root, F0, (), count):
        if count[0] >= 150 or C.late():
            return False
        if any(query(fs, a) is (not v) for a, v in fa.items() if a not in fs):
            continue
        some = True
        td = TD(C, F)
        for k in ca:
            x, y = ca[k], cs[k]
            if x is y or x == y:
                continue
            if k == "ev":
                r = ev_diff(td, red_evs(F, x), red_evs(F, y))
            else:
                r = td.diff(reduce_(F, x), reduce_(F, y))
            if r[0] != EQ:
                return False
    return some


def red_evs(F, es):
    """Effects under facts: loops over nothing left out."""
    return tuple(red_ev(F, e) for e in es
                 if not (e[0] == "loop" and e[1].op == "loop" and e[1].a[1].op != "while" and query(F, has_items(e[1].a[1])) is False))


def red_ev(F, e):
    def go(x):
        if type(x) is T:
            return reduce_(F, x)
        if type(x) is tuple:
            return tuple(go(y) for y in x)
        return x
    if e[0] == "do":
        return (e[0], go(e[1])) + e[2:]
    if e[0] == "set":
        return (e[0], e[1], go(e[2]), go(e[3]))
    return tuple(go(x) if i else x for i, x in enumerate(e))


def conflict(base, f):
    if not base:
        return False
    return any(query(base, a) is (not v) for a, v in f.items())


def walk(node, F, M, count, cap=150):
    """Paths of the reference compatible with facts: (facts with assumptions, assumptions, components, facts of path)."""
    stack = [(node, F, M)]
    while stack:
        nd, F, M = stack.pop()
        nd.open()
        while not nd.leaf:
            if nd.paths is None and nd.atom is None:
                break
            if nd.leaf == () and nd.atom is None:
                break
            q = query(F, nd.atom)
            if q is None:
                G = dict(F)
                G[nd.atom] = False
                if nonempty(nd.no):
                    stack.append((nd.no, G, M + ((nd.atom, False),)))
                F = dict(F)
                F[nd.atom] = True
                M = M + ((nd.atom, True),)
                nd = nd.yes
            else:
                nd = nd.yes if q else nd.no
            if not nonempty(nd):
                nd = None
                break
            nd.open()
        if nd is None:
            continue
        for fs, cs in nd.leaf or ():
            count[0] += 1
            if count[0] > cap:
                return
            yield F, M, cs, fs


def nonempty(nd):
    return nd.paths is None or bool(nd.paths)


def simple(f, C):
    """A plain test over values the reference also uses."""
    if f.op in ("lexit", "exists") and any(x.op == "ite" for x in subterms(f)):
        return False
    return f.op in BOOLOPS and C.known(f)
