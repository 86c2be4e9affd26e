"""What branch facts already known on a path say about another condition."""
from .tables import GEN_OVER
from .terms import *  # noqa

ENUMS = {}  # qualified enum name -> member names
KEYS = {}  # qualified name of a constant table -> sets of its keys, in each of the trees
EXCLUSIVE = {
    "builtins.list", "builtins.str", "builtins.tuple", "builtins.dict", "builtins.set", "builtins.int",
    "pandas.DataFrame", "pandas.Series", "pandas.DatetimeIndex", "vaex.dataframe.DataFrame",
    "pandas.core.resample.TimeGrouper", "pandas.MultiIndex",
}
_PYT = {"str": "builtins.str", "int": "builtins.int", "float": "builtins.float", "bool": "builtins.bool"}
_LF = {}


def linform(at):
    """(parts, k, kind) with parts + k  <  (lt) | <= (le) | == (eq)  0."""
    r = _LF.get(at)
    if r is None:
        d = lin_diff(at.a[0], at.a[1]) if at.op in ("lt", "le", "eq") else None
        if d is None or not d[0]:
            r = ()
        else:
            parts, k = d
            if parts[0][1] < 0:
                r = (tuple((x, -c) for x, c in parts), -k, at.op, -1)
            else:
                r = (parts, k, at.op, 1)
        _LF[at] = r
    return r or None


def _bounds(facts, parts):
    """Interval (lo, lo_strict, hi, hi_strict) and excluded values known for sum(parts)."""
    lo, los, hi, his = float("-inf"), False, float("inf"), False
    ex = []
    integral = all(ty(x) == "int" for x, c in parts)
    if len(parts) == 1 and parts[0][1] == 1:
        x = parts[0][0]
        if x.op == "call" and (x.a[0] is g("builtins.len") or (x.a[0].op == "attr" and x.a[0].a[1] == "count")):
            lo = 0
            if x.a[0] is g("builtins.len"):
                v = facts.get(truthy(x.a[1][0]))
                if v is True:
                    lo = 1
                elif v is False:
                    hi = 0
        if x.op in ("ix", "bi"):
            lo = 0
    for at, v in facts.items():
        if at.op not in ("lt", "le", "eq"):
            continue
        f = linform(at)
        if f is None or f[0] != parts:
            continue
        _, k, kind, s = f
        # s=1: L + k < 0 -> L < -k ; s=-1: stored -(orig): orig = -(L + k) -> -(L+k) < 0 -> L > -k
        b = -k
        if kind == "eq":
            if v:
                if b >= lo:
                    lo, los = b, False
                if b <= hi:
                    hi, his = b, False
            else:
                ex.append(b)
            continue
        strict = (kind == "lt")
        upper = (s == 1)
        if not v:
            upper = not upper
            strict = not strict
        if upper:
            if b < hi or (b == hi and strict):
                hi, his = b, strict
        else:
            if b > lo or (b == lo and strict):
                lo, los = b, strict
    if integral:
        import math
        if los and lo != float("-inf"):
            lo, los = math.floor(lo) + 1, False
        if his and hi != float("inf"):
            hi, his = math.ceil(hi) - 1, False
        ch = True
        while ch:
            ch = False
            if lo in ex:
                lo += 1
                ch = True
            if hi in ex:
                hi -= 1
                ch = True
    return lo, los, hi, his, ex


def query(facts, at):
    """True / False if decided by facts, else None."""
    if at is TRUE:
        return True
    if at is FALSE:
        return False
    if at.op == "not":
        r = query(facts, at.a[0])
        return None if r is None else not r
    r = facts.get(at)
    if r is not None:
        return r
    op = at.op
    if not facts and op not in ("lt", "le", "eq"):
        return None
    if op in ("lt", "le", "eq"):
        f = linform(at)
        if f is not None:
            parts, k, kind, s = f
            lo, los, hi, his, ex = _bounds(facts, parts)
            b = -k
            if kind == "eq":
                if lo == hi == b and not los and not his:
                    return True
                if b < lo or b > hi or (b == lo and los) or (b == hi and his) or b in ex:
                    return False
            else:
                strict = kind == "lt"
                upper = s == 1
                # is L < b / L <= b / L > b / L >= b ?
                if upper:
                    if hi < b or (hi == b and (his or not strict)):
                        return True
                    if lo > b or (lo == b and (los or strict)):
                        return False
                else:
                    if lo > b or (lo == b and (los or not strict)):
                        return True
                    if hi < b or (hi == b and (his or strict)):
                        return False
            r = _trans(facts, at)
            if r is not None:
                return r
        if op == "eq":
            return _q_eq(facts, at)
        return None
    if op == "isnone":
        return _q_none(facts, at.a[0])
    if op == "truthy":
        return _q_truthy(facts, at.a[0])
    if op == "isinstance":
        return _q_inst(facts, at)
    if op == "is":
        return _q_is(facts, at)
    if op == "in":
        x, c = at.a
        if query(facts, truthy(c)) is False and c.op != "p":
            return False
        if c.op == "set" and not any(i.op == "star" for i in c.a[0]):
            rs = [query(facts, eq(x, i)) for i in c.a[0]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        if c.op == "g" and c.a[0] in KEYS:
            for f, v in facts.items():
                if v and f.op == "eq" and x in f.a:
                    o = f.a[1] if f.a[0] is x else f.a[0]
                    if is_const(o):
                        r = {cval(o) in k for k in KEYS[c.a[0]]}
                        if len(r) == 1:
                            return r.pop()
        return None
    if op == "lexit":
        dom = at.a[0].a[1]
        if dom.op not in ("while",) and query(facts, truthy(dom)) is False:
            return False
        return None
    if op == "raises":
        x = gen_source(at.a[0])
        return False if x is not None and query(facts, truthy(x)) is False else None
    if op == "exists":
        dom = at.a[0]
        if dom.op not in ("while",) and query(facts, truthy(dom)) is False:
            return False
    return None


def _trans(facts, at):
    """Transitivity between plain differences x - y over two facts."""
    if at.op not in ("lt", "le"):
        return None
    a, b = at.a
    if a.op == "lin" or b.op == "lin":
        return None
    if is_const(a) or is_const(b):
        return None
    # look for c with a <= c <= b (one strict if lt), or b <= c <= a
    up, dn = {}, {}
    for f, v in facts.items():
        if f.op not in ("lt", "le"):
            continue
        x, y = f.a
        strict = f.op == "lt"
        if not v:
            x, y, strict = y, x, not strict
        # x < y (strict) or x <= y
        up.setdefault(x, []).append((y, strict))
    for start, end, res in ((a, b, True), (b, a, False)):
        for c, s1 in up.get(start, ()):
            for d, s2 in up.get(c, ()):
                if d is end:
                    strict = s1 or s2
                    need = (at.op == "lt") if res else (at.op == "le")
                    if strict or not need:
                        return res
    return None


def _q_eq(facts, at):
    a, b = at.a
    for x, c in ((a, b), (b, a)):
        if is_const(c):
            for f, v in facts.items():
                if v and f.op == "eq":
                    for y, d in ((f.a[0], f.a[1]), (f.a[1], f.a[0])):
                        if y is x and is_const(d) and cval(d) != cval(c):
                            return False
                elif v and f.op == "isnone" and f.a[0] is x:
                    return False
                elif v and f.op == "isinstance" and f.a[0] is x and f.a[1].op == "g":
                    t = _PYT.get(ty(c))
                    if t and f.a[1].a[0] in EXCLUSIVE and f.a[1].a[0] != t:
                        return False
                elif v is False and f.op == "truthy" and f.a[0] is x and cval(c):
                    return False
                elif v and f.op == "truthy" and f.a[0] is x and not cval(c):
                    return False
        elif c.op in ("list", "tuple", "dict", "set"):
            empty = not c.a[0]
            t = query(facts, truthy(x)) if not x.op == "c" else None
            if empty and t is True:
                return False
            if truthy(c) is TRUE and t is False:
                return False
            if facts.get(mk("isnone", x)) is True:
                return False
            for f, v in facts.items():
                if v and f.op == "isinstance" and f.a[0] is x and f.a[1].op == "g":
                    if f.a[1].a[0] in EXCLUSIVE and f.a[1].a[0] != "builtins." + c.op:
                        return False
            # an empty sequence of the known type equals the empty display
            if empty and t is False and (facts.get(mk("isinstance", x, g("builtins." + c.op))) is True
                                         or c.op == "list" and facts.get(mk("isnone", x)) is False):
                return True
    return None


def _q_none(facts, x):
    for f, v in facts.items():
        if not v:
            continue
        if f.op == "truthy" and f.a[0] is x:
            return False
        if f.op == "isinstance" and f.a[0] is x:
            return False
        if f.op == "eq" and x in f.a:
            o = f.a[1] if f.a[0] is x else f.a[0]
            if o is not NONE and (is_const(o) or o.op in ("list", "tuple", "dict", "set")):
                return False
        if f.op == "in" and f.a[1] is x:
            return False
        if f.op == "is" and x in f.a:
            o = f.a[1] if f.a[0] is x else f.a[0]
            if o.op == "g":
                return False
    return None


def gen_source(x):
    """What a generator of the package goes through."""
    if x.op == "call" and x.a[0].op == "g" and x.a[0].a[0] in GEN_OVER:
        for k, v in x.a[2]:
            if k == GEN_OVER[x.a[0].a[0]]:
                return v
    return None


def _q_truthy(facts, x):
    if facts.get(mk("isnone", x)) is True:
        return False
    if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("any", "all") and not x.a[1] and not x.a[2]:
        # of a mask of at least one row
        v = facts.get(truthy(mk("call", mk("attr", x.a[0].a[0], "all" if x.a[0].a[1] == "any" else "any"), (), ())))
        if v is (x.a[0].a[1] == "any"):
            return v
    y = gen_source(x)
    if y is not None:
        return False if query(facts, truthy(y)) is False else None
    for f, v in facts.items():
        if v and f.op == "eq" and x in f.a:
            o = f.a[1] if f.a[0] is x else f.a[0]
            r = truthy(o)
            if r is TRUE:
                return True
            if r is FALSE:
                return False
        if f.op == "eq" and not v and x in f.a:
            o = f.a[1] if f.a[0] is x else f.a[0]
            if o.op in ("list", "tuple") and not o.a[0] and facts.get(mk("isinstance", x, g("builtins." + o.op))) is True:
                return True
        if v and f.op == "in" and f.a[1] is x:
            return True
        if v and f.op in ("lexit", "raises") and gen_source(f.a[0].a[1] if f.op == "lexit" else f.a[0]) is x:
            return True
        if v and f.op == "exists" and f.a[0] is x:
            return True
        if f.op in ("lt", "le", "eq"):
            lf = linform(f)
            if lf and len(lf[0]) == 1:
                y = lf[0][0][0]
                if y.op == "call" and y.a[0] is g("builtins.len") and y.a[1][0] is x:
                    lo, los, hi, his, ex = _bounds({k: w for k, w in facts.items() if k.op != "truthy"}, ((y, 1),))
                    if lo > 0:
                        return True
                    if hi <= 0:
                        return False
    return None


def _q_inst(facts, at):
    x, c = at.a
    if facts.get(mk("isnone", x)) is True:
        return False
    if c.op != "g":
        return None
    for f, v in facts.items():
        if v and f.op == "isinstance" and f.a[0] is x and f.a[1].op == "g":
            if f.a[1] is not c and f.a[1].a[0] in EXCLUSIVE and c.a[0] in EXCLUSIVE:
                return False
        if v and f.op == "eq" and x in f.a:
            o = f.a[1] if f.a[0] is x else f.a[0]
            t = _PYT.get(ty(o)) or ("builtins." + o.op if o.op in ("list", "tuple", "dict", "set") else None)
            if t:
                return t == c.a[0]
    return None


def _enum_of(m):
    if m.op != "g":
        return None
    q, _, n = m.a[0].rpartition(".")
    if q in ENUMS and n in ENUMS[q]:
        return q
    return None


def _q_is(facts, at):
    a, b = at.a
    for x, m in ((a, b), (b, a)):
        e = _enum_of(m)
        if e is None:
            continue
        if _enum_of(x) == e:
            return x is m
        no = set()
        for f, v in facts.items():
            if f.op == "is" and x in f.a:
                o = f.a[1] if f.a[0] is x else f.a[0]
                if _enum_of(o) == e:
                    if v:
                        return o is m
                    no.add(o.a[0].rpartition(".")[2])
        if set(ENUMS[e]) - no == {m.a[0].rpartition(".")[2]}:
            return True
    for f, v in facts.items():
        if v and f.op == "isnone" and f.a[0] in (a, b):
            return False
    return None
