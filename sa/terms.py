"""Hash-consed value terms and their normal forms (the value domain of the dataflow analysis)."""
import hashlib
from fractions import Fraction

_TAB = {}
_CVAL = {}


class T:
    """A value-number: operator and operands. Interned, so equality is identity."""

    __slots__ = ("op", "a", "_d", "_flags", "_ty")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + a
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._d = None
        t._flags = None
        t._ty = 0
        _TAB[k] = t
    return t


def kids(t):
    """Sub-terms of a term (also those inside tuple operands)."""
    for x in t.a:
        if type(x) is T:
            yield x
        elif type(x) is tuple:
            yield from _kids_tuple(x)


def _kids_tuple(x):
    for y in x:
        if type(y) is T:
            yield y
        elif type(y) is tuple:
            yield from _kids_tuple(y)


def _enc(x):
    if type(x) is T:
        return digest(x)
    if type(x) is tuple:
        return b"(" + b",".join(_enc(y) for y in x) + b")"
    return repr(x).encode()


def digest(t):
    d = t._d
    if d is None:
        d = t._d = hashlib.blake2b(t.op.encode() + b"|" + b";".join(_enc(x) for x in t.a), digest_size=12).digest()
    return d


def flags(t):
    """Set of binder/ref kinds occurring in the term."""
    f = t._flags
    if f is None:
        f = frozenset()
        if t.op in ("ref", "lv", "ix", "bv", "bi", "undef", "loop", "lam", "ite"):
            f = frozenset([t.op])
        for k in kids(t):
            g = flags(k)
            if not g <= f:
                f = f | g
        t._flags = f
    return f


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        stack.extend(kids(x))
    return seen


def contains(t, x):
    return x in subterms(t)


# ---------------------------------------------------------------- constants
def const(v):
    tn = type(v).__name__
    if tn not in ("int", "float", "str", "bool", "NoneType", "bytes", "ellipsis", "complex"):
        raise TypeError(tn)
    t = mk("c", tn, repr(v))
    _CVAL[t] = v
    return t


def is_const(t):
    return t.op == "c"


def cval(t):
    return _CVAL[t]


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)


def g(name):
    return mk("g", name)


# ---------------------------------------------------------------- types
NUMERIC = ("int", "float", "num")

_PARAM_TY = {}


def set_param_type(t, ty):
    _PARAM_TY[t] = ty


def ty(t):
    r = t._ty
    if r == 0:
        r = t._ty = _ty(t)
    return r


_CALL_TY = {
    "builtins.len": "int", "builtins.str": "str", "builtins.int": "int", "builtins.float": "float",
    "builtins.list": "list", "builtins.tuple": "tuple", "builtins.dict": "dict", "builtins.set": "set",
    "builtins.bool": "bool", "builtins.isinstance": "bool", "builtins.sorted": "list", "builtins.repr": "str",
    "builtins.hasattr": "bool", "builtins.callable": "bool", "builtins.any": "bool", "builtins.all": "bool",
    "dataclasses.is_dataclass": "bool", "os.path.join": "str", "os.listdir": "list", "os.path.isdir": "bool", "os.path.exists": "bool",
    "math.ceil": "int", "math.fmod": "float", "math.floor": "int",
}
_METH_TY = {
    "tolist": "list", "to_list": "list", "rsplit": "list", "split": "list", "join": "str", "replace": "str",
    "startswith": "bool", "endswith": "bool", "strip": "str", "lstrip": "str", "rstrip": "str", "count": "int",
    "get_column_names": "list", "partition": "tuple", "rpartition": "tuple", "to_dict": "dict", "format": "str",
    "zfill": "str", "lower": "str", "upper": "str", "ljust": "str", "rjust": "str", "removesuffix": "str", "removeprefix": "str",
}


def _ty(t):
    op = t.op
    if op == "c":
        return {"int": "int", "float": "float", "str": "str", "bool": "bool", "NoneType": "none"}.get(t.a[0])
    if op in ("list", "tuple", "dict", "set", "fold_list"):
        return {"fold_list": "list"}.get(op, op)
    if op == "fstr":
        return "str"
    if op == "lin":
        if all(ty(x) == "int" for x, c in t.a[0]) and isinstance(t.a[1], int) and all(isinstance(c, int) for x, c in t.a[0]):
            return "int"
        return "num" if all(ty(x) in NUMERIC or ty(x) is None for x, c in t.a[0]) else None
    if op == "floordiv":
        return "int" if ty(t.a[0]) == "int" and ty(t.a[1]) == "int" else None
    if op == "mul":
        ts = [ty(x) for x in t.a[0]]
        if all(x == "int" for x in ts):
            return "int"
        if any(x in ("list", "str", "tuple") for x in ts):
            return [x for x in ts if x in ("list", "str", "tuple")][0]
        return "num" if all(x in NUMERIC for x in ts) else None
    if op == "add":
        a, b = ty(t.a[0]), ty(t.a[1])
        return a if a in ("list", "str", "tuple") else b if b in ("list", "str", "tuple") else None
    if op in ("ix", "bi", "ixat"):
        return "int"
    if op == "call":
        f = t.a[0]
        if f.op == "g":
            return _CALL_TY.get(f.a[0])
        if f.op == "attr":
            if f.a[1] == "count" and t.a[1]:
                return "int"
            return _METH_TY.get(f.a[1])
        return None
    if op in ("lt", "le", "eq", "ne", "isnone", "is", "in", "isinstance", "truthy", "not", "exists"):
        return "bool"
    if op == "attr":
        if t.a[1] in ("ndim", "size"):
            return "int"
        return None
    if op == "sub":
        # element of shape
        b = t.a[0]
        if b.op == "attr" and b.a[1] == "shape":
            return "int"
        if t.a[1].op == "slice" and ty(b) in ("list", "str", "tuple"):
            return ty(b)
        return _PARAM_TY.get(t)
    if op == "elem":
        return _PARAM_TY.get(t) or _item_ty(t.a[0])
    if op == "lam":
        return "fn"
    if op == "out":
        return t.a[2] or None
    if op in ("setadd", "setdel"):
        return "set"
    if op in ("store", "dmerge", "del"):
        k = t.a[1]
        if op == "store" and k.op in ("fld", "path"):
            return ty(t.a[0])
        return ty(t.a[0]) if ty(t.a[0]) in ("dict", "list") else None
    if op == "ite":
        x, y = ty(t.a[1]), ty(t.a[2])
        return x if x == y else None
    return _PARAM_TY.get(t)


def _item_ty(b):
    """Common type of what a loop appends."""
    if b.op != "out" or b.a[2] != "list" or b.a[0].op != "loop":
        return None
    upd = b.a[0].a[3]
    if not 0 <= b.a[1] < len(upd) or upd[b.a[1]][0].op != "acc":
        return None
    out, todo = set(), [(upd[b.a[1]][1], ())]
    while todo and len(todo) < 40:
        t, f = todo.pop()
        if t.op == "ite":
            todo += [(t.a[1], f + (t.a[0],)), (t.a[2], f)]
        elif t.op == "emit":
            for x in t.a[0]:
                k = ty(x)
                if k is None and any(c.op == "isinstance" and c.a[0] is x and show(c.a[1], 2) in ("tuple", "builtins.tuple") for c in f):
                    k = "tuple"
                out.add(k)
        else:
            return None
    return out.pop() if len(out) == 1 and not todo else None


def is_num(t):
    return ty(t) in NUMERIC


# ---------------------------------------------------------------- arithmetic
def _lin_parts(t):
    if t.op == "lin":
        return dict(t.a[0]), t.a[1]
    if t.op == "c" and t.a[0] in ("int", "float") :
        return {}, cval(t)
    if t.op == "c" and t.a[0] == "bool":
        return {}, int(cval(t))
    return {t: 1}, 0


def _mk_lin(parts, k):
    parts = {x: c for x, c in parts.items() if c != 0}
    if not parts:
        return const(k)
    if k == 0 and len(parts) == 1:
        (x, c), = parts.items()
        if c == 1:
            return x
    return mk("lin", tuple(sorted(parts.items(), key=lambda p: digest(p[0]))), k)


def lin_add(a, b, s=1):
    pa, ka = _lin_parts(a)
    pb, kb = _lin_parts(b)
    for x, c in pb.items():
        pa[x] = pa.get(x, 0) + s * c
    return _mk_lin(pa, ka + s * kb)


def lin_scale(a, k):
    pa, ka = _lin_parts(a)
    return _mk_lin({x: c * k for x, c in pa.items()}, ka * k)


def _is_numconst(t):
    return t.op == "c" and t.a[0] in ("int", "float")


def add(a, b, numeric=False):
    if a.op == "c" and b.op == "c" and a.a[0] == "str" and b.a[0] == "str":
        return const(cval(a) + cval(b))
    if a.op in ("list", "tuple") and b.op == a.op and not _starred(a) and not _starred(b):
        return mk(a.op, a.a[0] + b.a[0])
    ta, tb = ty(a), ty(b)
    if "str" in (ta, tb) or "list" in (ta, tb) or "tuple" in (ta, tb):
        if ta == "str" or tb == "str":
            return fstr([a, b])
        for x, y in ((a, b), (b, a)):
            if x.op in ("list", "tuple") and not x.a[0] and ty(y) in (None, x.op):
                return y
        if "list" in (ta, tb):
            return list_concat(a, b)
        return tuple_concat(a, b)
    if numeric or _is_numconst(a) or _is_numconst(b) or is_num(a) or is_num(b) or a.op in ("lin", "floordiv", "div") or b.op in ("lin", "floordiv", "div"):
        return lin_add(a, b)
    return mk("add", a, b)


def _starred(t):
    return any(x.op == "star" for x in t.a[0])


def list_concat(a, b):
    """Concatenation of lists, as a list display with starred parts."""
    def parts(x):
        if x.op == "list":
            return list(x.a[0])
        return [mk("star", x)]
    return mk_list(parts(a) + parts(b))


def tuple_concat(a, b):
    def parts(x):
        if x.op == "tuple":
            return list(x.a[0])
        return [mk("star", x)]
    return mk_tuple(parts(a) + parts(b))


def star(x):
    """Items of a sequence: a repeated display may be a list or a tuple."""
    if x.op == "mul":
        x = mk("mul", tuple(sorted((mk("tuple", y.a[0]) if y.op == "list" else y for y in x.a[0]), key=digest)))
    return mk("star", x)


def mk_list(items):
    out = []
    for x in items:
        if x.op == "star" and x.a[0].op in ("list", "tuple"):
            out.extend(x.a[0].a[0])
        elif x.op == "star":
            out.append(star(x.a[0]))
        else:
            out.append(x)
    if len(out) == 1 and out[0].op == "star" and ty(out[0].a[0]) == "list":
        return out[0].a[0]
    return mk("list", tuple(out))


def mk_tuple(items):
    out = []
    for x in items:
        if x.op == "star" and x.a[0].op in ("list", "tuple"):
            out.extend(x.a[0].a[0])
        elif x.op == "star":
            out.append(star(x.a[0]))
        else:
            out.append(x)
    if len(out) == 1 and out[0].op == "star" and ty(out[0].a[0]) == "tuple":
        return out[0].a[0]
    return mk("tuple", tuple(out))


def sub_(a, b):
    if b.op == "set" and len(b.a[0]) == 1 and b.a[0][0].op != "star" and ty(a) in (None, "set"):
        return mk("setdel", a, b.a[0][0])
    return lin_add(a, b, -1)


def neg(a):
    return lin_scale(a, -1)


def mul(a, b):
    if a.op == "c" and b.op == "c" and a.a[0] in ("int", "float") and b.a[0] in ("int", "float"):
        return const(cval(a) * cval(b))
    for x, y in ((a, b), (b, a)):
        if _is_numconst(x):
            if ty(y) not in ("list", "str", "tuple"):
                return lin_scale(y, cval(x))
            if cval(x) == 0 and ty(y) in ("list", "tuple"):
                return mk(ty(y), ())
    fa = list(a.a[0]) if a.op == "mul" else [a]
    fb = list(b.a[0]) if b.op == "mul" else [b]
    return mk("mul", tuple(sorted(fa + fb, key=digest)))


_ARITH = {
    "floordiv": lambda x, y: x // y, "mod": lambda x, y: x % y, "div": lambda x, y: x / y,
    "pow": lambda x, y: x ** y, "lshift": lambda x, y: x << y, "rshift": lambda x, y: x >> y,
}
COMMUT = {"band", "bor", "bxor"}


def binop(op, a, b, numeric=False):
    if op == "add":
        return add(a, b, numeric)
    if op == "sub":
        return sub_(a, b)
    if op == "mul":
        return mul(a, b)
    if op in _ARITH and _is_numconst(a) and _is_numconst(b):
        try:
            return const(_ARITH[op](cval(a), cval(b)))
        except Exception:
            pass
    if op == "mod" and ty(a) == "str":
        return mk("fmtmod", a, b)
    if op == "floordiv" and b is ONE:
        return a
    if op in COMMUT:
        if op == "bor" and (a.op == "dict" or b.op == "dict" or ty(a) == "dict" or ty(b) == "dict" or True):
            # dict merge is not commutative: keep the order, boolean masks
            # are canonicalised below when operands are known comparisons.
            if not (_maskish(a) or _maskish(b)):
                return dict_merge(a, b)
        fa = list(a.a[0]) if a.op == op else [a]
        fb = list(b.a[0]) if b.op == op else [b]
        xs = sorted(set(fa + fb), key=digest)
        return xs[0] if len(xs) == 1 else mk(op, tuple(xs))
    return mk(op, a, b)


def _maskish(t):
    if t.op in ("lt", "le", "eq", "ne", "invert", "band", "in", "not"):
        return True
    if t.op == "bor":
        return True
    if t.op == "call":
        f = t.a[0]
        if f.op == "g" and f.a[0] in ("numpy.zeros", "numpy.ones", "numpy.full", "oups.aggstream.utils.dataframe_filter"):
            return True
        if f.op == "attr" and f.a[1] in ("isin", "isna", "notna", "copy", "duplicated"):
            return True
    if t.op in ("bv", "lv", "out"):
        return True
    if t.op == "attr" and t.a[1] == "values":
        return True
    return False


def dict_merge(a, b):
    """``a | b`` on dicts, as nested stores where right operand is a display."""
    if a.op == "dict" and b.op == "dict":
        items = dict((k, v) for k, v in a.a[0])
        for k, v in b.a[0]:
            items[k] = v
        if all(is_const(k) for k in items):
            return mk("dict", tuple(items.items()))
    if b.op == "dict" and not any(k.op == "dstar" for k, v in b.a[0]):
        t = a
        for k, v in b.a[0]:
            t = store(t, k, v)
        return t if t is not a else mk("dmerge", a, b)
    if a.op == "dict" and not a.a[0] and b.op in ("attr", "p", "sub", "elem", "g"):
        # a copy of the other one
        return mk("call", g("builtins.dict"), (b,), ())
    return mk("dmerge", a, b)


# ---------------------------------------------------------------- strings
def fstr(parts):
    """Concatenation of strings; adjacent literals merged, str() dropped."""
    out = []

    def put(x):
        if x.op == "fstr":
            for y in x.a[0]:
                put(y)
            return
        if x.op == "c" and x.a[0] == "str":
            if cval(x) == "":
                return
            if out and out[-1].op == "c" and out[-1].a[0] == "str":
                out[-1] = const(cval(out[-1]) + cval(x))
                return
        elif x.op == "c" and x.a[0] in ("int", "bool", "NoneType"):
            put(const(str(cval(x))))
            return
        if x.op == "call" and x.a[0] is g("builtins.str") and len(x.a[1]) == 1 and not x.a[2]:
            x = x.a[1][0]
            if x.op == "c" and x.a[0] == "str":
                put(x)
                return
        out.append(x)

    for p in parts:
        put(p)
    if not out:
        return const("")
    if len(out) == 1 and (ty(out[0]) == "str"):
        return out[0]
    return mk("fstr", tuple(out))


# ---------------------------------------------------------------- comparisons (as terms)
def lin_diff(a, b):
    """Linear form of a - b as (parts tuple, const), or None when not numeric-like."""
    for x in (a, b):
        if x.op in ("list", "dict", "set", "tuple", "fstr", "add") or (x.op == "c" and x.a[0] not in ("int", "float", "bool")):
            return None
    pa, ka = _lin_parts(a)
    pb, kb = _lin_parts(b)
    for x, c in pb.items():
        pa[x] = pa.get(x, 0) - c
    pa = {x: c for x, c in pa.items() if c != 0}
    return tuple(sorted(pa.items(), key=lambda p: digest(p[0]))), ka - kb


def lt(a, b):
    """a < b; canonical on the linear difference."""
    r = lin_diff(a, b)
    if r is None:
        return mk("lt", a, b)
    parts, k = r
    if not parts:
        return TRUE if k < 0 else FALSE
    return _mk_lt(parts, k)


def le(a, b):
    r = lin_diff(a, b)
    if r is None:
        return mk("le", a, b)
    parts, k = r
    if not parts:
        return TRUE if k <= 0 else FALSE
    if all(ty(x) == "int" for x, c in parts) and isinstance(k, int):
        return _mk_lt(parts, k - 1)
    lo = _mk_lin({x: c for x, c in parts if c > 0}, k if k > 0 else 0)
    hi = _mk_lin({x: -c for x, c in parts if c < 0}, -k if k < 0 else 0)
    return mk("le", lo, hi)


IXLEN = {}  # counter of a loop: number of iterations


def is_len(x):
    return x.op == "call" and len(x.a[1]) == 1 and x.a[0].op == "g" and x.a[0].a[0] == "builtins.len"


def _counter(parts, k):
    """Comparison of the counter of a loop with its first or last value, of a length with zero."""
    if len(parts) == 1 and is_len(parts[0][0]) and abs(parts[0][1]) == 1:
        x, c = parts[0]
        if c == 1:
            return FALSE if k >= 0 else eq(x, ZERO) if k == -1 else None
        return TRUE if k < 0 else not_(eq(x, ZERO)) if k == 0 else None
    for x, c in parts:
        if x.op == "ix" and abs(c) == 1:
            if len(parts) == 1:
                if c == 1:
                    return FALSE if k >= 0 else eq(x, ZERO) if k == -1 else None
                return TRUE if k < 0 else not_(eq(x, ZERO)) if k == 0 else None
            n = IXLEN.get(x)
            if n is not None and len(parts) == 2:
                o = [(y, d) for y, d in parts if y is not x][0]
                if o[0] is n and o[1] == -c:
                    if c == 1:
                        # x - n + k < 0
                        if k <= 0:
                            return TRUE
                        if k == 1:
                            return not_(eq(lin_add(x, ONE), n))
                    else:
                        # n - x + k < 0
                        if k >= -1:
                            return FALSE
                        if k == -2:
                            return eq(lin_add(x, ONE), n)
    return None


def _mk_lt(parts, k):
    # parts + k < 0  ==>  positive side < negative side
    if all(ty(x) == "int" for x, c in parts) and isinstance(k, int):
        # integers: one canonical offset form  P < N + m
        from math import gcd
        d = 0
        for x, c in parts:
            d = gcd(d, abs(c))
        if d > 1:
            # P*d + k < 0  <=> P < -k/d <=> P < ceil(-k/d)
            m = -((k) // d)
            # P*d < -k  <=> P < -k/d ; integer P: P <= ceil(-k/d)-1
            m = -(k // d)
            parts = tuple((x, c // d) for x, c in parts)
            k = -m
        r = _counter(parts, k)
        if r is not None:
            return r
    lo = _mk_lin({x: c for x, c in parts if c > 0}, k if k > 0 else 0)
    hi = _mk_lin({x: -c for x, c in parts if c < 0}, -k if k < 0 else 0)
    return mk("lt", lo, hi)


def eq(a, b):
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if cval(a) == cval(b) else FALSE
    if a is NONE or b is NONE:
        return isnone(b if a is NONE else a)
    if a.op == "lin" or b.op == "lin" or (is_num(a) and is_num(b)):
        r = lin_diff(a, b)
        if r is not None:
            parts, k = r
            if not parts:
                return TRUE if k == 0 else FALSE
            if parts[0][1] < 0:
                parts = tuple((x, -c) for x, c in parts)
                k = -k
            if len(parts) == 1 and k == 0 and is_len(parts[0][0]):
                return not_(truthy(parts[0][0].a[1][0]))
            lo = _mk_lin({x: c for x, c in parts if c > 0}, k if k > 0 else 0)
            hi = _mk_lin({x: -c for x, c in parts if c < 0}, -k if k < 0 else 0)
            a, b = lo, hi
    if a.op in ("list", "tuple") and b.op == a.op and not _starred(a) and not _starred(b) and len(a.a[0]) != len(b.a[0]):
        return FALSE
    if a.op in ("list", "tuple", "dict", "set") and b.op in ("list", "tuple", "dict", "set") and a.op != b.op:
        return FALSE
    for u, v in ((a, b), (b, a)):
        # bounds are closed on the left or on the right
        if v.op == "c" and v.a[0] == "str" and cval(v) == "right" and closed_side(u):
            return not_(eq(u, const("left")))
        # s[-n:] == "..." of n characters
        if v.op == "c" and v.a[0] == "str" and u.op == "sub" and u.a[1].op == "slice" and len(cval(v)):
            n, (i, j, st) = len(cval(v)), u.a[1].a
            if st is NONE and j is NONE and i is const(-n):
                return truthy(mk("call", mk("attr", u.a[0], "endswith"), (v,), ()))
            if st is NONE and j is const(n) and i in (NONE, ZERO):
                return truthy(mk("call", mk("attr", u.a[0], "startswith"), (v,), ()))
    x, y = sorted((a, b), key=digest)
    return mk("eq", x, y)


def closed_side(t):
    return t.op == "attr" and t.a[1] == "closed" or t.op == "p" and t.a[0] == "closed" or t.op == "lv" and t.a[1] in ("closed", "e:closed")


def ne(a, b):
    t = eq(a, b)
    return not_(t)


def not_(t):
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def invert(t):
    """Elementwise negation."""
    if t.op == "invert":
        return t.a[0]
    if t.op in ("eq", "not"):
        return not_(t)
    if t.op == "call" and t.a[0] is g("numpy.zeros") and g("builtins.bool") in t.a[1] + tuple(v for _, v in t.a[2]):
        return mk("call", g("numpy.ones"), *t.a[1:])
    return mk("invert", t)


_NEVER_NONE_OPS = {"list", "tuple", "dict", "set", "lin", "fstr", "lam", "mul", "floordiv", "ix", "bi", "ref", "lt", "le",
                   "eq", "in", "isinstance", "not", "isnone", "exists", "slice", "store", "mut", "band", "bor", "add",
                   "ixat", "dmerge", "listcat", "caught"}


def isnone(t):
    if t.op == "nextof":
        return FALSE  # iterators give values
    if t.op == "c":
        return TRUE if t is NONE else FALSE
    if t.op in _NEVER_NONE_OPS:
        return FALSE
    if t.op == "g" and not t.a[0].startswith("?"):
        return FALSE
    if t.op == "call" and t.a[0].op == "g" and (t.a[0].a[0] in _CALL_TY or t.a[0].a[0].split(".")[0] in ("numpy", "pandas", "vaex", "fastparquet", "numba")):
        return FALSE
    return mk("isnone", t)


def is_(a, b):
    if b is NONE:
        return isnone(a)
    if a is NONE:
        return isnone(b)
    if a is b:
        return TRUE
    if is_const(a) and is_const(b):
        return TRUE if a is b else FALSE
    if b in (TRUE, FALSE) or a in (TRUE, FALSE):
        x, y = sorted((a, b), key=digest)
        return mk("is", x, y)
    x, y = sorted((a, b), key=digest)
    return mk("is", x, y)


def truthy(t):
    if t.op == "c":
        return TRUE if cval(t) else FALSE
    if t.op in ("lt", "le", "eq", "isnone", "is", "in", "isinstance", "truthy", "exists", "raises", "hasattr"):
        return t
    if t.op == "not":
        return not_(truthy(t.a[0]))
    if t.op in ("list", "tuple", "set"):
        if not t.a[0]:
            return FALSE
        if not _starred(t):
            return TRUE
        if any(x.op != "star" for x in t.a[0]):
            return TRUE
    if t.op == "dict":
        if not t.a[0]:
            return FALSE
        if any(k.op != "dstar" for k, v in t.a[0]):
            return TRUE
    if t.op == "caught":
        return TRUE
    if t.op in ("lam", "g"):
        return TRUE if t.op == "lam" else mk("truthy", t)
    if t.op == "store" and t.a[1].op != "fld":
        return TRUE
    if t.op == "range" and t.a[2] is ONE:
        return lt(t.a[0], t.a[1])
    if t.op == "call":
        f, args, kw = t.a
        if f.op == "g":
            n = f.a[0]
            if n == "builtins.len" and len(args) == 1:
                return truthy(args[0])
            if n == "builtins.bool" and len(args) == 1:
                return truthy(args[0])
            if n in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted") and len(args) == 1 and not kw:
                return truthy(args[0])
    if t.op == "attr" and t.a[1] == "empty":
        return not_(truthy(t.a[0]))
    if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and t.a[1] is ZERO:
        return truthy(t.a[0].a[0])
    if t.op == "mul" and ty(t) in NUMERIC:
        pass
    if is_num(t) or t.op == "lin":
        return not_(eq(t, ZERO))
    return mk("truthy", t)


# Parameters that are a dict or None, as annotated throughout the package.
DICT_OR_NONE = {"buffer"}
# Dicts an object makes together, with the same keys.
SAME_KEYS = {"agg_pd": "keys_config", "agg_buffers": "keys_config"}


def contains_(x, c):
    """x in c"""
    if x.op == "elem" and x.a[0] is c:
        return TRUE
    if c.op in ("list", "tuple", "set") and not _starred(c):
        items = c.a[0]
        if not items:
            return FALSE
        if is_const(x) and all(is_const(i) for i in items):
            return TRUE if any(cval(x) == cval(i) for i in items) else FALSE
        if len(items) == 1:
            return eq(x, items[0])
        if x in items:
            return TRUE
        return mk("in", x, mk("set", tuple(sorted(items, key=digest))))
    if c.op == "dict":
        ks = [k for k, v in c.a[0]]
        if x in ks:
            return TRUE
        if is_const(x) and all(is_const(k) for k in ks):
            return FALSE
    if c.op == "store":
        b, k, v = c.a
        if k.op != "fld":
            if k is x:
                return TRUE
            if is_const(k) and is_const(x):
                return contains_(x, b)
        else:
            return contains_(x, b)
    if c.op == "del":
        b, k = c.a
        if k is x:
            return FALSE
        if is_const(k) and is_const(x):
            return contains_(x, b)
    if c.op == "dmerge" and c.a[0].op == "store":
        pass
    if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "keys" and not c.a[1]:
        return contains_(x, c.a[0].a[0])
    if c.op == "attr" and c.a[1] in SAME_KEYS and c.a[1] != SAME_KEYS[c.a[1]]:
        return contains_(x, mk("attr", c.a[0], SAME_KEYS[c.a[1]]))
    if c.op == "call" and c.a[0].op == "g" and c.a[0].a[0] in ("builtins.set", "builtins.list", "builtins.tuple", "builtins.frozenset") and len(c.a[1]) == 1:
        return contains_(x, c.a[1][0])
    return mk("in", x, c)


# ---------------------------------------------------------------- objects
def attr(t, name):
    """Read of an attribute (through recorded stores)."""
    b = t
    while True:
        if b.op == "store":
            if b.a[1].op == "fld":
                if b.a[1].a[0] == name:
                    return b.a[2]
                if b.a[1].a[0] in ("columns", "index") and name not in ("columns", "index", "name"):
                    break
                b = b.a[0]
                continue
            if not unaffected(b.a[1], name):
                break
            b = b.a[0]
            continue
        break
    if b.op == "g":
        return g(b.a[0] + "." + name)
    return mk("attr", b, name)


def unaffected(k, name):
    """Does attribute 'name' keep its value when item/part k of the object is set?"""
    if k.op == "path" and k.a[0] and k.a[0][0].op == "fld":
        if k.a[0][0].a[0] in ("loc", "iloc", "at", "iat", "values"):
            return name in ("index", "columns", "shape", "name")
        if k.a[0][0].a[0] == "index":
            return name in ("columns", "shape", "empty", "size")
        return k.a[0][0].a[0] != name
    return name in ("index", "name")


def fld(name):
    return mk("fld", name)


def store(b, k, v):
    """Value of container/object b after b[k] = v (or b.k = v if k is a fld)."""
    if v.op == "sub" and k.op not in ("slice", "fld", "tuple", "path") and v is sub(b, k):
        return b
    if b.op == "dict" and is_const(k) and all(is_const(x) for x, y in b.a[0]):
        items = dict(b.a[0])
        items[k] = v
        return mk("dict", tuple(items.items()))
    if b.op == "store":
        if b.a[1] is k:
            return store(b.a[0], k, v)
        if distinct_keys(b.a[1], k) and digest(k) < digest(b.a[1]):
            return mk("store", store(b.a[0], k, v), b.a[1], b.a[2])
    return mk("store", b, k, v)


def distinct_keys(a, b):
    if a.op == "fld" or b.op == "fld":
        return a is not b
    if is_const(a) and is_const(b):
        return cval(a) != cval(b)
    if a.op == "slice" or b.op == "slice":
        return False
    if a.op == "tuple" and b.op == "tuple" and len(a.a[0]) == len(b.a[0]):
        return any(distinct_keys(x, y) for x, y in zip(a.a[0], b.a[0]))
    if (is_num(a) or a.op == "lin") and (is_num(b) or b.op == "lin"):
        r = lin_diff(a, b)
        if r is not None and not r[0] and r[1] != 0:
            return True
    return False


def sub(t, k):
    """Read of t[k] (through recorded stores)."""
    if k.op == "tuple" and t.op not in ("dict",) and False:
        pass
    b = t
    while True:
        if b.op == "store":
            if b.a[1].op == "fld":
                b = b.a[0]
                continue
            if b.a[1] is k:
                return b.a[2]
            if distinct_keys(b.a[1], k):
                b = b.a[0]
                continue
        elif b.op == "del" and distinct_keys(b.a[1], k):
            b = b.a[0]
            continue
        break
    if b.op == "dict":
        for kk, v in reversed(b.a[0]):
            if kk is k:
                return v
            if kk.op == "dstar" or not (is_const(kk) and is_const(k)):
                break
    if b.op in ("list", "tuple") and k.op == "c" and k.a[0] == "int" and not _starred(b):
        i = cval(k)
        n = len(b.a[0])
        if -n <= i < n:
            return b.a[0][i]
    if b.op in ("list", "tuple") and k.op == "c" and k.a[0] == "int":
        i = cval(k)
        items = b.a[0]
        seq = items if i >= 0 else items[::-1]
        j = i if i >= 0 else -i - 1
        if j < len(seq) and all(x.op != "star" for x in seq[: j + 1]):
            return seq[j]
    if b.op in ("list", "tuple") and k.op == "slice" and not _starred(b) and all(is_const(x) for x in k.a):
        sl = slice(*[cval(x) for x in k.a])
        return mk(b.op, b.a[0][sl])
    if b.op == "list" and len(b.a[0]) == 1 and b.a[0][0].op == "star" and k.op != "slice":
        return sub(b.a[0][0].a[0], k)
    if k.op in ("ix", "bi") :
        if b.op == "mapped":
            pass
        return mk("elem", b, k)
    if k.op == "lin":
        # x[len(x) - i], as x[-i]
        d = lin_diff(k, mk("call", g("builtins.len"), (b,), ()))
        if d is not None and not d[0] and isinstance(d[1], int) and d[1] < 0:
            return sub(t, const(d[1]))
    if k.op == "lin" and b.op == "sub" and b.a[1].op == "slice" and b.a[1].a[0] is NONE and b.a[1].a[2] is NONE and not is_const(b.a[1].a[1]):
        # x[:n][n - i], as x[:n][-i]
        d = lin_diff(k, b.a[1].a[1])
        if d is not None and not d[0] and isinstance(d[1], int) and d[1] < 0:
            k = const(d[1])
    if k.op == "slice" and k.a == (NONE, NONE, NONE):
        return b if ty(b) in ("list", "str", "tuple") else mk("sub", b, k)
    return mk("sub", b, k)


def slice_(a, b, c):
    if a is ZERO:
        a = NONE
    if c is ONE:
        c = NONE
    return mk("slice", a, b, c)


# ---------------------------------------------------------------- rebuild / substitution
def rebuild(op, a):
    """Smart constructor by operator name."""
    if op == "lin":
        r = const(a[1])
        for x, c in a[0]:
            r = lin_add(r, lin_scale(x, c))
        return r
    if op == "lt":
        return lt(*a)
    if op == "le":
        return le(*a)
    if op == "eq":
        return eq(*a)
    if op == "not":
        return not_(a[0])
    if op == "isnone":
        return isnone(a[0])
    if op == "truthy":
        return truthy(a[0])
    if op == "in":
        return contains_(*a)
    if op == "is":
        return is_(*a)
    if op == "add":
        return add(*a)
    if op == "mul":
        r = a[0][0]
        for x in a[0][1:]:
            r = mul(r, x)
        return r
    if op in COMMUT:
        xs = sorted(set(a[0]), key=digest)
        return xs[0] if len(xs) == 1 else mk(op, tuple(xs))
    if op == "attr":
        return attr(*a)
    if op == "sub" or op == "elem":
        return sub(*a)
    if op == "store":
        return store(*a)
    if op == "fstr":
        return fstr(a[0])
    if op == "list":
        return mk_list(a[0])
    if op == "tuple":
        return mk_tuple(a[0])
    if op == "ite":
        return ite_node(*a)
    return mk(op, *a)


def subst(t, m, memo=None):
    """Replace sub-terms following mapping m (T -> T), re-normalising."""
    if memo is None:
        memo = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        r = memo.get(x)
        if r is not None:
            return r
        if not any(True for _ in kids(x)):
            memo[x] = x
            return x
        na = tuple(goa(y) for y in x.a)
        r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
        memo[x] = r
        return r

    def goa(y):
        if type(y) is T:
            return go(y)
        if type(y) is tuple:
            z = tuple(goa(u) for u in y)
            return y if all(p is q for p, q in zip(z, y)) else z
        return y

    return go(t)


# ---------------------------------------------------------------- decision trees
def ite_node(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite_node(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    return mk("ite", c, a, b)


def build_tree(paths):
    """Canonical reduced decision tree of [(facts dict atom->bool, leaf T)]."""
    if not paths:
        return mk("dead")
    first = paths[0][1]
    if all(p[1] is first for p in paths):
        return first
    atoms = {}
    for f, _ in paths:
        for at in f:
            atoms[at] = digest(at)
    if not atoms:
        return mk("choice", tuple(sorted({p[1] for p in paths}, key=digest)))
    # Prefer atoms decided by most paths: program-order independent and stable.
    best = min(atoms, key=lambda at: (sum(1 for f, _ in paths if at not in f), atoms[at]))
    yes, no = [], []
    for f, l in paths:
        v = f.get(best)
        if v is None:
            yes.append((f, l))
            no.append((f, l))
        else:
            h = {k: w for k, w in f.items() if k is not best}
            (yes if v else no).append((h, l))
    if not yes:
        return build_tree(no)
    if not no:
        return build_tree(yes)
    return ite_node(best, build_tree(yes), build_tree(no))


def tree_paths(t):
    """Leaves of a decision tree with their facts."""
    if t.op != "ite":
        return [({}, t)]
    out = []
    for v, s in ((True, t.a[1]), (False, t.a[2])):
        for f, l in tree_paths(s):
            h = {t.a[0]: v}
            h.update(f)
            out.append((h, l))
    return out


# ---------------------------------------------------------------- printing
def show(t, depth=9):
    if type(t) is tuple:
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if type(t) is not T:
        return repr(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op, a = t.op, t.a
    if op == "c":
        return a[1]
    if op == "g":
        return a[0].split("builtins.")[-1]
    if op in ("p",):
        return a[0]
    if op == "attr":
        return f"{show(a[0], d)}.{a[1]}"
    if op == "sub":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if op == "elem":
        return f"each({show(a[0], d)})"
    if op == "slice":
        return ":".join("" if x is NONE else show(x, d) for x in a)
    if op == "call":
        args = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{show(a[0], d)}({', '.join(args)})"
    if op == "lin":
        s = " + ".join((f"{c}*" if c != 1 else "") + show(x, d) for x, c in a[0])
        return f"({s}{' + ' + str(a[1]) if a[1] else ''})"
    if op in ("lt", "le", "eq", "add", "is", "in"):
        sym = {"lt": "<", "le": "<=", "eq": "==", "add": "+", "is": "is", "in": "in"}[op]
        return f"({show(a[0], d)} {sym} {show(a[1], d)})"
    if op == "not":
        return f"not {show(a[0], d)}"
    if op == "isnone":
        return f"({show(a[0], d)} is None)"
    if op == "truthy":
        return f"bool({show(a[0], d)})"
    if op in ("list", "tuple", "set"):
        o, c = {"list": "[]", "tuple": "()", "set": "{}"}[op]
        return o + ", ".join(show(x, d) for x in a[0]) + c
    if op == "star":
        return "*" + show(a[0], d)
    if op == "dict":
        return "{" + ", ".join(f"{show(k, d)}: {show(v, d)}" for k, v in a[0]) + "}"
    if op == "fstr":
        return "str(" + "+".join(show(x, d) for x in a[0]) + ")"
    if op == "fld":
        return "." + a[0]
    if op == "ite":
        return f"({show(a[1], d)} if {show(a[0], d)} else {show(a[2], d)})"
    if op in ("lv",):
        return str(a[1]) if not isinstance(a[1], T) else show(a[1], d)
    return f"{op}<{', '.join(show(x, d) for x in a)}>"
