"""Summaries of loops: canonical terms, independent of names of variables and of loop idiom."""
import ast
import copy

from .terms import *  # noqa

RAW = {}
_H = {}


class Raw:
    """A loop: domain, variables carried from one iteration to the next, paths of the body."""

    __slots__ = ("uid", "ix", "dom", "inits", "lvs", "paths", "order", "line")

    def __init__(self, uid, ix, dom, inits, lvs, paths, line):
        self.uid, self.ix, self.dom, self.inits, self.lvs, self.paths, self.line = uid, ix, dom, inits, lvs, paths, line


class BPath:
    __slots__ = ("facts", "kind", "value", "upd", "ev")

    def __init__(self, facts, kind, value, upd, ev):
        self.facts, self.kind, self.value, self.upd, self.ev = facts, kind, value, upd, ev


def height(t):
    h = _H.get(t)
    if h is None:
        h = t.a[0] if t.op in ("bv", "bi", "bp", "lam", "loop") else 0
        for k in kids(t):
            h = max(h, height(k))
        _H[t] = h
    return h


def ev_term(e):
    k = e[0]
    if k == "do":
        return mk("e_do", e[1])
    if k == "set":
        return mk("e_set", e[1], e[2], e[3])
    if k == "mut":
        return mk("e_mut", e[1], e[2], tuple(e[3]) if len(e) > 3 else ())
    if k == "loop":
        return mk("e_loop", e[1])
    return mk("e_" + k, *e[1:])


def as_items(x):
    return x


def strip_str(x):
    return x


# ---------------------------------------------------------------- domains
def domain(I, s, t):
    """(domain, binder) of an iterated term; the binder gives the item at an index."""
    r = I.res(s, t)
    return _dom(I, s, t, r)


def _dom(I, s, t, r):
    if r.op == "list" and len(r.a[0]) == 1 and r.a[0][0].op == "star":
        return _dom(I, s, r.a[0][0].a[0], r.a[0][0].a[0])
    if r.op == "call":
        f, args, kws = r.a
        kw = dict(kws)
        if f.op == "g":
            n = f.a[0]
            if n == "builtins.enumerate" and args:
                start = args[1] if len(args) > 1 else kw.get("start", ZERO)
                d, b = _dom(I, s, args[0], args[0])
                return d, lambda s, ix: mk("tuple", (lin_add(ix, start), b(s, ix)))
            if n == "builtins.zip" and args and not kws and not any(a.op == "star" for a in args):
                ds = [_dom(I, s, a, a) for a in args]
                doms = []
                for d, _ in ds:
                    if d not in doms:
                        doms.append(d)
                d = doms[0] if len(doms) == 1 else mk("zip", tuple(sorted(doms, key=digest)))
                if len(doms) > 1 and any(x.op in ("list", "tuple") and not any(i.op == "star" for i in x.a[0]) for x in doms):
                    # bounded by a display: its items
                    k = [x for x in doms if x.op in ("list", "tuple") and not any(i.op == "star" for i in x.a[0])]
                    d = min(k, key=lambda x: len(x.a[0])) if all(x.op in ("list", "tuple") and not any(i.op == "star" for i in x.a[0]) for x in doms) else d
                return d, lambda s, ix: mk("tuple", tuple(b(s, ix) for _, b in ds))
            if n == "builtins.range" and args and not kws:
                if len(args) == 1:
                    a, b, c = ZERO, args[0], ONE
                elif len(args) == 2:
                    a, b, c = args[0], args[1], ONE
                else:
                    a, b, c = args
                return _range(a, b, c)
            if n in ("builtins.list", "builtins.tuple", "builtins.iter", "numba.literal_unroll", "numba.misc.special.literal_unroll") and len(args) == 1:
                return _dom(I, s, args[0], args[0])
            if n in ("numpy.ndenumerate",) and len(args) == 1:
                d, b = _dom(I, s, args[0], args[0])
                return d, lambda s, ix: mk("tuple", (mk("tuple", (ix,)), b(s, ix)))
        if f.op == "attr" and f.a[1] in ("items", "keys", "values") and not args:
            # the mapping itself: keys, and items at these keys
            o = f.a[0]
            d = I.res(s, o)
            if d.op == "dict" and all(is_const(k) for k, v in d.a[0]):
                its = d.a[0]
                dm = mk("tuple", tuple(k for k, v in its))

                def b(s, ix, its=its, w=f.a[1]):
                    k, v = its[cval(ix)]
                    return {"items": mk("tuple", (k, v)), "keys": k, "values": v}[w]
                if len(its) <= 6:
                    return dm, b
            if f.a[1] == "keys":
                return d, lambda s, ix: sub(d, ix)
            if f.a[1] == "values":
                return d, lambda s, ix: mk_sub(d, sub(d, ix))
            return d, lambda s, ix: mk("tuple", (sub(d, ix), mk_sub(d, sub(d, ix))))
    if r.op == "dict" and all(is_const(k) for k, v in r.a[0]) and len(r.a[0]) <= 6:
        d = mk("tuple", tuple(k for k, v in r.a[0]))
        return d, lambda s, ix: sub(d, ix)
    if r.op == "out" and r.a[2] == "list":
        it = single_emit(r)
        if it is not None:
            L, item = it
            h = L.a[0]
            return L.a[1], lambda s, ix: subst(item, {mk("bi", h): ix})
    return r, lambda s, ix: sub(r, ix)


def mk_sub(d, k):
    return sub(d, k)


def _range(a, b, c):
    if a is ZERO and c is ONE:
        x = b
        if x.op == "call" and x.a[0] is g("builtins.len") and len(x.a[1]) == 1:
            return x.a[1][0], lambda s, ix: ix
        if is_const(x) and isinstance(cval(x), int) and 0 <= cval(x) <= 6:
            d = mk("tuple", tuple(const(i) for i in range(cval(x))))
            return d, lambda s, ix: ix if ix.op == "c" else sub(d, ix)
    d = mk("range", a, b, c)
    return d, lambda s, ix: lin_add(a, mul(c, ix))


def single_emit(out):
    """(loop, item) for a list built from exactly one item per iteration."""
    L, i, _ = out.a
    h, dom, kt, vs, ev = L.a
    if len(vs) != 1 or kt is not const("next") or ev is not NONE:
        return None
    init, tree = vs[i]
    if init.op == "acc" and tree.op == "emit" and len(tree.a[0]) == 1 and tree.a[0][0].op != "star":
        return L, tree.a[0][0]
    return None


def quant_of_comp(x, is_any):
    """any()/all() over a list built by a loop, as an 'exists' condition."""
    if x.op == "list" and len(x.a[0]) == 1 and x.a[0][0].op == "star":
        x = x.a[0][0].a[0]
    if x.op != "out":
        return None
    L, i, _ = x.a
    h, dom, kt, vs, ev = L.a
    if len(vs) != 1 or kt is not const("next") or ev is not NONE or vs[0][0].op != "acc":
        return None
    paths = []
    for f, leaf in tree_paths(vs[0][1]):
        if leaf.op != "emit":
            return None
        if not leaf.a[0]:
            paths.append((f, FALSE))
            continue
        if len(leaf.a[0]) != 1 or leaf.a[0][0].op == "star":
            return None
        at = truthy(leaf.a[0][0])
        if not is_any:
            at = not_(at)
        if at in (TRUE, FALSE):
            paths.append((f, at))
            continue
        neg_ = at.op == "not"
        b = at.a[0] if neg_ else at
        for v in (True, False):
            q = dict(f)
            q[b] = v
            paths.append((q, TRUE if v != neg_ else FALSE))
    t = mk_exists(dom, build_tree(paths))
    return t if is_any else not_(t)


def mk_exists(dom, tree):
    if tree is TRUE:
        return truthy(dom)
    if tree is FALSE:
        return FALSE
    if tree.op == "ite" and tree.a[0].op == "isnone" and tree.a[0].a[0].op == "elem" and tree.a[1] is TRUE and tree.a[2] is FALSE \
            and tree.a[0].a[0].a[0] is dom and tree.a[0].a[0].a[1].op == "bi":
        return contains_(NONE, dom)  # any(x is None for x in dom)
    return mk("exists", dom, tree)


# ---------------------------------------------------------------- running a loop body
def assigned(nodes):
    out = set()
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, ast.FunctionDef):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # own targets are local, walrus targets are not
            tg = set()
            for x in n.generators:
                for y in ast.walk(x.target):
                    if isinstance(y, ast.Name):
                        tg.add(id(y))
            for y in ast.walk(n):
                if isinstance(y, ast.NamedExpr):
                    out.add(y.target.id)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def length(dom):
    """Number of iterations over a domain."""
    if dom.op == "range":
        return dom.a[1] if dom.a[0] is ZERO and dom.a[2] is ONE else None
    if dom.op in ("zip", "while"):
        return None
    return mk("call", g("builtins.len"), (dom,), ())


def explore(I, s, body_fn, names, line, dom=None):
    """Symbolic exploration of the body, carried variables and objects unknown."""
    from .interp import St
    I.n_ref += 1
    uid = I.n_ref
    ix = mk("ix", uid)
    n = length(dom) if dom is not None else None
    if n is not None:
        IXLEN[ix] = n
    carried = {}
    extra_fs = 0
    keys = []
    for _ in range(6):
        s0 = St()
        s0.env = dict(s.env)
        s0.heap = dict(s.heap)
        s0.stack = s.stack
        s0.fs = s.fs + extra_fs
        lvs, inits = {}, {}
        for nm in sorted(names):
            v = s.env.get(nm)
            if v is not None and not isinstance(v, T):
                v = v.get()
            if v is not None and v.op == "closure":
                continue
            iv = I.res(s, v) if v is not None else mk("undef", "")
            lv = mk("lv", uid, "e:" + nm, False)
            if is_num(iv):
                set_param_type(lv, ty(iv) if ty(iv) == "float" else "num")
            elif ty(iv) in ("list", "dict", "set", "str"):
                set_param_type(lv, ty(iv))
            lvs["e:" + nm], inits["e:" + nm] = lv, iv
            s0.env[nm] = lv
        for i, k in enumerate(keys):
            nm = "h:%d" % i
            iv = I.res(s, k)
            lv = mk("lv", uid, nm, I.is_local(k))
            if ty(iv) in ("list", "dict", "set"):
                set_param_type(lv, ty(iv))
            lvs[nm], inits[nm] = lv, iv
            s0.heap[k] = lv
        mark = I.n_ref
        before = dict(s0.heap)
        ends = body_fn(s0, ix)
        new = []
        fs2 = False
        for e in ends:
            if e.fs > s.fs + extra_fs:
                fs2 = True
            for k, v in e.heap.items():
                if k in keys or k in new:
                    continue
                b = before.get(k)
                if b is v:
                    continue
                if isinstance(v, T) and isinstance(b, T) is False and b is not None:
                    pass
                if b is None:
                    if k.op == "ref" and k.a[0] > mark:
                        continue
                    fl = subterms(k)
                    if any(x.op == "ref" and x.a[0] > mark for x in fl):
                        continue
                    if any((x.op in ("ix", "lv")) and x.a[0] == uid for x in fl):
                        continue
                    if any(x.op in ("nextof", "resof", "popped") for x in fl):
                        continue
                elif k.op == "ref" and k.a[0] > mark:
                    continue
                new.append(k)
        if not new and (not fs2 or extra_fs):
            break
        keys = keys + sorted(new, key=lambda k: (k.op != "ref", k.a[0] if k.op == "ref" else 0, digest(k)))
        if fs2:
            extra_fs = 1
    paths = []
    for e in ends:
        if e.ctl is None or e.ctl[0] == "cont":
            kind, val = "next", NONE
        elif e.ctl[0] == "brk":
            kind, val = "break", NONE
        elif e.ctl[0] == "ret":
            kind, val = "ret", I.consume(e, e.ctl[1])
        else:
            x = e.ctl[1]
            kind, val = "exc", x
        upd = {}
        for nm in lvs:
            if nm.startswith("e:"):
                v = e.env.get(nm[2:])
                if v is not None and not isinstance(v, T):
                    v = v.get()
                upd[nm] = mk("undef", "") if v is None else I.consume(e, v)
            else:
                upd[nm] = I.res(e, keys[int(nm[2:])])
        paths.append(BPath(e.facts, kind, val, upd, e.ev))
    return uid, ix, lvs, inits, keys, paths, bool(extra_fs)


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def run(I, s, node, dom, binder):
    names = assigned(node.body) | target_names(node.target) if not isinstance(node.target, ast.Attribute) else set()
    comp = any(isinstance(x, ast.Expr) and type(x.value).__name__ == "AccEmit" for x in ast.walk(ast.Module(node.body, [])))

    def body_fn(s0, ix):
        out = []
        for s1 in I.assign(s0, node.target, binder(s0, ix)):
            out.extend([s1] if s1.ctl else I.block(node.body, [s1]))
        return out

    uid, ix, lvs, inits, keys, paths, fs = explore(I, s, body_fn, names, getattr(node, "lineno", 0), dom)
    raw = Raw(uid, ix, dom, inits, lvs, paths, getattr(node, "lineno", 0))
    return after(I, s, node, raw, keys, fs, names)


def one_return(node):
    """``while True`` left by one return only, as a loop left by break followed by the return."""
    if not (isinstance(node.test, ast.Constant) and node.test.value) or node.orelse:
        return None
    found = []

    class Tr(ast.NodeTransformer):
        inner = 0

        def visit_Return(self, n):
            found.append(n)
            if self.inner:
                found.append(None)
            return ast.copy_location(ast.Break(), n)

        def visit_Break(self, n):
            if not self.inner:
                found.append(None)
            return n

        def visit_FunctionDef(self, n):
            return n

        visit_Lambda = visit_FunctionDef

        def nested(self, n):
            self.inner += 1
            self.generic_visit(n)
            self.inner -= 1
            return n

        visit_For = visit_While = visit_Try = visit_With = nested

    if not any(isinstance(x, ast.Return) for x in ast.walk(node)):
        return None
    new = copy.copy(node)
    tr = Tr()
    new.body = [tr.visit(copy.deepcopy(x)) for x in node.body]
    if not found or None in found or len({ast.dump(x) for x in found}) != 1:
        return None
    return [new, found[0]]


def run_while(I, s, node):
    r = one_return(node)
    if r is not None:
        return I.block(r, [s])
    names = assigned([node])
    test = node.test

    def body_fn(s0, ix):
        out = []
        if isinstance(test, ast.Constant) and test.value:
            return I.block(node.body, [s0])
        for s1, b in I.cond(test, s0):
            if s1.ctl:
                out.append(s1)
            elif b:
                out.extend(I.block(node.body, [s1]))
            else:
                s1.ctl = ("brk",)
                out.append(s1)
        return out

    uid, ix, lvs, inits, keys, paths, fs = explore(I, s, body_fn, names, node.lineno)
    raw = Raw(uid, ix, mk("while"), inits, lvs, paths, node.lineno)
    raw = counter_to_range(raw)
    return after(I, s, node, raw, keys, fs, names)


def counter_to_range(raw):
    """``i = a; while i < n: ...; i += c`` as a loop over a range."""
    for nm, lv in raw.lvs.items():
        init = raw.inits[nm]
        if not (is_num(init) or init.op == "lin"):
            continue
        nxt = [p for p in raw.paths if p.kind == "next"]
        if not nxt:
            continue
        steps = set()
        for p in nxt:
            d = lin_add(p.upd[nm], lv, -1)
            steps.add(d)
        if len(steps) != 1:
            continue
        c = steps.pop()
        if not (is_const(c) and isinstance(cval(c), int) and cval(c) != 0):
            continue
        # stopping test: first fact of every path
        firsts = {next(iter(p.facts), None) for p in raw.paths}
        if len(firsts) != 1:
            continue
        at = firsts.pop()
        if at is None or at.op not in ("lt", "le"):
            continue
        stops = [p for p in raw.paths if len(p.facts) == 1 and p.kind == "break" and not p.ev]
        if len(stops) != 1:
            continue
        sv = stops[0].facts[at]
        from .theory import linform
        f = linform(at)
        if f is None:
            continue
        # at:  s*(L + k) < 0 (lt) or <= 0 ; L has coefficient of lv
        parts, k, kind, sg = f
        cf = dict(parts).get(lv)
        if cf not in (1, -1):
            continue
        rest = const(k)
        for x, m in parts:
            if x is not lv:
                rest = lin_add(rest, lin_scale(x, m))
        if lv in subterms(rest) or any(x.op in ("lv", "ix") and x.a[0] == raw.uid for x in subterms(rest)):
            continue
        # expression E = cf*lv + rest ; condition: sg*E < 0
        go_when = not sv
        up = (sg * cf > 0) == go_when  # continue while lv below bound
        strict = (kind == "lt") == go_when
        bound = lin_scale(rest, -cf)  # lv (<|<=|>|>=) bound
        if up != (cval(c) > 0):
            continue
        if not strict:
            bound = lin_add(bound, const(1 if up else -1))
        dom, b = _range(init, bound, c)
        val = b(None, raw.ix)
        m = {lv: val}
        paths = []
        for p in raw.paths:
            if p is stops[0]:
                continue
            paths.append(_sub_path(p, m, drop=at))
        lvs = {k2: v for k2, v in raw.lvs.items()}
        return Raw(raw.uid, raw.ix, dom, raw.inits, lvs, paths, raw.line)
    return raw


def _sub_path(p, m, drop=None):
    memo = {}
    facts = {}
    for a, v in p.facts.items():
        if a is drop:
            continue
        b = subst(a, m, memo)
        if b.op == "not":
            b, v = b.a[0], not v
        if b in (TRUE, FALSE):
            continue
        facts[b] = v
    return BPath(facts, p.kind, subst(p.value, m, memo), {k: subst(v, m, memo) for k, v in p.upd.items()},
                 tuple(sub_ev(e, m, memo) for e in p.ev))


def sub_ev(e, m, memo=None):
    return tuple(_sub_any(x, m, memo) for x in e)


def _sub_any(x, m, memo):
    if type(x) is T:
        return subst(x, m, memo)
    if type(x) is tuple:
        return tuple(_sub_any(y, m, memo) for y in x)
    return x


def own(t, raw):
    """Symbols of this loop occurring in a term."""
    return {x for x in subterms(t) if x.op in ("lv", "ix") and x.a[0] == raw.uid}


def counters(raw):
    """Variables increased by a constant at each iteration: functions of the index."""
    if raw.dom.op == "while":
        return raw
    m = {}
    for nm, lv in raw.lvs.items():
        init = raw.inits[nm]
        if not is_num(init):
            continue
        nxt = [p for p in raw.paths if p.kind == "next"]
        steps = {lin_add(p.upd[nm], lv, -1) for p in nxt}
        if len(steps) == 1:
            c = steps.pop()
            if is_const(c) and isinstance(cval(c), int) and cval(c) != 0:
                m[lv] = lin_add(init, lin_scale(raw.ix, cval(c)))
    if not m:
        return raw
    # an increment seen after substitution as a plain function of the index
    return Raw(raw.uid, raw.ix, raw.dom, raw.inits, raw.lvs, [_sub_path(p, m) for p in raw.paths], raw.line)


def after(I, s, node, raw, keys, fs, names):
    raw = counters(raw)
    RAWS.append(raw)
    if not raw.paths:
        return []
    exits = [p for p in raw.paths if p.kind in ("ret", "exc")]
    breaks = [p for p in raw.paths if p.kind == "break"]
    has_ev = any(p.ev for p in raw.paths)
    base_fs = s.fs
    if has_ev:
        L = canon(raw, "ev")
        s.ev += (("loop", L),)
    if fs:
        s.fs += 1
    states = [s]
    results = []
    if exits:
        labels = []
        for p in exits:
            lb = label(p)
            if lb not in labels:
                labels.append(lb)
        labels.sort()
        for lb in labels:
            nxt = []
            for s1 in states:
                at = exit_atom(raw, lb, single=len(labels) == 1 and not breaks)
                for s2, b in I.decide(s1, at):
                    if not b:
                        nxt.append(s2)
                        continue
                    ps = [p for p in exits if label(p) == lb]
                    if ps[0].kind == "ret":
                        v = ps[0].value
                        if not (all(p.value is v for p in ps) and not own(v, raw)):
                            v = canon(raw, "ret", lb)
                        s2.ctl = ("ret", v)
                        results.append(s2)
                    else:
                        x = ps[0].value
                        if own(x, raw):
                            x = mk("exc?", mk("raises", mk("inloop", canon(raw, "exc", lb)), ()))
                        s2.ctl = ("exc", x)
                        results.append(s2)
            states = nxt
    # variables set once, at the iteration ending the loop or at any
    out = []
    for s1 in states:
        out.extend(flags_(I, s1, node, raw, keys, names, breaks))
    res = []
    for s1, broke in out:
        if node.orelse and broke is not True:
            if broke is None and breaks:
                for s2, b in I.decide(s1, exit_atom(raw, "break", single=not exits)):
                    res.extend([s2] if b else I.block(node.orelse, [s2]))
            else:
                res.extend(I.block(node.orelse, [s1]))
        else:
            res.append(s1)
    return res + results


RAWS = []


def label(p):
    if p.kind == "exc":
        return "exc:" + (p.value.a[0] if p.value.op == "exc" else "?")
    return p.kind


def flags_(I, s, node, raw, keys, names, breaks):
    """Values of carried variables after the loop: [(state, left by a break)]."""
    split = {}
    live = [p for p in raw.paths if p.kind in ("next", "break")]
    for nm, lv in raw.lvs.items():
        if not nm.startswith("e:"):
            continue
        vals = set()
        sets = []
        ok = True
        for p in live:
            u = p.upd[nm]
            if u is lv:
                continue
            if own(u, raw):
                ok = False
                break
            vals.add(u)
            sets.append(p)
        if not ok or len(vals) != 1 or not sets or (raw.inits[nm].op == "undef" and not breaks):
            continue
        split[nm] = (vals.pop(), frozenset(id(p) for p in sets))
    base = [(s, None)]
    groups = {}
    for nm, (v, ps) in split.items():
        groups.setdefault(ps, []).append(nm)
    handled = {}
    if raw.dom.op != "while":
        for ps, nms in sorted(groups.items(), key=lambda kv: sorted(kv[1])):
            if len(ps) == len(live):
                at = truthy(raw.dom)
                isb = False
            else:
                if breaks and ps != frozenset(id(p) for p in breaks):
                    continue
                at = exists_atom(raw, lambda p: id(p) in ps)
                isb = bool(breaks)
            if at is None:
                continue
            nxt = []
            for s1, br in base:
                for s2, b in I.decide(s1, at):
                    h = handled.setdefault(id(s2), {})
                    if s2 is not s1:
                        h.update(handled.get(id(s1), {}))
                    for nm in nms:
                        h[nm] = split[nm][0] if b else raw.inits[nm]
                    nxt.append((s2, (b if isb else br)))
            base = nxt
    for s1, br in base:
        h = handled.get(id(s1), {})
        for nm in raw.lvs:
            if nm.startswith("e:"):
                if nm in h:
                    v = h[nm]
                    if v.op == "undef":
                        s1.env.pop(nm[2:], None)
                    else:
                        s1.env[nm[2:]] = v
                elif all(p.upd[nm] is raw.lvs[nm] for p in live):
                    pass
                else:
                    s1.env[nm[2:]] = _lazy(raw, nm)
            else:
                s1.heap[keys[int(nm[2:])]] = _lazy(raw, nm)
    return base


def _lazy(raw, nm):
    from .interp import Lazy
    return Lazy(lambda: out_value(raw, nm))


def exists_atom(raw, sel):
    """Condition that an iteration takes one of the selected paths (None if it depends on carried variables)."""
    tree = build_tree([(p.facts, TRUE if sel(p) else FALSE) for p in raw.paths])
    if any(x.op == "lv" for x in own(tree, raw)):
        return None
    h = 1 + height(tree)
    m = {raw.ix: mk("bi", h)}
    memo = {}
    tree = build_tree([(_sf(p.facts, m, memo), TRUE if sel(p) else FALSE) for p in raw.paths])
    return mk_exists(raw.dom, tree)


def _sf(facts, m, memo):
    out = {}
    for a, v in facts.items():
        b = subst(a, m, memo)
        if b.op == "not":
            b, v = b.a[0], not v
        if b not in (TRUE, FALSE):
            out[b] = v
    return out


def exit_atom(raw, lb, single):
    if single:
        at = exists_atom(raw, lambda p: label(p) == lb)
        if at is not None and raw.dom.op != "while":
            return at
    t = canon(raw, "kind", lb)
    return mk("lexit", t, lb)


# ---------------------------------------------------------------- canonical terms
def acc_form(raw, nm):
    """Items added at each iteration when a container is only filled: {path: leaf}, kind."""
    lv = raw.lvs[nm]
    leaves = {}
    kind = None
    for p in raw.paths:
        if p.kind not in ("next", "break"):
            leaves[id(p)] = mk("emit", ())
            continue
        u = p.upd[nm]
        if u is lv:
            leaves[id(p)] = mk("emit", ())
            continue
        if u.op == "list" and u.a[0] and u.a[0][0] is mk("star", lv):
            k, items = "list", u.a[0][1:]
        elif u.op == "store":
            k, items = "dict", []
            while u.op == "store" and u.a[1].op not in ("fld", "path"):
                items.append(mk("kv", u.a[1], u.a[2]))
                u = u.a[0]
            if u is not lv:
                return None
            items = tuple(items[::-1])
        elif u.op == "dmerge" and u.a[0] is lv:
            k, items = "dict", (mk("dstar", u.a[1]),)
        elif u.op == "setadd":
            k, items = "set", []
            while u.op == "setadd":
                items.append(u.a[1])
                u = u.a[0]
            if u is not lv:
                return None
            items = tuple(sorted(set(items), key=digest))
        else:
            return None
        if kind not in (None, k):
            return None
        kind = k
        if any(lv in subterms(x) for x in items):
            return None
        leaves[id(p)] = mk("emit", tuple(items))
    if kind is None:
        return None
    init = raw.inits[nm]
    if kind == "dict" and ty(init) not in ("dict", None) :
        return None
    if kind in ("list", "set") and ty(init) not in (kind, None):
        return None
    # not read by anything else
    for p in raw.paths:
        if any(lv in subterms(a) for a in p.facts):
            return None
    return leaves, kind


def out_value(raw, nm):
    a = acc_form(raw, nm)
    if a is not None:
        leaves, kind = a
        t = canon(raw, "acc", nm, a)
        init = raw.inits[nm]
        if kind == "list":
            pre = list(init.a[0]) if init.op == "list" else [mk("star", init)]
            return mk_list(pre + [mk("star", t)])
        if kind == "dict":
            if init.op == "dict" and not init.a[0]:
                return t
            return mk("dmerge", init, t)
        if init.op == "set" and not init.a[0]:
            return t
        return mk("setmerge", init, t)
    if raw.dom.op != "while" and not any(p.kind != "next" for p in raw.paths):
        # last value of a function of the index
        us = {p.upd[nm] for p in raw.paths}
        if len(us) == 1:
            u = us.pop()
            if is_num(raw.inits[nm]) and u.op == "lin" or u is raw.ix:
                o = own(u, raw)
                if o == {raw.ix}:
                    n = mk("call", g("builtins.len"), (raw.dom,), ())
                    last = subst(u, {raw.ix: lin_add(n, const(-1))})
                    if lin_diff(subst(u, {raw.ix: const(-1)}), raw.inits[nm]) == ((), 0) or \
                            subst(u, {raw.ix: const(-1)}) is raw.inits[nm]:
                        return last
    return canon(raw, "var", nm)


_CANON = {}


def canon(raw, want, arg=None, acc=None):
    key = (id(raw), want, arg)
    r = _CANON.get(key)
    if r is not None:
        return r[1]
    t = _canon(raw, want, arg, acc)
    _CANON[key] = (raw, t)
    return t


def _canon(raw, want, arg, acc):
    paths = raw.paths

    def kind_leaf(p):
        if want in ("kind", "ret", "exc"):
            return const(label(p))
        return const("next" if p.kind == "next" else "stop")

    def ev_leaf(p):
        return mk("evs", tuple(ev_term(e) for e in ev_sorted(p.ev)))

    leaf_fns = {}
    accs = {}

    def var_leaf(nm):
        if nm in accs:
            return lambda p, lv=accs[nm][0]: lv[id(p)]
        lv = raw.lvs[nm]
        return lambda p: p.upd[nm] if p.kind in ("next", "break") else lv

    if want == "acc":
        accs[arg] = acc
    # cone of influence
    kt = build_tree([(p.facts, kind_leaf(p)) for p in paths])
    need = []
    seeds = [kt]
    if want == "ev":
        seeds.append(build_tree([(p.facts, ev_leaf(p)) for p in paths]))
    if want in ("ret", "exc"):
        seeds.append(build_tree([(p.facts, p.value if label(p) == arg else NONE) for p in paths]))
    byterm = {lv: nm for nm, lv in raw.lvs.items()}
    if want in ("var", "acc"):
        need.append(arg)
    todo = list(need)
    for sd in seeds:
        for x in own(sd, raw):
            if x.op == "lv" and byterm.get(x) and byterm[x] not in need:
                need.append(byterm[x])
                todo.append(byterm[x])
    while todo:
        nm = todo.pop()
        fn = var_leaf(nm)
        tr = build_tree([(p.facts, fn(p)) for p in paths])
        for x in own(tr, raw):
            if x.op == "lv" and byterm.get(x) and byterm[x] not in need:
                need.append(byterm[x])
                todo.append(byterm[x])

    def trees(m):
        memo = {}
        fs = [_sf(p.facts, m, memo) for p in paths]
        kt = build_tree([(f, kind_leaf(p)) for f, p in zip(fs, paths)])
        vs = {}
        for nm in need:
            fn = var_leaf(nm)
            vs[nm] = build_tree([(f, subst(fn(p), m, memo)) for f, p in zip(fs, paths)])
        ev = NONE
        if want == "ev":
            ev = build_tree([(f, subst(ev_leaf(p), m, memo)) for f, p in zip(fs, paths)])
        if want in ("ret", "exc"):
            ev = build_tree([(f, subst(p.value if label(p) == arg else NONE, m, memo)) for f, p in zip(fs, paths)])
        return kt, vs, ev

    # names of variables do not matter: refinement by initial value and update
    def initof(nm):
        return mk("acc", accs[nm][1]) if nm in accs else raw.inits[nm]

    col = {nm: digest(initof(nm)).hex() for nm in need}
    if want in ("var", "acc"):
        col[arg] = "*" + col[arg]
    if len(need) > 1:
        for _ in range(min(len(need), 4)):
            m = {raw.lvs[nm]: typed_col(col[nm], raw.lvs[nm]) for nm in need}
            kt2, vs, ev = trees(m)
            new = {}
            for nm in need:
                import hashlib
                new[nm] = ("*" if col[nm].startswith("*") else "") + hashlib.blake2b((col[nm] + digest(vs[nm]).hex()).encode(), digest_size=10).hexdigest()
            # position of use in the other trees
            col = new
            if len(set(col.values())) == len(need):
                pass
    order = sorted(need, key=lambda nm: (col[nm], nm))
    tmp = trees({})
    h = 1 + max([height(tmp[0]), height(tmp[2])] + [height(x) for x in tmp[1].values()])
    m = {raw.ix: mk("bi", h)}
    for i, nm in enumerate(order):
        b = mk("bv", h, i, ty(raw.lvs[nm]) or "")
        if ty(raw.lvs[nm]):
            set_param_type(b, ty(raw.lvs[nm]))
        m[raw.lvs[nm]] = b
    kt, vs, ev = trees(m)
    L = mk("loop", h, raw.dom, kt, tuple((initof(nm), vs[nm]) for nm in order), ev)
    RAW[L] = (raw, order, want, arg)
    if want == "var":
        k = ty(raw.inits[arg]) if ty(raw.inits[arg]) in ("list", "dict", "set") else ""
        if is_num(raw.inits[arg]):
            k = "num"
        t = mk("out", L, order.index(arg), k)
        RAW[t] = (raw, order, want, arg)
        return t
    if want == "acc":
        t = mk("out", L, order.index(arg), accs[arg][1])
        RAW[t] = (raw, order, want, arg)
        return t
    if want in ("ret", "exc"):
        t = mk("lret", L, arg)
        RAW[t] = (raw, order, want, arg)
        return t
    return L


def typed_col(c, lv):
    t = mk("col", c, ty(lv) or "")
    if ty(lv):
        set_param_type(t, ty(lv))
    return t


# ---------------------------------------------------------------- order of effects
def ev_sorted(evs):
    """Independent effects in a canonical order."""
    evs = list(evs)
    if len(evs) < 2:
        return evs
    n = len(evs)
    keys = [digest(ev_term(e)) for e in evs]
    foot = [footprint(e) for e in evs]
    out = []
    left = list(range(n))
    while left:
        ready = []
        for i in left:
            if all(j >= i or independent(foot[j], foot[i]) for j in left if j < i):
                ready.append(i)
        b = min(ready, key=lambda i: keys[i])
        out.append(evs[b])
        left.remove(b)
    return out


def _root(t):
    while t.op in ("attr", "sub", "elem", "aft"):
        t = t.a[0]
    return t


def _pathof(t):
    p = []
    while t.op in ("attr", "sub", "elem", "aft"):
        if t.op == "attr":
            p.append(fld(t.a[1]))
        elif t.op in ("sub", "elem"):
            p.append(t.a[1])
        t = t.a[0]
    return t, p[::-1]


def footprint(e):
    """('set', root, path) | ('any',) barrier | ('fs' ...)"""
    if e[0] == "set":
        r, p = _pathof(e[1])
        return ("w", r, p + [e[2]])
    if e[0] == "mut":
        r, p = _pathof(e[1])
        return ("w", r, p)
    if e[0] == "do":
        return ("do", frozenset(_root(o) for o in e[3]), "fs" in e[2] or any(m.startswith("glob") for m in e[2]), e[1])
    if e[0] == "loop":
        r = loop_roots(e[1])
        if r:
            return ("ws", r)
    return ("any",)


def loop_roots(t):
    """The objects that a loop changes, if all it does is changing objects made before it."""
    if t.op != "loop":
        return None
    h, inits = t.a[0], t.a[3]
    roots = set()
    for x in subterms(t):
        if x.op in ("e_do", "e_loop", "loop") and x is not t:
            return None
        if x.op.startswith("e_") or x.op == "evs":
            if x.op not in ("e_set", "e_mut", "evs"):
                return None
            if x.op != "evs":
                r = _root(x.a[0])
                if r.op == "bv" and r.a[0] == h and r.a[1] < len(inits):
                    r = _root(inits[r.a[1]][0])
                if r.op in ("bv", "bi", "each"):
                    return None
                roots.add(r)
    return frozenset(roots)


def independent(a, b):
    if a[0] == "any" or b[0] == "any":
        return False
    if a[0] == "ws" or b[0] == "ws":
        if a[0] != "ws":
            a, b = b, a
        if b[0] == "do":
            return False
        return not (a[1] & (b[1] if b[0] == "ws" else {b[1]}))
    if a[0] == "w" and b[0] == "w":
        if a[1] is not b[1]:
            return True
        for x, y in zip(a[2], b[2]):
            if distinct_keys(x, y):
                return True
        return False
    if a[0] == "do" and b[0] == "do":
        return False
    d, w = (a, b) if a[0] == "do" else (b, a)
    if d[2]:
        return False  # a call that reaches the disk may fail: what was assigned before it stays
    # an assignment to something the call does not get
    r = w[1]
    if r in d[1]:
        return False
    return r not in subterms(d[3])
