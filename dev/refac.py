"""Development aid: random behaviour-preserving rewrites of the reference source; the comparison must stay quiet.

usage: refac.py func-substring[,..] N seed [-k steps] [-v]
"""
import ast
import collections
import copy
import difflib
import os
import random
import shutil
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from sa.engine import Engine, SPEC  # noqa
from sa.world import World  # noqa

TERM = (ast.Return, ast.Raise, ast.Continue, ast.Break)
OPP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def terminal(b):
    if not b:
        return False
    l = b[-1]
    if isinstance(l, TERM):
        return True
    return isinstance(l, ast.If) and terminal(l.body) and terminal(l.orelse)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def blocks(fn):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, (ast.Lambda, ast.ClassDef)):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append((n, f, b))
    return out


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG:
        return ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


class Refac:
    def __init__(self, rnd):
        self.rnd = rnd
        self.n = 0

    def fresh(self, base="tmp"):
        self.n += 1
        return "%s_%d" % (base, self.n)

    def apply(self, kind, fn, mod):
        return getattr(self, "t_" + kind)(fn, mod)

    kinds = property(lambda s: [x[2:] for x in dir(s) if x.startswith("t_")])

    def pick(self, xs):
        xs = list(xs)
        return self.rnd.choice(xs) if xs else None

    # ---- names
    def t_rename(self, fn, mod):
        params = {a.arg for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) for a in ast.walk(x.args) if isinstance(a, ast.arg)}
        nested = {x.name for x in ast.walk(fn) if isinstance(x, ast.FunctionDef)}
        c = sorted(names(fn, ast.Store) - params - nested)
        n = self.pick(c)
        if not n:
            return False
        m = self.fresh(n)
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id == n:
                x.id = m
        return True

    # ---- temporaries
    def t_tmp_return(self, fn, mod):
        c = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Return) and s.value is not None]
        z = self.pick(c)
        if not z:
            return False
        b, i = z
        t = self.fresh()
        b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], b[i].value), ast.Return(ast.Name(t, ast.Load()))]
        return True

    def t_tmp_test(self, fn, mod):
        c = [(b, i) for _, f, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and not (f == "orelse" and len(b) == 1)]
        z = self.pick(c)
        if not z:
            return False
        b, i = z
        t = self.fresh("cond")
        b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], b[i].test), b[i]]
        b[i + 1].test = ast.Name(t, ast.Load())
        return True

    def t_tmp_arg(self, fn, mod):
        c = []
        for _, _, b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call):
                    k = s.value
                    if isinstance(k.func, ast.Name) or isinstance(k.func, ast.Attribute) and isinstance(k.func.value, ast.Name):
                        for j, a in enumerate(k.args):
                            if isinstance(a, ast.Starred):
                                break
                            if not isinstance(a, (ast.Name, ast.Constant)):
                                c.append((b, i, k.args, j, None))
                                break
                        else:
                            for j, a in enumerate(k.keywords):
                                if a.arg is None:
                                    break
                                if not isinstance(a.value, (ast.Name, ast.Constant)):
                                    c.append((b, i, None, j, a))
                                    break
        z = self.pick(c)
        if not z:
            return False
        b, i, args, j, kw = z
        t = self.fresh()
        v = args[j] if args is not None else kw.value
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom)) for x in ast.walk(v)):
            return False
        b.insert(i, ast.Assign([ast.Name(t, ast.Store())], v))
        if args is not None:
            args[j] = ast.Name(t, ast.Load())
        else:
            kw.value = ast.Name(t, ast.Load())
        return True

    def t_inline_tmp(self, fn, mod):
        c = []
        loads = collections.Counter(x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load))
        stores = collections.Counter(x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load))
        for _, _, b in blocks(fn):
            for i in range(len(b) - 1):
                s, u = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    n = s.targets[0].id
                    if loads[n] == 1 and stores[n] == 1:
                        if isinstance(u, ast.Return) and isinstance(u.value, ast.Name) and u.value.id == n:
                            c.append((b, i, u, "value"))
                        elif isinstance(u, ast.Assign) and isinstance(u.value, ast.Name) and u.value.id == n:
                            c.append((b, i, u, "value"))
                        elif isinstance(u, ast.If) and isinstance(u.test, ast.Name) and u.test.id == n:
                            c.append((b, i, u, "test"))
                        elif isinstance(u, ast.For) and isinstance(u.iter, ast.Name) and u.iter.id == n:
                            c.append((b, i, u, "iter"))
        z = self.pick(c)
        if not z:
            return False
        b, i, u, f = z
        setattr(u, f, b[i].value)
        del b[i]
        return True

    # ---- conditions
    def t_invert_if(self, fn, mod):
        s = self.pick([s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.If) and s.orelse])
        if not s:
            return False
        s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
        return True

    def t_else_to_flat(self, fn, mod):
        z = self.pick([(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and s.orelse and terminal(s.body)])
        if not z:
            return False
        b, i = z
        o = b[i].orelse
        b[i].orelse = []
        b[i + 1:i + 1] = o
        return True

    def t_flat_to_else(self, fn, mod):
        z = self.pick([(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and i + 1 < len(b)])
        if not z:
            return False
        b, i = z
        b[i].orelse = b[i + 1:]
        del b[i + 1:]
        return True

    def t_split_and(self, fn, mod):
        s = self.pick([s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And)])
        if not s:
            return False
        v = s.test.values
        r = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
        s.test = v[0]
        s.body = [ast.If(r, s.body, [])]
        return True

    def t_merge_if(self, fn, mod):
        s = self.pick([s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1
                       and isinstance(s.body[0], ast.If) and not s.body[0].orelse])
        if not s:
            return False
        s.test = ast.BoolOp(ast.And(), [s.test, s.body[0].test])
        s.body = s.body[0].body
        return True

    def t_split_or(self, fn, mod):
        """if a or b: raise -> if a: raise / if b: raise"""
        z = self.pick([(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and not s.orelse and terminal(s.body)
                       and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or)])
        if not z:
            return False
        b, i = z
        s = b[i]
        b[i:i + 1] = [ast.If(v, copy.deepcopy(s.body), []) for v in s.test.values]
        return True

    def t_demorgan(self, fn, mod):
        s = self.pick([x for x in ast.walk(fn) if isinstance(x, (ast.If, ast.IfExp, ast.While)) and isinstance(x.test, ast.BoolOp)])
        if not s:
            return False
        o = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
        s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(o, [neg(v) for v in s.test.values]))
        return True

    def t_swap_cmp(self, fn, mod):
        s = self.pick([x for x in ast.walk(fn) if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in OPP])
        if not s:
            return False
        s.left, s.comparators[0] = s.comparators[0], s.left
        s.ops[0] = OPP[type(s.ops[0])]()
        return True

    def t_neg_cmp(self, fn, mod):
        class V(ast.NodeTransformer):
            def __init__(self, k):
                self.k = k

            def visit_Compare(self, n):
                self.generic_visit(n)
                if len(n.ops) == 1 and type(n.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn):
                    self.k -= 1
                    if self.k == 0:
                        return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [NEG[type(n.ops[0])]()], n.comparators))
                return n
        c = sum(1 for x in ast.walk(fn) if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in (ast.Is, ast.IsNot, ast.In, ast.NotIn))
        if not c:
            return False
        v = V(self.rnd.randint(1, c))
        fn.body = [v.visit(s) for s in fn.body]
        return True

    def t_ifexp_to_if(self, fn, mod):
        z = self.pick([(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp)])
        if not z:
            return False
        b, i = z
        s = b[i]
        x, y = copy.deepcopy(s), copy.deepcopy(s)
        x.value, y.value = s.value.body, s.value.orelse
        b[i] = ast.If(s.value.test, [x], [y])
        return True

    def t_if_to_ifexp(self, fn, mod):
        z = self.pick([(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1
                       and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign)
                       and isinstance(s.body[0].targets[0], ast.Name) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0])])
        if not z:
            return False
        b, i = z
        s = b[i]
        b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))
        return True

    def t_walrus(self, fn, mod):
        z = self.pick([(b, i, f) for _, f0, b in blocks(fn) for i, s in enumerate(b) for f in ("test", "value")
                       if not (f0 == "orelse" and len(b) == 1) and isinstance(s, (ast.If, ast.Assign)) and isinstance(getattr(s, f, None), ast.NamedExpr)])
        if not z:
            return False
        b, i, f = z
        w = getattr(b[i], f)
        setattr(b[i], f, ast.Name(w.target.id, ast.Load()))
        b.insert(i, ast.Assign([ast.Name(w.target.id, ast.Store())], w.value))
        return True

    def t_truth_len(self, fn, mod):
        c = [(x, "test") for x in ast.walk(fn) if isinstance(x, (ast.If, ast.IfExp, ast.While)) and isinstance(x.test, ast.Call)
             and isinstance(x.test.func, ast.Name) and x.test.func.id == "len"]
        z = self.pick(c)
        if not z:
            return False
        x, f = z
        x.test = ast.Compare(x.test, [self.pick([ast.Gt(), ast.NotEq()])], [ast.Constant(0)])
        return True

    # ---- statements
    def t_swap_assign(self, fn, mod):
        c = []
        for _, _, b in blocks(fn):
            for i in range(len(b) - 1):
                s, u = b[i], b[i + 1]
                if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s, u)):
                    if any(isinstance(y, (ast.Call, ast.Subscript, ast.NamedExpr, ast.Yield)) for y in ast.walk(s.value)) and \
                            any(isinstance(y, (ast.Call, ast.Subscript, ast.NamedExpr, ast.Yield)) for y in ast.walk(u.value)):
                        continue
                    ns, nu = s.targets[0].id, u.targets[0].id
                    if ns == nu or ns in names(u.value) or nu in names(s.value):
                        continue
                    c.append((b, i))
        z = self.pick(c)
        if not z:
            return False
        b, i = z
        b[i], b[i + 1] = b[i + 1], b[i]
        return True

    def t_split_tuple(self, fn, mod):
        c = []
        for _, _, b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) \
                        and len(s.value.elts) == len(s.targets[0].elts) and not (names(s.targets[0]) & names(s.value)):
                    c.append((b, i))
        z = self.pick(c)
        if not z:
            return False
        b, i = z
        s = b[i]
        b[i:i + 1] = [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
        return True

    def t_unpack_index(self, fn, mod):
        """a, b = f() -> t = f(); a = t[0]; b = t[1]"""
        c = [(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Tuple)
             and isinstance(s.value, ast.Name) and not any(isinstance(e, (ast.Starred, ast.Tuple)) for e in s.targets[0].elts)]
        z = self.pick(c)
        if not z:
            return False
        b, i = z
        s = b[i]
        if s.value.id in names(s.targets[0]):
            return False
        b[i:i + 1] = [ast.Assign([t], ast.Subscript(copy.deepcopy(s.value), ast.Constant(k), ast.Load())) for k, t in enumerate(s.targets[0].elts)]
        return True

    def t_aug(self, fn, mod):
        z = self.pick([(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name)
                       and isinstance(s.value, ast.Constant) and type(s.value.value) is int])
        if not z:
            return False
        b, i = z
        s = b[i]
        b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))
        return True

    def t_noop(self, fn, mod):
        _, _, b = self.pick(blocks(fn))
        i = self.rnd.randint(0, len(b) - 1)
        b.insert(i, self.pick([ast.Pass(), ast.Expr(ast.Constant(None)), ast.Assign([ast.Name(self.fresh("_unused"), ast.Store())], ast.Constant(0)),
                               ast.If(ast.Constant(False), [ast.Pass()], []), ast.Assert(ast.Constant(True))]))
        return True

    def t_annot(self, fn, mod):
        z = self.pick([(b, i) for _, _, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)])
        if not z:
            return False
        b, i = z
        b[i] = ast.AnnAssign(b[i].targets[0], ast.Name("object", ast.Load()), b[i].value, 1)
        return True

    def t_return_none(self, fn, mod):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)) or terminal(fn.body):
            return False
        fn.body.append(ast.Return(None))
        return True

    # ---- loops
    def t_while_true(self, fn, mod):
        s = self.pick([s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant)])
        if not s:
            return False
        s.body.insert(0, ast.If(neg(s.test), [ast.Break()], []))
        s.test = ast.Constant(True)
        return True

    def t_continue(self, fn, mod):
        s = self.pick([s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.For) and isinstance(s.body[-1], ast.If) and not s.body[-1].orelse])
        if not s:
            return False
        i = s.body[-1]
        s.body[-1:] = [ast.If(neg(i.test), [ast.Continue()], [])] + i.body
        return True

    def t_enumerate(self, fn, mod):
        s = self.pick([s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.For)])
        if not s:
            return False
        s.target = ast.Tuple([ast.Name(self.fresh("_i"), ast.Store()), s.target], ast.Store())
        s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
        return True

    def t_items(self, fn, mod):
        c = [s for _, _, b in blocks(fn) for s in b if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute)
             and s.iter.func.attr == "items" and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name) and isinstance(s.iter.func.value, ast.Name)]
        s = self.pick(c)
        if not s:
            return False
        d, k, v = s.iter.func.value, s.target.elts[0], s.target.elts[1]
        s.body.insert(0, ast.Assign([v], ast.Subscript(ast.Name(d.id, ast.Load()), ast.Name(k.id, ast.Load()), ast.Load())))
        s.target, s.iter = k, ast.Name(d.id, ast.Load())
        return True

    def t_comp_to_loop(self, fn, mod):
        c = []
        for _, _, b in blocks(fn):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp, ast.SetComp)) and len(s.value.generators) == 1:
                    c.append((b, i))
        z = self.pick(c)
        if not z:
            return False
        b, i = z
        s = b[i]
        v = s.value
        g = v.generators[0]
        t = self.fresh("acc")
        L = lambda: ast.Name(t, ast.Load())  # noqa
        bound = names(g.target)
        ren = {n: self.fresh(n) for n in bound}
        for x in ast.walk(v):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
        if isinstance(v, ast.ListComp):
            init, st = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(L(), "append", ast.Load()), [v.elt], []))
        elif isinstance(v, ast.SetComp):
            init, st = ast.Call(ast.Name("set", ast.Load()), [], []), ast.Expr(ast.Call(ast.Attribute(L(), "add", ast.Load()), [v.elt], []))
        else:
            init, st = ast.Dict([], []), ast.Assign([ast.Subscript(L(), v.key, ast.Store())], v.value)
        body = [st]
        for f in reversed(g.ifs):
            body = [ast.If(f, body, [])]
        s.value = L()
        b[i:i] = [ast.Assign([ast.Name(t, ast.Store())], init), ast.For(g.target, g.iter, body, [])]
        return True

    def t_any_to_loop(self, fn, mod):
        c = [(b, i) for _, f, b in blocks(fn) for i, s in enumerate(b) if isinstance(s, ast.If) and not (f == "orelse" and len(b) == 1)
             and isinstance(s.test, ast.Call) and isinstance(s.test.func, ast.Name) and s.test.func.id == "any"
             and s.test.args and isinstance(s.test.args[0], ast.GeneratorExp)]
        z = self.pick(c)
        if not z:
            return False
        b, i = z
        s = b[i]
        g = s.test.args[0].generators[0]
        if len(s.test.args[0].generators) != 1 or g.ifs:
            return False
        t = self.fresh("found")
        elt = s.test.args[0].elt
        s.test = ast.Name(t, ast.Load())
        b[i:i] = [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(False)),
                  ast.For(g.target, g.iter, [ast.If(elt, [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(True)), ast.Break()], [])], [])]
        return True

    def t_append_to_comp(self, fn, mod):
        """x = [] ; for a in b: x.append(e)"""
        c = []
        for _, _, b in blocks(fn):
            for i in range(len(b) - 1):
                s, u = b[i], b[i + 1]
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(u, ast.For) and len(u.body) == 1 \
                        and isinstance(u.body[0], ast.Expr) and isinstance(u.body[0].value, ast.Call) and isinstance(u.body[0].value.func, ast.Attribute) \
                        and u.body[0].value.func.attr == "append" and isinstance(u.body[0].value.func.value, ast.Name) and isinstance(s.targets[0], ast.Name) \
                        and u.body[0].value.func.value.id == s.targets[0].id and s.targets[0].id not in names(u.body[0].value.args[0]):
                    c.append((b, i))
        z = self.pick(c)
        if not z:
            return False
        b, i = z
        s, u = b[i], b[i + 1]
        b[i:i + 2] = [ast.Assign(s.targets, ast.ListComp(u.body[0].value.args[0], [ast.comprehension(u.target, u.iter, [], 0)]))]
        return True

    # ---- expressions
    def t_list_concat(self, fn, mod):
        class V(ast.NodeTransformer):
            done = False

            def visit_List(self, n):
                self.generic_visit(n)
                if not self.done and len(n.elts) == 2 and isinstance(n.elts[0], ast.Starred) and not isinstance(n.elts[1], ast.Starred) and isinstance(n.ctx, ast.Load):
                    self.done = True
                    return ast.BinOp(ast.Call(ast.Name("list", ast.Load()), [n.elts[0].value], []), ast.Add(), ast.List([n.elts[1]], ast.Load()))
                return n
        v = V()
        fn.body = [v.visit(s) for s in fn.body]
        return v.done

    def t_const_inline(self, fn, mod):
        cs = {}
        for s in mod.tree.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
                cs[s.targets[0].id] = s.value
        c = sorted({x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id in cs} - names(fn, ast.Store))
        n = self.pick(c)
        if not n:
            return False

        class V(ast.NodeTransformer):
            def visit_Name(self, x):
                return copy.deepcopy(cs[n]) if x.id == n else x
        v = V()
        fn.body = [v.visit(s) for s in fn.body]
        return True

    def t_const_extract(self, fn, mod):
        c = [x for s in fn.body for x in ast.walk(s) if isinstance(x, ast.Call) for x in x.args + [k.value for k in x.keywords]
             if isinstance(x, ast.Constant) and type(x.value) in (int, str, float, bool)]
        x = self.pick(c)
        if x is None:
            return False
        n = self.fresh("CONST")
        mod.tree.body.insert(0, ast.Assign([ast.Name(n, ast.Store())], ast.Constant(x.value)))
        while isinstance(mod.tree.body[1], ast.ImportFrom) and mod.tree.body[1].module == "__future__":
            mod.tree.body[0], mod.tree.body[1] = mod.tree.body[1], mod.tree.body[0]

        class V(ast.NodeTransformer):
            def visit_Constant(self, y):
                return ast.Name(n, ast.Load()) if y is x else y
        v = V()
        fn.body = [v.visit(s) for s in fn.body]
        return True

    def t_kw_order(self, fn, mod):
        x = self.pick([x for x in ast.walk(fn) if isinstance(x, ast.Call) and len(x.keywords) > 1 and all(k.arg for k in x.keywords)
                       and all(isinstance(k.value, (ast.Name, ast.Constant, ast.Subscript, ast.Attribute)) for k in x.keywords)])
        if not x:
            return False
        x.keywords.reverse()
        return True

    def t_fstring(self, fn, mod):
        class V(ast.NodeTransformer):
            done = False

            def visit_JoinedStr(self, n):
                if self.done or not all(isinstance(v, ast.Constant) or isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None for v in n.values):
                    return n
                self.done = True
                fmt = "".join(v.value.replace("{", "{{").replace("}", "}}") if isinstance(v, ast.Constant) else "{}" for v in n.values)
                return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), [v.value for v in n.values if isinstance(v, ast.FormattedValue)], [])
        v = V()
        fn.body = [v.visit(s) for s in fn.body]
        return v.done

    # ---- functions
    def t_extract_helper(self, fn, mod, block=None):
        a = fn.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + ([a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])
        body = fn.body
        c = []
        # definitely bound names before each position of the body, of nested ifs
        def scan(b, bound):
            bound = set(bound)
            for i in range(len(b)):
                for j in range(i + 1, min(i + 6, len(b)) + 1):
                    c.append((b, i, j, set(bound)))
                s = b[i]
                if isinstance(s, ast.If):
                    scan(s.body, bound)
                    scan(s.orelse, bound)
                elif isinstance(s, ast.For):
                    scan(s.body, bound | names(s.target, ast.Store))
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    for t in getattr(s, "targets", None) or [s.target]:
                        bound |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        scan(body, params)
        self.rnd.shuffle(c)
        for b, i, j, bound in c:
            part = b[i:j]
            if sum(1 for s in part for _ in ast.walk(s)) < 12:
                continue
            if any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Break, ast.Continue, ast.FunctionDef, ast.NamedExpr, ast.Lambda)) for s in part for x in ast.walk(s)):
                continue
            loads = set().union(*(names(s, (ast.Load, ast.Del)) for s in part))
            stores = set().union(*(names(s, ast.Store) for s in part))
            local = names(fn, ast.Store) | set(params)
            comp = {x.id for s in part for y in ast.walk(s) if isinstance(y, ast.comprehension) for x in ast.walk(y.target) if isinstance(x, ast.Name)}
            stores -= comp
            ins = sorted((loads | stores) & local & bound - comp)
            # names used elsewhere in the function
            inside = {id(x) for s in part for x in ast.walk(s)}
            used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside}
            outs = sorted(stores & used)
            # every output must be bound on all paths: inputs, or assigned at top level of the part
            top = set()
            for s in part:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        top |= names(t, ast.Store)
            if any(o not in bound and o not in top for o in outs):
                continue
            if (loads & local) - bound - stores - comp:
                continue
            unb = [x for x in (loads & local) - bound - comp if x not in top]
            if unb:
                continue
            n = self.fresh("_helper")
            hb = list(part)
            call = ast.Call(ast.Name(n, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
            if outs:
                hb.append(ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in outs], ast.Load()) if len(outs) > 1 else ast.Name(outs[0], ast.Load())))
                st = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in outs], ast.Store()) if len(outs) > 1 else ast.Name(outs[0], ast.Store())], call)
            else:
                st = ast.Expr(call)
            h = ast.FunctionDef(n, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), hb, [], None)
            if any(isinstance(d, ast.Call) and getattr(d.func, "id", "") == "njit" or getattr(d, "id", "") == "njit" for d in fn.decorator_list):
                h.decorator_list = [ast.Name("njit", ast.Load())]
            b[i:j] = [st]
            # before the outermost definition holding fn
            k = next((k for k, s in enumerate(mod.tree.body) if any(x is fn for x in ast.walk(s))), None)
            if k is None:
                return False
            mod.tree.body.insert(k, h)
            return True
        return False


def main():
    pat, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    k = int(sys.argv[sys.argv.index("-k") + 1]) if "-k" in sys.argv else 1
    only = sys.argv[sys.argv.index("--only") + 1].split(",") if "--only" in sys.argv else None
    verbose = "-v" in sys.argv
    rnd = random.Random(seed)
    W = World(SPEC)
    quals = sorted(q for q in W.funcs if any(p in q for p in pat.split(",")))
    tmp = "/tmp/refac.%d" % os.getpid()
    stat, bykind, cache = collections.Counter(), collections.Counter(), {}
    t0, done, tries = time.time(), 0, 0
    weights = [sum(1 for _ in ast.walk(W.funcs[q].node)) ** 0.7 for q in quals]
    try:
        while done < N and tries < 50 * N:
            tries += 1
            W2 = World(SPEC)
            q = rnd.choices(quals, weights)[0]
            f = W2.funcs[q]
            R = Refac(rnd)
            before = ast.unparse(f.module.tree)
            ks = []
            for _ in range(k):
                kind = rnd.choice(only or R.kinds)
                if R.apply(kind, f.node, f.module):
                    ks.append(kind)
                    ast.fix_missing_locations(f.module.tree)
            if not ks:
                continue
            after = ast.unparse(f.module.tree)
            if after == before:
                continue
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.copytree(SPEC, tmp)
            with open(os.path.join(tmp, f.module.file), "w") as fh:
                fh.write(after)
            done += 1
            t = time.time()
            E = Engine(tmp)
            E.cache_s = cache
            try:
                rs = E.run(sorted(E.changed | {q}))
            except Exception as ex:
                import traceback
                traceback.print_exc(limit=-4)
                stat["crash"] += 1
                print("CRASH", q, ks)
                continue
            cd, _ = E.constants()
            st = [r.status for r in rs.values()] + (["differs"] if any(d.level == 2 for ds in cd.values() for d in ds) else [])
            s = "differs" if "differs" in st else "undecided" if "undecided" in st else "same"
            stat[s] += 1
            for x in ks:
                bykind[x, s] += 1
            if s == "differs" or (verbose and s != "same") or time.time() - t > 60:
                d = [l for l in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
                print("##", s, q, ks, round(time.time() - t, 1))
                print("   ", "\n    ".join(d[:40]))
                for r in rs.values():
                    if r.note:
                        print("     note", r.note[:300])
                    for x in r.diffs[:3]:
                        print("      ", "DEF" if x.level == 2 else "und", x.text()[:900])
                sys.stdout.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(dict(stat), round(time.time() - t0))
    print(sorted(bykind.items()))


main()
