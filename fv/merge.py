"""Source transformation applied to the analysed modules before symbolic execution.

`if` statements, conditional expressions and and/or/not whose condition turns out to be symbolic
are evaluated as guarded assignments (one merged state) instead of one path per outcome, when their
branches hold only assignments without divisions, calls with effects or jumps.  With a concrete
condition the code runs exactly as written.  A value that cannot be merged decides the guard, i.e.
falls back to one path per outcome.
"""
import ast
import builtins
import importlib.machinery
import importlib.abc

import numpy as np

from . import symnp
from .sym import Sym, SymBool, Cases, ite, land, lor, lnot, tobool

PURE = {"abs", "max", "min", "float", "len", "range", "maximum", "minimum", "fabs", "arange", "absolute", "square", "negative"}


class UNDEF:
    pass


# ---------------------------------------------------------------- run time
def _eager():
    return symnp.sym_eager()


def _symbolic(c):
    if isinstance(c, np.ndarray) and c.size == 1 and c.dtype == object:
        c = symnp.base(c).ravel()[0]
    if isinstance(c, (Sym, Cases)):
        c = tobool(c)
    return c if isinstance(c, SymBool) and not _eager() else None


def test(c):
    """(symbolic?, guard or truth value)"""
    s = _symbolic(c)
    return (True, s) if s is not None else (False, bool(c))


def _numlike(x):
    return isinstance(x, (int, float, np.number, Sym, Cases, SymBool, bool, np.bool_))


def sel(g, new, old):
    """value of a variable after `if g: variable = new`"""
    if old is UNDEF:
        return new
    if new is old:
        return old
    if isinstance(new, np.ndarray) or isinstance(old, np.ndarray):
        if np.shape(new) == np.shape(old):
            return symnp.o_where(g, new, old)
        return new if bool(g) else old
    if _numlike(new) and _numlike(old):
        if isinstance(new, (SymBool, bool, np.bool_)) and isinstance(old, (SymBool, bool, np.bool_)):
            return lor(land(g, new), land(lnot(g), old))
        return ite(g, symnp._num(new), symnp._num(old))
    return new if bool(g) else old


def put(g, obj, ix, new):
    """if g: obj[ix] = new"""
    if not isinstance(obj, np.ndarray):
        obj[ix] = sel(g, new, obj[ix])
        return
    old = obj[ix]
    if isinstance(old, symnp.MaskedSel):
        if bool(g):
            obj[ix] = new
        return
    new = np.broadcast_to(symnp.base(new), np.shape(old))
    if obj.dtype != object:
        if bool(g):
            obj[ix] = symnp.concrete(new)[()]
        return
    obj[ix] = symnp.o_where(g, new[()], old)


def neg(g):
    return lnot(g)


def both(a, b):
    return land(a, b)


def and_(*fs):
    r = True
    for i, f in enumerate(fs):
        v = f()
        s = _symbolic(v)
        if s is None:
            if r is True:
                if not v:
                    return v
                if i == len(fs) - 1:
                    return v
                continue
            if not v:
                return False
            continue
        r = s if r is True else land(r, s)
    return r


def or_(*fs):
    r = False
    for i, f in enumerate(fs):
        v = f()
        s = _symbolic(v)
        if s is None:
            if r is False:
                if v:
                    return v
                if i == len(fs) - 1:
                    return v
                continue
            if v:
                return True
            continue
        r = s if r is False else lor(r, s)
    return r


def not_(v):
    s = _symbolic(v)
    return lnot(s) if s is not None else not v


def ifexp(c, a, b):
    s = _symbolic(c)
    if s is None:
        return a() if c else b()
    x, y = a(), b()
    return sel(s, x, y)


def _fold(f, real):
    def g(*a, **k):
        if k or _eager():
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(x, (Sym, Cases)) for x in xs):
            return real(xs) if xs else real(*a)
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r
    return g


NAMES = {"_fvm_test": test, "_fvm_sel": sel, "_fvm_put": put, "_fvm_neg": neg, "_fvm_both": both, "_fvm_and": and_, "_fvm_or": or_,
         "_fvm_not": not_, "_fvm_ifexp": ifexp, "_fvm_undef": UNDEF,
         "max": _fold(symnp.s_max, builtins.max), "min": _fold(symnp.s_min, builtins.min)}


# ---------------------------------------------------------------- which code may be merged
def pure(e):
    """no division, no call but to a few pure functions, nothing that binds names"""
    for n in ast.walk(e):
        if isinstance(n, (ast.Div, ast.FloorDiv, ast.Mod, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Lambda,
                          ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.JoinedStr, ast.Starred)):
            return False
        if isinstance(n, ast.Pow):
            return False
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if name not in PURE:
                return False
    return True


def mergeable(body):
    for s in body:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1 or not isinstance(s.targets[0], (ast.Name, ast.Subscript)) or not pure(s.value) or not pure(s.targets[0]):
                return False
        elif isinstance(s, ast.AugAssign):
            if not isinstance(s.target, (ast.Name, ast.Subscript)) or not pure(s.value) or not pure(s.target) \
                    or not isinstance(s.op, (ast.Add, ast.Sub, ast.Mult)):
                return False
        elif isinstance(s, ast.If):
            if not pure(s.test) or not mergeable(s.body) or not mergeable(s.orelse):
                return False
        elif isinstance(s, ast.For):
            if s.orelse or not pure(s.iter) or not isinstance(s.target, ast.Name) or not mergeable(s.body):
                return False
        else:
            return False
    return True


def has_continue(s):
    if isinstance(s, ast.Continue):
        return True
    if isinstance(s, ast.If):
        return any(has_continue(x) for x in s.body + s.orelse)
    return False


def one_return(b):
    return len(b) == 1 and isinstance(b[0], ast.Return) and b[0].value is not None and pure(b[0].value)


def C(name, *args):
    return ast.Call(ast.Name(name, ast.Load()), list(args), [])


def lam(e):
    return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.depth = 0

    def fresh(self, w):
        self.n += 1
        return "_fvm_%s%d" % (w, self.n)

    # ----- jumps out of loop bodies become the other branch
    def _continues(self, body):
        import copy
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.Continue):
                return out or [ast.Pass()]
            if isinstance(s, ast.If) and has_continue(s):
                rest = body[i + 1:]
                yes = self._continues(s.body + copy.deepcopy(rest))
                no = self._continues(s.orelse + copy.deepcopy(rest))
                out.append(ast.If(s.test, yes or [ast.Pass()], no))
                return out
            out.append(s)
        return out

    def _returns(self, body):
        """if c: return a / return b  ->  return a if c else b"""
        while len(body) >= 1:
            s = body[-1]
            if isinstance(s, ast.If) and one_return(s.body) and one_return(s.orelse):
                body = body[:-1] + [ast.Return(ast.IfExp(s.test, s.body[-1].value, s.orelse[-1].value))]
                continue
            if len(body) >= 2 and one_return([s]) and isinstance(body[-2], ast.If) and one_return(body[-2].body) \
                    and (not body[-2].orelse):
                p = body[-2]
                body = body[:-2] + [ast.Return(ast.IfExp(p.test, p.body[-1].value, s.value))]
                continue
            if len(body) >= 2 and one_return([s]) and isinstance(body[-2], ast.If) and one_return(body[-2].body) \
                    and len(body[-2].orelse) == 1 and isinstance(body[-2].orelse[0], ast.If):
                p = body[-2]
                e = self._returns(p.orelse + [s])
                if one_return(e) and len(e) == 1:
                    body = body[:-2] + [ast.Return(ast.IfExp(p.test, p.body[-1].value, e[0].value))]
                    continue
            return body
        return body

    def visit_For(self, n):
        if not n.orelse:
            b = self._continues(n.body)
            if b is not n.body:
                n.body = [ast.fix_missing_locations(ast.copy_location(x, n)) for x in b]
        self.generic_visit(n)
        return n

    def visit_FunctionDef(self, n):
        self.depth += 1
        n.body = [ast.fix_missing_locations(ast.copy_location(x, n)) if not hasattr(x, "lineno") else ast.fix_missing_locations(x)
                  for x in self._returns(n.body)]
        self.generic_visit(n)
        self.depth -= 1
        return n

    def guarded(self, body, g):
        """statements of body under the guard held in variable g"""
        out = []
        L = lambda: ast.Name(g, ast.Load())
        for s in body:
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                t = s.targets[0] if isinstance(s, ast.Assign) else s.target
                v = self.visit(s.value)
                if isinstance(t, ast.Name):
                    old = ast.Name(t.id, ast.Load())
                    if isinstance(s, ast.AugAssign):
                        v = ast.BinOp(old, s.op, v)
                        out.append(ast.Assign([t], C("_fvm_sel", L(), v, ast.Name(t.id, ast.Load()))))
                    else:
                        # the variable may not exist yet
                        o = self.fresh("o")
                        out.append(ast.Try([ast.Assign([ast.Name(o, ast.Store())], ast.Name(t.id, ast.Load()))],
                                           [ast.ExceptHandler(ast.Name("NameError", ast.Load()), None,
                                                              [ast.Assign([ast.Name(o, ast.Store())], ast.Name("_fvm_undef", ast.Load()))])], [], []))
                        out.append(ast.Assign([t], C("_fvm_sel", L(), v, ast.Name(o, ast.Load()))))
                else:
                    o, k = self.fresh("a"), self.fresh("k")
                    ix = t.slice
                    if isinstance(s, ast.AugAssign):
                        pre = [ast.Assign([ast.Name(o, ast.Store())], t.value), ast.Assign([ast.Name(k, ast.Store())], as_index(ix))]
                        out += pre
                        cur = ast.Subscript(ast.Name(o, ast.Load()), ast.Name(k, ast.Load()), ast.Load())
                        v = ast.BinOp(cur, s.op, v)
                        out.append(ast.Expr(C("_fvm_put", L(), ast.Name(o, ast.Load()), ast.Name(k, ast.Load()), v)))
                    else:
                        out.append(ast.Expr(C("_fvm_put", L(), t.value, as_index(ix), v)))
            elif isinstance(s, ast.If):
                q, h, e = self.fresh("s"), self.fresh("g"), self.fresh("g")
                out.append(ast.Assign([ast.Tuple([ast.Name(q, ast.Store()), ast.Name(h, ast.Store())], ast.Store())], C("_fvm_test", self.visit(s.test))))
                out.append(ast.Assign([ast.Name(e, ast.Store())], C("_fvm_both", L(), C("_fvm_neg", ast.Name(h, ast.Load())))))
                out.append(ast.Assign([ast.Name(h, ast.Store())], C("_fvm_both", L(), ast.Name(h, ast.Load()))))
                for name, b in ((h, s.body), (e, s.orelse)):
                    bb = self.guarded(b, name)
                    if bb:
                        out.append(ast.If(ast.Compare(ast.Name(name, ast.Load()), [ast.IsNot()], [ast.Constant(False)]), bb, []))
            elif isinstance(s, ast.For):
                bb = self.guarded(s.body, g)
                out.append(ast.For(s.target, self.visit(s.iter), bb or [ast.Pass()], []))
        return out

    def visit_If(self, n):
        if self.depth and pure(n.test) and mergeable(n.body) and mergeable(n.orelse):
            import copy
            q, g, e = self.fresh("s"), self.fresh("g"), self.fresh("g")
            orig = copy.deepcopy(n)
            head = ast.Assign([ast.Tuple([ast.Name(q, ast.Store()), ast.Name(g, ast.Store())], ast.Store())], C("_fvm_test", self.visit(copy.deepcopy(n.test))))
            sym_body = self.guarded(copy.deepcopy(n.body), g)
            if n.orelse:
                sym_body.append(ast.Assign([ast.Name(e, ast.Store())], C("_fvm_neg", ast.Name(g, ast.Load()))))
                sym_body += self.guarded(copy.deepcopy(n.orelse), e)
            body = [self.visit(x) for x in orig.body]
            orelse = [self.visit(x) for x in orig.orelse]
            flat = lambda xs: [z for y in xs for z in (y if isinstance(y, list) else [y])]
            inner = ast.If(ast.Name(g, ast.Load()), flat(body), flat(orelse))
            new = [head, ast.If(ast.Name(q, ast.Load()), sym_body or [ast.Pass()], [inner])]
            return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in new]
        self.generic_visit(n)
        return n

    def visit_IfExp(self, n):
        ok = self.depth and pure(n.body) and pure(n.orelse) and pure(n.test)
        self.generic_visit(n)
        return ast.copy_location(C("_fvm_ifexp", n.test, lam(n.body), lam(n.orelse)), n) if ok else n

    def visit_BoolOp(self, n):
        ok = self.depth and all(pure(x) for x in n.values)
        self.generic_visit(n)
        return ast.copy_location(C("_fvm_and" if isinstance(n.op, ast.And) else "_fvm_or", *[lam(x) for x in n.values]), n) if ok else n

    def visit_UnaryOp(self, n):
        ok = self.depth and isinstance(n.op, ast.Not) and pure(n.operand)
        self.generic_visit(n)
        return ast.copy_location(C("_fvm_not", n.operand), n) if ok else n

    def visit_Compare(self, n):
        ok = self.depth and len(n.ops) > 1 and pure(n)
        self.generic_visit(n)
        if not ok:
            return n
        xs = [n.left] + n.comparators
        import copy
        parts = [ast.Compare(copy.deepcopy(xs[i]), [n.ops[i]], [copy.deepcopy(xs[i + 1])]) for i in range(len(n.ops))]
        return ast.copy_location(C("_fvm_and", *[lam(x) for x in parts]), n)


def as_index(ix):
    """an index expression as a value (slices become slice objects)"""
    if isinstance(ix, ast.Slice):
        none = lambda x: x if x is not None else ast.Constant(None)
        return C("slice", none(ix.lower), none(ix.upper), none(ix.step))
    if isinstance(ix, ast.Tuple):
        return ast.Tuple([as_index(x) for x in ix.elts], ast.Load())
    return ix


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        tree = ast.fix_missing_locations(Tr().visit(tree))
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        for k, v in NAMES.items():
            module.__dict__[k] = v
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "falwa" and not fullname.startswith("falwa."):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec
