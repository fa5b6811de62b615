"""Symbolic interpreter for gfortran's GIMPLE control-flow-graph dumps.

The dump is regenerated from /repo's current Fortran source on every run:
  gfortran -O0 -fdefault-real-8 -fcheck=bounds -fdump-tree-cfg
Each basic block is translated to Python; integers are concrete (or guarded cases), reals are
floats or symbolic polynomials, symbolic branches are merged at the immediate postdominator.
-fcheck=bounds makes every subscript check an explicit branch: reaching one of the error blocks
is recorded as an obligation (it must be impossible).
"""
import math
import os
import re
import subprocess
import sys

from . import sym
from .sym import Sym, SymBool, Cases, Unsupported, fdiv, ite, land, lor, lnot, tobool, fn

sys.setrecursionlimit(100000)


class Uninit:
    """an unassigned memory cell (reads become fresh unconstrained symbols)"""
    n = 0


UNINIT = Uninit()


class Buf:
    __slots__ = ("d", "name", "journal")

    def __init__(self, data, name="?"):
        self.d = data
        self.name = name


class Ptr:
    __slots__ = ("buf", "off")

    def __init__(self, buf, off=0):
        self.buf, self.off = buf, off


class Lazy:
    """malloc'ed memory of unknown element count: grows on demand"""


class Ref:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Interp:
    def __init__(self):
        self.journal = []        # stack of dicts (id(buf), idx) -> (buf, old)
        self.guard = []          # path condition stack
        self.oob = []            # (msg, SymBool | True)
        self.uninit_reads = []   # names
        self.fork = False
        self.strict = False      # storage assigned on one side of a branch only holds an arbitrary value on the other
        self.poison = ""
        self.steps = 0
        self.depth = 0
        self.functions_run = set()

    # ---- memory
    def fresh(self, name):
        Uninit.n += 1
        self.uninit_reads.append(name)
        return sym.var("uninit%s_%s_%d" % (self.poison, name, Uninit.n), -1e3, 1e3)

    def ld(self, p, i):
        if type(i) is int:
            d = p.buf.d
            k = p.off + i
            if 0 <= k < len(d):
                v = d[k]
                if v is UNINIT:
                    v = d[k] = self.fresh(p.buf.name)
                return v
            self.bad("read outside storage of " + p.buf.name, True)
            return self.fresh("oob")
        if isinstance(i, Cases):
            vals = []
            for v, g in zip(i.vals, i.guards):
                k = p.off + v
                if 0 <= k < len(p.buf.d):
                    x = p.buf.d[k]
                    vals.append(x if x is not UNINIT else self.fresh(p.buf.name))
                else:
                    self.bad("read outside storage of " + p.buf.name, g)
                    vals.append(0.0)
            return Cases(i.guards, vals)
        raise Unsupported("index of type %s" % type(i).__name__)

    def st(self, p, i, v):
        if type(i) is int:
            k = p.off + i
            d = p.buf.d
            if not 0 <= k < len(d):
                self.bad("write outside storage of " + p.buf.name, True)
                return
            if isinstance(v, Cases):
                v = v.flat()
            if self.journal:
                self.journal[-1].setdefault((id(p.buf), k), (p.buf, d[k]))
            d[k] = v
            return
        if isinstance(i, Cases):
            same = isinstance(v, Cases) and v.guards is i.guards
            if isinstance(v, Cases) and not same:
                v = v.flat()
            for n, (g, k) in enumerate(zip(i.guards, i.vals)):
                new = v.vals[n] if same else v
                k = p.off + k
                d = p.buf.d
                if not 0 <= k < len(d):
                    self.bad("write outside storage of " + p.buf.name, g)
                    continue
                old = d[k]
                if old is UNINIT:
                    old = self.fresh(p.buf.name)
                if self.journal:
                    self.journal[-1].setdefault((id(p.buf), k), (p.buf, d[k]))
                d[k] = ite(g, new, old)
            return
        raise Unsupported("index of type %s" % type(i).__name__)

    def pathcond(self):
        g = True
        for x in self.guard:
            g = land(g, x)
        return g

    def bad(self, msg, cond):
        g = land(self.pathcond(), cond)
        if g is not False:
            self.oob.append((msg, g))

    # ---- operators
    @staticmethod
    def div(a, b):
        if type(a) is int and type(b) is int:
            q = abs(a) // abs(b)
            return q if (a >= 0) == (b >= 0) else -q
        if isinstance(a, Cases) and type(b) is int and all(type(v) is int for v in a.vals):
            return sym.group(a.guards, [Interp.div(v, b) for v in a.vals])
        return fdiv(a, b)

    @staticmethod
    def mod(a, b):
        if isinstance(a, Cases):
            return sym.group(a.guards, [Interp.mod(v, b) for v in a.vals])
        return int(math.fmod(a, b))

    @staticmethod
    def inv(a):
        if isinstance(a, bool):
            return not a
        if isinstance(a, SymBool):
            return lnot(a)
        if isinstance(a, Cases):
            return a.map(lambda v: ~v)
        return ~a

    @staticmethod
    def flt(a):
        if isinstance(a, int):
            return float(a)
        if isinstance(a, Cases):
            return a.map(float) if all(isinstance(v, int) for v in a.vals) else a
        return a

    @staticmethod
    def toint(a):
        if isinstance(a, (int, bool)):
            return int(a)
        if isinstance(a, SymBool):
            return Cases([a, lnot(a)], [1, 0])
        if isinstance(a, Cases):
            return sym.trunc_int(a)
        if isinstance(a, Sym):
            return sym.trunc_int(a)
        if a != a or abs(a) == math.inf:
            raise NonFinite("conversion of a non-finite value to an integer")
        return int(a)

    @staticmethod
    def mx(a, b):
        if isinstance(a, Cases) and isinstance(b, int):
            return sym.group(a.guards, [max(v, b) for v in a.vals])
        return sym.smax(a, b)

    @staticmethod
    def mn(a, b):
        if isinstance(a, Cases) and isinstance(b, int):
            return sym.group(a.guards, [min(v, b) for v in a.vals])
        return sym.smin(a, b)

    @staticmethod
    def powi(a, n):
        r = 1.0 if not isinstance(a, int) else 1
        for _ in range(abs(n)):
            r = r * a
        return fdiv(1.0, r) if n < 0 else r

    @staticmethod
    def f1(name, x):
        if isinstance(x, Cases):
            return x.map(lambda v: Interp.f1(name, v))
        if isinstance(x, Sym):
            return fn({"acos": "acos"}.get(name, name), x) if name != "acos" else math.pi / 2 - fn("asin", x)
        try:
            return getattr(math, name)(x)
        except (ValueError, OverflowError):
            return math.nan

    @staticmethod
    def sel(c, a, b):
        return ite(c, a, b) if isinstance(tobool(c), SymBool) else (a if c else b)


class NonFinite(Exception):
    pass


BUILTIN1 = {"sin", "cos", "tan", "exp", "log", "sqrt", "asin", "acos", "atan", "floor", "ceil", "sinh", "cosh", "tanh"}
TYPE = r"(?:integer\(kind=\d+\)|real\(kind=\d+\)|logical\(kind=\d+\)|sizetype|bitsizetype|unsigned [a-z ]+|long int|int|void)"


class Function:
    pass


def _strip_types(s):
    """remove pointer casts such as (real(kind=8)[0:D.1] * restrict)"""
    return s


TOK = re.compile(r"""
   (?P<num>(?:\d+\.\d*(?:e[+-]?\d+)?|\d+e[+-]?\d+|\d+))(?![A-Za-z_])
 | (?P<name>[A-Za-z_][A-Za-z_0-9]*(?:[.:$][A-Za-z0-9_]+)*|_\d+|D\.\d+)
 | (?P<op><=|>=|==|!=|->|<<|>>|[-+*/%&|^~()<>\[\],!?:{}"=])
""", re.X)


class Translator:
    def __init__(self, funcs_by_name):
        self.funcs = funcs_by_name

    def translate(self, f):
        self.f = f
        self.reg = {}
        blocks = {}
        for n, lines in f.blocks.items():
            blocks[n] = self.block(n, lines)
        src = []
        for n, code in blocks.items():
            src.append("def bb%d(I, R):\n" % n + "".join("    " + l + "\n" for l in code))
        env = {"math": math, "fn": fn, "Ptr": Ptr, "Ref": Ref, "Buf": Buf, "UNINIT": UNINIT, "Interp": Interp, "RUN": self.run_call,
               "NEWBUF": lambda n, name: Ptr(Buf([UNINIT] * n, name)), "inf": math.inf, "nan": math.nan}
        text = "".join(src)
        exec(compile(text, "<gimple:%s>" % f.name, "exec"), env)
        f.code = {n: env["bb%d" % n] for n in blocks}
        f.pysrc = text
        f.reg = self.reg
        f.nreg = len(self.reg)
        f.name_of = {i: nm for nm, i in self.reg.items()}
        self.analyse(f)
        return f

    def run_call(self, I, name, args):
        return call(I, self.funcs[name], args)

    # -- registers
    def r(self, name):
        if name not in self.reg:
            self.reg[name] = len(self.reg)
        return "R[%d]" % self.reg[name]

    def lval_is_mem(self, name):
        return name in self.f.addr

    # -- operand / expression
    def operand(self, t):
        t = t.strip()
        if not t:
            raise Unsupported("empty operand")
        # strip redundant parens "((x))"
        while t.startswith("(") and t.endswith(")") and self._match(t):
            t = t[1:-1].strip()
        m = re.fullmatch(r"\((%s)\) (.+)" % TYPE, t)
        if m:
            return self.cast(m.group(1), self.operand(m.group(2)))
        if re.fullmatch(r"-?\d+", t):
            return t
        if re.fullmatch(r"-?(\d+\.\d*|\d+)(e[+-]?\d+)?", t):
            return repr(float(t))
        if t in ("-Inf", "-+Inf"):
            return "-inf"
        if t in ("+Inf", "Inf"):
            return "inf"
        if t.lower() in ("nan", "+qnan", "+nan", "-qnan", "-nan"):
            return "nan"
        m = re.fullmatch(r"\(\*(\S+?)\)\[(.+)\]", t)
        if m:
            return "I.ld(%s, %s)" % (self.name(m.group(1)), self.operand(m.group(2)))
        m = re.fullmatch(r"\*([\w.$>-]+)", t)
        if m:
            return "%s.v" % self.name(m.group(1)) if not self.is_arr(m.group(1)) else "I.ld(%s, 0)" % self.name(m.group(1))
        m = re.fullmatch(r"&\(\*(\S+?)\)\[(.+)\]", t)
        if m:
            return "Ptr(%s.buf, %s.off + %s)" % (self.name(m.group(1)), self.name(m.group(1)), self.operand(m.group(2)))
        m = re.fullmatch(r"&([\w.$]+)\[(.+)\]", t)
        if m:
            return "Ptr(%s.buf, %s.off + %s)" % (self.name(m.group(1)), self.name(m.group(1)), self.operand(m.group(2)))
        m = re.fullmatch(r"([\w.$]+)\[(.+)\]", t)
        if m:
            return "I.ld(%s, %s)" % (self.name(m.group(1)), self.operand(m.group(2)))
        m = re.fullmatch(r"&([\w.$]+)", t)
        if m:
            nm = m.group(1)
            if nm in self.f.localarr:
                return self.name(nm)
            m2 = re.fullmatch(r"%s\.v" % "", "")
            return self.cell(nm)
        m = re.fullmatch(r"-([\w.$]+)", t)
        if m:
            return "(-%s)" % self.operand(m.group(1))
        if re.fullmatch(r"[\w.$]+(->[\w.$]+)*", t):
            return self.val(t)
        raise Unsupported("operand: " + t)

    def is_arr(self, nm):
        ty = self.f.types.get(nm, "")
        return "[" in ty and "*" in ty

    def cell(self, nm):
        return self.r(nm)

    def name(self, nm):
        """the pointer/array/reference held by nm"""
        return self.val(nm)

    def val(self, nm):
        m = re.fullmatch(r"(CHAIN[\w.$]*)->(.+)", nm)
        if m:
            fld = m.group(2).replace("->", ".")
            return "%s[%r].v" % (self.r(m.group(1)), fld)
        m = re.fullmatch(r"(FRAME\.\d+)\.(.+)", nm)
        if m:
            return "%s[%r].v" % (self.r(m.group(1)), m.group(2))
        if nm in self.f.addr:
            return self.r(nm) + ".v"
        return self.r(nm)

    @staticmethod
    def _match(t):
        d = 0
        for i, c in enumerate(t):
            d += c == "("
            d -= c == ")"
            if d == 0 and i < len(t) - 1:
                return False
        return True

    def cast(self, ty, x):
        if ty.startswith("real"):
            return "I.flt(%s)" % x
        if ty.startswith("logical"):
            return x
        if re.fullmatch(r"-?\d+", x):
            return x
        return "I.toint(%s)" % x

    def rhs(self, t):
        t = t.strip()
        m = re.fullmatch(r"\((%s)\) (.+)" % TYPE, t)
        if m and self._simple(m.group(2)):
            return self.cast(m.group(1), self.operand(m.group(2)))
        # pointer casts
        m = re.fullmatch(r"\([^()]*(?:\(kind=\d+\))?[^()]*\*[^()]*\) (.+)", t)
        if m and self._simple(m.group(1)):
            return self.operand(m.group(1))
        m = re.fullmatch(r"(MAX_EXPR|MIN_EXPR) <(.+), (.+)>", t)
        if m:
            return "I.%s(%s, %s)" % ("mx" if m.group(1) == "MAX_EXPR" else "mn", self.operand(m.group(2)), self.operand(m.group(3)))
        m = re.fullmatch(r"ABS_EXPR <(.+)>", t)
        if m:
            return "abs(%s)" % self.operand(m.group(1))
        m = re.fullmatch(r"(.+) \? (.+) : (.+)", t)
        if m:
            return "I.sel(%s, %s, %s)" % (self.rhs(m.group(1)), self.operand(m.group(2)), self.operand(m.group(3)))
        m = re.fullmatch(r"([\w.]+) \((.*)\)", t)
        if m and not t.startswith("("):
            return self.callexpr(m.group(1), m.group(2))
        if self._simple(t):
            return self.operand(t)
        # binary
        m = re.fullmatch(r"(.+?) (\+|-|\*|/|%|<=|>=|==|!=|<|>|&|\||\^|<<|>>) (.+)", t)
        if m:
            a, op, b = self.operand(m.group(1)), m.group(2), self.operand(m.group(3))
            if op == "/":
                return "I.div(%s, %s)" % (a, b)
            if op == "%":
                return "I.mod(%s, %s)" % (a, b)
            return "(%s %s %s)" % (a, op, b)
        m = re.fullmatch(r"~(.+)", t)
        if m:
            return "I.inv(%s)" % self.operand(m.group(1))
        m = re.fullmatch(r"!(.+)", t)
        if m:
            return "I.inv(%s)" % self.operand(m.group(1))
        m = re.fullmatch(r"-(.+)", t)
        if m:
            return "(-%s)" % self.operand(m.group(1))
        raise Unsupported("rhs: " + t)

    def _simple(self, t):
        t = t.strip()
        if t.startswith("(*"):
            return re.fullmatch(r"\(\*[^()]+\)\[[^\[\]]+\]", t) is not None
        if t.startswith("(") and t.endswith(")") and self._match(t):
            return True
        return re.fullmatch(r"[-&*]?[\w.$+>-]+(\[[^\[\]]+\])?|&\(\*[^()]+\)\[[^\[\]]+\]|-?\d+(\.\d*)?(e[+-]?\d+)?|[+-]?(Inf|QNaN|NaN)", t) is not None

    def callexpr(self, fname, args):
        al = self.splitargs(args)
        if fname.startswith("__builtin_"):
            b = fname[len("__builtin_"):]
            if b in BUILTIN1:
                return "I.f1(%r, %s)" % (b, self.operand(al[0]))
            if b in ("fabs", "abs"):
                return "abs(%s)" % self.operand(al[0])
            if b == "powi":
                return "I.powi(%s, %s)" % (self.operand(al[0]), self.operand(al[1]))
            if b == "pow":
                return "POWR(%s, %s)" % (self.operand(al[0]), self.operand(al[1]))
            if b == "malloc":
                return "MALLOC()"
            if b in ("free", "stack_restore"):
                return "None"
            if b in ("expect",):
                return self.operand(al[0])
            if b == "copysign":
                return "abs(%s)*(1.0 if %s >= 0 else -1.0)" % (self.operand(al[0]), self.operand(al[1]))
        if fname in self.funcs:
            chain = None
            if al and "[static-chain:" in al[-1]:
                m = re.search(r"\[static-chain: &?([\w.]+)\]", al[-1])
                chain = m.group(1)
                al[-1] = al[-1][:al[-1].index("[static-chain")].strip()
                if not al[-1]:
                    al.pop()
            ar = [self.operand(a) for a in al]
            ch = ", %s" % self.r(chain) if chain else ""
            return "CALL(I, %r, [%s]%s)" % (fname, ", ".join(ar), ch)
        raise Unsupported("call of " + fname)

    @staticmethod
    def splitargs(s):
        out, d, cur, q = [], 0, "", False
        i = 0
        while i < len(s):
            c = s[i]
            if c == '"' and (i == 0 or s[i - 1] != "\\"):
                q = not q
            if not q:
                if c in "([{<" and not (c == "<" and s[i:i + 2] in ("< ", "<=")):
                    d += 1
                elif c in ")]}>" and not (c == ">" and (s[i - 1] == "-" or s[i:i + 2] in ("> ", ">="))):
                    d -= 1
                elif c == "," and d == 0:
                    out.append(cur.strip()); cur = ""
                    i += 1
                    continue
            cur += c
            i += 1
        if cur.strip():
            out.append(cur.strip())
        return out

    # -- blocks
    def block(self, n, lines):
        code = []
        i = 0
        term = None
        while i < len(lines):
            l = lines[i].strip()
            i += 1
            if not l or l.endswith(":") and l.startswith("<"):
                continue
            if l.startswith("if "):
                cond = re.fullmatch(r"if \((.+)\)", l).group(1)
                t = int(re.search(r"<bb (\d+)>", lines[i]).group(1))
                e = int(re.search(r"<bb (\d+)>", lines[i + 2]).group(1))
                i += 3
                c = self.rhs(cond)
                if t in self.f.noreturn:
                    code.append("c = %s" % c)
                    code.append("if c is not False: I.oobcheck(c, %r)" % self.f.noreturn[t])
                    code.append("return %d" % e)
                elif e in self.f.noreturn:
                    code.append("c = I.inv(%s)" % c)
                    code.append("if c is not False: I.oobcheck(c, %r)" % self.f.noreturn[e])
                    code.append("return %d" % t)
                else:
                    code.append("c = %s" % c)
                    code.append("if c is True: return %d" % t)
                    code.append("if c is False: return %d" % e)
                    code.append("return (c, %d, %d)" % (t, e))
                term = (t, e)
                break
            m = re.match(r"goto <bb (\d+)>", l)
            if m:
                code.append("return %d" % int(m.group(1)))
                term = (int(m.group(1)),)
                break
            if re.match(r"return\b", l):
                m = re.match(r"return ([^;]+);", l)
                code.append("R[-1] = %s" % self.operand(m.group(1)) if m else "pass")
                code.append("return -1")
                term = ()
                break
            if l.startswith("switch "):
                m = re.match(r"switch \((.+?)\) <(.+)>", l)
                raise Unsupported("switch")
            s = self.stmt(l)
            if s:
                code.extend(s)
        if term is None:
            if n in self.f.noreturn:
                code.append("raise RuntimeError(%r)" % self.f.noreturn[n])
                term = ()
            else:
                nxt = self.f.order[self.f.order.index(n) + 1] if n != self.f.order[-1] else -1
                code.append("return %d" % nxt)
                term = (nxt,) if nxt != -1 else ()
        self.f.succ[n] = term
        return code or ["pass"]

    def stmt(self, l):
        l = l.rstrip(";").strip()
        l = re.sub(r" \[(INV|return slot optimization|tail call)\];?", "", l)
        if l.startswith("_gfortran_st_") or l.startswith("_gfortran_transfer") or l.startswith("dt_parm") or "CLOBBER" in l \
                or l.startswith("__builtin_free") or l.startswith("# ") or l.startswith("_gfortran_set_") or "dt_parm" in l:
            return []
        if l.startswith("_gfortran_runtime_error") or l.startswith("_gfortran_os_error"):
            return []
        m = re.match(r"([^=]+?) = (.+)$", l)
        if m and not re.match(r"[\w.]+ \(", l):
            lhs, rhs = m.group(1).strip(), m.group(2).strip()
            m2 = re.fullmatch(r"\{\}", rhs)
            if m2:
                return ["pass"]
            return self.assign(lhs, self.rhs(rhs))
        m = re.fullmatch(r"([\w.]+) \((.*)\)", l)
        if m:
            return [self.callexpr(m.group(1), m.group(2))]
        raise Unsupported("statement: " + l)

    def assign(self, lhs, x):
        m = re.fullmatch(r"\(\*(\S+?)\)\[(.+)\]", lhs)
        if m:
            return ["I.st(%s, %s, %s)" % (self.name(m.group(1)), self.operand(m.group(2)), x)]
        m = re.fullmatch(r"\*([\w.$>-]+)", lhs)
        if m:
            if self.is_arr(m.group(1)):
                return ["I.st(%s, 0, %s)" % (self.name(m.group(1)), x)]
            return ["I.stref(%s, %s)" % (self.name(m.group(1)), x)]
        m = re.fullmatch(r"([\w.$]+)\[(.+)\]", lhs)
        if m:
            return ["I.st(%s, %s, %s)" % (self.name(m.group(1)), self.operand(m.group(2)), x)]
        if re.fullmatch(r"[\w.$]+(->[\w.$]+)*", lhs):
            if lhs in self.f.addr:
                return ["I.stref(%s, %s)" % (self.r(lhs), x)]
            m = re.fullmatch(r"(CHAIN[\w.$]*)->(.+)", lhs)
            if m:
                return ["I.stref(FIELD(%s, %r), %s)" % (self.r(m.group(1)), m.group(2), x)]
            m = re.fullmatch(r"(FRAME\.\d+)\.(.+)", lhs)
            if m:
                return ["I.stref(FIELD(%s, %r), %s)" % (self.r(m.group(1)), m.group(2), x)]
            return ["%s = %s" % (self.r(lhs), x)]
        raise Unsupported("lhs: " + lhs)

    # -- dominators and liveness
    def analyse(self, f):
        EXIT = -1
        succ = {n: [s for s in (f.succ[n] or (EXIT,)) if s not in f.noreturn] or [EXIT] for n in f.blocks if n not in f.noreturn}
        nodes = list(succ)
        # iterative postdominator sets via reverse post order (Cooper-Harvey-Kennedy on the reverse graph)
        pred = {n: [] for n in nodes}
        pred[EXIT] = []
        for n in nodes:
            for s in succ[n]:
                pred[s].append(n)
        order, seen = [], set()
        stack = [(EXIT, iter(pred[EXIT]))]
        seen.add(EXIT)
        while stack:
            n, it = stack[-1]
            for p in it:
                if p not in seen:
                    seen.add(p)
                    stack.append((p, iter(pred[p])))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        num = {n: i for i, n in enumerate(rpo)}
        ip = {EXIT: EXIT}
        changed = True
        while changed:
            changed = False
            for n in rpo:
                if n == EXIT:
                    continue
                new = None
                for s in succ[n]:
                    if s in ip:
                        if new is None:
                            new = s
                        else:
                            a, b = s, new
                            while a != b:
                                while num[a] > num[b]:
                                    a = ip[a]
                                while num[b] > num[a]:
                                    b = ip[b]
                            new = a
                if new is not None and ip.get(n) != new:
                    ip[n] = new
                    changed = True
        f.ipdom = ip
        # liveness of registers
        use, deff = {}, {}
        for n in nodes:
            u, d = set(), set()
            for line in self._blocksrc(f, n):
                m = re.match(r"R\[(\d+)\] = (.+)$", line)
                rest = m.group(2) if m else line
                for x in re.findall(r"R\[(\d+)\]", rest):
                    if int(x) not in d:
                        u.add(int(x))
                if m:
                    d.add(int(m.group(1)))
            use[n], deff[n] = u, d
        live = {n: set() for n in nodes}
        live[EXIT] = set()
        changed = True
        while changed:
            changed = False
            for n in reversed(nodes):
                out = set()
                for s in succ[n]:
                    out |= live[s]
                new = use[n] | (out - deff[n])
                if new != live[n]:
                    live[n] = new
                    changed = True
        f.live = live

    def _blocksrc(self, f, n):
        if not hasattr(f, "_bs"):
            f._bs = {}
            cur = None
            for line in f.pysrc.split("\n"):
                m = re.match(r"def bb(\d+)", line)
                if m:
                    cur = f._bs.setdefault(int(m.group(1)), [])
                elif cur is not None:
                    cur.append(line.strip())
        return f._bs[n]


def _oobcheck(self, c, msg):
    c = tobool(c)
    if isinstance(c, SymBool) and sym.CTX.explorer is not None and self.fork:
        pass
    if c is not False:
        self.bad(msg, c)


def _stref(self, ref, v):
    if isinstance(ref, Ptr):
        self.st(ref, 0, v)
        return
    if isinstance(v, Cases):
        v = v.flat() if not all(isinstance(x, int) for x in v.vals) else v
    if self.journal:
        self.journal[-1].setdefault((id(ref), 0), (ref, ref.v))
    ref.v = v


Interp.oobcheck = _oobcheck
Interp.stref = _stref


def _field(frame, name):
    c = frame.get(name)
    if c is None:
        c = frame[name] = Ref(UNINIT)
    return c


class Frame(dict):
    def __missing__(self, k):
        self[k] = Ref(UNINIT)
        return self[k]


def parse_dump(text):
    """-> list of Function (untranslated)"""
    funcs = []
    chunks = re.split(r"^;; Function ", text, flags=re.M)[1:]
    for ch in chunks:
        f = Function()
        f.name = re.match(r"([\w.]+)", ch).group(1)
        lines = [l for l in ch.split("\n")[1:] if not l.startswith(";;")]
        body = "\n".join(lines)
        i = body.index("\n{")
        header = body[:i]
        m = re.search(re.escape(f.name) + r" \((.*)\)\s*$", header.strip().split("\n")[-1])
        f.params, f.types = [], {}
        for p in Translator.splitargs(m.group(1)) if m and m.group(1) != "void" else []:
            nm = p.split()[-1]
            f.params.append(nm)
            f.types[nm] = p[:-len(nm)].strip()
        rest = body[i + 2:]
        k = rest.find("<bb ")
        decls = rest[:k]
        f.localarr = {}
        f.addr = set()
        for l in decls.split("\n"):
            l = l.strip().rstrip(";")
            if not l or l.startswith("static") or l.startswith("struct __st"):
                if l.startswith("static"):
                    m = re.match(r"static (.+?) ([\w.$]+)(?: = (.+))?$", l)
                    if m:
                        f.types[m.group(2)] = m.group(1)
                        f.statics = getattr(f, "statics", {})
                        f.statics[m.group(2)] = m.group(3)
                continue
            m = re.match(r"(.+?)\[(\d+)\] ([\w.$]+)$", l) or None
            m2 = re.match(r"(.+[\s*])([\w.$]+)$", l)
            if m:
                f.localarr[m.group(3)] = int(m.group(2))
                f.types[m.group(3)] = l
            elif m2:
                nm = m2.group(2)
                f.types[nm] = m2.group(1).strip()
                m3 = re.match(r"(?:real|integer|logical)\(kind=\d+\)\[(\d+:)?(\d+)\]$", f.types[nm])
                if m3:
                    n = int(m3.group(2)) + (1 if m3.group(1) else 0)
                    f.localarr[nm] = n
        f.blocks, f.order, f.succ, f.noreturn = {}, [], {}, {}
        cur = None
        for l in rest[k:].split("\n"):
            m = re.match(r"\s*<bb (\d+)>.*:", l)
            if m:
                cur = int(m.group(1))
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if l.startswith("}") or cur is None:
                continue
            s = l.strip()
            if s:
                f.blocks[cur].append(s)
        for n, ls in f.blocks.items():
            for s in ls:
                if s.startswith("_gfortran_runtime_error") or s.startswith("_gfortran_os_error") or s.startswith("_gfortran_stop") or s.startswith("_gfortran_error_stop"):
                    m = re.search(r'At line (\d+)', s)
                    m2 = re.search(r'of array \\?\'?(\w+)', s)
                    what = re.findall(r'"((?:[^"\\]|\\.)*)"', s)
                    f.noreturn[n] = "%s line %s: %s" % (f.name, m.group(1) if m else "?", (what[-1] if what else s)[:80].replace("\\'", "'"))
            for a in re.findall(r"&([A-Za-z_][\w.$]*)", "\n".join(x for x in ls if "runtime_error" not in x)):
                if not a.startswith("FRAME") and a not in f.localarr and not a.startswith("dt_parm"):
                    f.addr.add(a)
        funcs.append(f)
    return funcs


def _powr(a, b):
    if isinstance(b, (int, float)) and float(b) == int(b):
        return Interp.powi(a, int(b))
    if isinstance(b, float) and b == 0.5:
        return Interp.f1("sqrt", a)
    if isinstance(a, Sym) or isinstance(b, Sym):
        raise Unsupported("power with symbolic operands")
    return a ** b


class _MallocBuf(list):
    """storage of unknown length, unassigned until written"""


def _malloc():
    return Ptr(Buf(_Growing(), "local"))


class _Growing:
    """list-like storage that is unassigned everywhere"""
    def __init__(self):
        self.m = {}

    def __len__(self):
        return 1 << 40

    def __getitem__(self, k):
        return self.m.get(k, UNINIT)

    def __setitem__(self, k, v):
        self.m[k] = v


def compile_source(path, workdir, extra=()):
    """gfortran -> list of Functions"""
    base = os.path.basename(path)
    for x in os.listdir(workdir):
        if x.startswith(base + ".") and x.endswith(".cfg"):
            os.unlink(os.path.join(workdir, x))
    p = subprocess.run(["gfortran", "-O0", "-fdefault-real-8", "-fdefault-double-8", "-fcheck=bounds", "-c", "-fdump-tree-cfg",
                        "-J", workdir, "-o", os.path.join(workdir, base + ".o"), path] + list(extra),
                       cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
    if p.returncode:
        raise RuntimeError("gfortran failed on %s:\n%s" % (path, p.stdout))
    dumps = [x for x in os.listdir(workdir) if x.endswith(".cfg") and base.split(".")[0] in x]
    dumps = [x for x in dumps if x.startswith(base + ".") or x.startswith(base.split(".")[0] + ".")]
    text = open(os.path.join(workdir, sorted(dumps)[0])).read()
    funcs = parse_dump(text)
    table = {}
    for f in funcs:
        table[f.name] = f
    tr = Translator(table)
    for f in funcs:
        tr.translate(f)
        for g in f.code.values():
            g.__globals__.update(MALLOC=_malloc, POWR=_powr, FIELD=_field,
                                 CALL=lambda I, name, args, chain=None: call(I, table[name], args, chain))
    return table


def call(I, f, args, chain=None):
    """run function f with a list of Ref / Ptr arguments"""
    I.functions_run.add(f.name)
    R = [UNINIT] * (f.nreg + 1)
    for nm, i in f.reg.items():
        if nm in f.addr and nm not in f.params:
            R[i] = Ref(UNINIT)
        if nm in f.localarr:
            R[i] = Ptr(Buf([UNINIT] * f.localarr[nm], nm))
        if nm.startswith("FRAME."):
            R[i] = Frame()
        if nm.startswith("CHAIN"):
            R[i] = chain
    st = getattr(f, "statics", {})
    for nm, init in st.items():
        if nm in f.reg:
            iv = _static_init(init)
            R[f.reg[nm]] = iv if not isinstance(iv, list) else Ptr(Buf(iv, nm))
            if nm in f.addr and not isinstance(iv, list):
                R[f.reg[nm]] = Ref(iv)
    for nm, a in zip(f.params, args):
        if nm in f.reg:
            R[f.reg[nm]] = a if nm not in f.addr else Ref(a)
    run(I, f, R, f.order[0], -1)
    return R[-1]


def _static_init(s):
    if s is None:
        return UNINIT
    s = s.strip()
    if s.startswith("{"):
        return [float(x) if "." in x or "e" in x else int(x) for x in s.strip("{}").split(",")]
    try:
        return float(s) if "." in s or "e" in s else int(s)
    except ValueError:
        return UNINIT


def run(I, f, R, bb, stop):
    code = f.code
    while bb != stop and bb != -1:
        nxt = code[bb](I, R)
        I.steps += 1
        if type(nxt) is tuple:
            bb = branch(I, f, R, bb, *nxt)
        else:
            bb = nxt
    return bb


def branch(I, f, R, bb, c, t, e):
    c = tobool(c) if not isinstance(c, (int,)) else bool(c)
    if c is True:
        return t
    if c is False:
        return e
    if I.fork and sym.CTX.explorer is not None:
        return t if bool(c) else e
    stop = f.ipdom.get(bb, -1)
    I.depth += 1
    if I.depth > 400:
        raise Unsupported("a loop whose exit depends on symbolic values does not end within the bound")
    sym.STATS["merges"] += 1
    R0 = R[:]
    refs0 = None
    I.journal.append({})
    I.guard.append(c)
    run(I, f, R, t, stop)
    J1 = I.journal.pop()
    R1 = R[:]
    W1 = {k: (b, b.d[k[1]] if isinstance(b, Buf) else b.v) for k, (b, old) in J1.items()}
    for k, (b, old) in J1.items():
        if isinstance(b, Buf):
            b.d[k[1]] = old
        else:
            b.v = old
    R[:] = R0
    I.guard[-1] = lnot(c)
    I.journal.append({})
    run(I, f, R, e, stop)
    J2 = I.journal.pop()
    I.guard.pop()
    I.depth -= 1
    # merge memory
    for k in set(J1) | set(J2):
        b = (J1.get(k) or J2.get(k))[0]
        cur = b.d[k[1]] if isinstance(b, Buf) else b.v
        old = J2[k][1] if k in J2 else cur
        v1 = W1[k][1] if k in W1 else old
        v2 = cur
        if I.strict and isinstance(b, Buf) and (v1 is UNINIT) != (v2 is UNINIT):
            x = v2 if v1 is UNINIT else v1
            if isinstance(x, (float, Sym)):
                v1, v2 = (I.fresh(b.name), v2) if v1 is UNINIT else (v1, I.fresh(b.name))
        v = merge(I, c, v1, v2)
        if I.journal:
            I.journal[-1].setdefault(k, (b, old))
        if isinstance(b, Buf):
            b.d[k[1]] = v
        else:
            b.v = v
    live = f.live.get(stop, set())
    for i in range(len(R)):
        a, b = R1[i], R[i]
        if a is b:
            continue
        if i in live or i == len(R) - 1:
            R[i] = merge(I, c, a, b)
        else:
            R[i] = UNINIT
    return stop


def merge(I, c, a, b):
    if a is b:
        return a
    if a is UNINIT:
        return b if b is UNINIT else b      # the other side never assigned it: reading it there is not defined
    if b is UNINIT:
        return a
    ia = isinstance(a, int) and not isinstance(a, bool) or (isinstance(a, Cases) and all(isinstance(v, int) for v in a.vals))
    ib = isinstance(b, int) and not isinstance(b, bool) or (isinstance(b, Cases) and all(isinstance(v, int) for v in b.vals))
    if ia and ib:
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        gs, vs = [], []
        for x, g in ((a, c), (b, lnot(c))):
            if isinstance(x, Cases):
                for h, v in zip(x.guards, x.vals):
                    k = land(g, h)
                    if k is not False:
                        gs.append(k); vs.append(v)
            else:
                gs.append(g); vs.append(x)
        return sym.group(gs, vs)
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return lor(land(c, a), land(lnot(c), b))
    if isinstance(a, (Ptr, Frame)) or isinstance(b, (Ptr, Frame)):
        raise Unsupported("pointer depends on a symbolic condition")
    return ite(c, a, b)
