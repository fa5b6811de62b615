"""Emulation of the f2py call interface of the Fortran kernels, with two back ends:
the symbolic interpreter (gimple.py) and the same source compiled by gfortran."""
import contextlib
import ctypes
import glob
import io
import os
import subprocess

import numpy as np

from . import sym, gimple, symnp
from .gimple import Interp, Ptr, Ref, Buf, UNINIT

KERNELS = {   # python module -> Fortran file (as in meson.build: one extension module per file)
}


class Kernels:
    def __init__(self, src, workdir):
        self.src, self.work = src, workdir
        self.sig, self.tab, self.so, self.lib = {}, {}, {}, {}
        self.files = {os.path.basename(p)[:-4]: p for p in sorted(glob.glob(os.path.join(src, "f90_modules", "*.f90")))}

    def signature(self, mod):
        if mod not in self.sig:
            import numpy.f2py.crackfortran as cf
            cf.verbose = 0
            cf.quiet = 1
            for v in ("f77modulename", "skipemptyends"):
                pass
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                r = cf.crackfortran([self.files[mod]])
            subs = {}
            for b in r:
                bl = b["body"] if b["block"] == "module" else [b]
                for x in bl:
                    if x["block"] in ("subroutine", "function"):
                        subs[x["name"].lower()] = x
            self.sig[mod] = subs
        return self.sig[mod]

    def table(self, mod):
        if mod not in self.tab:
            self.tab[mod] = gimple.compile_source(self.files[mod], self.own())
        return self.tab[mod]

    def own(self):
        """scratch directory of this process (workers fork from a parent that may not have compiled everything)"""
        d = os.path.join(self.work, "p%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        return d

    def shared(self, mod, checked=False):
        k = (mod, checked)
        if k not in self.so:
            work = self.own()
            so = os.path.join(work, "lib_%s%s.so" % (mod, "_c%s" % checked if checked else ""))
            cmd = ["gfortran", "-shared", "-fPIC", "-O1", "-fdefault-real-8", "-fdefault-double-8", "-J", work, "-o", so, self.files[mod]]
            if checked:
                cmd[3:4] = ["-O0", "-g", "-fcheck=bounds"] + (["-finit-real=" + checked] if isinstance(checked, str) else [])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=work)
            if p.returncode:
                raise RuntimeError("gfortran: " + p.stdout)
            self.so[k] = so
            self.lib[k] = ctypes.CDLL(so)
        return self.lib[k]


class CallError(Exception):
    """what f2py raises for arguments that do not fit"""


class KernelError(ValueError):
    pass


class Kernel:
    """one wrapped subroutine"""

    def __init__(self, ks, mod, name, backend, session):
        self.ks, self.mod, self.name, self.backend, self.session = ks, mod, name, backend, session
        self.__name__ = name
        self.__doc__ = name

    def __call__(self, *args, **kw):
        sub = self.ks.signature(self.mod)[self.name]
        vars_ = {k.lower(): v for k, v in sub["vars"].items()}
        order = [a.lower() for a in sub["args"]]
        intent = {a: vars_[a].get("intent", ["in"]) for a in order}
        isin = [a for a in order if "out" not in intent[a] or "inout" in intent[a] or "in" in intent[a]]
        isin = [a for a in isin if "hide" not in intent[a]]
        req = [a for a in isin if "optional" not in vars_[a].get("attrspec", []) and "=" not in vars_[a]]
        opt = [a for a in isin if a not in req]
        pos = req + opt
        if len(args) > len(pos):
            raise TypeError("%s() takes at most %d arguments (%d given)" % (self.name, len(pos), len(args)))
        val = dict(zip(pos, args))
        for k, v in kw.items():
            if k not in pos:
                raise TypeError("'%s' is an invalid keyword argument for %s.%s()" % (k, self.mod, self.name))
            if k in val:
                raise TypeError("argument for %s() given by name ('%s') and position" % (self.name, k))
            val[k] = v
        for a in req:
            if a not in val:
                raise TypeError("%s.%s() missing required argument '%s'" % (self.mod, self.name, a))
        arrays = {a: vars_[a]["dimension"] for a in order if "dimension" in vars_[a]}
        conv = {}
        for a in pos:
            if a in arrays and a in val:
                x = val[a]
                if not isinstance(x, np.ndarray):
                    x = symnp.mkarray(x) if symnp.is_symbolic(x) else np.asarray(x)
                if x.ndim != len(arrays[a]):
                    raise ValueError("%s: rank of argument '%s' is %d, expected %d" % (self.name, a, x.ndim, len(arrays[a])))
                conv[a] = x
        ns = {"shape": lambda x, i: x.shape[i], "len": lambda x: x.shape[0], "size": lambda x, i=None: x.size if i is None else x.shape[i],
              "rank": lambda x: x.ndim}
        ns.update(conv)
        for a in pos:
            ts = vars_[a]["typespec"]
            if a in arrays:
                continue
            if a in val and val[a] is not None or a in req:
                v = val[a]
                if ts == "integer":
                    if isinstance(v, (sym.Sym, sym.Cases)):
                        v = symnp.realise_int(v)
                    if isinstance(v, np.ndarray) and v.ndim:
                        v = v.ravel()[0]
                    ns[a] = int(v)
                elif ts == "logical":
                    ns[a] = bool(v)
                else:
                    if isinstance(v, np.ndarray):
                        v = v.ravel()[0] if v.dtype != object else symnp.base(v).ravel()[0]
                    ns[a] = v if isinstance(v, symnp.SYMT) else float(v)
            else:
                ns[a] = None
        for _ in range(len(pos)):
            again = False
            for a in opt:
                if ns.get(a) is None and "=" in vars_[a]:
                    try:
                        ns[a] = int(eval(str(vars_[a]["="]).replace("/", "//"), {}, ns))
                    except (NameError, TypeError, KeyError):
                        again = True
            if not again:
                break
        for a in pos:
            for c in vars_[a].get("check", []):
                if not eval(c.replace("&&", " and ").replace("||", " or "), {}, ns):
                    raise KernelError("(%s) failed for %s" % (c, a))
        dims = {}
        for a, ds in arrays.items():
            sh = []
            for d in ds:
                d = str(d)
                if ":" in d:
                    lo, hi = d.split(":")
                    sh.append(int(eval(hi, {}, ns)) - int(eval(lo, {}, ns)) + 1)
                else:
                    sh.append(int(eval(d.replace("/", "//"), {}, ns)))
            dims[a] = tuple(sh)
            if a in conv and conv[a].shape != dims[a]:
                # f2py: dimensions that are too small are an error
                for i, (g, w) in enumerate(zip(conv[a].shape, dims[a])):
                    if g != w:
                        raise KernelError("%s: failed to create array '%s': dimension %d must be fixed to %d but got %d" % (self.name, a, i, w, g))
        for s in dims.values():
            if any(n < 0 for n in s):
                raise KernelError("negative dimension")
        self.session.calls.append(self.name)
        f = self._run_sym if self.backend == "sym" else self._run_real
        return f(order, vars_, intent, arrays, conv, ns, dims)

    # -- symbolic
    def _run_sym(self, order, vars_, intent, arrays, conv, ns, dims):
        I = self.session.interp
        fn = self.ks.table(self.mod)[self.name]
        actual, outs = [], []
        bufs = {}
        for a in order:
            ts = vars_[a]["typespec"]
            o = "out" in intent[a]
            if a in arrays:
                if a in conv:
                    flat = symnp.base(conv[a]).ravel(order="F").tolist()
                    flat = [self._cell(x, ts) for x in flat]
                else:
                    flat = [0 if ts == "integer" else 0.0] * int(np.prod(dims[a]))
                b = Buf(flat, a)
                bufs[a] = b
                actual.append(Ptr(b))
            else:
                v = ns.get(a)
                if v is None:
                    v = 0 if ts == "integer" else 0.0
                r = Ref(v)
                bufs[a] = r
                actual.append(r)
            if o:
                outs.append(a)
        gimple.call(I, fn, actual)
        res = []
        for a in order:
            io = "inout" in intent[a]
            if a in arrays and (a in outs or io):
                arr = np.empty(int(np.prod(dims[a])), dtype=object)
                for i, x in enumerate(bufs[a].d):
                    arr[i] = x if x is not UNINIT else I.fresh(a)
                arr = arr.reshape(dims[a], order="F").view(symnp.SymArray)
                if io:
                    tgt = conv[a]
                    if tgt.dtype != object:
                        tgt[...] = symnp.concrete(arr)
                    else:
                        symnp.base(tgt)[...] = symnp.base(arr)
                else:
                    res.append(arr)
            elif a in outs:
                res.append(bufs[a].v)
        return res[0] if len(res) == 1 else tuple(res)

    @staticmethod
    def _cell(x, ts):
        if isinstance(x, (sym.SymBool,)):
            return x.p
        if isinstance(x, sym.Cases):
            return x.flat()
        if isinstance(x, sym.Sym):
            return x
        return int(x) if ts == "integer" else float(x)

    # -- compiled
    def _run_real(self, order, vars_, intent, arrays, conv, ns, dims):
        lib = self.ks.shared(self.mod, self.session.checked)
        f = getattr(lib, self.name + "_")
        keep, outs = [], []
        for a in order:
            ts = vars_[a]["typespec"]
            if a in arrays:
                dt = np.int32 if ts in ("integer", "logical") else np.float64
                n = int(np.prod(dims[a]))
                pad = 256
                raw = np.zeros(n + 2 * pad, dtype=dt)
                view = raw[pad:pad + n].reshape(dims[a], order="F")
                if a in conv:
                    x = conv[a]
                    view[...] = symnp.concrete(x) if x.dtype == object else x
                keep.append((a, raw, view))
            else:
                v = ns.get(a) or 0
                keep.append((a, ctypes.c_int32(int(v)) if ts in ("integer", "logical") else ctypes.c_double(float(v)), None))
        ptrs = [ctypes.byref(x) if v is None else v.ctypes.data_as(ctypes.c_void_p) for a, x, v in keep]
        with quiet_stdout():
            f(*ptrs)
        res = []
        for a, x, v in keep:
            io = "inout" in intent[a]
            if v is not None:
                if io:
                    conv[a][...] = v
                elif "out" in intent[a]:
                    res.append(np.array(v, order="F"))
            elif "out" in intent[a] and not io:
                res.append(x.value)
        return res[0] if len(res) == 1 else tuple(res)


_QUIET = [0]


@contextlib.contextmanager
def quiet_stdout():
    """Fortran writes to unit 6"""
    yield


class Session:
    def __init__(self):
        self.interp = Interp()
        self.calls = []
        self.checked = False
