"""Specification modules: executed by the same abstract executor as the code.

A specification function has the name of the function it describes; helper functions of a
specification module are inlined; every other name resolves in the analysed package.
"""
import ast
import os

from .repo import Module, Repo, AnalysisBroken, PKG
from .known import KNOWN

SPECDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec")


class SpecRepo(Repo):
    def __init__(self, real, specdir=SPECDIR):
        self.real = real
        self.root = real.root
        self.dotted2short = dict(real.dotted2short)
        self.spec_modules = {}
        for f in sorted(os.listdir(specdir)):
            if f.endswith(".py") and f[:-3] not in real.modules:
                self.dotted2short[f"{PKG}.ed.{f[:-3]}"] = f[:-3]
        for f in sorted(os.listdir(specdir)):
            if f.endswith(".py") and f != "__init__.py":
                short = f[:-3]
                m = Module(short, os.path.join(specdir, f), f"spec/{f}", f"spec.{short}")
                self.spec_modules[short] = m
                self._index(m)
        self.modules = dict(real.modules)
        self.modules.update(self.spec_modules)
        self.funcs = {}
        self.spec_funcs = {}
        for q, f in real.funcs.items():
            self.funcs[q] = f
        for m in self.spec_modules.values():
            for n, f in m.funcs.items():
                q = f"{m.name}.{n}"
                self.spec_funcs[q] = f
                if q not in KNOWN:
                    self.funcs[q] = f
                elif q not in self.funcs:
                    self.funcs[q] = f

    def resolve(self, mod, name, depth=0):
        m = self.spec_modules.get(mod)
        if m is not None:
            if name in m.funcs:
                q = f"{mod}.{name}"
                return super().resolve(mod, name, depth)
            if name in m.imports or name in m.assigns:
                return super().resolve(mod, name, depth)
            if mod not in self.real.modules:
                return super().resolve(mod, name, depth)
        return self.real.resolve(mod, name, depth)

    def fn(self, qual):
        if qual in self.spec_funcs:
            return self.spec_funcs[qual]
        return self.real.fn(qual)

    def specs(self):
        """qual -> (set of property ids, text) of every specification function"""
        out = {}
        for q, f in self.spec_funcs.items():
            d = ast.get_docstring(f.node) or ""
            if d.startswith("["):
                ids = d[1:d.index("]")].split()
                out[q] = (ids, d[d.index("]") + 1:].strip())
        return out
