"""Memory of a simulated worker process.

A forked worker starts with a copy of the caller's memory and keeps what its jobs leave behind.
What matters for the code under test is swapped in and out around each job: the global random
states, and every piece of data held by the package (module globals, class attributes, default
arguments, function attributes, closure cells).
"""
import abc
import copy
import random
import sys
import types

import numpy as np

ATOMIC = (
    type(None), bool, int, float, complex, str, bytes, type, types.ModuleType, types.FunctionType,
    types.BuiltinFunctionType, types.MethodType, property, staticmethod, classmethod, range, frozenset,
)


CODE_TYPES = frozenset(
    (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, property, staticmethod, classmethod, type(abc.ABC), types.MappingProxyType, types.GetSetDescriptorType)
)


def _is_code(v):
    return isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, type, property, staticmethod, classmethod)) or (
        type(v).__module__ in ("typing", "abc", "functools", "logging")
    )


def _functions(ns):
    for v in list(ns.values()):
        if isinstance(v, (staticmethod, classmethod)):
            v = v.__func__
        if isinstance(v, property):
            for f in (v.fget, v.fset):
                if isinstance(f, types.FunctionType):
                    yield f
        elif isinstance(v, types.FunctionType):
            yield v
            w = getattr(v, "__wrapped__", None)
            while isinstance(w, types.FunctionType):
                yield w
                w = getattr(w, "__wrapped__", None)
        elif hasattr(v, "__wrapped__") and isinstance(getattr(v, "__wrapped__"), types.FunctionType):
            yield v.__wrapped__


class Slots:
    """Where the package keeps data."""

    def __init__(self, package):
        self.package = package
        self.namespaces = []  # (kind, object)
        self.functions = []
        seen = set()
        for name, mod in sorted(sys.modules.items()):
            if mod is None or not (name == package or name.startswith(package + ".")):
                continue
            self.namespaces.append(mod)
            stack = [vars(mod)]
            while stack:
                ns = stack.pop()
                for f in _functions(ns):
                    if id(f) not in seen and (f.__module__ or "").startswith(package):
                        seen.add(id(f))
                        self.functions.append(f)
                for v in list(ns.values()):
                    if isinstance(v, type) and id(v) not in seen and (v.__module__ or "").startswith(package):
                        seen.add(id(v))
                        self.namespaces.append(v)
                        stack.append(vars(v))
        # functions that can hold data outside their attributes
        self.special = [
            (i, f)
            for i, f in enumerate(self.functions)
            if any(not isinstance(x, ATOMIC) for x in (f.__defaults__ or ())) or f.__kwdefaults__ or f.__closure__
        ]

    def read(self):
        """{slot: value} with the live references"""
        out = {}
        code = CODE_TYPES
        for i, ns in enumerate(self.namespaces):
            for k, v in list(ns.__dict__.items()):
                if type(v) in code or k[:2] == "__" or _is_code(v) or k == "_abc_impl":
                    continue
                out["n", i, k] = v
        for i, f in self.special:
            if f.__defaults__:
                out["d", i, ""] = f.__defaults__
            if f.__kwdefaults__:
                out["k", i, ""] = f.__kwdefaults__
            for j, c in enumerate(f.__closure__ or ()):
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                if not _is_code(v):
                    out["c", i, j] = v
        for i, f in enumerate(self.functions):
            if f.__dict__:
                for k, v in f.__dict__.items():
                    if k != "__wrapped__" and not _is_code(v):
                        out["f", i, k] = v
        return out

    def write(self, image, current):
        """make the live references those of image (current: what read() gives now)"""
        for slot in current:
            if slot not in image:
                self._delete(slot)
        for slot, v in image.items():
            if slot not in current or current[slot] is not v:
                self._set(slot, v)

    def _set(self, slot, v):
        kind, i, k = slot
        if kind == "n":
            setattr(self.namespaces[i], k, v)
        elif kind == "d":
            self.functions[i].__defaults__ = v
        elif kind == "k":
            self.functions[i].__kwdefaults__ = v
        elif kind == "f":
            self.functions[i].__dict__[k] = v
        elif kind == "c":
            self.functions[i].__closure__[k].cell_contents = v

    def _delete(self, slot):
        kind, i, k = slot
        try:
            if kind == "n":
                delattr(self.namespaces[i], k)
            elif kind == "f":
                del self.functions[i].__dict__[k]
        except AttributeError:
            pass


def _copy(v, memo):
    if isinstance(v, ATOMIC) or _is_code(v):
        return v
    if isinstance(v, tuple) and all(isinstance(x, ATOMIC) for x in v):
        return v
    try:
        return copy.deepcopy(v, memo)
    except Exception:
        return v


class Memory:
    def __init__(self, image, np_state, py_state):
        self.image = image
        self.np_state = np_state
        self.py_state = py_state


class MemoryManager:
    def __init__(self, package="hadar"):
        self.slots = Slots(package)

    def fork(self):
        """A copy of the running process' memory."""
        cur = self.slots.read()
        rand = np.random.mtrand._rand
        memo = {id(rand): rand}
        image = {s: _copy(v, memo) for s, v in cur.items()}
        return Memory(image, np.random.get_state(), random.getstate())

    def run_in(self, mem, fn):
        """Run fn with mem as the process memory; keep what it leaves there."""
        cur = self.slots.read()
        np_state, py_state = np.random.get_state(), random.getstate()
        self.slots.write(mem.image, cur)
        np.random.set_state(mem.np_state)
        random.setstate(mem.py_state)
        try:
            return fn()
        finally:
            after = self.slots.read()
            mem.image = after
            mem.np_state, mem.py_state = np.random.get_state(), random.getstate()
            self.slots.write(cur, after)
            np.random.set_state(np_state)
            random.setstate(py_state)

    def snapshot(self):
        """To bring the whole process back to a known state between runs."""
        return self.fork()

    def restore(self, mem):
        cur = self.slots.read()
        rand = np.random.mtrand._rand
        memo = {id(rand): rand}
        image = {s: _copy(v, memo) for s, v in mem.image.items()}
        self.slots.write(image, cur)
        np.random.set_state(mem.np_state)
        random.setstate(mem.py_state)
