"""A stand-in for the compiled extension, so that the Python package can be imported and driven."""
import enum
import os
import sys
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "src"))


class _Any:
    def __init__(self, *a, **k):
        self.__dict__.update(k)


m = types.ModuleType("vmecpp.cpp._vmecpp")
m.OutputMode = enum.Enum("OutputMode", "SILENT LEGACY PROGRESS PROGRESS_NON_TTY", start=0)
m.FreeBoundaryMethod = enum.Enum("FreeBoundaryMethod", "NESTOR ONLY_COILS BIEST")
m.IterationStyle = enum.Enum("IterationStyle", "VMEC_8_52 PARVMEC ROBUST")


def _ga(name):
    if name.startswith("__"):
        raise AttributeError(name)
    c = type(name, (_Any,), {})
    setattr(m, name, c)
    return c


m.__getattr__ = _ga
sys.modules["vmecpp.cpp._vmecpp"] = m
native = m
