"""Observation of what really ran inside spgrep (sys.monitoring: call counts, first-hit lines)."""
from __future__ import annotations
import importlib, pkgutil, sys, types
from collections import Counter

TOOL = 3


def _codes(mod):
    seen, todo = set(), []
    for v in list(vars(mod).values()):
        if isinstance(v, types.FunctionType) and v.__module__ == mod.__name__:
            todo.append(v.__code__)
        elif isinstance(v, type) and v.__module__ == mod.__name__:
            todo += [f.__code__ for f in vars(v).values() if isinstance(f, types.FunctionType)]
        elif hasattr(v, "__wrapped__") and getattr(v, "__module__", None) == mod.__name__:
            f = v.__wrapped__
            if isinstance(f, types.FunctionType):
                todo.append(f.__code__)
    while todo:
        c = todo.pop()
        if c in seen:
            continue
        seen.add(c)
        todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return seen


class Monitor:
    def __init__(self):
        self.calls, self.lines, self.total, self.where = Counter(), {}, {}, {}
        import spgrep
        for m in pkgutil.iter_modules(spgrep.__path__):
            if m.name.startswith("_"):
                continue
            mod = importlib.import_module("spgrep." + m.name)
            self.total[m.name], self.lines[m.name] = set(), set()
            for c in _codes(mod):
                self.where[c] = m.name
                self.total[m.name] |= {ln for _, _, ln in c.co_lines() if ln is not None and ln != c.co_firstlineno}

    def start(self):
        mo = getattr(sys, "monitoring", None)
        if mo is None:
            return
        try:
            mo.use_tool_id(TOOL, "vmon")
        except ValueError:
            return
        E = mo.events

        def on_start(code, off):
            w = self.where.get(code)
            if w is not None:
                self.calls[f"{w}.{code.co_qualname}"] += 1

        def on_line(code, ln):
            w = self.where.get(code)
            if w is not None and ln != code.co_firstlineno:
                self.lines[w].add(ln)
            return mo.DISABLE

        mo.register_callback(TOOL, E.PY_START, on_start)
        mo.register_callback(TOOL, E.LINE, on_line)
        for c in self.where:
            mo.set_local_events(TOOL, c, E.PY_START | E.LINE)

    def report(self):
        return dict(calls=dict(self.calls), lines=self.lines, total=self.total)
