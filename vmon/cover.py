"""Which lines of the code under test an execution reaches.

Uses sys.monitoring (each line reports once per process, then costs nothing), so that the evidence says
what the workloads reached rather than only that they ran.
"""
import dis
import os
import sys
import types

_new = set()
_prefix = None


def start(package_dir):
    global _prefix
    _prefix = os.path.realpath(package_dir) + os.sep
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, 'vmon')
    m.register_callback(m.COVERAGE_ID, m.events.LINE, _line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def _line(code, line):
    f = code.co_filename
    if f.startswith(_prefix):
        _new.add((f[len(_prefix):], line))
    return sys.monitoring.DISABLE


def drain():
    """lines that this process reached for the first time since the last call"""
    r = sorted(_new)
    _new.clear()
    return r


def executable(path):
    """line numbers inside functions; definitions and module level code run on import"""
    with open(path) as fh:
        top = compile(fh.read(), path, 'exec')
    lines = set()

    def walk(code, inside):
        if inside:
            lines.update(l for _, l in dis.findlinestarts(code) if l and l != code.co_firstlineno)
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                walk(c, inside or bool(c.co_flags & 2))      # CO_NEWLOCALS: a function, not a class body
    walk(top, False)
    return lines
