"""Which lines of the code under test the workloads actually executed
(sys.monitoring; every line reports once, so the cost is negligible)."""
import os
import sys
import types

_TOOL = 4
_seen = set()
_sent = set()
_prefix = ""


def start(repo):
    global _prefix
    _prefix = os.path.join(os.path.realpath(repo), "finat") + os.sep
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return False
    mon.use_tool_id(_TOOL, "rv-lines")

    def line(code, no):
        f = code.co_filename
        if f.startswith(_prefix):
            _seen.add((f[len(_prefix):], no))
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.LINE, line)
    mon.set_events(_TOOL, mon.events.LINE)
    return True


def fresh():
    """Lines seen since the last call in this process."""
    new = _seen - _sent
    _sent.update(new)
    return sorted(new)


def _lines(code):
    out = {no for _, _, no in code.co_lines() if no}
    out.discard(code.co_firstlineno)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            out |= _lines(c)
    return out


def body_lines(path):
    """Lines inside functions of a source file."""
    with open(path) as f:
        code = compile(f.read(), path, "exec")
    out = set()
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            stack = [c]
            while stack:
                k = stack.pop()
                if k.co_flags & 0x2:  # a function: its own lines
                    out |= _lines(k)
                else:  # class body
                    stack += [x for x in k.co_consts if isinstance(x, types.CodeType)]
    return out


def report(repo, seen):
    """Per file: function-body lines executed / existing."""
    base = os.path.join(os.path.realpath(repo), "finat")
    out = {}
    for root, _, files in os.walk(base):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(root, f)
                b = body_lines(p)
                if b:
                    rel = os.path.relpath(p, base)
                    hit = {n for g, n in seen if g == rel} & b
                    out[rel] = (len(hit), len(b))
    return out
