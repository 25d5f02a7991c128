"""A controlled scheduler and fault injector for the code under test.

Steps are the line events (or bytecode events) of frames whose code lies in the package of /repo.  `schedule` runs two
real threads of which exactly one is ever allowed to run, and switches between them at chosen steps; `interrupt`
raises an exception at a chosen step.  No source line is changed for this: both use the interpreter's trace hook."""
import ast
import os
import sys
import threading

import deltares_wave_toolbox

ROOT = os.path.realpath(os.path.dirname(deltares_wave_toolbox.__file__)) + os.sep
BLOCK = 0.5  # a thread that does not come back within this time is waiting for the other one (a lock)
_mine = {}


def mine(code):
    r = _mine.get(code)
    if r is None:
        r = _mine[code] = os.path.realpath(code.co_filename).startswith(ROOT)
    return r


def tracer(at, opcodes=False):
    """A trace function that calls at(k, frame) before the k-th step."""
    k = [-1]

    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            k[0] += 1
            at(k[0], frame)
        return local

    def top(frame, event, arg):
        if not mine(frame.f_code):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return local

    return top


def traced(fn, at, opcodes=False):
    sys.settrace(tracer(at, opcodes))
    try:
        return fn()
    finally:
        sys.settrace(None)


def outcome(fn):
    try:
        return True, fn()
    except Exception as e:
        return False, type(e).__name__


def steps(fn, opcodes=False):
    """Number of steps of one call."""
    n = [0]

    def at(k, frame):
        n[0] = k + 1

    outcome(lambda: traced(fn, at, opcodes))
    return n[0]


def schedule(fa, fb, k, j=None, opcodes=False):
    """Thread A makes k steps; thread B then makes j steps (None: runs to its end); A runs to its end; B does.
    Returns (outcome of A, outcome of B, blocked)."""
    res = {}
    a_may, b_may = threading.Semaphore(0), threading.Semaphore(0)
    blocked = [False]

    def at_b(i, frame):
        if i == j:
            a_may.release()
            b_may.acquire()

    def body_b():
        b_may.acquire()
        try:
            res["b"] = outcome((lambda: traced(fb, at_b, opcodes)) if j is not None else fb)
        finally:
            a_may.release()

    th = threading.Thread(target=body_b, daemon=True)
    th.start()

    def at_a(i, frame):
        if i == k:
            b_may.release()
            if not a_may.acquire(timeout=BLOCK):
                blocked[0] = True

    res["a"] = outcome(lambda: traced(fa, at_a, opcodes))
    b_may.release()
    b_may.release()
    th.join(20)
    if th.is_alive():
        return res["a"], (False, "never ends"), True
    return res["a"], res["b"], blocked[0]


# ---------------------------------------------------------------- injected failures
_work = {}


def _lines_with_work(path):
    """Lines on which something can fail (a call, an operator, an index), outside try/with headers and clean-up code."""
    tree = ast.parse(open(path).read())
    ok, no = set(), set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.Call, ast.BinOp, ast.UnaryOp, ast.Compare, ast.AugAssign, ast.Subscript)):
            ok.update(range(node.lineno, node.end_lineno + 1))
    for node in ast.walk(tree):
        if isinstance(node, (ast.Try, getattr(ast, "TryStar", ast.Try))):
            no.add(node.lineno)
            for part in [*node.handlers, *node.finalbody]:
                no.update(range(part.lineno, part.end_lineno + 1))
        if isinstance(node, (ast.With, ast.AsyncWith)):
            no.update(range(node.lineno, node.body[0].lineno))
        if isinstance(node, ast.FunctionDef) and node.name in ("__exit__", "__del__", "close", "release"):
            no.update(range(node.lineno, node.end_lineno + 1))
    return ok - no


def can_fail(frame):
    path = frame.f_code.co_filename
    if path not in _work:
        _work[path] = _lines_with_work(path)
    return frame.f_lineno in _work[path]


def interrupt(fn, k, exc):
    """Run fn and raise exc at its k-th failing point.  Returns (outcome, the place or None when it has fewer points)."""
    place = [None]
    n = [-1]

    def at(i, frame):
        if place[0] is None and can_fail(frame):
            n[0] += 1
            if n[0] == k:
                place[0] = f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name} line {frame.f_lineno - frame.f_code.co_firstlineno}"
                raise exc
    try:
        r = ("returned", traced(fn, at))
    except BaseException as e:
        r = ("raised", type(e).__name__)
    return r, place[0]
