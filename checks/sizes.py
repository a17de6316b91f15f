"""Sizes at which the code could change its way of working.

The checks of sized things (numbers of blocks, steps, tests, members, iterations)
follow all sizes up to a bound.  A whole number that the code compares with,
divides by, cuts at, loops over or hands to a call could make a larger size
behave differently: the sizes around every such number are followed as well.
The numbers are read from the source on every run; the current tree has hardly
any."""
import ast

import sa.interp as si


# arguments of the present interface that bound iterations or ask for a number of points
LIMITS = {"miter", "maxiter", "max_bt", "check", "nsamples", "N", "nhold", "N_hold", "bottom_num"}


def numbers(I, modules):
    """whole numbers in a position where they can decide between ways of working"""
    out = set()

    def num(n):
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            return int(n.value)
        if isinstance(n, ast.BinOp):
            a, b = num(n.left), num(n.right)
            if a is not None and b is not None:
                if isinstance(n.op, ast.Pow) and 0 <= b <= 12 and abs(a) <= 16:
                    return a ** b
                if isinstance(n.op, ast.LShift) and 0 <= b <= 16:
                    return a << b
                if isinstance(n.op, ast.Mult):
                    return a * b
        return None

    def take(n):
        v = num(n)
        if v is not None:
            out.add(abs(v))
        elif isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            for e in n.elts:
                take(e)
        elif isinstance(n, ast.BinOp):
            # 4 * self.n, n + 8
            take(n.left), take(n.right)

    def visit(n):
        if isinstance(n, ast.Compare):
            for c in [n.left] + n.comparators:
                take(c)
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.LShift, ast.RShift, ast.BitAnd)):
            take(n.right)
        elif isinstance(n, ast.Slice):
            for c in (n.lower, n.upper, n.step):
                if c is not None:
                    take(c)
        elif isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ""
            if nm in ("range", "min", "max", "split", "chunk", "islice", "narrow", "array_split", "tensor_split", "unfold", "divmod", "clamp", "lru_cache", "deque"):
                for a in n.args:
                    take(a)
            for k in n.keywords:
                if k.arg in ("maxsize", "maxlen", "chunks", "split_size", "max", "min", "size", "step"):
                    take(k.value)
        elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            # a named limit
            if num(n.value) is not None:
                take(n.value)
        elif isinstance(n, ast.arguments):
            a = n.posonlyargs + n.args
            for x, v in list(zip(a[len(a) - len(n.defaults):], n.defaults)) + list(zip(n.kwonlyargs, n.kw_defaults)):
                if v is not None and x.arg not in LIMITS:
                    take(v)
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    for m in modules:
        try:
            t = I.module("pyoptmat." + m).tree
        except si.AnalysisError:
            continue
        visit(t)
    return out


def beyond(I, modules, known, most=140, count=12):
    """sizes around the numbers of the code that exceed the size `known`"""
    out = set()
    for c in sorted(numbers(I, modules)):
        for v in (c - 1, c, c + 1, c + 2):
            if known < v <= most:
                out.add(v)
    # the largest of each group last: a cut needs a size beyond it
    out = sorted(out)
    return out if len(out) <= count else out[:count // 2] + out[-(count - count // 2):]


def fractions(I, modules):
    """the numbers between zero and one written anywhere in the code of the modules, defaults of arguments aside"""
    from fractions import Fraction
    out = set()

    def visit(n):
        if isinstance(n, ast.arguments):
            return
        if isinstance(n, ast.Constant) and isinstance(n.value, float) and 1e-12 < abs(n.value) < 1:
            out.add(abs(Fraction(str(n.value))))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) and all(isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) for x in (n.left, n.right)) and n.right.value:
            v = abs(Fraction(str(n.left.value)) / Fraction(str(n.right.value)))
            if 0 < v < 1:
                out.add(v)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for m in modules:
        try:
            visit(I.module("pyoptmat." + m).tree)
        except si.AnalysisError:
            continue
    return out
