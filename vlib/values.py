"""Expected-result values: marker types, (de)serialisation, comparison with actual results."""

from __future__ import annotations


class El(str):
    """Expected reference (a bare identifier in the document)."""

    __slots__ = ()


class Obj(dict):
    """Expected mapping whose key order follows the document."""


def enc(v):
    if isinstance(v, El):
        return {"e": str(v)}
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return {"i": str(v)} if abs(v) > 2**53 else v
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, Obj):
        return {"o": [[k, enc(x)] for k, x in v.items()]}
    if isinstance(v, dict):
        return {"d": [[k, enc(x)] for k, x in v.items()]}
    raise TypeError(type(v))


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        ((k, x),) = v.items()
        if k == "e":
            return El(x)
        if k == "i":
            return int(x)
        if k == "o":
            return Obj((a, dec(b)) for a, b in x)
        return {a: dec(b) for a, b in x}
    return v


def _short(v) -> str:
    try:
        s = repr(v)
    except RecursionError:
        s = "<deep value>"
    return s if len(s) <= 200 else s[:200] + "..."


def diff(actual, expected, element_type, path="$", order=True):
    """First difference between an actual and an expected result, or None.  Iterative (deep values)."""
    stack = [(actual, expected, path)]
    while stack:
        a, e, p = stack.pop()
        if len(p) > 400:
            p = p[:100] + "..." + p[-100:]
        if isinstance(e, El):
            if not isinstance(a, element_type) or str(a) != str(e):
                return f"{p}: expected reference {str(e)!r}, got {type(a).__name__} {_short(a)}"
        elif e is None:
            if a is not None:
                return f"{p}: expected null, got {type(a).__name__} {_short(a)}"
        elif isinstance(e, bool):
            if type(a) is not bool or a != e:
                return f"{p}: expected {e}, got {type(a).__name__} {_short(a)}"
        elif isinstance(e, int):
            if type(a) is not int or a != e:
                return f"{p}: expected {_short(e)}, got {type(a).__name__} {_short(a)}"
        elif isinstance(e, str):
            if not isinstance(a, str) or isinstance(a, element_type) or str(a) != e:
                return f"{p}: expected string {_short(e)}, got {type(a).__name__} {_short(a)}"
        elif isinstance(e, list):
            if type(a) is not list:
                return f"{p}: expected a list, got {type(a).__name__} {_short(a)}"
            if len(a) != len(e):
                return f"{p}: expected {len(e)} items, got {len(a)}: {_short(a)} instead of {_short(e)}"
            stack.extend((x, y, f"{p}[{i}]") for i, (x, y) in reversed(list(enumerate(zip(a, e)))))
        else:
            if not isinstance(a, dict):
                return f"{p}: expected a mapping, got {type(a).__name__} {_short(a)}"
            if len(a) != len(e) or any(k not in a for k in e):
                missing = [k for k in e if k not in a]
                extra = [k for k in a if k not in e]
                return f"{p}: missing keys {missing}, unexpected keys {extra}"
            if any(not isinstance(k, str) or isinstance(k, element_type) for k in a):
                return f"{p}: key that is no plain string"
            if order and isinstance(e, Obj) and [str(k) for k in a] != list(e):
                return f"{p}: key order {list(map(str, a))} instead of {list(e)}"
            stack.extend((a[k], v, f"{p}.{k}") for k, v in reversed(list(e.items())))
    return None


def same(a, b, path="$"):
    """First difference between two actual results (types and order included), or None."""
    stack = [(a, b, path)]
    while stack:
        x, y, p = stack.pop()
        if len(p) > 400:
            p = p[:100] + "..." + p[-100:]
        if type(x) is not type(y):
            return f"{p}: {type(x).__name__} {_short(x)} vs {type(y).__name__} {_short(y)}"
        if isinstance(x, dict):
            if list(x) != list(y):
                return f"{p}: keys {_short(list(x))} vs {_short(list(y))}"
            stack.extend((x[k], y[k], f"{p}.{k}") for k in x)
        elif isinstance(x, (list, tuple)):
            if len(x) != len(y):
                return f"{p}: lengths {len(x)} vs {len(y)}"
            stack.extend((m, n, f"{p}[{i}]") for i, (m, n) in enumerate(zip(x, y)))
        elif x != y:
            return f"{p}: {_short(x)} vs {_short(y)}"
    return None
