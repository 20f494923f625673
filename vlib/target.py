"""Loads the code under test from /repo's working tree and wraps its public entry points."""

from __future__ import annotations

import ast
import os
import re
import sys
from functools import lru_cache
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))

_parsers: dict[tuple, object] = {}
_mods: dict[str, object] = {}


def load():
    """Imports pycep from REPO; raises if some other copy would be tested."""
    if "pycep" not in _mods:
        if str(REPO) not in sys.path:
            sys.path.insert(0, str(REPO))
        import lark
        import pycep
        from pycep.models import BicepElement

        assert Path(pycep.__file__).resolve().is_relative_to(REPO.resolve()), pycep.__file__
        _mods.update(pycep=pycep, BicepElement=BicepElement, BicepParser=pycep.BicepParser, lark=lark)
    return _mods


def roots() -> tuple[str, str]:
    """Folders of pycep's and lark's code."""
    import lark

    return tuple(os.path.dirname(os.path.abspath(m.__file__)) + os.sep for m in (load()["pycep"], lark))


def parser(lines: bool = False, cache: bool = True):
    key = (lines, cache)
    if key not in _parsers:
        _parsers[key] = load()["BicepParser"](add_line_numbers=lines, cache=cache)
    return _parsers[key]


class Outcome:
    """Result or exception of one call."""

    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value, exc):
        self.ok, self.value, self.exc = ok, value, exc

    def describe(self) -> str:
        if self.ok:
            return "a result"
        return f"{type(self.exc).__name__}: {str(self.exc)[:300]}"


def call(fn, *args, **kwargs) -> Outcome:
    """Calls with what Python's default recursion limit leaves at the top level, whatever the harness itself may use."""
    limit = sys.getrecursionlimit()
    depth, frame = 0, sys._getframe()
    while frame is not None:
        depth, frame = depth + 1, frame.f_back
    try:
        sys.setrecursionlimit(depth + 990)
        return Outcome(True, fn(*args, **kwargs), None)
    except Exception as e:  # noqa: BLE001
        return Outcome(False, None, e)
    finally:
        sys.setrecursionlimit(limit)


def parse(text: str, lines: bool = False) -> Outcome:
    return call(parser(lines).parse, text=text)


def tree(text: str) -> Outcome:
    return call(parser(False).create_tree, text=text)


def documented_error(exc: BaseException) -> bool:
    """Errors a caller may expect for text that is no valid Bicep."""
    from lark.exceptions import UnexpectedInput, VisitError

    return isinstance(exc, (ValueError, UnexpectedInput, VisitError)) and not isinstance(exc, UnicodeError)


@lru_cache(maxsize=1)
def dictionary() -> dict[str, list]:
    """Words and numbers that occur in the sources under test: seeds for the generators' pools.

    Like a fuzzer's dictionary, it only biases which inputs are tried.
    """
    words: set[str] = set()
    strings: set[str] = set()
    ints: set[int] = set()
    for path in sorted((REPO / "pycep").rglob("*.py")):
        if path.name == "typing.py":
            continue
        try:
            mod = ast.parse(path.read_text(encoding="utf-8"))
        except (SyntaxError, OSError, ValueError):
            continue
        for node in ast.walk(mod):
            if isinstance(node, ast.Constant):
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and 0 <= v <= 100000:
                    ints.add(v)
                elif isinstance(v, str) and 0 < len(v) <= 40:
                    strings.add(v)
                    for w in re.findall(r"[A-Za-z_][A-Za-z0-9_]*", v):
                        words.add(w)
    try:
        grammar = (REPO / "pycep" / "bicep.lark").read_text(encoding="utf-8")
        for w in re.findall(r'"([A-Za-z_]\w*)"', grammar):
            words.add(w)
        for a in re.findall(r"~(\d+)(?:\.\.(\d+))?", grammar):
            ints.update(int(x) for x in a if x)
        for a in re.findall(r"\{(\d+)(?:,(\d+))?\}", grammar):
            ints.update(int(x) for x in a if x)
    except OSError:
        pass
    return {
        "words": sorted(w for w in words if len(w) <= 30),
        "strings": sorted(strings),
        "ints": sorted(ints),
    }


def error_key(exc: BaseException) -> str:
    """Type and message; the order in which lark lists the expected tokens is unspecified."""
    return f"{type(exc).__name__}: " + "\n".join(sorted(str(exc).splitlines()))
