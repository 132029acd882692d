"""Calls of the JavaScript package in /repo/js, through js/server.mjs."""

from __future__ import annotations

import atexit
import json
import os
import resource
import select
import subprocess
from typing import Any

from lib.harness import REPO, VERIF, HarnessError, Violation

LIMIT = 40.0  # seconds for one (tiny) call: beyond that it does not end
_server: Any = None


class JSError(Exception):
    """What the call has thrown."""

    def __init__(self, data: dict[str, Any]) -> None:
        super().__init__(f"{data['type']}: {data['message']}")
        self.type: str = data["type"]
        self.message: str = data["message"]
        self.range = data["range"]
        self.pos = data["pos"]


def _limits() -> None:
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def _start() -> Any:
    global _server
    if _server is None or _server[0] != os.getpid() or _server[1].poll() is not None:
        proc = subprocess.Popen(
            ["node", "--max-old-space-size=1024", str(VERIF / "js/server.mjs"), REPO],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=_limits,
        )  # fmt: skip
        _server = os.getpid(), proc
        atexit.register(_stop)
    return _server[1]


def _stop() -> None:
    global _server
    if _server and _server[0] == os.getpid():
        _server[1].kill()
        _server[1].wait()
    _server = None


def request(fn: str, *args: Any, **kw: Any) -> dict[str, Any]:
    """The whole response."""
    proc = _start()
    proc.stdin.write(json.dumps({"fn": fn, "args": args, **kw}).encode() + b"\n")
    proc.stdin.flush()
    ready, _, _ = select.select([proc.stdout], [], [], LIMIT)
    if not ready:
        _stop()
        raise Violation(f"{fn}() does not end: {args!r}")
    line = proc.stdout.readline()
    if not line:
        err = proc.stderr.read().decode("utf8", "replace")[-2000:]
        _stop()
        raise HarnessError(f"node has ended in {fn}(*{args!r}): {err}")
    return json.loads(line)


def call(fn: str, *args: Any, **kw: Any) -> Any:
    res = request(fn, *args, **kw)
    if "error" in res:
        raise JSError(res["error"])
    return res["value"]


# What the packages that are not installed would give: @fluent/syntax has the same syntax tree and
# errors as fluent.syntax, and the data model of messageformat is that of MF2 data-model JSON.


def ftl_entry(src: str) -> dict[str, Any]:
    from fluent.syntax import FluentParser

    return {src: FluentParser().parse_entry(src).to_json()}


def _utf16(src: str, pos: int) -> int:
    return len(src[:pos].encode("utf-16-le", "surrogatepass")) // 2


def ftl_inline(src: str) -> dict[str, Any]:
    """Inline expressions by their position"""
    from fluent.syntax import FluentParser
    from fluent.syntax.errors import ParseError
    from fluent.syntax.stream import FluentParserStream

    res: dict[str, Any] = {}
    for i, ch in enumerate(src):
        if ch == "{":
            ps = FluentParserStream(src)
            ps.index = i
            ps.next()
            ps.skip_blank()
            key = str(_utf16(src, ps.index))
            try:
                ast = FluentParser().get_inline_expression(ps).to_json()
                res[key] = {"ast": ast, "end": _utf16(src, ps.index)}
            except ParseError as err:
                res[key] = {"error": err.code, "end": _utf16(src, ps.index)}
    return res


def mf2_model(src: str) -> dict[str, Any]:
    from moz.l10n.formats.mf2 import MF2ParseError, mf2_parse_message, mf2_to_json

    try:
        return {src: {"model": _function_refs(mf2_to_json(mf2_parse_message(src)))}}
    except MF2ParseError as err:
        return {src: {"error": str(err), "start": _utf16(src, err.pos), "end": _utf16(src, err.pos) + 1}}


def _function_refs(x: Any) -> Any:
    if isinstance(x, list):
        return [_function_refs(v) for v in x]
    if not isinstance(x, dict):
        return x
    expr = x.get("type") == "expression"
    return {"functionRef" if expr and k == "function" else k: _function_refs(v) for k, v in x.items()}
