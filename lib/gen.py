"""Generators shared by the checks."""

from __future__ import annotations

from typing import Any, Sequence

from hypothesis import strategies as st

from moz.l10n.model import (
    CatchallKey,
    Comment,
    Entry,
    Expression,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

LETTERS = "abcxyzABZ"
WIDE = "0189_-éßжあ世界😀𝒳\u200d\u00a0\u2028\u0301ﬁ"
# every XML 1.0 character, and everything that UTF-8 can carry
ANY = st.characters(exclude_categories=("Cs",))
XML_CHARS = st.characters(
    exclude_categories=("Cs", "Cc"),
    include_characters="\t\n",
    exclude_characters="\ufffe\uffff",
)
NO_CONTROL = st.characters(exclude_categories=("Cs", "Cc", "Zl", "Zp"))


def weighted(*pairs: tuple[int, Any]) -> Any:
    """one_of, with integer weights."""
    return st.sampled_from([s for n, s in pairs for _ in range(n)]).flatmap(lambda s: s)


def text(
    special: str | Sequence[str] = "",
    *,
    any: Any = NO_CONTROL,
    min_size: int = 0,
    max_size: int = 12,
    exclude: str = "",
) -> Any:
    """Text rich in the given special characters or substrings, with arbitrary others."""
    sp = [c for c in special if c not in exclude] or ["a"]
    lets = [c for c in LETTERS + WIDE if c not in exclude]
    if exclude:
        any = any.filter(lambda c: c not in exclude)
    chars = st.integers(0, 9).flatmap(
        lambda n: st.sampled_from(sp) if n < 4 else st.sampled_from(lets) if n < 9 else any
    )
    # a few cheap alternatives to per-character flatmap
    fast = st.sampled_from(sp + sp + lets)
    # a few characters, again and again
    few = st.lists(st.sampled_from(sp + sp + sp + lets), min_size=1, max_size=3).flatmap(
        lambda cs: st.lists(st.sampled_from(cs), min_size=min_size, max_size=max_size)
    )
    return st.one_of(
        few.map("".join),
        st.lists(fast, min_size=min_size, max_size=max_size).map("".join),
        st.lists(fast, min_size=min_size, max_size=max_size).map("".join),
        st.lists(chars, min_size=min_size, max_size=max_size).map("".join),
    )


IDENT = st.text("abcdefgXYZ_019", min_size=1, max_size=6).filter(
    lambda s: s[0] not in "0129"
)


def ident(first: str = "abcXYZ_", rest: str = "abcXYZ_019-", max_size: int = 6) -> Any:
    return st.builds(
        lambda a, b: a + b, st.sampled_from(first), st.text(rest, max_size=max_size - 1)
    )


def comment_line(special: str = "", exclude: str = "", any: Any = NO_CONTROL) -> Any:
    return text(
        " #!;-/*" + special, any=any, min_size=1, max_size=10, exclude=exclude + "\n\r"
    ).map(lambda s: s.rstrip())


def comment(
    special: str = "",
    exclude: str = "",
    blank_lines: bool = True,
    any: Any = NO_CONTROL,
    lead_space: bool = True,
    min_size: int = 0,
) -> Any:
    """A comment as the model documents it: lines without trailing whitespace,
    not starting or ending with an empty line."""

    def fix(lines: list[str]) -> str:
        out = [ln if lead_space else ln.strip() for ln in lines]
        if not blank_lines:
            out = [ln for ln in out if ln]
        while out and not out[0]:
            out.pop(0)
        while out and not out[-1]:
            out.pop()
        res = "\n".join(out)
        return "c" if min_size and not res.strip() else res

    return st.lists(comment_line(special, exclude, any), min_size=min_size, max_size=3).map(fix)


def distinct_by(strategy: Any, key: Any, min_size: int = 0, max_size: int = 5) -> Any:
    return st.lists(strategy, min_size=min_size, max_size=max_size, unique_by=key)


# ---------------------------------------------------------------- comparisons


def diff(expected: Any, actual: Any, path: str = "") -> str | None:
    """First difference of two model values, with its location, or None.

    Everything that a user can see counts, also the fields that the dataclasses leave
    out of their own comparison: catch-all key names (but not line positions).
    """
    if isinstance(expected, Resource) and isinstance(actual, Resource):
        if expected.format != actual.format:
            return f"{path}.format: expected {expected.format}, got {actual.format}"
        for name in ("comment", "meta", "sections"):
            d = diff(getattr(expected, name), getattr(actual, name), f"{path}.{name}")
            if d:
                return d
        return None
    if type(expected) is not type(actual):
        return f"{path}: expected {expected!r}, got {actual!r}"
    if isinstance(expected, (list, tuple)):
        for i, (a, b) in enumerate(zip(expected, actual)):
            d = diff(a, b, f"{path}[{i}]")
            if d:
                return d
        if len(expected) != len(actual):
            return f"{path}: expected {len(expected)} items, got {len(actual)}: {expected!r} / {actual!r}"
        return None
    if isinstance(expected, dict):
        if [str_key(k) for k in expected] != [str_key(k) for k in actual]:
            return f"{path}: expected keys {list(expected)!r}, got {list(actual)!r}"
        for (k, a), (_, b) in zip(expected.items(), actual.items()):
            d = diff(a, b, f"{path}[{k!r}]")
            if d:
                return d
        return None
    if isinstance(expected, CatchallKey):
        return None if expected.value == actual.value else f"{path}: {expected!r} != {actual!r}"
    names = {
        Entry: ("id", "comment", "meta", "value", "properties"),
        Section: ("id", "comment", "meta", "entries"),
        Comment: ("comment",),
        Metadata: ("key", "value"),
        PatternMessage: ("declarations", "pattern"),
        SelectMessage: ("declarations", "selectors", "variants"),
        Expression: ("arg", "function", "options", "attributes"),
        Markup: ("kind", "name", "options", "attributes"),
        VariableRef: ("name",),
    }.get(type(expected))
    if names:
        for name in names:
            d = diff(getattr(expected, name), getattr(actual, name), f"{path}.{name}")
            if d:
                return d
        return None
    return None if expected == actual else f"{path}: expected {expected!r}, got {actual!r}"


def str_key(k: Any) -> Any:
    if isinstance(k, tuple):
        return tuple(str_key(x) for x in k)
    return ("*", k.value) if isinstance(k, CatchallKey) else k
