"""P05: plain JSON files: messages are the string leaves, at their paths."""

from __future__ import annotations

import copy
import json

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.plain_json import plain_json_parse, plain_json_serialize
from moz.l10n.model import (
    Comment,
    Entry,
    Expression,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P05"
RULE = (
    "source: nested JSON objects with string leaves (any keys and strings, also empty ones), in several"
    " encodings and layouts, against a walk of the same object; model: resources with sections and"
    " multi-part ids, with conflicts, against a dict-of-dicts model; reject: leaves, comments, metadata"
    " and messages that are not supported. non-trivial = at least two levels, or two entries."
)

ALL = st.characters(exclude_categories=("Cs",))
key = gen.text([" ", ".", '"', "\\", "\n", "$", "\x00", "/"], any=ALL, max_size=5)
value = gen.text([" ", '"', "\\", "\n", "\t", "{", "}", "\x00", "\x7f", "\u2028", "</"], any=ALL, max_size=10)

tree = st.recursive(
    st.dictionaries(key, value, max_size=4),
    lambda kids: st.dictionaries(key, st.one_of(value, kids), max_size=4),
    max_leaves=6,
)


def leaves(obj, path=()):
    for k, v in obj.items():
        if isinstance(v, dict):
            yield from leaves(v, (*path, k))
        else:
            yield (*path, k), v


def prune(obj):
    """Without empty objects, which hold no messages."""
    out = {}
    for k, v in obj.items():
        v = prune(v) if isinstance(v, dict) else v
        if v != {}:
            out[k] = v
    return out


def check_source(case, ctx):
    obj, enc, ascii, indent = case
    src = json.dumps(obj, ensure_ascii=ascii, indent=indent)
    data = src if enc is None else src.encode(enc)
    expected = Resource(
        Format.plain_json,
        [Section((), [Entry(p, PatternMessage([v])) for p, v in leaves(obj)])],
    )
    res = plain_json_parse(data)
    d = gen.diff(expected, res)
    if d:
        raise Violation(f"{d}\nin {data!r}")
    back = "".join(plain_json_serialize(res))
    if not back.endswith("}\n"):
        raise Violation(f"no final newline: {back!r}")
    if list_form(json.loads(back)) != list_form(prune(obj)):
        raise Violation(f"{src!r} serialized as {back!r}")
    d = gen.diff(expected, plain_json_parse(back))
    if d:
        raise Violation(f"round trip: {d}\nin {back!r}")
    n = len(expected.sections[0].entries)
    if n > 1 or any(len(e.id) > 1 for e in expected.sections[0].entries):
        ctx.nontrivial()


def list_form(obj):
    """With the order of the keys."""
    return [(k, list_form(v)) for k, v in obj.items()] if isinstance(obj, dict) else obj


part = st.one_of(st.sampled_from(["a", "b", "c", ""]), key)


@st.composite
def resources(draw):
    sections = []
    for _ in range(draw(st.integers(0, 3))):
        sid = tuple(draw(st.lists(part, max_size=2)))
        entries = [
            Entry(
                tuple(draw(st.lists(part, min_size=1, max_size=3))),
                PatternMessage(draw(st.lists(value, max_size=2))),
            )
            for _ in range(draw(st.integers(0, 4)))
        ]
        if draw(st.integers(0, 3)) == 0:
            entries.append(Comment(""))
        sections.append(Section(sid, entries))
    commented = draw(st.integers(0, 3)) == 0
    return Resource(Format.plain_json, sections), commented


def check_model(case, ctx):
    res, commented = case
    want = {}
    conflict = False
    for s in res.sections:
        for i, e in enumerate([None, *s.entries]):
            if isinstance(e, Comment):
                continue
            path = s.id if e is None else s.id + e.id
            at = want
            for p in path if e is None else path[:-1]:
                at = at.setdefault(p, {})
                if not isinstance(at, dict):
                    conflict = True
                    break
            if conflict:
                break
            if e is not None:
                if isinstance(at.get(path[-1]), dict):
                    conflict = True
                    break
                at[path[-1]] = "".join(e.value.pattern)
        if conflict:
            break
    if conflict:
        ctx.label("conflict")
        try:
            src = "".join(plain_json_serialize(res))
        except ValueError:
            ctx.nontrivial()
            return
        raise Violation(f"conflicting ids not rejected: {src!r}")
    before = copy.deepcopy(res)
    src = "".join(plain_json_serialize(res))
    d = gen.diff(before, res)
    if d:
        raise Violation(f"serialize changed its input: {d}")
    if list_form(prune(json.loads(src))) != list_form(prune(want)):
        raise Violation(f"expected {want!r}, got {src!r}")
    if commented:
        c = copy.deepcopy(res)
        c.comment = "c"
        for s in c.sections:
            s.comment = "sc"
            s.entries.append(Comment("x"))
            for e in s.entries:
                e.comment = "ec"
        if "".join(plain_json_serialize(c, trim_comments=True)) != src:
            raise Violation("trim_comments changes messages")
    parsed = plain_json_parse(src)
    d = gen.diff(
        [Entry(p, PatternMessage([v])) for p, v in leaves(want)], parsed.sections[0].entries
    )
    if d:
        raise Violation(f"round trip: {d}\nin {src!r}")
    if len(list(leaves(want))) > 1:
        ctx.nontrivial()


bad_leaf = st.sampled_from([None, 1, 0, 1.5, True, False, [], ["a"], [{"a": "b"}]])
E = Expression
bad = st.sampled_from(
    ["rcomment", "scomment", "ecomment", "comment", "rmeta", "smeta", "emeta", "noid", "placeholder", "source", "select"]
)


def check_reject(case, ctx):
    obj, path, leaf, where, res = case
    # a leaf that is not a string
    bad_obj = copy.deepcopy(obj)
    at = bad_obj
    for p in path[:-1]:
        if not isinstance(at.get(p), dict):
            at[p] = {}
        at = at[p]
    at[path[-1]] = leaf
    try:
        got = plain_json_parse(json.dumps(bad_obj))
    except ValueError:
        pass
    else:
        raise Violation(f"parsed {bad_obj!r} as {got!r}")
    try:
        got = plain_json_parse(json.dumps(leaf))
    except ValueError:
        pass
    else:
        raise Violation(f"parsed root {leaf!r} as {got!r}")
    # content that is not supported
    e = Entry(("x",), PatternMessage(["v"]))
    s = Section(("unique section",), [e])
    r = Resource(Format.plain_json, [s])
    if where == "rcomment":
        r.comment = "c"
    elif where == "scomment":
        s.comment = "c"
    elif where == "ecomment":
        e.comment = "c"
    elif where == "comment":
        s.entries.append(Comment("c"))
    elif where == "rmeta":
        r.meta = [Metadata("k", "v")]
    elif where == "smeta":
        s.meta = [Metadata("k", "v")]
    elif where == "emeta":
        e.meta = [Metadata("k", "v")]
    elif where == "noid":
        e.id = ()
    elif where == "placeholder":
        e.value = PatternMessage(["a", E(VariableRef("x"))])
    elif where == "source":
        e.value = PatternMessage([E("x", attributes={"source": "x"})])
    else:
        e.value = SelectMessage({"n": E(VariableRef("n"), "number")}, (VariableRef("n"),), {("1",): ["x"]})
    try:
        src = "".join(plain_json_serialize(r))
    except ValueError:
        ctx.nontrivial((repr(bad_obj), where))
        return
    raise Violation(f"not rejected: {where} in {src!r}")


SUBS = [
    Sub(
        "source",
        lambda: st.tuples(
            tree,
            st.sampled_from([None, "utf-8", "utf-16", "utf-32-le", "utf-16-be"]),
            st.booleans(),
            st.sampled_from([None, 2]),
        ),
        check_source,
        8000,
    ),
    Sub("model", resources, check_model, 12000),
    Sub(
        "reject",
        lambda: st.tuples(tree, st.lists(key, min_size=1, max_size=3), bad_leaf, bad, st.none()),
        check_reject,
        2500,
    ),
]
