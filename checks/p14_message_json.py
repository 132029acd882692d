"""P14: message and entry JSON."""

from __future__ import annotations

import copy
import json
import os

from hypothesis import strategies as st

from checks.p12_mf2_syntax import identifier, m_literal, m_message
from checks.p13_mf2_data import MISC, SCHEMAS, expressions, mutated_json, named_message, patterns
from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats.mf2 import MF2ValidationError
from moz.l10n.message import entry_from_json, entry_to_json, message_from_json, message_to_json
from moz.l10n.model import Entry, Markup, Metadata, PatternMessage, SelectMessage, VariableRef

PROPERTY = "P14"
RULE = (
    "message: valid messages as JSON, compared to an independent representation and to the schema, and read back, also in pairs that"
    " must have different JSON; non-trivial = a placeholder, declaration or variant. entry: entries with identifiers of dots, backslashes"
    " and any other text, comments, metadata and properties, likewise, along with a second entry with an identifier made of the same"
    " characters; non-trivial = an identifier with a dot or backslash, or a property. mutate, mutate_entry: JSON of messages and entries with 1-2 parts"
    " deleted, replaced, duplicated or renamed: read, or rejected by a validation error, and rejected when its structure lacks a part; non-trivial = differs from its origin."
)
ASSUMPTIONS = [
    "catch-all keys with an empty name are the same as those without a name",
    "scalars of a wrong type (say, a number as a comment) need not be rejected, as the reader does not claim to validate the message",
    "entries without an identifier part are not generated",
]


# ------------------------------------------------------------------ independent representation


def j_opts(o):
    return {k: v if isinstance(v, str) else {"$": v.name} for k, v in o.items()}


def j_part(p):
    if isinstance(p, str):
        return p
    if isinstance(p, Markup):
        j = {{"open": "open", "close": "close", "standalone": "elem"}[p.kind]: p.name}
    else:
        j = {} if p.arg is None else {"_": p.arg} if isinstance(p.arg, str) else {"$": p.arg.name}
        if p.function:
            j["fn"] = p.function
    if p.options:
        j["opt"] = j_opts(p.options)
    if p.attributes:
        j["attr"] = dict(p.attributes)
    return j


def j_msg(m):
    decl = {n: j_part(e) for n, e in m.declarations.items()}
    if isinstance(m, PatternMessage):
        pat = [j_part(p) for p in m.pattern]
        return {"decl": decl, "msg": pat} if decl else pat
    alt = []
    for keys, pat in m.variants.items():
        ks = [k if isinstance(k, str) else {"*": k.value or ""} for k in keys]
        alt.append({"keys": ks, "pat": [j_part(p) for p in pat]})
    return {"decl": decl, "sel": [s.name for s in m.selectors], "alt": alt}


_validators = {}


def schema_error(name, data):
    if not _validators:
        import jsonschema
        from referencing import Registry, Resource
        from referencing.jsonschema import DRAFT7

        docs = {}
        for n in ("message", "entry"):
            with open(os.path.join(SCHEMAS, n + ".json")) as f:
                docs[n] = json.load(f)
        reg = Registry().with_resources([(d["$id"], Resource.from_contents(d, DRAFT7)) for d in docs.values()])
        for n, d in docs.items():
            _validators[n] = jsonschema.Draft7Validator(d, registry=reg)
    err = next(_validators[name].iter_errors(data), None)
    return None if err is None else err.message[:300]


def mutate_all(msg):
    """Change everything that can be changed in a message."""
    for p in [*expressions(msg), *(p for pat in patterns(msg) for p in pat if isinstance(p, Markup))]:
        p.options["zz"] = "1"
        p.attributes["zz"] = "1"
        for v in p.options.values():
            if isinstance(v, VariableRef):
                v.name += "!"
    for pat in patterns(msg):
        pat.append("zz")
    msg.declarations["zz"] = None
    if isinstance(msg, SelectMessage):
        msg.variants[("zz",)] = []


def check_message(case, ctx):
    msg, other = case
    orig = copy.deepcopy(msg)
    got = message_to_json(msg)
    want = j_msg(orig)
    try:
        text = json.dumps(got)
    except Exception as e:
        raise Violation(f"not JSON: {e!r}\n{orig}") from e
    if json.loads(text) != want or json.dumps(want, sort_keys=True) != json.dumps(got, sort_keys=True):
        raise Violation(f"JSON of {orig}\n  expected {json.dumps(want)}\n  got      {text}")
    err = schema_error("message", got)
    if err:
        raise Violation(f"JSON is not valid by the schema: {err}\n{text}")
    if "{" in text:
        ctx.nontrivial(text)
    for data in (got, json.loads(text)):
        back = message_from_json(data)
        d = gen.diff(orig, back) or gen.diff(orig, msg)
        if d:
            raise Violation(f"read back: {d}\n{text}")
    if got != want:
        raise Violation(f"reading changed the JSON\n{text}")
    back = message_from_json(got)
    mutate_all(back)
    if got != want:
        raise Violation(f"the message read from JSON shares its values: {text}")
    mutate_all(msg)
    if got != want:
        raise Violation(f"the JSON shares values of its message: {text}")
    if gen.diff(orig, other) and message_to_json(other) == want:
        raise Violation(f"different messages with the same JSON:\n{orig}\n{other}")


# ------------------------------------------------------------------ entries

id_part = st.one_of(
    st.text(".\\ab", max_size=5),
    st.text(".\\", max_size=4),
    gen.text(".\\ -#=\n", any=gen.ANY, max_size=6),
)


@st.composite
def entries(draw):
    eid = tuple(draw(st.lists(id_part, min_size=1, max_size=4)))
    val = draw(gen.weighted((2, named_message()), (1, st.just(None))))
    props = draw(st.dictionaries(st.one_of(identifier, m_literal), named_message(), max_size=2)) if draw(st.booleans()) else {}
    if val is None:
        val = PatternMessage([], draw(m_message()).declarations if draw(st.booleans()) else {})
    return Entry(
        eid,
        val,
        properties=props,
        comment=draw(gen.text("#\n ", max_size=6)),
        meta=[Metadata(k, v) for k, v in draw(st.lists(st.tuples(gen.text("a.", max_size=4), gen.text("b\n", max_size=4)), max_size=3))],
    )


@st.composite
def entry_pair(draw):
    entry = draw(entries())
    # an identifier that is put together from the same characters
    parts = list(entry.id)
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(parts) - 1))
        s = parts[i]
        k = draw(st.integers(0, len(s)))
        op = draw(st.integers(0, 4))
        if op == 0:
            parts[i : i + 1] = [s[:k], s[k:]]
        elif op == 1 and i + 1 < len(parts):
            parts[i : i + 2] = [s + draw(st.sampled_from(["", ".", "\\.", "\\"])) + parts[i + 1]]
        elif op == 2:
            parts[i] = s[:k] + s[k + 1 :]
        else:
            parts[i] = s[:k] + draw(st.sampled_from([".", "\\", "\\."])) + s[k:]
    return entry, tuple(parts)


def check_entry(case, ctx):
    entry, other_id = case
    orig = copy.deepcopy(entry)
    key, got = entry_to_json(entry)
    try:
        text = json.dumps([key, got])
    except Exception as e:
        raise Violation(f"not JSON: {e!r}\n{orig}") from e
    want = {}
    if orig.meta:
        want["@"] = [[m.key, m.value] for m in orig.meta]
    if orig.comment:
        want["#"] = orig.comment
    if got.get("=") is not None or not orig.properties or orig.value != PatternMessage([]):
        want["="] = j_msg(orig.value)
    if orig.properties:
        want["+"] = {k: j_msg(m) for k, m in orig.properties.items()}
    if json.loads(text)[1] != want:
        raise Violation(f"JSON of {orig}\n  expected {json.dumps(want)}\n  got      {text}")
    err = schema_error("entry", got)
    if err:
        raise Violation(f"JSON is not valid by the schema: {err}\n{text}")
    if not any("." in p or "\\" in p for p in orig.id) and key != ".".join(orig.id):
        raise Violation(f"key {key!r} for identifier {orig.id!r}")
    if any("." in p or "\\" in p for p in orig.id) or orig.properties:
        ctx.nontrivial(text)
    for k, data in ((key, got), json.loads(text)):
        back = entry_from_json(k, data)
        d = gen.diff(orig, back) or gen.diff(orig, entry)
        if d:
            raise Violation(f"read back: {d}\n{text}")
        if list(back.properties) != list(orig.properties):
            raise Violation(f"order of properties: {list(back.properties)}\n{text}")
    if json.loads(json.dumps(got)) != want:
        raise Violation(f"reading changed the JSON\n{text}")
    if other_id != orig.id:
        key2, _ = entry_to_json(Entry(other_id, orig.value))
        if key2 == key:
            raise Violation(f"identifiers {orig.id!r} and {other_id!r} have the same key {key!r}")
        back_id = entry_from_json(key2, got).id
        if back_id != other_id:
            raise Violation(f"identifier {other_id!r} is read back from {key2!r} as {back_id!r}")
    back = entry_from_json(key, got)
    for m in [back.value, *back.properties.values()]:
        mutate_all(m)
    back.meta.append(Metadata("zz", "zz"))
    back.properties["zz"] = None
    if got != want:
        raise Violation(f"the entry read from JSON shares its values: {text}")
    for m in [entry.value, *entry.properties.values()]:
        mutate_all(m)
    entry.meta.append(Metadata("zz", "zz"))
    entry.properties["zz"] = None
    for m in entry.meta:
        m.value += "!"
    if got != want:
        raise Violation(f"the JSON shares values of its entry: {text}")


# ------------------------------------------------------------------ malformed JSON


def has_shape(d):
    """Does it have the structure of a message, whatever its strings are?"""
    if isinstance(d, dict) and "sel" in d:
        return (
            isinstance(d.get("decl"), dict)
            and isinstance(d["sel"], (list, dict, str))
            and isinstance(d.get("alt"), (list, str, dict))
            and all(isinstance(a, dict) and "keys" in a and pat_shape(a.get("pat")) for a in d["alt"])
        )
    return pat_shape(d.get("msg") if isinstance(d, dict) else d)


def pat_shape(d):
    return isinstance(d, list) and all(
        isinstance(p, str) or (isinstance(p, dict) and set(p) & {"_", "$", "fn", "open", "close", "elem"}) for p in d
    )


J_NAMES = ["decl", "msg", "sel", "alt", "keys", "pat", "_", "$", "fn", "opt", "attr", "open", "close", "elem", "*"]
J_MISC = [*MISC, ["a", {"$": "b"}], {"$": "b"}, {"_": "b"}, {"fn": "f"}, {"elem": "b"}, {"*": ""}, {"decl": {}, "msg": ["x"]}, [["a", "b"]], [["a"]]]


def check_mutate(case, ctx):
    orig, data = case
    if orig != data:
        ctx.nontrivial(json.dumps(data))
    before = copy.deepcopy(data)
    bad = not has_shape(data) or schema_error("message", data) is not None
    try:
        msg = message_from_json(data)
    except MF2ValidationError as e:
        if not bad:
            raise Violation(f"valid JSON rejected: {e}\n{json.dumps(data)}") from e
        ctx.label("rejected")
        return
    except Exception as e:
        raise Violation(f"not a validation error: {e!r}\n{json.dumps(data)}") from e
    if not has_shape(data):
        raise Violation(f"JSON without the structure of a message accepted as {msg}\n{json.dumps(data)}")
    if data != before:
        raise Violation(f"reading changed the JSON\n{json.dumps(before)}")
    ctx.label("invalid but read" if bad else "valid")


def check_mutate_entry(case, ctx):
    orig, data = case
    if orig != data:
        ctx.nontrivial(json.dumps(data))
    bad = not isinstance(data, dict) or schema_error("entry", data) is not None
    shape = isinstance(data, dict)
    if shape and "=" in data:
        shape = has_shape(data["="])
    if shape and "+" in data:
        shape = isinstance(data["+"], dict) and all(map(has_shape, data["+"].values()))
    if shape and "@" in data:
        shape = isinstance(data["@"], (list, str, dict)) and all(isinstance(x, (list, str, dict)) and len(x) == 2 for x in data["@"])
        bad = bad or not shape
    try:
        entry = entry_from_json("k", data)
    except MF2ValidationError as e:
        if not bad:
            raise Violation(f"valid JSON rejected: {e}\n{json.dumps(data)}") from e
        ctx.label("rejected")
        return
    except Exception as e:
        raise Violation(f"not a validation error: {e!r}\n{json.dumps(data)}") from e
    if not shape:
        raise Violation(f"JSON without the structure of an entry accepted as {entry}\n{json.dumps(data)}")
    ctx.label("invalid but read" if bad else "valid")


SUBS = [
    Sub("message", lambda: st.tuples(named_message(), named_message()), check_message, 2500),
    Sub("entry", entry_pair(), check_entry, 2500),
    Sub("mutate", mutated_json(named_message(), message_to_json, J_MISC, J_NAMES), check_mutate, 3500),
    Sub("mutate_entry", mutated_json(entries(), lambda e: entry_to_json(e)[1], J_MISC, [*J_NAMES, "=", "+", "#", "@"]), check_mutate_entry, 2500),
]
