"""P31: what the JavaScript package serializes reads back, with the Python package, as the same message."""

from __future__ import annotations

import copy
import json
import re
from xml.etree import ElementTree as ET

from fluent.syntax import ast as ftl
from hypothesis import strategies as st

from checks import p01_properties as p01
from checks import p06_webext as p06
from checks import p08_fluent as p08
from checks import p09_android as p09
from checks import p10_xliff as p10
from checks import p11_xcode as p11
from checks import p12_mf2_syntax as p12
from checks import p15_messages as p15
from checks import p30_js_model as p30
from lib import gen, js
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.fluent import fluent_parse_entry
from moz.l10n.message import message_from_json, message_to_json, parse_message, serialize_message
from moz.l10n.message.to_json import entry_to_json
from moz.l10n.model import CatchallKey, Entry, Expression, Markup, PatternMessage, SelectMessage
from moz.l10n.resource import parse_resource

PROPERTY = "P31"
RULE = (
    "For each format, message models (from the generators of the checks of its Python implementation) as JSON are serialized by the JavaScript package;"
    " the result is read by the Python package, alone and in a file, and must be the message again. Fluent entries are from FTL sources, and are compared to the meaning of the original source."
    " any: arbitrary patterns in every format; the function returns a string, or throws a SerializeError; with an error callback it does not throw, and the callback is called exactly when it would have."
    " skipped: an unsupported part in a pattern only changes its own place in what is written with an error callback."
    " fluent_annotated: functions on variables that are declared with functions."
    " Non-trivial = a placeholder or a character with a meaning in the format."
)
ASSUMPTIONS = [
    "the JavaScript runs in Node, bundled with esbuild as it is in the working tree, with a minimal DOM (js/dom.mjs) that follows the serialization of browsers",
    "leading and trailing white space of Fluent and Android messages is not kept; Fluent messages hold what can be written in Fluent without quotes",
    "the names of elements and attributes are XML names, without Clark notation",
]


def outcome(fn, *args, **kw):
    """The serialization, which must be the same with an error callback, and not change its arguments"""
    res = js.request(fn, *args, frozen=True, **kw)
    more = js.request(fn, *args, frozen=True, collect="option" if "fluent" in fn else True) if fn != "mf2SerializeMessage" else res
    what = f"{fn}{json.dumps(args)}"
    if res["mutated"] or more["mutated"]:
        raise Violation(f"{what} changes its arguments")
    if "error" in more:
        raise Violation(f"{what} throws, with an error callback: {more['error']}")
    if "error" in res:
        if res["error"]["type"] != "SerializeError":
            raise Violation(f"{what} throws {res['error']}")
        if not more["errors"] or more["errors"][0] != res["error"]:
            raise Violation(f"{what} throws {res['error']}, but with a callback has errors {more['errors']}")
    elif more.get("errors") or more["value"] != res["value"]:
        raise Violation(f"{what} is {res['value']!r}, but with an error callback {more['value']!r} and {more['errors']}")
    elif not isinstance(res["value"], str):
        raise Violation(f"{what} is {res['value']!r}")
    return res.get("value")


def write(fmt, msg):
    """The serialization of a message that must have one"""
    pat = message_to_json(PatternMessage(msg.pattern))
    res = outcome("serializePattern", fmt, pat) if fmt in ("plain", "mf2") else None
    if fmt != "plain":
        fn = fmt + "SerializePattern"
        args = [pat, False] if fmt == "mf2" else [pat]
        direct = js.call(fn, *args) if fmt == "mf2" else outcome(fn, *args)
        via = js.request("serializePattern", fmt, pat)
        if via.get("value") != direct:
            raise Violation(f"serializePattern({fmt}, {json.dumps(pat)}) is {via}, not {direct!r}")
        res = direct
    if res is None:
        raise Violation(f"{fmt}: {json.dumps(pat)} is rejected: {via}")
    return res


def same(fmt, want, got, src):
    want = copy.deepcopy(want)
    want.normalize()
    d = gen.diff(want, got)
    if d:
        raise Violation(f"{fmt}: {message_to_json(want)}\nas {src!r} is read as {message_to_json(got)}:\n{d}")


# ------------------------------------------------------------------ text formats

prop_text = st.one_of(p15.printf_text, gen.text(p01.SPECIAL + "%", any=p01.ALL, max_size=10))


def check_properties(text, ctx):
    parts = p15.scan(text)
    src = write("properties", PatternMessage(parts))
    if not text.isalnum():
        ctx.nontrivial(text)
    if any(c in src for c in "\n\r"):
        raise Violation(f"line break in {src!r}")
    for opts in ({}, {"printf_placeholders": True}):
        want = PatternMessage(parts if opts else [text] if text else [])
        same("properties", want, parse_message(Format.properties, src, **opts), src)
    res = parse_resource(Format.properties, f"k = {src}\nl = x\n")
    entries = list(res.all_entries())
    if [e.id for e in entries] != [("k",), ("l",)]:
        raise Violation(f"{src!r} in a file gives {entries}")
    same("properties", PatternMessage([text] if text else []), entries[0].value, src)
    back = js.call("propertiesParsePattern", src)
    if back != ([text] if text else []):
        raise Violation(f"{src!r} is read as {back}")


def check_webext(msg, ctx):
    if any(not isinstance(p, str) or "$" in p for p in msg.pattern):
        ctx.nontrivial(repr(msg))
    src = write("webext", msg)
    opts = {}
    want = copy.deepcopy(msg)
    for e in want.pattern:
        if isinstance(e, Expression):
            source = e.attributes.setdefault("source", f"${e.arg.name}$")
            if e.arg.name in msg.declarations:
                decl = msg.declarations[e.arg.name]
                ph = {"content": decl.arg if isinstance(decl.arg, str) else decl.attributes.get("source", f"${decl.arg.name[3:]}")}
                if "example" in decl.attributes:
                    ph["example"] = decl.attributes["example"]
                opts[source[1:-1]] = ph
    got = parse_message(Format.webext, src, webext_placeholders=opts)
    same("webext", want, got, src)
    back = js.call("webextParsePattern", message_to_json(want), src)
    if not js.call("messagesEqual", js.call("normalizeMessage", back), message_to_json(PatternMessage(got.pattern))):
        raise Violation(f"{src!r} is read by Python as {got.pattern}, and by JavaScript as {back}")


def check_plain(text, ctx):
    if not text.isalnum():
        ctx.nontrivial(text)
    for parts in ([text] if text else [], list(text), ["", *text.split(" "), ""]):
        src = write("plain", PatternMessage(parts))
        if src != "".join(parts):
            raise Violation(f"{parts} is serialized as {src!r}")
    if js.call("parsePattern", "plain", text) != ([text] if text else []):
        raise Violation(f"{text!r} is not parsed as itself")


# ------------------------------------------------------------------ XML


def check_android(pat, ctx):
    src = write("android", PatternMessage(pat))
    if set(src) & set("\\<&%"):
        ctx.nontrivial(src)
    if isinstance(pat[0] if pat else None, str) and src[:1] in ("@", "?"):
        raise Violation(f"android: {message_to_json(PatternMessage(pat))} starts as a reference: {src!r}")
    doc = "<!DOCTYPE resources [<!ENTITY foo 'bar'><!ENTITY Bar_1 'x'>]>" + f'<resources xmlns:xliff="{p09.XLIFF}"><string name="k">{src}</string></resources>'
    got = [e for e in parse_resource(Format.android, doc, android_literal_quotes=False).all_entries() if e.id == ("k",)]
    same("android", PatternMessage(pat), got[0].value, src)
    if "xliff:" not in src:
        same("android", PatternMessage(pat), parse_message(Format.android, src), src)
    back = js.call("androidParsePattern", src)
    d = gen.diff(got[0].value, message_from_json(back))
    if d:
        raise Violation(f"{src!r} is read by Python as {got[0].value}, and by JavaScript as {back}: {d}")


def bare(msg):
    return not any(p.name.startswith("{") or any(k.startswith("{") for k in p.options) for p in msg.pattern if isinstance(p, Markup))


def check_xliff(msg, ctx):
    src = write("xliff", msg)
    if set(src) & set("<&\r\n"):
        ctx.nontrivial(src)
    same("xliff", msg, parse_message(Format.xliff, src), src)
    back = js.call("xliffParsePattern", src)
    same("xliff", msg, message_from_json(js.call("normalizeMessage", back)), src)


def check_xcode(toks, ctx):
    msg = PatternMessage(p11.pattern(toks))
    src = write("xliff", msg)
    full = parse_message(Format.xliff, src, xliff_is_xcode=True)
    if "%" in src:
        ctx.nontrivial(src)
    same("xcode", msg, full, src)
    for part in msg.pattern:
        if isinstance(part, Expression):
            part.attributes.pop("index", None)  # which only the Python implementation includes
    back = js.call("xliffParsePattern", src, True)
    same("xcode", msg, message_from_json(js.call("normalizeMessage", back)), src)


# ------------------------------------------------------------------ MF2


def check_mf2(msg, ctx):
    data = message_to_json(msg)
    src = outcome("mf2SerializeMessage", data)
    if src is None:
        raise Violation(f"{json.dumps(data)} is rejected")
    if re.search(r"[^\w ]", src):
        ctx.nontrivial(src)
    got = parse_message(Format.mf2, src)
    p12.check_meaning(msg, got, src)
    if isinstance(msg, PatternMessage) and not msg.declarations:
        pat = write("mf2", msg)
        p12.check_meaning(msg, parse_message(Format.mf2, "{{" + pat + "}}"), pat)
        for quoted in (True, "auto"):
            p12.check_meaning(msg, parse_message(Format.mf2, js.call("mf2SerializePattern", data, quoted)), pat)
    back = js.call("mf2ParseMessage", src, mf2=js.mf2_model(src))
    if not js.call("messagesEqual", back, message_to_json(got)):
        raise Violation(f"{src!r} is read by Python as {message_to_json(got)}, and by JavaScript as {back}")


# ------------------------------------------------------------------ Fluent


@st.composite
def ftl_entries(draw):
    return draw(p08.entry_src().filter(lambda e: e[0] == "entry"))[2]


def check_fluent(src, ctx):
    tree = p08.PARSER.parse_entry(src)
    if not isinstance(tree, (ftl.Message, ftl.Term)) or tree.span.end < len(src.rstrip("\n ")):
        ctx.label("not one entry")
        return
    entry = fluent_parse_entry(src)
    name, data = entry_to_json(entry)
    for msg in (entry.value, *entry.properties.values()):
        for pat in [msg.pattern] if isinstance(msg, PatternMessage) else msg.variants.values():
            if pat and isinstance(pat[0], str) and pat[0].startswith((" ", "\n")):
                ctx.label("leading space")  # indented more than a last line that has only a carriage return
                return
    if re.search("[{\n]", src) or tree.attributes:
        ctx.nontrivial(src)
    res = js.request("fluentSerializeEntry", name, data, frozen=True)
    if "error" in res or res["mutated"]:
        raise Violation(f"{src!r} as {json.dumps([name, data])}: {res}")
    out = res["value"]
    what = f"{src!r}\nserialized as {out!r}\n{json.dumps(data)}"
    got = p08.PARSER.parse_entry(out)
    if not isinstance(got, type(tree)) or got.id.name != tree.id.name or got.span.end < len(out.rstrip("\n")):
        raise Violation(f"{what}: {got}")
    p08.same_meaning(got.value, entry.value, what)
    attrs = {a.id.name: a.value for a in got.attributes}
    if len(attrs) != len(got.attributes) or set(attrs) != set(entry.properties):
        raise Violation(f"attributes: {what}")
    order = sorted(attrs, key=lambda a: a.lower().replace("accesskey", "\uffffaccesskey"))
    if [a.lower() for a in attrs] != [a.lower() for a in order]:
        raise Violation(f"order of the attributes: {what}")
    for k, m in entry.properties.items():
        p08.same_meaning(attrs[k], m, f"{k}: {what}")
    if not isinstance(entry.value, SelectMessage) and "=" in data:
        pat = message_to_json(entry.value)
        one = outcome("fluentSerializePattern", pat, None)
        if one is None:
            raise Violation(f"the pattern is rejected: {what}")
        back = js.call("fluentParsePattern", one, ftl=js.ftl_inline(one))
        p08.equal_meaning(PatternMessage(entry.value.pattern), message_from_json(back), one)


def trimmed(pat):
    """Without white space at its ends, and without empty or adjacent text"""
    pat = message_from_json(message_to_json(PatternMessage(pat))).pattern
    while pat and isinstance(pat[0], str):
        pat[0] = pat[0].lstrip()
        if pat[0]:
            break
        del pat[0]
    while pat and isinstance(pat[-1], str):
        pat[-1] = pat[-1].rstrip()
        if pat[-1]:
            break
        del pat[-1]
    return pat


def check_fluent_model(msg, ctx):
    msg = copy.deepcopy(msg)
    msg.normalize()
    if isinstance(msg, SelectMessage):
        msg.variants = dict(sorted(((k, trimmed(v)) for k, v in msg.variants.items()), key=lambda kv: [(str(k), isinstance(k, str)) for k in kv[0]]))
    else:
        msg.pattern = trimmed(msg.pattern)
    data = message_to_json(msg)
    res = js.request("fluentSerializeEntry", "a", {"=": data, "+": {"b": data}}, frozen=True)
    what = f"{json.dumps(data)}: {res}"
    if res["mutated"]:
        raise Violation(f"arguments changed: {what}")
    if "error" in res:
        raise Violation(what)
    if isinstance(msg, SelectMessage) or re.search("[{}]", res["value"]):
        ctx.nontrivial(what)
    tree = p08.PARSER.parse_entry(res["value"])
    if not isinstance(tree, ftl.Message) or tree.id.name != "a" or [a.id.name for a in tree.attributes] != ["b"]:
        raise Violation(f"{what} is read as {tree}")
    if isinstance(msg, SelectMessage) and not any(isinstance(k, CatchallKey) and k.value for keys in msg.variants for k in keys):
        for names in p08.variant_names(tree):
            if len(set(names)) != len(names):
                raise Violation(f"variants {names}: {what}")
    got = fluent_parse_entry(res["value"])
    one = js.call("fluentSerializeEntry", "a", {"=": data})
    p08.equal_meaning(msg, fluent_parse_entry(one).value, f"{what} and without attributes {one!r}")
    p08.equal_meaning(msg, got.value, what)
    p08.equal_meaning(msg, got.properties["b"], what)


NAME = r"[a-zA-Z][a-zA-Z0-9_-]*"
NUM = r"-?[0-9]+(\.[0-9]+)?"
# Where a name is used, and what it may be
SLOTS = {
    "id": (f"-?{NAME}", lambda s: [s, {"=": ["x"]}]),
    "property": (NAME, lambda s: ["a", {"=": ["x"], "+": {s: ["y"]}}]),
    "key": (f"{NAME}|{NUM}", lambda s: ["a", {"=": {"decl": {"n": {"$": "n", "fn": "number"}}, "sel": ["n"], "alt": [{"keys": [s], "pat": ["x"]}, {"keys": [{"*": "dflt"}], "pat": ["y"]}]}}]),
    "default": (f"{NAME}|{NUM}|", lambda s: ["a", {"=": {"decl": {"n": {"$": "n", "fn": "number"}}, "sel": ["n"], "alt": [{"keys": ["one"], "pat": ["x"]}, {"keys": [{"*": s}], "pat": ["y"]}]}}]),
    "variable": (NAME, lambda s: ["a", {"=": [{"$": s}]}]),
    "variable in variant": (NAME, lambda s: ["a", {"=": {"decl": {"n": {"$": "n", "fn": "string"}}, "sel": ["n"], "alt": [{"keys": [{"*": "x"}], "pat": [{"$": s}]}]}}]),
    "declared": (NAME, lambda s: ["a", {"=": {"decl": {"n": {"$": s, "fn": "number"}}, "sel": ["n"], "alt": [{"keys": [{"*": "x"}], "pat": [{"$": "n"}]}]}}]),
    "selector": (NAME, lambda s: ["a", {"=": {"decl": {"n": {"$": s, "fn": "string"}}, "sel": ["n"], "alt": [{"keys": [{"*": "x"}], "pat": ["y"]}]}}]),
    "argument": (NAME, lambda s: ["a", {"=": [{"$": s, "fn": "foo", "attr": {"fluent-fn": "FOO"}}]}]),
    "number": (NAME, lambda s: ["a", {"=": [{"$": s, "fn": "number", "opt": {"x": "1"}}]}]),
    "function": ("string|number|datetime|", lambda s: ["a", {"=": [{"$": "x", "fn": s}]}]),
    "fluent-fn": ("[A-Z][A-Z0-9_-]*", lambda s: ["a", {"=": [{"$": "x", "fn": "foo", "attr": {"fluent-fn": s}}]}]),
    "option": (NAME, lambda s: ["a", {"=": [{"$": "x", "fn": "number", "opt": {s: "1"}}]}]),
    "reference": (f"-?{NAME}|{NAME}\\.{NAME}", lambda s: ["a", {"=": [{"_": s, "fn": "message"}]}]),
    "term": (f"-{NAME}", lambda s: ["a", {"=": [{"_": s, "fn": "message", "opt": {"x": "1"}}]}]),
    "term attribute": (f"-{NAME}\\.{NAME}", lambda s: ["a", {"=": {"decl": {"n": {"_": s, "fn": "message"}}, "sel": ["n"], "alt": [{"keys": [{"*": "x"}], "pat": ["y"]}]}}]),
}  # fmt: skip
names = st.one_of(
    st.sampled_from(
        ["one", "a", "-a", "a.b", "-a.b", "A-1", "FOO", "FOO_1", "Foo", "1", "-1.50", "1.", "1e5", "0x1", "Infinity", "", " ", "é", "aé", "a b", "--a", "a.b.c"]
        + ["string", "number", "datetime", "message", "foo", "ns:number", "constructor", "toString", "hasOwnProperty", "_a", "a\n", "a ", "1 ", "\u0661", "\u00a01"]
    ),
    gen.text("aB1-_. é\n", any=gen.ANY, max_size=4),
)


def check_fluent_names(case, ctx):
    slot, name = case
    rx, make = SLOTS[slot]
    args = make(name)
    res = js.request("fluentSerializeEntry", *args)
    what = f"{slot} {name!r}: {json.dumps(args)}: {res}"
    if not re.fullmatch(rx, name):
        ctx.nontrivial(f"{slot} {name!r}")
        if "error" not in res or res["error"]["type"] != "SerializeError":
            raise Violation(f"not rejected: {what}")
        return
    if "error" in res:
        raise Violation(f"rejected: {what}")
    got = fluent_parse_entry(res["value"])
    if got.id != (args[0],) or set(got.properties) != set(args[1].get("+", {})):
        raise Violation(what)
    for k, v in {"=": args[1]["="], **args[1].get("+", {})}.items():
        p08.equal_meaning(message_from_json(v), got.value if k == "=" else got.properties[k], what)


bad_entries = p08.bad.filter(lambda e: isinstance(e, Entry) and len(e.id) == 1)


def check_fluent_reject(entry, ctx):
    ctx.nontrivial(repr(entry))
    for id_ in (entry.id[0], "-" + entry.id[0]):
        data = {"=": message_to_json(entry.value), "+": {k: message_to_json(v) for k, v in entry.properties.items()}}
        res = js.request("fluentSerializeEntry", id_, data)
        if "error" not in res or res["error"]["type"] != "SerializeError":
            raise Violation(f"not rejected: {json.dumps([id_, data])}: {res}")


def annotated():
    """Functions on a variable"""
    fn = st.sampled_from([{}, {"fn": "number"}, {"fn": "number", "opt": {"a": "1"}}, {"fn": "string"}, {"fn": "datetime"}, {"fn": "datetime", "opt": {"b": "x"}}, {"fn": "foo", "attr": {"fluent-fn": "FOO"}}])
    return st.tuples(fn, st.sampled_from(["n", "x"]), fn, st.booleans())


def call_of(fn, arg):
    return fn["attr"]["fluent-fn"] if "attr" in fn else fn["fn"].upper(), arg, sorted(fn.get("opt", {}).items())


def check_fluent_annotated(case, ctx):
    """A placeholder has the function of its declaration as well as its own, or is not supported"""
    inner, name, outer, selector = case
    if inner and outer:
        ctx.nontrivial(repr(case))
    pat = ["a ", {"$": "n", **outer}, " b"]
    if selector:
        inner = inner or {"fn": "number"}
        data = {"decl": {"n": {"$": name, **inner}}, "sel": ["n"], "alt": [{"keys": ["one"], "pat": pat}, {"keys": [{"*": "other"}], "pat": ["c"]}]}
    else:
        data = {"decl": {"n": {"$": name, **inner}}, "msg": pat}
    res = js.request("fluentSerializeEntry", "a", {"=": data})
    what = f"{json.dumps(data)}: {res}"
    plain = [{"fn": "string"}, {"fn": "number"}]
    if "error" in res:
        if res["error"]["type"] != "SerializeError" or inner in [{}, *plain] or not outer or inner["fn"] == outer["fn"]:
            raise Violation(what)
        ctx.label("rejected")
        return
    if inner in plain or not inner:
        want = None if outer in plain or not outer else call_of(outer, name)
    elif not outer:
        want = call_of(inner, name)
    elif inner["fn"] == outer["fn"]:
        want = call_of({**outer, "opt": {**inner.get("opt", {}), **outer.get("opt", {})}}, name)
    else:
        raise Violation(f"the function of the declaration is lost: {what}")
    tree = p08.PARSER.parse_entry(res["value"])
    pattern = tree.value
    if selector:
        pattern = pattern.elements[0].expression.variants[0].value
    exp = pattern.elements[1].expression
    if isinstance(exp, ftl.FunctionReference):
        named = [(a.name.name, getattr(a.value, "value", None)) for a in exp.arguments.named]
        got = exp.id.name, exp.arguments.positional[0].id.name, sorted(named)
    else:
        got = None if exp.id.name == name else exp
    if got != want:
        raise Violation(f"{what}: placeholder {got}, not {want}")


# ------------------------------------------------------------------ anything

any_pattern = st.lists(
    st.one_of(
        gen.text("\\{}<>&'\"%$ \n\t|.[*", any=gen.ANY, max_size=4),
        p30.expr(),
        p30.markup(),
        st.fixed_dictionaries({"$": st.sampled_from(["arg1", "n", "a b"])}, optional={"fn": st.sampled_from(["number", "entity", "reference", "html", "message", "string", "datetime", "xliff:g"]), "attr": st.sampled_from([{"source": "%1$s"}, {"source": ""}, {"source": True}, {"fluent-fn": "X"}, {"translate": "no"}])}),
        st.fixed_dictionaries({"_": st.sampled_from(["x", "@string/a", "-t.a", "-t", "a.b", "", "%"])}, optional={"fn": st.sampled_from(["number", "entity", "reference", "html", "message", "string"]), "attr": st.sampled_from([{"source": "%1$s"}, {"source": ""}, {"source": True}, {"fluent-fn": "X"}, {"translate": "no"}])}),
        st.sampled_from([{"open": "b"}, {"close": "b"}, {"open": "i"}, {"close": "i"}, {"elem": "x"}, {"close": "b", "opt": {"a": "b"}}, {"open": "b", "opt": {"a": {"$": "v"}}}]),
    ),
    max_size=4,
)
tags = st.lists(st.sampled_from([{k: n} for k in ("open", "close") for n in "bi"] + ["x", {"elem": "x"}]), min_size=2, max_size=6)
UNSUPPORTED = {
    "plain": lambda p: not isinstance(p, str),
    "properties": lambda p: not isinstance(p, str) and not isinstance(p.get("attr", {}).get("source"), str),
    "webext": lambda p: not isinstance(p, str) and "$" not in p,
}


def lenient(part):
    """Whether Python supports a part in Android strings that JavaScript does not, or the other way around"""
    if isinstance(part, str):
        return False
    if "elem" in part or "x:y" in str(part) or part.get("attr", {}).get("source") is True:
        return True
    return part.get("fn", "html") not in ("html", "entity", "xliff:g") and "source" not in part.get("attr", {})


def read_android(src):
    doc = f'<!DOCTYPE x [<!ENTITY n "n"><!ENTITY arg1 "n">]><resources xmlns:xliff="{p09.XLIFF}"><string name="k">{src}</string></resources>'
    try:
        return [e.value for e in parse_resource(Format.android, doc, android_literal_quotes=False).all_entries() if e.id == ("k",)]
    except Exception:
        return None


def check_skipped(case, ctx):
    """With an error callback, only the parts that are not supported are left out"""
    parts, idx, fmt = case
    pat = ["a"]
    for p in parts:
        pat += [p, "b"]
    idx = min(2 * idx + 1, len(pat))
    bad = {"webext": {"_": "x"}, "properties": {"_": "x"}, "plain": {"_": "x"}}.get(fmt, {"elem": "a b"})
    more = pat[:idx] + [bad] + pat[idx:]
    want = js.request("serializePattern", fmt, pat, collect=True)
    got = js.request("serializePattern", fmt, more, collect=True)
    what = f"{fmt}: {json.dumps(more)} is serialized with an error callback as {got}, and without {json.dumps(bad)} as {want}"
    if "error" in want or "error" in got:
        raise Violation(what)
    if parts:
        ctx.nontrivial(what)
    # Text formats mark the place of the part
    if got["value"].replace("{\ufffd}", "") != want["value"].replace("{\ufffd}", "") or len(got["errors"]) != len(want["errors"]) + 1:
        raise Violation(what)


def check_any(pat, ctx):
    if any(not isinstance(p, str) for p in pat):
        ctx.nontrivial(json.dumps(pat))
    pat = [p for p in pat if isinstance(p, str) or not set(p.get("opt", {})) & {"__proto__"}]
    for fmt in ("android", "fluent", "properties", "webext", "xliff"):
        res = outcome(fmt + "SerializePattern", pat, *([None] if fmt == "fluent" else []))
        by_format = outcome("serializePattern", fmt, pat)
        if by_format != res:
            raise Violation(f"{fmt}: {json.dumps(pat)} is serialized as {res!r}, but by its format as {by_format!r}")
        ctx.label(f"{fmt} {'rejected' if res is None else 'written'}")
        if fmt in UNSUPPORTED and (res is None) is not any(map(UNSUPPORTED[fmt], pat)):
            raise Violation(f"{fmt}: {json.dumps(pat)} is serialized as {res!r}")
        if res is not None and fmt in ("android", "xliff"):
            try:
                ET.fromstring(f'<!DOCTYPE x [<!ENTITY n "n"><!ENTITY arg1 "n">]><x xmlns:xliff="x" xmlns:x="x">{res}</x>')
            except (ET.ParseError, UnicodeError) as err:
                raise Violation(f"{fmt}: {json.dumps(pat)} is serialized as {res!r}: {err}") from None
        if fmt == "xliff" and all(isinstance(p, str) or "_" in p or "$" in p or p.get("fn") for p in pat):
            want = [p if isinstance(p, str) else s if isinstance(s := p.get("attr", {}).get("source"), str) else p.get("_") or p.get("$") or None for p in pat]
            want = None if None in want else "".join(want).encode("utf-16-le", "surrogatepass").decode("utf-16-le", "replace")
            if res is not None and (ET.fromstring(f"<x>{res}</x>").text or "") != want or res is None and want is not None and re.fullmatch(r"[\t\n\r -\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]*", want):
                raise Violation(f"{fmt}: {json.dumps(pat)} is serialized as {res!r}")
        if fmt == "fluent" or fmt == "android" and not any(map(lenient, pat)):
            try:
                want = serialize_message(Format[fmt], message_from_json(pat))
            except UnicodeError:
                continue
            except ValueError:
                want = None
            if fmt == "android" and res is not None and want is not None:
                a, b = (read_android(x) for x in (res, want))
                if a != b:
                    raise Violation(f"{fmt}: {json.dumps(pat)} is serialized as {res!r}, read as {a}, and in Python as {want!r}, read as {b}")
            if (res is None) is not (want is None) and (fmt == "fluent" or want is None):
                raise Violation(f"{fmt}: {json.dumps(pat)} is serialized as {res!r}, and in Python as {want!r}")
    res = js.request("serializePattern", "plain", pat)
    more = js.request("serializePattern", "plain", pat, collect=True)
    bad = sum(map(UNSUPPORTED["plain"], pat))
    if ("error" in res) is not bool(bad) or len(more["errors"]) != bad or "error" in more:
        raise Violation(f"plain: {json.dumps(pat)}: {res}, {more}")


SUBS = [
    Sub("properties", prop_text, check_properties, 2000),
    Sub("webext", p06.patterns().filter(lambda m: not p06.ambiguous(m)), check_webext, 1500),
    Sub("plain", gen.text("\\{}%$ \n", any=gen.ANY, max_size=8), check_plain, 300),
    Sub("android", p09.pattern(("foo", "Bar_1")).filter(lambda p: "tools:x" not in repr(p)), check_android, 2000),
    Sub("xliff", p10.message.map(lambda m: PatternMessage(p10.model_pattern(m))).filter(bare), check_xliff, 1500),
    Sub("xcode", p11.tokens(p11.spec(), 6), check_xcode, 600),
    Sub("mf2", p12.m_message(), check_mf2, 1500),
    Sub("fluent", ftl_entries(), check_fluent, 2000),
    Sub("fluent_model", p08.m_message(), check_fluent_model, 2000),
    Sub("fluent_names", st.tuples(st.sampled_from(sorted(SLOTS)), names), check_fluent_names, 1500),
    Sub("fluent_reject", bad_entries, check_fluent_reject, 80),
    Sub("fluent_annotated", annotated, check_fluent_annotated, 200),
    Sub("skipped", st.tuples(any_pattern.map(lambda pat: [p for p in pat if not isinstance(p, str)]), st.integers(0, 3), st.sampled_from(["android", "plain", "properties", "webext", "xliff"])), check_skipped, 600),
    Sub("any", gen.weighted((5, any_pattern), (1, tags)), check_any, 1200),
]
