"""P06: WebExtension messages.json files."""

from __future__ import annotations

import copy
import json
import re

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.webext import (
    webext_parse,
    webext_parse_message,
    webext_serialize,
    webext_serialize_message,
)
from moz.l10n.message import parse_message
from moz.l10n.model import (
    Comment,
    Entry,
    Expression,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P06"
RULE = (
    "source: messages built from segments (text, runs of $, positional and named placeholders in varying"
    " case, unused placeholders, // line comments) with their denoted model; non-trivial = a placeholder"
    " or a $. model: normalized patterns with declarations; non-trivial = same. similar: placeholders"
    " whose variables would get the same name; non-trivial = they do. loose: names and sources that may clash"
    " or not be valid; non-trivial = serialized. reject: content that messages.json cannot carry."
)
ASSUMPTIONS = [
    "patterns are normalized (no adjacent strings), as parsing makes them",
    "in source and model, placeholder names differ by more than case and the @/_ mapping, and are not named"
    " arg1..arg9; the others are in similar, where the names of variables are not prescribed",
    "placeholders which the message does not use are not part of the model",
]

ALL = st.characters(exclude_categories=("Cs",))
txt = gen.text([" ", "$", "$$", "@", '"', "\\", "\n", "1", "//", "a$", "&"], any=ALL, min_size=1, max_size=8)
ph_name = st.text("abcXYZ019_@", min_size=1, max_size=5).filter(lambda s: not re.fullmatch(r"(?i)arg[1-9]", s))
content = st.one_of(
    st.integers(1, 9).map(lambda n: f"${n}"),
    st.text("abc $1é", max_size=5),
)
json_key = gen.text([" ", ".", '"', "\\", "$"], any=ALL, min_size=1, max_size=5)
cmt = gen.comment(any=ALL)


def var_name(name):
    name = name.replace("@", "_")
    return "_" + name if name[0].isdigit() else name


def declaration(content, example):
    attrs = {}
    if re.fullmatch(r"\$[1-9]", content):
        arg = VariableRef("arg" + content[1])
        attrs["source"] = content
    else:
        arg = content
    if example is not None:
        attrs["example"] = example
    return Expression(arg, attributes=attrs)


@st.composite
def placeholder_dicts(draw):
    names = draw(st.lists(ph_name, max_size=3, unique_by=lambda n: var_name(n).lower().strip("_")))
    return {n: (draw(content), draw(st.one_of(st.none(), st.text("abc 1", max_size=4)))) for n in names}


NAME = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@"


def tokens(src):
    """Text and (placeholder source,) parts, by a scan of the source."""
    out = []

    def text(t):
        if out and isinstance(out[-1], str):
            out[-1] += t
        elif t:
            out.append(t)

    i = 0
    while i < len(src):
        if src[i] != "$":
            text(src[i])
            i += 1
            continue
        j = i + 1
        while j < len(src) and src[j] in NAME:
            j += 1
        if j > i + 1 and src[j : j + 1] == "$":
            out.append((src[i : j + 1],))
            i = j + 1
        elif src[i + 1 : i + 2] in set("123456789"):
            out.append((src[i : i + 2],))
            i += 2
        elif src[i + 1 : i + 2] == "$":
            j = i + 1
            while src[j : j + 1] == "$":
                j += 1
            text("$" * (j - i - 1))
            i = j
        else:
            text("$")
            i += 1
    return out


def recase(draw, s):
    k = draw(st.integers(0, 2))
    return s if k == 0 else s.upper() if k == 1 else s.lower()


@st.composite
def messages(draw):
    """(source, placeholders object, denoted message)"""
    phs = draw(placeholder_dicts())
    src = ""
    pattern = []
    decls = {}
    used = {}

    def add(text):
        if pattern and isinstance(pattern[-1], str):
            pattern[-1] += text
        elif text:
            pattern.append(text)

    def put(s, el):
        nonlocal src
        for sep in ("", ". "):
            trial = src + sep + s
            old = list(pattern)
            if sep:
                add(sep)
            if isinstance(el, str):
                add(el)
            else:
                pattern.append(el)
            if tokens(trial) == [e if isinstance(e, str) else (e.attributes["source"],) for e in pattern]:
                src = trial
                return
            pattern[:] = old

    for _ in range(draw(st.integers(0, 6))):
        k = draw(st.integers(0, 5))
        if k == 0:
            n = draw(st.integers(2, 4))
            put("$" * n, "$" * (n - 1))
        elif k == 1:
            n = draw(st.integers(1, 9))
            put(f"${n}", Expression(VariableRef(f"arg{n}"), attributes={"source": f"${n}"}))
        elif k in (2, 3) and phs:
            name = draw(st.sampled_from(list(phs)))
            ref = recase(draw, name)
            vn = used.get(name) or var_name(ref)
            put(f"${ref}$", Expression(VariableRef(vn), attributes={"source": f"${ref}$"}))
            if any(isinstance(e, Expression) and e.arg.name == vn for e in pattern):
                used[name] = vn
                decls[vn] = declaration(*phs[name])
        elif k == 4:
            # a $ that starts nothing
            t = draw(st.sampled_from(["$ ", "$-", "$0", "$é", "$a ", "$0 ", "$a-", "$"]))
            put(t, t)
        else:
            t = draw(st.text("abc 09é\n\"\\", min_size=1, max_size=4))
            put(t, t)
    obj = {}
    for n, (c, x) in phs.items():
        obj[recase(draw, n)] = {"content": c} if x is None else {"content": c, "example": x}
    return src, obj, PatternMessage(pattern, decls)


@st.composite
def sources(draw):
    keys = draw(st.lists(json_key, max_size=4, unique=True))
    return (
        [(k, draw(messages()), draw(st.one_of(st.just(None), cmt))) for k in keys],
        draw(st.booleans()),
        draw(st.booleans()),
    )


def check_source(case, ctx):
    items, linecomments, as_bytes = case
    obj = {}
    entries = []
    for k, (src, phs, msg), desc in items:
        obj[k] = {"message": src}
        if desc is not None:
            obj[k]["description"] = desc
        if phs:
            obj[k]["placeholders"] = phs
        entries.append(Entry((k,), msg, comment=desc or ""))
        # one message at a time, repeatedly with the same placeholders
        before = copy.deepcopy(phs)
        for _ in range(2):
            for fn in (
                lambda: webext_parse_message(src, phs),
                lambda: parse_message(Format.webext, src, webext_placeholders=phs),
            ):
                d = gen.diff(msg, fn())
                if d:
                    raise Violation(f"message: {d}\nin {src!r} {phs!r}")
        if phs != before:
            raise Violation(f"placeholders were changed: {before!r} to {phs!r}")
    text = json.dumps(obj, indent=2, ensure_ascii=False)
    if linecomments:
        text = "\n".join(ln + ' // a "comment" ' if i % 2 else "  // c\n" + ln for i, ln in enumerate(text.split("\n")))
    res = webext_parse(text.encode("utf8") if as_bytes else text)
    expected = Resource(Format.webext, [Section((), entries)])
    d = gen.diff(expected, res)
    if d:
        raise Violation(f"{d}\nin {text!r}")
    # what is parsed can be written, and reads back the same
    out = "".join(webext_serialize(res))
    d = gen.diff(expected, webext_parse(out))
    if d:
        raise Violation(f"round trip: {d}\n{text!r}\n{out!r}")
    back = json.loads(out)
    for k, (src, phs, msg), desc in items:
        if set(back[k]) - {"message", "description", "placeholders"}:
            raise Violation(f"unknown keys in {out!r}")
        got = {n.lower(): v for n, v in back[k].get("placeholders", {}).items()}
        used = {e.attributes["source"][1:-1].lower() for e in msg.pattern if isinstance(e, Expression) and e.attributes["source"].endswith("$")}
        want = {n.lower(): v for n, v in phs.items() if n.lower() in used}
        if got != want:
            raise Violation(f"placeholders of {k!r}: expected {want!r}, got {got!r}")
    trimmed = "".join(webext_serialize(res, trim_comments=True))
    exp = copy.deepcopy(expected)
    for e in exp.all_entries():
        e.comment = ""
        for dcl in e.value.declarations.values():
            dcl.attributes.pop("example", None)
    d = gen.diff(exp, webext_parse(trimmed))
    if d:
        raise Violation(f"trimmed: {d}\n{trimmed!r}")
    if any("$" in src for _, (src, _, _), _ in items):
        ctx.nontrivial()
        if any(phs for _, (_, phs, _), _ in items):
            ctx.label("named placeholders")


# ------------------------------------------------------------------ model round trip


@st.composite
def patterns(draw):
    phs = draw(placeholder_dicts())
    decls = {}
    used = {}
    pattern = []
    for _ in range(draw(st.integers(0, 5))):
        k = draw(st.integers(0, 3))
        if k <= 1 and not (pattern and isinstance(pattern[-1], str)):
            pattern.append(draw(txt))
        elif k == 2:
            n = draw(st.integers(1, 9))
            attrs = {"source": f"${n}"} if draw(st.booleans()) else {}
            if attrs:
                pattern.append(Expression(VariableRef(f"arg{n}"), attributes=attrs))
        elif k == 3 and phs:
            name = draw(st.sampled_from(list(phs)))
            ref = recase(draw, name)
            if name not in used:
                used[name] = var_name(ref)
                decls[used[name]] = declaration(*phs[name])
            attrs = {"source": f"${ref}$"}
            if used[name] == ref and draw(st.booleans()):
                attrs = {}
            pattern.append(Expression(VariableRef(used[name]), attributes=attrs))
    return PatternMessage(pattern, decls)


def ambiguous(msg):
    """Would its parts run into each other?"""
    src = ""
    want = []
    for el in msg.pattern:
        if isinstance(el, str):
            src += re.sub(r"\$+", r"$\g<0>", el)
            want.append(el)
        else:
            ref = el.attributes.get("source", f"${el.arg.name}$")
            src += ref
            want.append((ref,))
    return tokens(src) != want


def check_model(case, ctx):
    msg, comment = case
    before = copy.deepcopy(msg)
    if ambiguous(msg):
        try:
            got = webext_serialize_message(msg)
        except ValueError:
            ctx.label("rejected")
            return
        raise Violation(f"not representable: {msg!r} as {got!r}")
    src, phs = webext_serialize_message(msg)
    d = gen.diff(before, msg)
    if d:
        raise Violation(f"serialize changed its input: {d}")
    want = copy.deepcopy(msg)
    for p in want.pattern:
        if isinstance(p, Expression) and "source" not in p.attributes:
            p.attributes["source"] = f"${p.arg.name}$"
    # declarations come in the order of their use
    got = webext_parse_message(src, phs)
    d = gen.diff(want, got)
    if d:
        raise Violation(f"{d}\nas {src!r} {phs!r}")
    if list(phs) != sorted(phs):
        raise Violation(f"placeholders are not sorted: {phs!r}")
    res = Resource(Format.webext, [Section((), [Entry(("k",), msg, comment=comment)])])
    out = json.loads("".join(webext_serialize(res)))
    exp = {"message": src}
    if comment:
        exp["description"] = comment
    if phs:
        exp["placeholders"] = phs
    if out != {"k": exp}:
        raise Violation(f"expected {exp!r}, got {out!r}")
    # a plain string is not escaped
    res = Resource(Format.webext, [Section((), [Entry(("k",), src, comment=comment)])])
    for trim in (False, True):
        out = json.loads("".join(webext_serialize(res, trim_comments=trim)))
        exp = {"message": src, **({"description": comment} if comment and not trim else {})}
        if out != {"k": exp}:
            raise Violation(f"string value: expected {exp!r}, got {out!r}")
    if "$" in src:
        ctx.nontrivial()


# ------------------------------------------------------------------ placeholders of similar names

similar = st.one_of(
    st.sampled_from(["a@b", "a_b", "a_b_", "A_b@", "1", "_1", "@1", "_1_", "arg1", "ARG1", "arg1_", "arg2", "arg@", "arg_"]),
    st.text("aA1_@", min_size=1, max_size=3),
)


@st.composite
def similar_names(draw):
    names = draw(st.lists(similar, min_size=1, max_size=4, unique_by=str.lower))
    phs = {n: {"content": f"<{i}>" if draw(st.booleans()) else f"${i + 3}"} for i, n in enumerate(names)}
    parts = draw(st.lists(st.one_of(st.sampled_from(names), st.integers(1, 3)), min_size=1, max_size=6))
    return phs, [p if isinstance(p, int) else recase(draw, p) for p in parts]


def check_similar(case, ctx):
    phs, parts = case
    src = " ".join(f"${p}" if isinstance(p, int) else f"${p}$" for p in parts)
    msg = webext_parse_message(src, phs)
    refs = [p for p in msg.pattern if not isinstance(p, str)]
    if len(refs) != len(parts) or any(p != " " for p in msg.pattern if isinstance(p, str)):
        raise Violation(f"{src!r} parsed as {msg!r}")
    content = {k.lower(): v["content"] for k, v in phs.items()}
    names = {}
    for part, ref in zip(parts, refs):
        key = part if isinstance(part, int) else part.lower()
        name = ref.arg.name
        if names.setdefault(key, name) != name:
            raise Violation(f"different variables for {part!r}: {msg!r}")
        if isinstance(part, int):
            if name != f"arg{part}" or name in msg.declarations:
                raise Violation(f"not the substitution {part}: {msg!r}")
        else:
            dcl = msg.declarations.get(name)
            got = dcl and (dcl.arg if isinstance(dcl.arg, str) else dcl.attributes["source"])
            if got != content[key]:
                raise Violation(f"{part!r} is {got!r} instead of {content[key]!r}: {msg!r}")
    if len(set(names.values())) != len(names):
        raise Violation(f"same variable for different placeholders of {src!r}: {msg!r}")
    out, out_phs = webext_serialize_message(msg)
    if out != src or {k.lower(): v["content"] for k, v in out_phs.items()} != {
        k: v for k, v in content.items() if k in names
    }:
        raise Violation(f"{src!r} {phs!r} serialized as {out!r} {out_phs!r}")
    if len({var_name(k) for k in map(str, names)}) < len(names) or any(k in names for k in ("arg1", "arg2")):
        ctx.nontrivial()


@st.composite
def loose_names(draw):
    """Patterns with names and sources that may clash, or be no placeholder names."""
    name = st.one_of(similar.map(var_name), st.sampled_from(["x", "y", "a-b", "é", "a b", "arg1", "$1"]))
    names = draw(st.lists(name, min_size=1, max_size=3, unique=True))
    decls = {n: Expression(f"<{i}>") for i, n in enumerate(names) if draw(st.integers(0, 5))}
    # the sources of a message are similar to each other, up to their case
    base = draw(similar)
    source = st.one_of(
        st.sampled_from([base, base.upper(), base.swapcase(), base.lower()]).map(lambda s: f"${s}$"),
        similar.map(lambda s: f"${s}$"), st.sampled_from(["$1", "$2", "$", "$$", "$$$", "x", "$a", "$a-b$", "$0", "$a$ $b$", "", "$10"])
    )
    pattern = []
    for n in draw(st.lists(st.sampled_from(names), min_size=1, max_size=4)):
        if pattern:
            pattern.append(draw(st.sampled_from([" ", "x", "-", "$", " 1"])))
        src = draw(st.one_of(st.none(), source))
        pattern.append(Expression(VariableRef(n), attributes={} if src is None else {"source": src}))
    return PatternMessage(pattern, decls)


def check_loose(msg, ctx):
    try:
        src, phs = webext_serialize_message(msg)
    except ValueError:
        ctx.label("rejected")
        return
    # Undeclared variables are only known by their source
    free = {p.attributes.get("source") for p in msg.pattern if not isinstance(p, str) and p.arg.name not in msg.declarations}
    known = {k.lower() for k in phs}
    extra = {
        s[1:-1].lower(): {"content": ""}
        for s in free
        if isinstance(s, str) and re.fullmatch(r"\$[a-zA-Z0-9_@]+\$", s) and s[1:-1].lower() not in known
    }
    got = webext_parse_message(src, {**phs, **extra})
    kinds = lambda m: [p if isinstance(p, str) else "{}" for p in m.pattern]  # noqa: E731
    if kinds(got) != kinds(msg):
        raise Violation(f"{msg!r} as {src!r} {phs!r}, read back as {got!r}")
    for a, b in zip(msg.pattern, got.pattern):
        if isinstance(a, str) or a.arg.name not in msg.declarations:
            continue
        dcl = got.declarations.get(b.arg.name)
        if dcl is None or dcl.arg != msg.declarations[a.arg.name].arg:
            raise Violation(f"{a!r} of {msg!r} as {src!r} {phs!r}, read back as {dcl!r}")
    ctx.nontrivial()


# ------------------------------------------------------------------ rejected content

V = VariableRef
bad = st.sampled_from(
    [
        ("id", ("a", "b")), ("section", ("s",)), ("rcomment", "x"), ("scomment", "x"), ("comment", "x"),
        ("rmeta", None), ("smeta", None), ("emeta", None),
        ("value", PatternMessage([Expression("x")])),
        ("value", PatternMessage([Expression(V("x"), "string")])),
        ("value", PatternMessage([Expression(None, "string")])),
        ("value", PatternMessage([Markup("open", "b")])),
        ("value", PatternMessage([Expression(V("x"))], {"x": Expression(V("y"), "number")})),
        ("value", PatternMessage([Expression(V("x"))], {"x": Expression(None, "number")})),
        ("value", PatternMessage([Expression(V("x"))], {"x": Expression("y", attributes={"example": True})})),
        ("value", SelectMessage({"n": Expression(V("n"), "number")}, (V("n"),), {("1",): ["x"]})),
        ("missing", "a $foo$"), ("missing", "$foo$ and $1"), ("missing", "$$ $x@y$"),
    ]
)  # fmt: skip


def check_reject(case, ctx):
    (items, _, _), (where, what) = case
    e = Entry(("ok",), PatternMessage(["x"]))
    s = Section((), [*(Entry((k,), m) for k, (_, _, m), _ in items), e])
    r = Resource(Format.webext, [s])
    try:
        if where == "missing":
            phs = {"other": {"content": "x"}}
            msg = webext_parse_message(what, phs)
            raise Violation(f"{what!r} parsed as {msg!r} without its placeholder")
        if where == "id":
            e.id = what
        elif where == "section":
            s.id = what
        elif where == "value":
            e.value = what
        elif where == "rcomment":
            r.comment = what
        elif where == "scomment":
            s.comment = what
        elif where == "comment":
            s.entries.append(Comment(what))
        elif where == "rmeta":
            r.meta = [Metadata("k", "v")]
        elif where == "smeta":
            s.meta = [Metadata("k", "v")]
        elif where == "emeta":
            e.meta = [Metadata("k", "v")]
        src = "".join(webext_serialize(r))
    except ValueError:
        ctx.nontrivial()
        return
    raise Violation(f"not rejected: {where}={what!r}\n{src!r}")


odd_sources = st.one_of(st.sampled_from(["", "$", "$$", "$$$", "$a", "a$", "%s", "$1", "$2", "$9", "$0", "$10", "$a b$", "$a$b$", "$ a$", "$a$", "$A$", "$é$", "$x$"]), gen.text("$a1", max_size=5))


def check_odd(case, ctx):
    """The source of a placeholder names it if it is the syntax of a placeholder, and is not used otherwise"""
    source, name = case
    msg = PatternMessage(["x ", Expression(VariableRef(name), attributes={"source": source}), " y"], {name: Expression(VariableRef("arg1"), attributes={"source": "$1"})})
    ctx.nontrivial(repr(case))
    quoted = len(source) >= 3 and source[0] == source[-1] == "$"
    ref = source if quoted else f"${name}$"
    try:
        got = webext_serialize_message(msg)
    except ValueError:
        got = None
    want = None if tokens(f"x {ref} y") != ["x ", (ref,), " y"] else (f"x {ref} y", {ref[1:-1]: {"content": "$1"}})
    if got != want:
        raise Violation(f"{msg} is serialized as {got}, not {want}")
    # Without a declaration, only the syntax of a positional argument can be represented
    for src in (source, source.lstrip("$"), None, True):
        attr = {} if src is None else {"source": src}
        msg = PatternMessage(["x ", Expression(VariableRef(name), attributes=attr), " y"])
        try:
            got = webext_serialize_message(msg)
        except ValueError:
            got = None
        arg = src if isinstance(src, str) else name
        ref = arg if arg.startswith("$") else f"${arg}"
        want = (f"x {ref} y", {}) if re.fullmatch(r"\$[1-9]", ref) else None
        if got != want:
            raise Violation(f"{msg} is serialized as {got}, not {want}")


SUBS = [
    Sub("odd", st.tuples(odd_sources, st.sampled_from(["a", "b", "a1"])), check_odd, 600),
    Sub("source", sources, check_source, 6000),
    Sub("model", lambda: st.tuples(patterns(), st.one_of(st.just(""), cmt)), check_model, 12000),
    Sub("similar", similar_names, check_similar, 3000),
    Sub("loose", loose_names, check_loose, 3000),
    Sub("reject", lambda: st.tuples(sources(), bad), check_reject, 1500),
]
