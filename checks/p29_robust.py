"""P29: robustness."""

from __future__ import annotations

import math
import re
import time

from hypothesis import strategies as st

from lib import corpus, gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.message import parse_message, serialize_message
from moz.l10n.model import Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage
from moz.l10n.resource import parse_resource, serialize_resource

PROPERTY = "P29"
RULE = (
    "one sub-check per file extension: real and handwritten files with up to 6 edits (inserted tokens of the format and random characters, removed, repeated and moved parts and lines, cut ends), some with"
    " another name or encoding: each is parsed or rejected with an ordinary exception within the time limit, and what is parsed can be serialized and is the same when parsed again, or is rejected;"
    " non-trivial = an edited file that can be parsed."
)
ASSUMPTIONS = [
    "the CPU limit for one file is 40 s",
    "gettext header comments do not start with a marker character (polib writes them as references or flags),"
    " gettext messages have a source text,"
    " and obsolete gettext entries do not keep comments and flags (polib leaves them out)",
    "the comments of DTD entities do not include further entities (commented-out entities are standalone)",
    ".ini values do not include lone carriage returns (which become line breaks)",
]

POLIB_OBSOLETE = ("extracted-comments", "reference", "flag", "translator-comments")

# Commented-out entities are always standalone comments
ENTITY = re.compile(r"<!ENTITY\s")


def unusual(res):
    """Known limits of the formats, see ASSUMPTIONS."""
    if res.format == Format.gettext:
        if any(e.id[0] == "" for s in res.sections for e in s.entries if isinstance(e, Entry)):
            return True
        return any(line[:1] in set(",:.|~") for line in res.comment.split("\n") if line)
    if res.format == Format.dtd:
        return any(ENTITY.search(e.comment) for s in res.sections for e in s.entries if isinstance(e, Entry))
    if res.format == Format.ini:
        return any("\\r" in repr(e.value) for s in res.sections for e in s.entries if isinstance(e, Entry))
    return False


def lines(comment):
    # "--" is not possible in XML comments, and is kept apart by zero-width spaces
    return " ".join(comment.replace("\u200b", "").split())


def pattern(pat):
    """As text where a part has a source, so that '%d' and its placeholder are the same."""
    out = []
    for x in pat:
        if isinstance(x, Expression):
            if isinstance(x.attributes.get("source"), str):
                x = x.attributes["source"]
            elif isinstance(x.arg, str) and x.function in (None, "html"):
                x = x.arg
        if x == "":
            continue
        if out and isinstance(x, str) and isinstance(out[-1], str):
            out[-1] += x
        else:
            out.append(ordered(x))
    return out


def metadata(res, meta):
    # polib has its own order of headers, and XLIFF elements their own of attributes and parts
    if res.format in (Format.gettext, Format.xliff):
        return sorted(meta, key=lambda m: m.key)
    if res.format == Format.android:
        # namespaces are left out where they are not used
        return [m for m in meta if not m.key.startswith("xmlns:")]
    return meta


def ordered(x):
    """Placeholder options and attributes in one order."""
    if isinstance(x, list):
        return [ordered(y) for y in x]
    if isinstance(x, (Expression, Markup)):
        return type(x)(**{**x.__dict__, "options": dict(sorted(x.options.items())), "attributes": dict(sorted(x.attributes.items()))})
    if isinstance(x, dict):
        return {k: ordered(v) for k, v in x.items()}
    if isinstance(x, PatternMessage):
        return PatternMessage(pattern(x.pattern), ordered(x.declarations))
    if isinstance(x, SelectMessage):
        return SelectMessage(ordered(x.declarations), x.selectors, {k: pattern(v) for k, v in x.variants.items()})
    return x


def gettext_value(msg):
    """The last plural form is the catch-all one, and missing ones are empty ones."""
    if isinstance(msg, SelectMessage):
        return {getattr(key[0], "value", key[0]): v for key, v in msg.variants.items() if v}
    return msg


def content(res):
    """What has to be kept: formatting of comments is that of the format properties."""
    # The first comment of a Fluent file is its info, even where it is a standalone one
    info = [m.value for m in res.meta if m.key == "info"] if res.format == Format.fluent else []
    out = [("resource", metadata(res, [m for m in res.meta if m.value not in info]))]
    out += [lines(c) for c in info]
    if res.comment.strip():
        # may be a standalone comment, too
        out.append(lines(res.comment))
    for s in res.sections:
        if s.id or s.comment.strip() or s.meta:
            out.append((s.id, lines(s.comment), metadata(res, s.meta)))
        for e in s.entries:
            if isinstance(e, Entry):
                meta = metadata(res, e.meta)
                value = ordered(e.value)
                if res.format == Format.gettext:
                    value = gettext_value(value)
                    meta = [Metadata(m.key, lines(m.value)) if m.key == "translator-comments" else m for m in meta]
                comment = lines(e.comment)
                if res.format == Format.gettext and Metadata("obsolete", "true") in meta:
                    meta = [m for m in meta if m.key not in POLIB_OBSOLETE]
                    comment = ""
                out.append((e.id, comment, meta, value, dict(sorted(ordered(e.properties).items()))))
            elif e.comment.strip():
                out.append(lines(e.comment))
    return out


def shared(res):
    """A list, entry or message that changes with an edit of another one."""
    seen = {}

    def walk(x, path):
        if id(x) in seen:
            return f"{seen[id(x)]} and {path} are the same {type(x).__name__} {x!r}"
        seen[id(x)] = path
        if isinstance(x, Resource):
            items = [(".meta", x.meta), (".sections", x.sections)] + [(f"[{i}]", s) for i, s in enumerate(x.sections)]
        elif isinstance(x, Section):
            items = [(".meta", x.meta), (".entries", x.entries)] + [(f"[{i}]", s) for i, s in enumerate(x.entries)]
        elif isinstance(x, Entry):
            items = [(".meta", x.meta), (".properties", x.properties), (".value", x.value)]
            items += [(f".{k}", v) for k, v in x.properties.items()]
        elif isinstance(x, PatternMessage):
            items = [(".declarations", x.declarations), (".pattern", x.pattern)]
        elif isinstance(x, SelectMessage):
            items = [(".declarations", x.declarations), (".variants", x.variants)]
            items += [(f"[{k}]", v) for k, v in x.variants.items()]
        else:
            items = []
        return next((d for k, v in items if (d := walk(v, path + k))), None)

    return walk(res, "resource")


def check(c, ctx):
    (name, text), enc, opts = c
    data = text if enc is None else text.encode(enc, "replace")
    try:
        res = parse_resource(name, data, **opts)
    except Exception as err:
        if type(err) in (RecursionError, MemoryError):
            raise Violation(f"{type(err).__name__} for {name}: {data!r}") from err
        ctx.label("rejected", type(err).__name__)
        return
    if unusual(res):
        ctx.label("unusual")
        return
    ctx.label("parsed")
    ctx.nontrivial(text)
    d = shared(res)
    if d:
        raise Violation(f"{d}\nsource {data!r}")
    before = repr(res)
    try:
        out = "".join(serialize_resource(res))
    except Exception as err:
        if type(err) in (RecursionError, MemoryError):
            raise Violation(f"{type(err).__name__} for {name}: {data!r}") from err
        ctx.label("not serialized", f"not serialized: {type(err).__name__}")
        return
    if repr(res) != before:
        raise Violation(f"serializing changes the resource\nsource {data!r}\nbefore {before}\nafter {res!r}")
    try:
        again = parse_resource(name, out, **opts)
        if res.format == Format.plain_json and again.format == Format.webext:
            # All that told them apart was an empty object, which is not an entry
            again = parse_resource(Format.plain_json, out, **opts)
    except Exception as err:
        raise Violation(f"result does not parse: {type(err).__name__}: {err}\nsource {data!r}\nresult {out!r}\n{res}") from err
    d = gen.diff(content(res), content(again))
    if d:
        raise Violation(f"{d}\nsource {data!r}\nresult {out!r}\n{res}")


def sub(ext, n):
    enc = gen.weighted((6, st.just("utf-8")), (2, st.none()), (1, st.sampled_from(["utf-8-sig", "latin-1", "utf-16"])))
    return Sub(ext, lambda: st.tuples(corpus.sources(ext, 6 if ext in ('properties', 'dtd', 'inc', 'ftl') else 3), enc, st.just({})), check, n)


# ------------------------------------------------------------------ time

MAX_LENGTH = 6000
MESSAGE_TOKENS = {
    Format.mf2: ["{", "}", "{{", "}}", "|", "\\", ".local $x = {1}\n", ".input {$x}\n", ".match $x\n", "* ", "* {{}}\n", "{$x}", "{#b}", "{/b}", " ", "\n", " @a", " :f", " o=1", "1", "x", "$", "\u2068", "0.1e", "é"],
    Format.fluent: corpus.TOKENS["ftl"],
    Format.android: [*corpus.TOKENS["xml"], "\\u0020", "\\@", "a"],
    Format.xliff: [*corpus.TOKENS["xliff"], "%1$s", "%%"],
    Format.webext: ["$", "$$", "$1", "$x$", "$x", "@", "a", " ", "_"],
    Format.properties: ["%", "%1$", "%S", "{", "}", "{0}", "%.2f", "0", "1", "$", "\\", "-", "a", " ", "l", "'"],
    Format.plain_json: ["%", "%1$", "%s", "{", "}", "{0}", "{a}", "%(a)s", "(", ")", "0", "$", "*", "h", "a", " "],
    Format.gettext: ["%", "%1$", "%s", "%(a)s", "(", ")", "0", ".", "*", "l", "a", " ", "#"],
    Format.ini: ["%", "%S", "0", "1$", " ", "a"],
}


def pumped(tokens):
    """Some text, each part of which is repeated"""
    tok = gen.weighted((6, st.sampled_from(tokens)), (1, st.sampled_from(["a", "x y", " ", "0", "\n", "\t", "é", "\"", "/"])))
    unit = gen.weighted((4, tok), (2, st.tuples(tok, tok).map("".join)), (1, st.tuples(tok, tok, tok).map("".join)))
    part = st.tuples(unit, gen.weighted((3, st.just(1)), (2, st.integers(2, 60)), (3, st.sampled_from([200, MAX_LENGTH]))))

    def build(parts):
        return "".join(u * max(1, min(n, MAX_LENGTH // len(parts) // max(1, len(u)))) for u, n in parts)

    return st.lists(part, min_size=1, max_size=5).map(build)


def timed_file(ext):
    docs = st.sampled_from([text for _, text in corpus.DOCUMENTS[ext] if len(text) < 1000])
    name = gen.weighted((4, st.just(f"x.{ext}")), (1, st.sampled_from([None, "x.txt", "x.json", "x.xml"])))
    edit = st.tuples(docs, st.integers(0, 0xFFFF), pumped(corpus.TOKENS[ext])).map(
        lambda t: t[0][: t[1] * len(t[0]) >> 16] + t[2] + t[0][t[1] * len(t[0]) >> 16 :]
    )
    return st.tuples(st.just("file"), name, gen.weighted((1, pumped(corpus.TOKENS[ext])), (3, edit)))


timed = st.one_of(
    st.sampled_from(sorted(corpus.TOKENS)).flatmap(timed_file),
    st.sampled_from(list(MESSAGE_TOKENS)).flatmap(
        lambda f: st.tuples(st.just("message"), st.just(f), pumped(MESSAGE_TOKENS[f]))
    ),
)


def check_time(case, ctx):
    kind, name, text = case
    start = time.process_time()
    try:
        if kind == "file":
            res = parse_resource(name, text)
            "".join(serialize_resource(res))
        else:
            for opts in {}, {"printf_placeholders": True, "android_ascii_spaces": True, "xliff_is_xcode": True}:
                msg = parse_message(name, text, webext_placeholders={"x": {"content": "$1"}}, **opts)
                serialize_message(name, msg)
        ctx.label("accepted")
    except Exception as err:
        ctx.label("rejected", type(err).__name__)
    used = time.process_time() - start
    ctx.label(f"over {2 ** int(math.log2(used))} s" if used >= 1 else "under 1 s")
    if len(text) > 500:
        ctx.nontrivial(text)


SUBS = [sub(ext, 8000) for ext in corpus.TOKENS]
SUBS.append(Sub("time", timed, check_time, 8000, cpu_limit=12.0))
