"""P09: Android strings.xml: parsing follows Android's rules, and serialization inverts it."""

from __future__ import annotations

import copy
import re

from hypothesis import strategies as st
from lxml import etree

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.android import (
    android_parse,
    android_parse_message,
    android_serialize,
    android_serialize_message,
)
from moz.l10n.model import (
    CatchallKey,
    Comment,
    Entry,
    Expression,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P09"
RULE = (
    "model: generated resources of strings, plurals, string-arrays, entities, comments and attributes, with"
    " text full of characters that need escaping, placeholders, protected spans and nested markup; non-trivial ="
    " an escape, element, comment or plural in the output. string: a string value as a sequence of tokens (text, escapes,"
    " quotes, white space, placeholders, tags) with its resolved value from an independent model of Android strings,"
    " under each of the parser options, written with character references or CDATA; non-trivial = at least two kinds"
    " of tokens. document: sources with comments in every position and their expected resource; non-trivial = at"
    " least one comment. reject: one unsupported part in a valid resource."
)
ASSUMPTIONS = [
    "text holds no %, which starts a placeholder, and no text between < and >, which is read as an HTML tag",
    "adjacent strings in a pattern are joined; leading white space of comment lines is not significant",
    "-- in comments is broken up with zero-width spaces, as the serializer documents",
    "unused namespace declarations are dropped; section comments become standalone comments",
    "comments and metadata of entities have no place in a DOCTYPE, and are not generated",
    "a backslash directly before white space or at the end of a string is not generated",
]

XLIFF = "urn:oasis:names:tc:xliff:document:1.2"
TOOLS = "http://schemas.android.com/tools"
cmt = gen.comment("<>&", exclude="\u2028", any=gen.XML_CHARS, lead_space=False).map(lambda s: s.replace("\u200b", "")).filter(lambda s: "\\" not in s)
name = gen.ident("abcXYZ_éž世", "abcXYZ_019-.é世", 5)
SPECIAL = ["\\", "'", '"', "\n", "\t", " ", "  ", "@", "?", "&", "&amp;", "<", ">", "\u00a0", "\u2028", "\x00", "\x1a", "\x1b", "\x7f", "\x85", "\\u0041", "\\n", "]]>", "{", "#"]
m_text = gen.text(SPECIAL, any=gen.XML_CHARS, exclude="%", min_size=1, max_size=8)
CONV = {**dict.fromkeys("bB", "boolean"), **dict.fromkeys("cCsS", "string"), **dict.fromkeys("dhHoxX", "integer"), **dict.fromkeys("aAefgEG", "number")}


@st.composite
def placeholder(draw):
    idx = draw(st.sampled_from(["", "", "1$", "2$", "9$"]))
    flags = draw(st.sampled_from(["", "", "-", "#", "+", "0", ",", "("]))
    width = draw(st.sampled_from(["", "", "5", "08", ".2", "10.3"]))
    conv = draw(st.sampled_from([*"bBcCsSdhHoxXaAefgEG", "tY", "Tm", "ty", "y", "é"]))
    func = "datetime" if len(conv) == 2 else CONV.get(conv)
    return Expression(VariableRef("arg" + idx[:1]), func, attributes={"source": f"%{idx}{flags}{width}{conv}"})


html = st.sampled_from(["<b>", "</b>", '<a href="x y">', "<a href='x'>", "</a>", "<i  x>", "<span a=\"b\\c\">"]).map(
    lambda s: Expression(s, "html")
)
literal_ph = st.sampled_from(
    [Expression("%", attributes={"source": "%%"}), Expression("\n", attributes={"source": "%n"})]
).map(copy.deepcopy)
attr_value = gen.text(["'", '"', "<", ">", "&", "\n", "\t", "  ", "%20", "é"], any=gen.XML_CHARS, max_size=6)
protected_text = gen.text(SPECIAL, any=gen.XML_CHARS, exclude="%{\x00", min_size=1, max_size=5).filter(
    lambda s: not s.startswith(("%", "{"))
)


@st.composite
def protected(draw, entities=()):
    k = draw(st.integers(0, 4 if entities else 3))
    no = {"translate": "no"}
    if k == 4:
        opts = draw(st.dictionaries(st.sampled_from(["id", "example"]), attr_value, max_size=2))
        return Expression(VariableRef(draw(st.sampled_from(entities))), "entity", opts, no)
    if k == 0:
        return Expression(draw(protected_text), attributes=no)
    if k == 1:
        return Expression(draw(protected_text), "xliff:g", {"example": draw(attr_value)}, no)
    src = draw(st.sampled_from(["%1$s", "%d", "{foo}", "%s", "x y", "it\\'s", "Foo"]))
    if k == 2 and src[0] in "%{":
        var = "arg1" if src == "%1$s" else "arg" if src[0] == "%" else "foo"
        return Expression(VariableRef(var), attributes={**no, "source": src})
    ident = draw(st.sampled_from(["user", "x", "id-1"]))
    opts = {"id": ident}
    if draw(st.booleans()):
        opts["example"] = draw(attr_value)
    return Expression(VariableRef(ident), "xliff:g", opts, {**no, "source": src})


@st.composite
def parts(draw, entities, depth=2):
    out = []
    for _ in range(draw(st.integers(0, 4) if depth == 2 else st.integers(1, 2))):
        k = draw(st.integers(0, 11))
        if k < 4:
            if out and isinstance(out[-1], str):
                out[-1] += draw(m_text)
            else:
                out.append(draw(m_text))
        elif k < 6:
            out.append(draw(placeholder()))
        elif k == 6:
            out.append(draw(html))
        elif k == 7:
            out.append(draw(literal_ph))
        elif k == 8:
            out.append(draw(protected(entities)))
        elif k == 9 and entities:
            out.append(Expression(VariableRef(draw(st.sampled_from(entities))), "entity"))
        elif depth:
            tag = draw(st.sampled_from(["b", "i", "a", "br", "p", "img", "script", "string", "item", "span", "tools:x"]))
            opts = draw(st.dictionaries(st.sampled_from(["href", "id", "checked", "name", "src"]), attr_value, max_size=2))
            body = draw(parts(entities, depth - 1))
            if draw(st.integers(0, 4)) == 0:
                body.append(Markup("open", "b"))
                body.append(Markup("close", "b"))
                no = {"translate": "no"}
                out += [Markup("open", "xliff:g", opts, dict(no)), *body, Markup("close", "xliff:g", {}, dict(no))]
            else:
                out += [Markup("open", tag, opts), *body, Markup("close", tag)]
    return out


def legible(pattern):
    """Keep the text from making up tags"""
    texts = [p for p in pattern if isinstance(p, str)]
    if any(">" in t for t in texts) or any(isinstance(p, Expression) and p.function == "html" for p in pattern):
        pattern = [p.replace("<", "") if isinstance(p, str) else p for p in pattern]
    return [p for p in pattern if p != ""]


@st.composite
def pattern(draw, entities=(), refs=True):
    if refs and draw(st.integers(0, 12)) == 0:
        ref = draw(st.sampled_from(["@string/foo", "@android:string/ok", "?attr", "?android:attr/x", "@color/a_1"]))
        return [Expression(ref, "reference")]
    return legible(draw(parts(list(entities))))


CATS = ["zero", "one", "two", "few", "many"]


def plural(variants):
    return SelectMessage(
        {"quantity": Expression(VariableRef("quantity"), "number")}, (VariableRef("quantity"),), variants
    )


@st.composite
def plural_message(draw, entities=()):
    keys = [(k,) for k in draw(st.lists(st.sampled_from(CATS), max_size=3, unique=True))]
    keys.insert(draw(st.integers(0, len(keys))), (CatchallKey("other"),))
    return plural({k: draw(pattern(entities)) for k in keys})


entity_text = gen.text(["'", '"', "&", "%", ">", "<b>x</b>", "&amp;", "\\"], any=gen.XML_CHARS, exclude="\n\t", min_size=1, max_size=5).filter(
    lambda s: re.sub("<b>x</b>", "", s).count("<") == 0
)
metas = st.dictionaries(
    st.sampled_from(["translatable", "formatted", f"{{{TOOLS}}}ignore", "product", "é"]), attr_value, max_size=2
).map(lambda d: [Metadata(k, v) for k, v in d.items()])


@st.composite
def resources(draw):
    sections = []
    entities = draw(st.lists(name, max_size=2, unique=True)) if draw(st.integers(0, 2)) == 0 else []
    if entities:
        ents = []
        for i, n in enumerate(entities):
            value = [draw(entity_text)] if draw(st.booleans()) else []
            if i:
                value.append(Expression(VariableRef(entities[0]), "entity"))
                value += [draw(entity_text)]
            ents.append(Entry((n,), PatternMessage(value)))
        sections.append(Section(("!ENTITY",), ents))
    entries = []
    meta = draw(metas)
    meta.append(Metadata("xmlns:xliff", XLIFF))
    meta.append(Metadata("xmlns:tools", TOOLS))
    for i in range(draw(st.integers(0, 4))):
        n = f"{draw(name)}{i}"
        c = draw(st.one_of(st.just(""), cmt))
        m = draw(metas) if draw(st.integers(0, 2)) == 0 else []
        k = draw(st.integers(0, 7))
        if k == 0:
            entries.append(Comment(c or "c"))
        elif k == 1:
            entries.append(Entry((n,), draw(plural_message(entities)), comment=c, meta=m))
        elif k == 2:
            for j in range(draw(st.integers(1, 3))):
                entries.append(
                    Entry((n, str(j)), PatternMessage(draw(pattern(entities))), comment=draw(st.one_of(st.just(""), cmt)), meta=m)
                )
        else:
            entries.append(Entry((n,), PatternMessage(draw(pattern(entities))), comment=c, meta=m))
    sections.append(Section((), entries))
    # keep the namespaces in use
    entries.append(
        Entry(("ns",), PatternMessage([Expression("x", attributes={"translate": "no"})]), meta=[Metadata(f"{{{TOOLS}}}x", "y")])
    )
    return Resource(Format.android, sections, draw(st.one_of(st.just(""), cmt)), meta)


def canon(res):
    # and without the zero-width spaces that separate the dashes of comments
    res = copy.deepcopy(res)
    res.meta.sort(key=lambda m: m.key)
    for x in [res, *res.sections, *(e for s in res.sections for e in s.entries)]:
        x.comment = x.comment.replace("\u200b", "")
    return res


def trimmed(res):
    res = copy.deepcopy(res)
    res.comment = ""
    for s in res.sections:
        s.comment = ""
        s.entries = [e for e in s.entries if isinstance(e, Entry)]
        for e in s.entries:
            e.comment = ""
    return res


def check_model(case, ctx):
    res, opts = case
    # A differently named default variant is written as `other`, unless there is already one
    res = copy.deepcopy(res)
    orig = copy.deepcopy(res)
    for i, (a, b) in enumerate(zip(res.all_entries(), orig.all_entries())):
        if isinstance(a.value, SelectMessage) and (i + opts["ascii_spaces"]) % 2:
            free = [k for k in CATS if (k,) not in a.value.variants]
            keys = list(a.value.variants)
            if len(keys) % 2:
                new = [(CatchallKey(([None] + free)[i % (len(free) + 1)]),) if isinstance(k[0], CatchallKey) else k for k in keys]
                a.value.variants = dict(zip(new, a.value.variants.values()))
                ctx.label("named default")
            elif free:
                name = free[i % len(free)]
                a.value.variants = {(("other" if isinstance(k[0], CatchallKey) else k[0]),): v for k, v in a.value.variants.items()}
                a.value.variants[(CatchallKey(name),)] = ["def"]
                b.value.variants[(name,)] = ["def"]
                ctx.label("default and other")
    before = copy.deepcopy(res)
    for trim in (False, True):
        src = "".join(android_serialize(res, trim_comments=trim))
        d = gen.diff(before, res)
        if d:
            raise Violation(f"serialize changed its input: {d}")
        etree.fromstring(src.encode())
        strs = copy.deepcopy(res)
        for s in strs.sections:
            for e in s.entries:  # a string is the same as a message with only that
                if s.id and isinstance(e, Entry) and all(isinstance(p, str) for p in e.value.pattern):
                    e.value = "".join(e.value.pattern)
        if "".join(android_serialize(strs, trim_comments=trim)) != src:
            raise Violation(f"entities as strings are not serialized as {src}")
        want = canon(trimmed(orig) if trim else orig)
        got = android_parse(src.encode() if trim else src, **opts)
        d = gen.diff(want, canon(got))
        if d:
            raise Violation(f"trim={trim} {opts}: {d}\n{src}")
        again = "".join(android_serialize(got, trim_comments=trim))
        if again != src:
            raise Violation(f"not a fixpoint:\n{src}\n{again}")
        if trim and "<!--" in src:
            raise Violation(f"comments left: {src}")
    if any(s in src for s in ("\\", "<plurals", "<item", "&")) or res.comment:
        ctx.nontrivial(src)
    for s in ("<plurals", "<string-array", "<!ENTITY", "<xliff:g", "CDATA", "\\u"):
        if s in src:
            ctx.label(s)


def check_message(case, ctx):
    pat, cdata, as_str = case
    if as_str:
        text = "".join(p for p in pat if isinstance(p, str)).replace("<", "")
        want = PatternMessage([text] if text else [])
        if as_str > 1:
            text += "<b>]]>"
            want.pattern = legible([*want.pattern, Expression("<b>", "html"), "]]>"])
            if ">" in text[:-6]:
                return
        src = android_serialize_message(text, allow_cdata=cdata)
    else:
        want = PatternMessage(pat)
        before = copy.deepcopy(want)
        src = android_serialize_message(want, allow_cdata=cdata)
        d = gen.diff(before, want)
        if d:
            raise Violation(f"serialize changed its input: {d}")
        alone = copy.deepcopy(want)
        for i in range(len(alone.pattern) - 1, 0, -1):
            a, b = alone.pattern[i - 1 : i + 1]
            if isinstance(a, Markup) and isinstance(b, Markup) and (a.kind, b.kind) == ("open", "close"):
                alone.pattern[i - 1 : i + 1] = [Markup("standalone", a.name, a.options, a.attributes)]
        if alone != want:
            ctx.label("standalone")
            src1 = android_serialize_message(alone, allow_cdata=cdata)
            if src1 != src:
                raise Violation(f"standalone markup {alone}: {src1!r}, expected {src!r}")
    if "CDATA" in src and not cdata:
        raise Violation(f"unexpected CDATA: {src!r}")
    got = android_parse_message(src)
    d = gen.diff(want, got)
    if d:
        raise Violation(f"{d}\n{src!r}")
    if not pat or any(c in src for c in "\\<&%"):
        ctx.nontrivial((src, cdata))


# ------------------------------------------------------------------ strings

WS = " \t\n\r"
UNI_WS = "\u00a0\u2003\u2008\u3000"


@st.composite
def string_tokens(draw):
    out = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 15))
        if k < 4:
            out.append(("text", draw(gen.text("';:,.-&{}@?=", exclude='%\\"<> ' + WS + UNI_WS + "\u2028", min_size=1, max_size=4, any=gen.XML_CHARS)).strip() or "x"))
        elif k < 7:
            out.append(("ws", draw(st.text(WS + WS + UNI_WS, min_size=1, max_size=3))))
        elif k < 9:
            out.append(("quote",))
        elif k < 11:
            out.append(("esc", draw(st.sampled_from([("\\n", "\n"), ("\\t", "\t"), ("\\'", "'"), ('\\"', '"'), ("\\\\", "\\"), ("\\@", "@"), ("\\?", "?"), ("\\u0020", " "), ("\\u00e9", "é"), ("\\u000A", "\n"), ("\\ud83d\\ude00", "😀"), ("\\u003c", "<"), ("\\%", "%"), ("\\x", "x"), ("\\,", ","), ("%\\n", "%\n"), ("\\ud800", "\ud800"), ("5%\\'", "5%'")]))))
        elif k < 13:
            out.append(("ph", draw(placeholder())))
        elif k == 13:
            out.append(("ph", draw(literal_ph)))
        elif k == 14:
            out.append(("tag", draw(st.sampled_from(["<b>", "</b>", "<p>", "</p>", "<br>", "<br/>", "<hr/>", "<li>", "<ul>", "</ul>", "<h1>", "<div class='x'>", '<a href=\\"x\\">', "<pre>"]))))
        else:
            out.append(("prev", draw(st.sampled_from(["s", "s", "d", ".2f", "tY", "-5b"]))))
    return out


BLOCK = re.compile(r"<(/?ul|/?ol|/?dl|div|h[1-6]|hr|p|dd|dt|li)(?![a-zA-Z0-9_])")


def resolve(items, ascii_spaces, literal_quotes):
    """The value of a string, by a character-wise model. None if it is an error.

    The items are lists of tokens, and the parts of elements between them.
    """
    space = (lambda c: c in " \t\n\r\f\v") if ascii_spaces else str.isspace
    out = []  # resolved characters and parts
    quoted = False
    for i, tokens in enumerate(items):
        if not isinstance(tokens, list):
            if isinstance(tokens, Markup) or "translate" in tokens.attributes:
                quoted = False
            out.append(("part", tokens))
            continue
        # flat list of (kind, char or part), unescaped characters are kept apart
        flat = []
        for t in tokens:
            if t[0] in ("text", "ws"):
                flat += [("c", c) for c in t[1]]
            elif t[0] == "quote":
                flat.append(("q", '"'))
            elif t[0] == "esc":
                flat.append(("e", t[1][1]))
            elif t[0] == "tag":
                flat.append(("t", t[1].replace("\\", "")))
            else:
                flat.append((t[0], t[1]))
        if i == 0:
            while flat and flat[0][0] == "c" and space(flat[0][1]):
                flat.pop(0)
        if i == len(items) - 1:
            while flat and flat[-1][0] == "c" and space(flat[-1][1]):
                flat.pop()
        prev_ws = False
        for k, v in flat:
            if k == "q" and not literal_quotes:
                quoted = not quoted
                prev_ws = False
            elif k == "c" and space(v) and not quoted:
                if not prev_ws:
                    out.append(("sp", " "))
                prev_ws = True
            else:
                out.append((k, v))
                prev_ws = False
    # white space at block and break tags
    res = []
    last_var = None
    for i, (k, v) in enumerate(out):
        if k == "t":
            if res and isinstance(res[-1], str) and res[-1].endswith(" ") and BLOCK.match(v):
                res[-1] = res[-1][:-1] + "\n"
            res.append(Expression(v, "html"))
        elif k == "part":
            res.append(v)
        elif k == "ph":
            if isinstance(v.arg, VariableRef):
                last_var = v
            res.append(v)
        elif k == "prev":
            if last_var is None:
                return None
            n = last_var.arg.name
            idx = n[3:] + "$" if len(n) > 3 else "<"
            func = "datetime" if v == "tY" else CONV[v[-1]]
            res.append(Expression(VariableRef(n), func, attributes={"source": f"%{idx}{v}"}))
        else:
            if res and isinstance(res[-1], Expression) and res[-1].function == "html" and res[-1].arg in ("<br>", "<br/>", "<hr/>") and v == " " and k in ("sp", "c"):
                v = "\n"
            if res and isinstance(res[-1], str):
                res[-1] += v
            else:
                res.append(v)
    return res


def write(tokens, how):
    def esc(s, i):
        if how in ("cdata", "raw"):
            return s
        if how == "charref" and i % 2:
            return "".join(f"&#x{ord(c):x};" for c in s)
        return s.replace("&", "&amp;").replace("<", "&lt;").replace("\r", "&#13;")

    out = []
    for i, t in enumerate(tokens):
        if t[0] in ("text", "ws", "tag"):
            out.append(esc(t[1], i))
        elif t[0] == "quote":
            out.append('"' if how != "charref" else "&quot;")
        elif t[0] == "esc":
            out.append(t[1][0])
        elif t[0] == "ph":
            out.append(esc(t[1].attributes["source"], i))
        else:
            out.append(esc("%<" + t[1], i))
    # Comments are not a part of the contents of a string
    s = ("<!-- \" % &amp; \\ -->" if how == "comment" else "<?c \"%s?>" if how == "pi" else "").join(out)
    return f"<![CDATA[{s}]]>" if how == "cdata" else s


def check_string(case, ctx):
    tokens, how, ascii_spaces, literal_quotes = case
    tokens = [("prev", "s") if t == ("prev",) else t for t in tokens]
    if how == "cdata":
        tokens = [("ws", t[1].replace("\r", " ")) if t[0] == "ws" else t for t in tokens]
    kinds = {t[0] for t in tokens}
    if "quote" in kinds and "tag" in kinds:
        # quotes near tags are taken to be a part of their attributes
        tokens = [t for t in tokens if t[0] != "quote"]
    if "tag" in kinds and "prev" in kinds:
        tokens = [t for t in tokens if t[0] != "prev"]
    if kinds & {"quote", "esc"} and "prev" in kinds and ">" in "".join(str(t) for t in tokens):
        tokens = [t for t in tokens if t[0] != "prev"]
    body = write(tokens, how)
    opts = {"ascii_spaces": ascii_spaces, "literal_quotes": literal_quotes}
    want = resolve([tokens], ascii_spaces, literal_quotes)
    text = "".join(t[1] for t in tokens if t[0] == "text").strip()
    if want and len(want) == 1 and isinstance(want[0], str) and re.fullmatch(r"@(?:\w+:)?\w+/\w+|\?(?:\w+:)?(\w+/)?\w+", text):
        return
    doc = f'<resources><string name="x">{body}</string></resources>'
    array = f'<resources><string-array name="x"><item>{body}</item></string-array></resources>'
    plurals = f'<resources><plurals name="x"><item quantity="one">{body}</item></plurals></resources>'
    results = []
    for get in (
        lambda: android_parse_message(body, **opts),
        lambda: next(android_parse(doc, **opts).all_entries()).value,
        lambda: next(android_parse(array, **opts).all_entries()).value,
        lambda: PatternMessage(next(iter(next(android_parse(plurals, **opts).all_entries()).value.variants.values()))),
    ):
        try:
            results.append(get())
        except ValueError:
            results.append(None)
    w = None if want is None else PatternMessage(want)
    for r in results:
        d = gen.diff(w, r)
        if d:
            raise Violation(f"{opts} {body!r}: {d}")
    if len({t[0] for t in tokens}) > 1:
        ctx.nontrivial((body, ascii_spaces, literal_quotes))
    ctx.label(how, *(t[0] for t in tokens))


# ------------------------------------------------------------------ strings with elements

el_tokens = st.one_of(
    string_tokens().map(lambda tt: [t for t in tt if t[0] in ("text", "ws", "quote", "esc", "ph") and "{" not in str(t[1:])]).filter(bool),
    st.lists(
        st.one_of(
            st.sampled_from([("quote",), ("quote",), ("text", "a"), ("text", "b\u0301c"), ("esc", ("\\n", "\n")), ("esc", ('\\"', '"'))]),
            st.text(WS + UNI_WS, min_size=1, max_size=3).map(lambda s: ("ws", s)),
        ),
        min_size=1,
        max_size=6,
    ),
)
g_text = gen.text("';:,.- \n\"", exclude="%{\\<>&\r\u2028", min_size=1, max_size=5, any=gen.XML_CHARS)


@st.composite
def trees(draw, depth=2):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.sampled_from([5, 6, 7, 0, 4]))
        if (not out or out[-1][0] != "str") and (k == 0 or draw(st.integers(0, 3))):
            out.append(("str", draw(el_tokens)))
        if k == 0:
            pass
        elif k == 4:
            out.append(("ent", draw(st.sampled_from(["foo", "bar"]))))
        else:
            attrs = draw(st.dictionaries(st.sampled_from(["id", "example"]), st.sampled_from(["x", "a'b", "y z"]), max_size=2))
            if k == 5 or not depth:
                kids = []
                for _ in range(draw(st.integers(1, 2))):
                    kind = draw(st.integers(0, 3))
                    if kind == 0:
                        kids.append(("ent", "foo"))
                    elif not kids or kids[-1][0] != "raw":
                        kids.append(("raw", draw(st.one_of(g_text, st.sampled_from(["%1$s", "%d", "{x}", "it\\'s", "\\u00e9", "%tY"])))))
                out.append(("g", attrs, kids))
            else:
                kids = draw(trees(depth - 1))
                out.append((draw(st.sampled_from(["b", "a", "g"])), attrs, kids))
    return out


def tree_write(tree):
    out = ""
    for t in tree:
        if t[0] == "str":
            out += write(t[1], "plain")
        elif t[0] == "raw":
            out += t[1]
        elif t[0] == "ent":
            out += f"&{t[1]};"
        else:
            tag = "xliff:g" if t[0] == "g" else t[0]
            attrs = "".join(f' {k}="{v}"' for k, v in t[1].items())
            out += f"<{tag}{attrs}>{tree_write(t[2])}</{tag}>"
    return out


def arg_name(src):
    m = re.match(r"%(?:([1-9])\$)?", src)
    return "arg" + (m[1] or "") if m else re.sub(r"[^\w.-]", "", src)


def tree_items(tree):
    """Lists of tokens, raw strings, and parts"""
    out = []
    for t in tree:
        if t[0] == "str":
            out.append(t[1])
        elif t[0] == "raw":
            out.append(t[1])
        elif t[0] == "ent":
            out.append(Expression(VariableRef(t[1]), "entity"))
        elif t[0] != "g":
            out += [Markup("open", t[0], t[1]), *tree_items(t[2]), Markup("close", t[0])]
        else:
            kids = tree_items(t[2])
            no = {"translate": "no"}
            if any(isinstance(k, Markup) or isinstance(k, Expression) and "translate" in k.attributes for k in kids):
                out += [Markup("open", "xliff:g", t[1], dict(no)), *kids, Markup("close", "xliff:g", {}, dict(no))]
                continue
            for k in kids:
                if isinstance(k, list):
                    k = write(k, "raw")
                if isinstance(k, Expression):
                    out.append(Expression(k.arg, "entity", t[1], dict(no)))
                    continue
                func = "xliff:g" if t[1] else None
                if "id" in t[1]:
                    var = VariableRef(arg_name(t[1]["id"]))
                elif k[0] in "%{":
                    var = VariableRef(arg_name(k))
                else:
                    out.append(Expression(UNESC.sub(unesc, k), func, t[1], dict(no)))
                    continue
                out.append(Expression(var, func, t[1], {**no, "source": k}))
    return out


UNESC = re.compile(r"\\u[dD]83d\\u[dD]e00|\\u[0-9a-fA-F]{4}|\\.")


def unesc(m):
    if m[0] == "\\ud83d\\ude00":
        return "\U0001f600"
    return chr(int(m[0][2:], 16)) if len(m[0]) == 6 else {"n": "\n", "t": "\t"}.get(m[0][1], m[0][1])


def check_elements(case, ctx):
    tree, ascii_spaces, literal_quotes = case
    items = tree_items(tree)
    # Within elements, the text of raw strings has no meaning of its own
    items = [[("text", i)] if isinstance(i, str) else i for i in items]
    opts = {"ascii_spaces": ascii_spaces, "literal_quotes": literal_quotes}
    want = resolve(items, ascii_spaces, literal_quotes)
    body = tree_write(tree)
    if len(items) == 1 and isinstance(items[0], list) and re.fullmatch(r"[@?][\w:/]+", body):
        return
    doc = f'<resources xmlns:xliff="{XLIFF}"><string name="x">{body}</string></resources>'
    dtd = '<!DOCTYPE resources [<!ENTITY foo "f"><!ENTITY bar "b">]>'
    entry = [e for e in android_parse(dtd + doc, **opts).all_entries() if e.id == ("x",)][0]
    d = gen.diff(PatternMessage(want), entry.value)
    if d:
        raise Violation(f"{opts} {body!r}: {d}")
    if len(items) > 1:
        ctx.nontrivial((body, ascii_spaces, literal_quotes))
    ctx.label(*(t[0] for t in tree))


# ------------------------------------------------------------------ documents


@st.composite
def documents(draw):
    """(source, expected resource)"""
    plain = gen.text(".,!éß", exclude="%<>&\\\"' @?\u00a0\u2028", min_size=1, max_size=6, any=gen.XML_CHARS).map(
        lambda s: "".join(s.split()) or "x"
    )
    ind = draw(st.sampled_from(["  ", "\t", "    ", ""]))
    out, entries, pending = [], [], []

    def comment_xml(s):
        k = draw(st.integers(0, 3))
        if k == 0:
            return f"<!--{s}-->"
        if k == 1 and "\n" in s:
            return "<!-- " + s.replace("\n", "\n   - ") + " -->" if all(s.split("\n")) else f"<!-- {s} -->"
        if k == 2:
            return "<!--\n" + "\n".join(f"{ind}   {ln}" for ln in s.split("\n")) + f"\n{ind}-->"
        return f"<!-- {s} -->"

    safe_cmt = cmt.map(lambda s: "\n".join(re.sub("--+", "-", ln).strip(" -") for ln in s.split("\n")).strip("\n") or "c")
    for i in range(draw(st.integers(0, 5))):
        n = f"{draw(name)}{i}"
        k = draw(st.integers(0, 9))
        if k < 3:
            c = draw(safe_cmt)
            out.append(ind + comment_xml(c))
            pending.append(c)
            if draw(st.booleans()):
                out.append(draw(st.sampled_from(["\n", "\n\n", "\n" + ind])) + "\n")
                entries.append(Comment("\n\n".join(pending)))
                pending = []
            else:
                out.append(draw(st.sampled_from(["\n", " ", ""])))
            continue
        attrs, meta = "", []
        if draw(st.integers(0, 3)) == 0:
            attrs, meta = ' translatable="false"', [Metadata("translatable", "false")]
        if k < 7:
            v = draw(plain)
            out.append(f'{ind}<string{attrs} name="{n}">{v}</string>')
            entries.append(Entry((n,), PatternMessage([v]), comment="\n\n".join(pending), meta=meta))
            pending = []
        elif k < 8:
            out.append(f'{ind}<plurals name="{n}"{attrs}>\n')
            keys = draw(st.lists(st.sampled_from([*CATS, "other"]), min_size=1, max_size=3, unique=True))
            variants = {}
            for key in keys:
                if draw(st.integers(0, 3)) == 0:
                    c = draw(safe_cmt).replace("\n", " ")
                    out.append(f"{ind}{ind}<!-- {c} -->\n")
                    pending.append(f"{key}:  {c}" if variants else c)
                v = draw(plain)
                out.append(f'{ind}{ind}<item quantity="{key}">{v}</item>\n')
                variants[(CatchallKey(key) if key == "other" else key,)] = [v]
            if draw(st.integers(0, 3)) == 0:
                c = draw(safe_cmt)
                out.append(f"{ind}{comment_xml(c)}")
                pending.append(c)
            out.append(f"{ind}</plurals>")
            entries.append(Entry((n,), plural(variants), comment="\n\n".join(pending), meta=meta))
            pending = []
        else:
            out.append(f'{ind}<string-array name="{n}"{attrs}>')
            for j in range(draw(st.integers(1, 3))):
                if draw(st.integers(0, 2)) == 0:
                    c = draw(safe_cmt)
                    out.append(comment_xml(c))
                    pending.append(c)
                v = draw(plain)
                out.append(f"{ind}<item>{v}</item>\n")
                entries.append(Entry((n, str(j)), PatternMessage([v]), comment="\n\n".join(pending), meta=meta))
                pending = []
            if draw(st.integers(0, 3)) == 0:
                c = draw(safe_cmt)
                out.append(comment_xml(c))
                entries.append(Comment(c))
            out.append("</string-array>")
        out.append(draw(st.sampled_from(["\n", "\n\n", ""])))
    if pending:
        entries.append(Comment("\n\n".join(pending)))
    src = '<?xml version="1.0" encoding="utf-8"?>\n' if draw(st.booleans()) else ""
    head = draw(st.lists(safe_cmt, max_size=2))
    for c in head:
        src += comment_xml(c) + "\n"
    src += "<resources>" + draw(st.sampled_from(["\n", ""])) + "".join(out) + "</resources>\n"
    return src, Resource(Format.android, [Section((), entries)], "\n\n".join(head))


def norm_comments(res):
    res = copy.deepcopy(res)
    for e in (res, *res.sections[0].entries):
        # the white space within the lines of a comment is up to the parser
        e.comment = "\n".join(" ".join(ln.split()) for ln in e.comment.split("\n"))
    return res


def check_document(case, ctx):
    src, want = case
    if "<?xml" in src:
        got = android_parse(src.encode())
    else:
        got = android_parse(src)
    d = gen.diff(norm_comments(want), norm_comments(got))
    if d:
        raise Violation(f"{d}\n{src}")
    out = "".join(android_serialize(got))
    back = android_parse(out)
    if "--" not in repr(want):
        d = gen.diff(norm_comments(want), norm_comments(back))
        if d:
            raise Violation(f"after a round-trip: {d}\n{src}\n{out}")
    if "<!--" in src:
        ctx.nontrivial(src)


# ------------------------------------------------------------------ rejected content

OK = PatternMessage(["x"])
X = VariableRef("x")
bad = st.sampled_from(
    [Entry(i, OK) for i in [(), ("a", "b"), ("a", "0", "1"), ("",), ("a b",), ("1",), ("a:b",), ("a<",), ("q", "1"), ("q", "00")]]
    + [
        Section(("s",), [Entry(("a",), OK)]),
        Section((), [], meta=[Metadata("a", "b")]),
        [Entry(("q", "0"), OK), Entry(("r", "1"), OK)],
        [Entry(("q", "0"), OK), Comment("c"), Entry(("q", "1"), OK)],
        [Entry(("q", "0"), OK), Entry(("q",), OK), Entry(("q", "1"), OK)],
        [Entry(("q", "0"), OK), Entry(("q", "0"), OK)],
        [Entry(("q", "0"), OK), Entry(("q", "1"), OK), Entry(("q", "1"), OK)],
        [Entry(("q", "0"), OK), Entry(("q", "2"), OK)],
        *(
            [Entry(("q", "0"), OK, meta=a), Entry(("q", "1"), OK, meta=b)]
            for a, b in (
                ([], [Metadata("x", "y")]),
                ([Metadata("x", "y")], []),
                ([Metadata("x", "y")], [Metadata("x", "z")]),
                ([Metadata("x", "y")], [Metadata("z", "y")]),
            )
        ),
        Entry(("q",), OK, meta=[Metadata("name", "x")]),
        Entry(("q", "0"), plural({(CatchallKey("other"),): ["x"]})),
        Entry(("q",), plural({("foo",): ["x"], (CatchallKey("other"),): ["x"]})),
        Entry(("q",), SelectMessage({"a": Expression(X, "string")}, (VariableRef("a"),), {("one",): ["x"], (CatchallKey("other"),): ["x"]})),
        Entry(
            ("q",),
            SelectMessage(
                {"a": Expression(X, "number"), "b": Expression(VariableRef("y"), "number")},
                (VariableRef("a"), VariableRef("b")),
                {("one", "one"): ["x"], (CatchallKey(), CatchallKey()): ["x"]},
            ),
        ),
        Entry(("q",), PatternMessage(["x"], {"a": Expression(X, "number")})),
        Entry(("q",), PatternMessage(["\ufffe"])),
        Entry(("q",), PatternMessage([Expression(None, "foo")])),
        Entry(("q",), PatternMessage([Expression("x", "entity")])),
        Entry(("q",), PatternMessage([Expression("foo", "reference")])),
        Entry(("q",), PatternMessage([Expression(X, attributes={"source": True})])),
        Entry(("q",), PatternMessage([Markup("open", "b"), "x"])),
        Entry(("q",), PatternMessage([Markup("open", "b"), "x", Markup("close", "i")])),
        Entry(("q",), PatternMessage(["x", Markup("close", "b")])),
        Entry(("q",), PatternMessage([Markup("open", "a"), Markup("open", "b"), "x", Markup("close", "a"), Markup("close", "b")])),
        Entry(("q",), PatternMessage([Markup("open", "b", {"x": X}), "x", Markup("close", "b")])),
        Entry(("q",), PatternMessage([Markup("open", "a b"), Markup("close", "a b")])),
        Section(("!ENTITY",), [Entry(("a b",), OK)]),
        Section(("!ENTITY",), [Entry(("a", "b"), OK)]),
        Section(("!ENTITY",), [Entry(("a",), plural({(CatchallKey("other"),): ["x"]}))]),
        Section(("!ENTITY",), [Entry(("a",), PatternMessage([Expression(X)]))]),
    ]
)
BAD_SOURCES = [
    "<foo/>",
    "<resources>",
    "<resources><string>x</string></resources>",
    '<resources><foo name="x">x</foo></resources>',
    '<resources><string name="x">&foo;</string></resources>',
    '<resources><string name="x">a</string></resources',
    '<resources><plurals name="x"><item>a</item></plurals></resources>',
    '<resources><plurals name="x"><item quantity="some">a</item></plurals></resources>',
    '<resources><plurals name="x"><string quantity="one">a</string></plurals></resources>',
    '<resources><string-array name="x"><string>a</string></string-array></resources>',
    '<resources><string name="x">a %&lt;s</string></resources>',
    "",
]


def check_reject(case, ctx):
    res, what, src = case
    if isinstance(what, list):
        # Each of these is fine by itself
        for part in what:
            if isinstance(part, Entry):
                part = copy.deepcopy(part)
                part.id = (part.id[0], *("0" for _ in part.id[1:]))
            "".join(android_serialize(Resource(Format.android, [Section((), [part])])))
    for data in (src, src.encode()):
        try:
            got = android_parse(data)
        except (ValueError, SyntaxError):
            pass
        else:
            raise Violation(f"not rejected: {src!r} parsed as {got!r}")
    res = copy.deepcopy(res)
    if isinstance(what, Section):
        res.sections.append(what)
    else:
        res.sections[-1].entries += what if isinstance(what, list) else [what]
    try:
        out = "".join(android_serialize(res))
    except (ValueError, TypeError):
        ctx.nontrivial((what, len(res.sections[-1].entries)))
        return
    raise Violation(f"not rejected: {what!r}\n{out}")


bools = st.booleans()
SUBS = [
    Sub(
        "model",
        lambda: st.tuples(resources(), st.fixed_dictionaries({"ascii_spaces": bools, "literal_quotes": bools})),
        check_model,
        4000,
    ),
    Sub("message", lambda: st.tuples(pattern(("foo",)).filter(lambda p: "tools:x" not in repr(p)), bools, st.integers(0, 2)), check_message, 3000),
    Sub("string", lambda: st.tuples(string_tokens(), st.sampled_from(["plain", "charref", "cdata", "plain", "charref", "cdata", "comment", "pi"]), bools, bools), check_string, 6000),
    Sub("elements", lambda: st.tuples(trees(), bools, st.sampled_from([False, False, True])), check_elements, 3000),
    Sub("document", documents, check_document, 3000),
    Sub("reject", lambda: st.tuples(resources(), bad, st.sampled_from(BAD_SOURCES)), check_reject, 600),
]
