"""P17: format detection, and the common entry points for parsing and serializing."""

from __future__ import annotations

import copy
import json
import os
import subprocess
import sys

from hypothesis import strategies as st

from lib import gen
from lib.harness import REPO, HarnessError, Sub, Violation
from moz.l10n.formats import Format, UnsupportedFormat, bilingual_extensions, detect_format, l10n_extensions
from moz.l10n.formats.android.parse import android_parse
from moz.l10n.formats.android.serialize import android_serialize
from moz.l10n.formats.dtd.parse import dtd_parse
from moz.l10n.formats.dtd.serialize import dtd_serialize
from moz.l10n.formats.fluent.parse import fluent_parse
from moz.l10n.formats.fluent.serialize import fluent_serialize
from moz.l10n.formats.gettext.parse import gettext_parse
from moz.l10n.formats.gettext.serialize import gettext_serialize
from moz.l10n.formats.inc.parse import inc_parse
from moz.l10n.formats.inc.serialize import inc_serialize
from moz.l10n.formats.ini.parse import ini_parse
from moz.l10n.formats.ini.serialize import ini_serialize
from moz.l10n.formats.plain_json.parse import plain_json_parse
from moz.l10n.formats.plain_json.serialize import plain_json_serialize
from moz.l10n.formats.properties.parse import properties_parse
from moz.l10n.formats.properties.serialize import properties_serialize
from moz.l10n.formats.webext.parse import webext_parse
from moz.l10n.formats.webext.serialize import webext_serialize
from moz.l10n.formats.xliff.parse import xliff_parse
from moz.l10n.formats.xliff.serialize import xliff_serialize
from moz.l10n.resource import parse_resource, serialize_resource

PROPERTY = "P17"
RULE = (
    "detect: names (extensions of all formats, others, upper case, dots in directories, none) paired with contents built as JSON of string"
    " objects of webext and nearly-webext shape, with line comments, XML with different roots, namespaces and prologs, junk, and undecodable bytes; the expected format"
    " follows from how the content was built; non-trivial = the content decides. parse: sources of each format (sensitive to the parser options) given as text, bytes, file,"
    " by format, by name or by content alone, with all options, against the format's parser (or a shared error); non-trivial = no error. serialize: parsed resources"
    " of each format serialized with its own or any other format and all options, against the format's serializer; non-trivial = serialization succeeds. nolxml: the same without lxml,"
    " in a subprocess; non-trivial = an XML source."
)
ASSUMPTIONS = [
    "an empty JSON object may be detected as either kind of JSON",
    "gettext files are in UTF-8",
]

XLIFF = [f"urn:oasis:names:tc:xliff:document:1.{i}" for i in range(3)]
EXT = {
    ".dtd": Format.dtd,
    ".ftl": Format.fluent,
    ".po": Format.gettext,
    ".pot": Format.gettext,
    ".inc": Format.inc,
    ".ini": Format.ini,
    ".properties": Format.properties,
    ".xlf": Format.xliff,
    ".xliff": Format.xliff,
}

# ------------------------------------------------------------------ detection

stem = st.sampled_from(["a", "strings", "x/y", "a.ftl/b", "/m.json/n", ".a", "a.ini", "é", "a b", "", "d.xml/"])
exts = st.sampled_from(["", "", ".json", ".json", ".xml", ".xml", ".txt", ".FTL", ".js", ".xcstrings", ".strings", ".", *EXT])
name = st.one_of(st.none(), st.builds(str.__add__, stem, exts), st.builds(str.__add__, stem, exts))

jstr = st.sampled_from(["x", "", "// y", "<a>", 'q"', "\\", "é", "$A$", "message"])
bad = st.sampled_from([0, None, True, [], ["a"], 1.5, {"a": 1}])
jkey = st.sampled_from(["message", "description", "placeholders", "a", "b.c", "//", "content"])
jobj = st.recursive(jstr, lambda s: st.dictionaries(jkey, s, max_size=3), max_leaves=5)
webmsg = st.fixed_dictionaries(
    {"message": jstr},
    optional={
        "description": jstr,
        "placeholders": st.dictionaries(st.sampled_from(["A", "b_1"]), st.fixed_dictionaries({"content": jstr}, optional={"example": jstr}), max_size=2),
    },
)


@st.composite
def json_doc(draw):
    """(text, format)"""
    n = draw(st.integers(0, 9))
    if n < 4:
        obj = draw(st.dictionaries(st.sampled_from(["k", "l", "m_n", "@@x"]), webmsg, min_size=1, max_size=3))
        fmt = Format.webext
        if n == 3:
            k = draw(st.sampled_from(sorted(obj)))
            change = draw(st.integers(0, 6))
            if change == 0:
                del obj[k]["message"]
            elif change == 1:
                obj[k]["other"] = draw(jstr)
            elif change == 2:
                obj[k] = draw(jstr)
            elif change == 3:
                obj["zz"] = {}
            elif change == 4:
                obj[k]["placeholders"] = draw(jstr)
            elif change == 5:
                obj[k]["message"] = draw(st.dictionaries(jkey, jstr, max_size=2))
            else:
                obj[k]["description"] = draw(st.dictionaries(jkey, jstr, max_size=2))
            fmt = Format.plain_json
    elif n < 7:
        obj = draw(st.dictionaries(st.sampled_from(["k", "l", "message"]), jobj, max_size=3))
        obj["z"] = draw(jstr)
        fmt = Format.plain_json
    elif n == 7:
        obj, fmt = {}, "json"
    else:
        obj = draw(st.dictionaries(st.sampled_from(["k", "l"]), st.one_of(webmsg, jobj), max_size=3))
        b = draw(bad)
        if draw(st.booleans()):
            obj["z"] = b
        elif draw(st.booleans()):
            obj["z"] = {"message": "x", "placeholders": {"A": {"content": "x", "example": b}}}
        else:
            obj = draw(st.sampled_from([[obj], ["a"], "a", 0, None, True]))
        fmt = None
    src = json.dumps(obj, indent=draw(st.sampled_from([None, 2])), ensure_ascii=draw(st.booleans()))
    if draw(st.integers(0, 3)) == 0:
        # line comments are allowed in webext sources only
        lines = src.split("\n")
        i = draw(st.integers(0, len(lines) - 1))
        lines[i] += draw(st.sampled_from(["// c", ' // "c', "//", "// { é"]))
        if draw(st.booleans()):
            lines.insert(0, "// head")
        src = "\n".join(lines)
        fmt = fmt if fmt == Format.webext else "webext?" if fmt == "json" else None
    pre, post = draw(st.sampled_from([("", ""), ("\n ", ""), ("", "\n"), ("", "\n\n")]))
    if draw(st.integers(0, 9)) == 0:
        return src + "\n" + draw(st.sampled_from(["x", "}", ",", "{}"])), None
    return pre + src + post, fmt


@st.composite
def xml_doc(draw):
    root = draw(st.sampled_from(["resources", "resources", "xliff", "xliff", "html", "resource", "a"]))
    ns = draw(st.sampled_from(["", "", *XLIFF, *XLIFF, "urn:oasis:names:tc:xliff:document:2.0", "urn:x"]))
    prefix = draw(st.sampled_from(["", "", "", "x"]))
    attrs = ""
    if ns:
        attrs = f' xmlns{":" if prefix else ""}{prefix}="{ns}"'
    if draw(st.booleans()):
        attrs += ' xmlns:tools="http://t"' + draw(st.sampled_from(["", ' tools:a="b"', ' version="1.2"']))
    tag = f"{prefix}:{root}" if ns and prefix else root
    # with another default namespace, or a prefix of its own, it is another element
    if ns and not prefix:
        fmt = Format.xliff if root == "xliff" and ns in XLIFF else None
        if root != "xliff" and ns in XLIFF:
            fmt = "xliff?"
    elif ns:
        fmt = "xliff?" if root == "xliff" and ns in XLIFF else None
    else:
        fmt = Format.android if root == "resources" else None
    head = draw(st.sampled_from(["", "", '<?xml version="1.0" encoding="utf-8"?>\n', "<!-- é -->", "<?pi x?>\n", '<!DOCTYPE resources [<!ENTITY a "b">]>\n']))
    body = draw(st.sampled_from(["", "x", "\n  <string name='a'>{}</string>\n", "<file/>", "<resources/>", "&amp;", "é"]))
    src = f"{head}<{tag}{attrs}>{body}</{tag}>" if body or draw(st.booleans()) else f"{head}<{tag}{attrs}/>"
    return src, fmt


junk_doc = st.sampled_from(["", " ", "\n", "# a\n", "a=b", "key = Value\n", "msgid \"\"\n", "{", "[]", "<", "<!-- x -->", "<a", "\0", "null", '"resources"', "// x", "\\"]).map(lambda s: (s, None))
latin1 = st.sampled_from([b"\xff", b"{\xe9}", b'{"a": "\xe9"}', b"\x80abc", b"\xfe\xff"]).map(lambda s: (s, None))


def accept(fmt, got):
    if fmt == "json":
        return got in (Format.webext, Format.plain_json)
    if isinstance(fmt, str):
        return got is None or got.name == fmt[:-1]
    return got is fmt


def check_detect(case, ctx):
    nm, (src, fmt), kind = case
    base = (nm or "").rpartition("/")[2]
    dot = base.lstrip(".").rpartition(".")
    ext = "." + dot[2] if dot[1] else ""
    if isinstance(src, str) and kind != "str":
        src = (b"\xef\xbb\xbf" if kind == "bom" else b"") + src.encode("utf8")
    is_xml = (src if isinstance(src, str) else src.decode("utf8", "replace")).lstrip("\ufeff").startswith("<")
    if ext in EXT:
        want = EXT[ext]
    elif src is None:
        want = None
    elif ext == ".xml" and not is_xml:
        want = None
    else:
        want = fmt
        ctx.nontrivial()
    got = detect_format(nm, src)
    if not accept(want, got):
        raise Violation(f"expected {want}, got {got} for {nm!r}, {src!r}")
    got = detect_format(nm)
    if got is not EXT.get(ext):
        raise Violation(f"expected {EXT.get(ext)}, got {got} for {nm!r} without source")
    if ext in EXT and (ext not in l10n_extensions or (ext in bilingual_extensions) != (EXT[ext].name in ("gettext", "xliff"))):
        raise Violation(f"extension sets do not agree on {ext}")
    ctx.label(str(want))


# ------------------------------------------------------------------ sources per format

word = st.sampled_from(["x", "Foo bar", "%s", "%1$d of %2$s", "é😀", " a", "b ", "$A$", "{x}", '"q"', "it's", "\\u0041", "a\\nb", "<b>z</b>", "&amp;", "\u00a0", "100%", "&#64;", "\u3000y", "'1 2'"])
words = st.lists(word, max_size=3).map("".join)
keys = st.lists(st.sampled_from(["a", "b", "c-d", "e", "F"]), max_size=4, unique=True)
nl = st.sampled_from(["\n", "\n", "\n", "\r\n"])


def esc_xml(s):
    return s.replace("&", "&amp;").replace("<", "&lt;") if "<" in s else s


@st.composite
def source(draw, fmt):
    ks = draw(keys)
    vals = [draw(words) for _ in ks]
    cm = [draw(st.sampled_from(["", "", "cmt", "é c"])) for _ in ks]
    rows = list(zip(ks, vals, cm))
    if fmt == "dtd":
        src = "".join((f"<!-- {c} -->\n" if c else "") + f"<!ENTITY {k} '{v.replace(chr(39), '')}'>\n" for k, v, c in rows)
    elif fmt == "fluent":
        src = "".join((f"# {c}\n" if c else "") + f"{k} = {v.replace('{x}', '{ $x }')}\n    .t = {{ {k} }}\n" for k, v, c in rows)
    elif fmt == "gettext":
        hdr = draw(st.sampled_from(["", 'msgid ""\nmsgstr ""\n"Language: fi\\n"\n\n', '# head\nmsgid ""\nmsgstr "Content-Type: text/plain; charset=UTF-8\\n"\n\n']))
        src = hdr
        for k, v, c in rows:
            v = v.replace("\\", "\\\\").replace('"', '\\"')
            mid = f'msgid "{k}"\nmsgstr "{v}"\n'
            if draw(st.booleans()):
                n = draw(st.integers(1, 3))
                mid = f'msgid "{k}"\nmsgid_plural "{k}s"\n' + "".join(f'msgstr[{i}] "{v}"\n' for i in range(n))
            ob = draw(st.sampled_from([False, False, True]))
            if c:
                src += f"#. {c}\n" if not ob else ""
            src += ("".join(f"#~ {ln}\n" for ln in mid.splitlines()) if ob else mid) + "\n"
    elif fmt == "inc":
        src = "".join((f"# {c}\n" if c else "") + f"#define {k.replace('-', '_')} {v.strip() or 'x'}\n" for k, v, c in rows)
    elif fmt == "ini":
        src = "[S]\n" + "".join((f"# {c}\n" if c else "") + f"{k}={v}\n" for k, v, c in rows)
    elif fmt == "properties":
        src = "".join((f"# {c}\n" if c else "") + f"{k} = {v}\n" for k, v, c in rows)
    elif fmt == "plain_json":
        src = json.dumps({k: ({"n": v} if c else v) for k, v, c in rows} | {"z": "z"}, ensure_ascii=draw(st.booleans()), indent=draw(st.sampled_from([None, 2])))
    elif fmt == "webext":
        obj = {k: {"message": v, **({"description": c} if c else {}), "placeholders": {"a": {"content": "$1"}}} for k, v, c in rows}
        src = json.dumps(obj or {"k": {"message": "x"}}, indent=2)
        if draw(st.booleans()):
            src = "// c\n" + src
    elif fmt == "android":
        src = "<resources>\n" + "".join(
            (f"<!-- {c} -->\n" if c else "") + f'<string name="{k.replace("-", "_")}">{v if draw(st.booleans()) else esc_xml(v)}</string>\n' for k, v, c in rows
        ) + "</resources>"
    else:
        src = (
            f'<xliff version="1.2" xmlns="{XLIFF[2]}"><file original="f" source-language="en" datatype="x"><body>\n'
            + "".join(
                f'<trans-unit id="{k}"><source>{esc_xml(v)}</source>'
                + draw(st.sampled_from(["", f"<target>T{esc_xml(v)}</target>"]))
                + (f"<note>{c}</note>" if c else "")
                + "</trans-unit>\n"
                for k, v, c in rows
            )
            + "</body></file></xliff>"
        )
    if draw(st.integers(0, 11)) == 0:
        i = draw(st.integers(0, len(src)))
        src = src[:i] + draw(st.sampled_from(["\n", "\"", "<", "junk\n", "}", "="])) + src[i:]
    return src.replace("\n", draw(nl))


FMTS = ["dtd", "fluent", "gettext", "inc", "ini", "properties", "plain_json", "webext", "android", "xliff"]
opts = st.fixed_dictionaries(
    {},
    optional={
        "android_ascii_spaces": st.booleans(),
        "android_literal_quotes": st.booleans(),
        "gettext_plurals": st.sampled_from([None, ["one", "two", "other"], ("a", "b", "c")]),
        "gettext_skip_obsolete": st.booleans(),
        "properties_printf_placeholders": st.booleans(),
        "xliff_source_entries": st.booleans(),
    },
)
fmt_source = st.sampled_from(FMTS).flatmap(lambda f: st.tuples(st.just(f), source(f)))

PARSERS = {
    "dtd": dtd_parse, "fluent": fluent_parse, "gettext": gettext_parse, "inc": inc_parse, "ini": ini_parse, "properties": properties_parse,
    "plain_json": plain_json_parse, "webext": webext_parse, "android": android_parse, "xliff": xliff_parse,
}  # fmt: skip
SERIALIZERS = {
    "dtd": dtd_serialize, "fluent": fluent_serialize, "gettext": gettext_serialize, "inc": inc_serialize, "ini": ini_serialize, "properties": properties_serialize,
    "plain_json": plain_json_serialize, "webext": webext_serialize, "android": android_serialize, "xliff": xliff_serialize,
}  # fmt: skip


def of_format(fmt, options, rename=None):
    res = {}
    for k, v in options.items():
        f, _, rest = k.partition("_")
        if f == fmt:
            res[rest] = v
    return res


def attempt(fn):
    try:
        return fn(), None
    except Exception as err:
        return None, type(err)


def same(want, got, what):
    a, ea = want
    b, eb = got
    if ea is not eb:
        raise Violation(f"{what}: expected {ea.__name__ if ea else repr(a)[:500]}, got {eb.__name__ if eb else repr(b)[:500]}")
    if ea is None and (repr(a) != repr(b) or gen.diff(a, b)):
        raise Violation(f"{what}: {gen.diff(a, b)}\nexpected {a!r}\ngot      {b!r}")


def check_parse(case, ctx):
    (fmt, src), options, ext_i = case
    direct = of_format(fmt, options)
    raw = src.encode("utf8")
    want = attempt(lambda: PARSERS[fmt](src, **direct))
    if want[1] is None:
        ctx.nontrivial(case)
    F = Format[fmt]
    same(attempt(lambda: PARSERS[fmt](raw, **direct)), want, f"{fmt} bytes, {raw}, {options}")
    for s in (src, raw):
        same(want, attempt(lambda: parse_resource(F, s, **options)), f"by format, {s!r}, {options}")
    names = [e for e, f in EXT.items() if f is F] or [".json" if "json" in fmt or fmt == "webext" else ".xml"]
    ext = names[ext_i % len(names)]
    detected = detect_format("a" + ext, raw)
    if want[1] is None and detected is not F:
        # a broken webext source may be fine as something else
        if fmt not in ("plain_json", "webext"):
            raise Violation(f"{fmt} detected as {detected}: {raw!r}")
    if detected is F:
        for s in (src, raw):
            same(want, attempt(lambda: parse_resource("nowhere/a" + ext, s, **options)), f"by name, {s!r}, {options}")
        path = os.path.join(ctx.fresh_dir(), "x.y" + ext)
        with open(path, "wb") as f:
            f.write(raw)
        # polib finds the reason for a syntax error elsewhere
        got = attempt(lambda: parse_resource(path, **options))
        if fmt == "gettext" and want[1] and got[1]:
            pass
        else:
            same(want, got, f"from file, {raw!r}, {options}")
    found = detect_format(None, raw)
    got = attempt(lambda: parse_resource(None, raw, **options))
    if found is None:
        same((None, UnsupportedFormat), got, f"no format, {raw!r}")
    else:
        same(attempt(lambda: PARSERS[found.name](raw, **of_format(found.name, options))), got, f"by content, {raw!r}, {options}")
    same((None, UnsupportedFormat), attempt(lambda: parse_resource(Format.mf2, src)), "mf2")
    same((None, TypeError), attempt(lambda: parse_resource(F)), "no source")
    ctx.label(fmt, "error" if want[1] else "ok")


sopts = st.fixed_dictionaries(
    {},
    optional={
        "fluent_escape_syntax": st.booleans(),
        "gettext_plurals": st.sampled_from([None, ["0", "1", "2"], ["one", "two", "other"], ("a",)]),
        "xliff_source_entries": st.booleans(),
    },
)


def check_serialize(case, ctx):
    (fmt, src), options, trim, target, how, popts = case
    res, err = attempt(lambda: PARSERS[fmt](src, **of_format(fmt, popts)))
    if err:
        return
    T = Format[target]
    tr = {} if trim is None else {"trim_comments": trim}
    if how == "own":
        if target != fmt:
            res.format = T
        arg = (res,)
    elif how == "given":
        res.format = None if len(src) % 2 else res.format
        arg = (res, T)
    else:
        arg = (res, T) if trim is None else (res, T, trim)
        tr = {}
    before = repr(res)
    direct = of_format(target, options)
    if trim is not None:
        direct["trim_comments"] = trim
    if target == "android":
        want = attempt(lambda: "".join(android_serialize(copy.deepcopy(res), bool(trim))))
    elif target == "xliff":
        want = attempt(lambda: "".join(xliff_serialize(copy.deepcopy(res), bool(trim), source_entries=options.get("xliff_source_entries", False))))
    else:
        want = attempt(lambda: "".join(SERIALIZERS[target](copy.deepcopy(res), **direct)))
    got = attempt(lambda: "".join(serialize_resource(*arg, **tr, **options)))
    same(want, got, f"{fmt} as {target} ({how}), trim {trim}, {options}, {res!r}")
    if repr(res) != before:
        raise Violation(f"the resource was changed: {before} -> {res!r}")
    if want[1] is None:
        ctx.nontrivial(case)
        ctx.label(f"ok {target}", "own" if target == fmt else "other")
    for f in (Format.mf2, None):
        bad_res = copy.copy(res)
        bad_res.format = f
        same((None, ValueError), attempt(lambda: "".join(serialize_resource(bad_res))), f"{f}")


# ------------------------------------------------------------------ without lxml

CHILD = r"""
import sys, json
sys.modules["lxml"] = None
sys.modules["lxml.etree"] = None
from moz.l10n.formats import Format, UnsupportedFormat, detect_format
from moz.l10n.resource import parse_resource, serialize_resource
out = []
for fmt, src in json.load(sys.stdin):
    row = []
    for s in (src, src.encode("utf8")):
        for a in (Format[fmt], None, "x.xml", "x.json", "x.po"):
            try:
                res = parse_resource(a, s)
                text = "".join(serialize_resource(res))
                row.append([repr(res), text])
            except Exception as e:
                row.append([type(e).__name__, str(e) if type(e) is UnsupportedFormat else ""])
    try:
        row.append("".join(serialize_resource(parse_resource(Format.properties, "a=b"), Format[fmt])))
    except Exception as e:
        row.append(type(e).__name__ if "Unsupported resource format" in str(e) else "other")
    out.append(row)
print(json.dumps(out))
"""


def check_nolxml(case, ctx):
    env = {**os.environ, "PYTHONPATH": os.path.join(REPO, "python")}
    p = subprocess.run([sys.executable, "-c", CHILD], input=json.dumps(case), env=env, capture_output=True, text=True)
    if p.returncode:
        raise Violation(f"without lxml: {p.stderr[-3000:]}")
    for (fmt, src), row in zip(case, json.loads(p.stdout)):
        got = iter(row)
        for s in (src, src.encode("utf8")):
            for a in (Format[fmt], None, "x.xml", "x.json", "x.po"):
                det = a if isinstance(a, Format) else detect_format(a, s)
                r = next(got)
                if det in (Format.android, Format.xliff):
                    ctx.nontrivial((src, str(a)))
                    # the caller is told what to do about it, where the source shows it
                    if r[0] != "UnsupportedFormat" or (src.startswith("<") and "`lxml`" not in r[1]):
                        raise Violation(f"without lxml: {r} for {a}, {s!r}")
                else:
                    try:
                        res = parse_resource(a, s)
                        want = [repr(res), "".join(serialize_resource(res))]
                    except Exception as e:
                        want = [type(e).__name__, ""]
                    if r[0] != want[0] or (want[1] and r[1] != want[1]):
                        raise Violation(f"without lxml: expected {want}, got {r} for {a}, {s!r}")
        r = next(got)
        if (fmt in ("android", "xliff")) != (r == "ValueError"):
            raise Violation(f"serializing as {fmt} without lxml gives {r!r}")


SUBS = [
    Sub("detect", lambda: st.tuples(name, st.one_of(json_doc(), json_doc(), xml_doc(), junk_doc, latin1), st.sampled_from(["str", "bytes", "bytes", "bom"])), check_detect, 8000),
    Sub("parse", lambda: st.tuples(fmt_source, opts, st.integers(0, 2)), check_parse, 6000),
    Sub("serialize", lambda: st.tuples(fmt_source, sopts, st.sampled_from([None, True, False]), st.sampled_from(FMTS), st.sampled_from(["own", "given", "pos"]), opts), check_serialize, 8000),
    Sub("nolxml", lambda: st.lists(fmt_source, min_size=8, max_size=20), check_nolxml, 40, 400),
]
