"""P10: XLIFF 1.2: documents and resources survive parse and serialize."""

from __future__ import annotations

import copy
import xml.etree.ElementTree as ET
from functools import partial
from itertools import zip_longest

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.xliff import (
    xliff_parse,
    xliff_parse_message,
    xliff_serialize,
    xliff_serialize_message,
)
from moz.l10n.model import (
    CatchallKey,
    Comment,
    Entry,
    Expression,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P10"
RULE = (
    "document: generated XLIFF 1.x documents (files, headers, nested groups, trans-units, bin-units, notes, alt-trans,"
    " inline markup, foreign namespaces, CDATA and character references), whose expected resource is derived from the same tree by"
    " an independent model, and whose serialization must have the same normalized XML tree; in both entry modes;"
    " non-trivial = at least one inline element, group or nested metadata element. model: the resources of such documents with changed"
    " values, str values, comments without notes, and trimming; non-trivial = at least one changed value."
    " message: single patterns through the message functions; non-trivial = markup or a special character. reject: one unsupported"
    " part in a valid document or resource."
)
ASSUMPTIONS = [
    "files and groups are identified by unique non-empty ids; namespaces are declared at the root",
    "an empty target without attributes is the same as none; white space matters only in source, target and seg-source",
    "groups follow the units of their parent, and the children of a unit are sorted by name, after source and target",
    "XML comments are generated before files, and between units, and comments trim their lines; -- is broken up",
]

NS = "urn:oasis:names:tc:xliff:document:"
XML = "http://www.w3.org/XML/1998/namespace"
PREFIX = {"my": "urn:x-my", "xsi": "http://www.w3.org/2001/XMLSchema-instance", "xml": XML}
MSG = ("source", "target", "seg-source")
cmt = gen.comment("<>&", exclude="\u2028\x85", any=gen.XML_CHARS, lead_space=False, min_size=1)
dashed = cmt.map(lambda s: s.replace("\u200b", ""))
cmt = cmt.filter(lambda s: "--" not in s)
SPECIAL = ["<", ">", "&", "&amp;", "]]>", '"', "'", "\n", "\t", " ", "  ", "\r", "\x85", "\u2028", "%d", "{", "-->", "\u00a0"]
txt = gen.text(SPECIAL, any=gen.XML_CHARS, min_size=1, max_size=8)
blank = st.sampled_from([" ", "\n", "\n  ", "\t "])
mtxt = gen.weighted((5, txt), (1, blank))
attr_v = gen.text(["<", ">", "&", '"', "'", "\n", "\t", " ", "\r", "é"], any=gen.XML_CHARS, max_size=5)
ident = gen.text(["<", "&", '"', "/", "[", "]", ".", "@", "\n", " ", "-"], any=gen.XML_CHARS, min_size=1, max_size=5)


# --- documents: an element is (name, {attr: value}, [children]), a comment (None, {}, [text])


def attrs(*names, max_size=2):
    return st.dictionaries(st.sampled_from(names), attr_v, max_size=max_size)


@st.composite
def inline(draw, depth=2):
    out = []
    for _ in range(draw(st.integers(0 if depth == 2 else 1, 4))):
        k = draw(st.integers(0, 9))
        if k < 4 or (not depth and k > 6):
            t = draw(mtxt)
            if out and isinstance(out[-1], str):
                out[-1] += t
            else:
                out.append(t)
        elif k < 7:
            out.append((draw(st.sampled_from(["x", "bx", "ex"])), draw(attrs("id", "ctype", "xml:space", "my:k", "clone")), []))
        else:
            tag = draw(st.sampled_from(["g", "g", "ph", "mrk", "bpt", "ept", "it", "sub", "my:el"]))
            sub = draw(st.one_of(st.just([]), inline(depth - 1)))
            out.append((tag, draw(attrs("id", "ctype", "mtype", "my:k", "xml:lang")), sub))
    return out


message = gen.weighted((2, mtxt.map(lambda t: [t])), (3, inline()))
note = st.tuples(st.just("note"), attrs("from", "priority", "annotates", "xml:lang"), gen.weighted((4, txt.filter(lambda t: not t.isspace()).map(lambda t: [t])), (1, st.just([]))))
xml_comment = cmt.map(lambda c: (None, {}, [c]))
leaf = st.builds(lambda n, a, c: (n, a, c), st.sampled_from(["prop", "context", "my:el", "count", "tool"]), attrs("id", "name", "my:k"), st.one_of(st.just([]), txt.filter(lambda t: not t.isspace()).map(lambda t: [t])))


@st.composite
def tree(draw, name, depth=2):
    """Other elements, also with mixed contents"""
    kids = []
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 7))
        if k < 4:
            kids.append(draw(leaf))
        elif k == 4 and not (kids and isinstance(kids[-1], str)):
            kids.append(draw(txt.filter(lambda t: not t.isspace())))
        elif k == 5:
            kids.append(draw(note))
        elif k == 6:
            kids.append(draw(xml_comment))
        elif depth:
            kids.append(draw(tree(draw(st.sampled_from(["prop-group", "context-group", "my:el", "glossary"])), depth - 1)))
    return (name, draw(attrs("id", "name", "my:k")), kids)


@st.composite
def alt_trans(draw):
    kids = []
    if draw(st.booleans()):
        kids.append(("source", draw(attrs("xml:lang")), draw(message)))
    kids.append(("target", draw(attrs("xml:lang", "state")), draw(message)))
    if draw(st.booleans()):
        kids.append(draw(note))
    if draw(st.integers(0, 4)) == 0:
        kids.insert(draw(st.integers(0, len(kids))), draw(xml_comment))
    return ("alt-trans", draw(attrs("origin", "match-quality", "my:k")), kids)


@st.composite
def trans_unit(draw, uid):
    kids = [("source", draw(attrs("xml:lang", "my:k")), draw(message))]
    if draw(st.integers(0, 3)):
        kids.append(("target", draw(attrs("state", "xml:lang", "my:k")), draw(message)))
    kids += draw(st.lists(gen.weighted((3, note), (1, alt_trans()), (1, xml_comment), (1, tree("context-group", 1)), (1, tree("my:el")), (1, message.map(lambda m: ("seg-source", {}, m)))), max_size=3))
    if draw(st.integers(0, 4)) == 0:
        kids = draw(st.permutations(kids))
    return ("trans-unit", {"id": uid, **draw(attrs("approved", "xml:space", "resname", "my:k", "translate"))}, kids)


@st.composite
def bin_unit(draw, uid):
    kids = [("bin-source", {}, [draw(st.sampled_from([("external-file", {"href": "a b"}, []), ("internal-file", {"form": "text"}, ["QUJD"])]))])]
    kids += draw(st.lists(st.one_of(note, tree("my:el"), tree("context-group", 1), xml_comment), max_size=2))
    return ("bin-unit", {"id": uid, **draw(attrs("mime-type", "resname", "my:k"))}, kids)


@st.composite
def body(draw, depth, up):
    ids = draw(st.lists(ident, unique=True, min_size=draw(st.sampled_from([0, 1, 2])), max_size=4))
    if ids and draw(st.integers(0, 3)) == 0:
        ids = list(dict.fromkeys([up if i == len(ids) // 2 else x for i, x in enumerate(ids)]))
    kids = []
    for uid in ids:
        if draw(st.integers(0, 4)) == 0:
            kids.append((None, {}, [draw(cmt)]))
        k = draw(st.integers(0, 8))
        if k == 0:
            kids.append(draw(bin_unit(uid)))
        elif k < 6 or not depth:
            kids.append(draw(trans_unit(uid)))
        else:
            meta = draw(st.lists(st.one_of(note, tree("context-group", 1), tree("my:el", 1)), max_size=2))
            inner = draw(body(depth - 1, uid))
            if meta and draw(st.booleans()):
                inner = draw(st.permutations([*inner, *meta]))
            else:
                inner = [*meta, *inner]
            kids.append(("group", {"id": uid, **draw(attrs("restype", "resname", "my:k"))}, inner))
    return kids


@st.composite
def document(draw):
    ver = draw(st.sampled_from(["1.2", "1.2", "1.2", "1.1", "1.0"]))
    kids = []
    for fn in draw(st.lists(ident, unique=True, max_size=2, min_size=draw(st.sampled_from([0, 1, 1, 1, 1])))):
        for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 2, 3]))):
            kids.append((None, {}, [draw(cmt)]))
        head = [draw(tree("header"))] if draw(st.integers(0, 2)) == 0 else []
        fa = {"original": fn, **draw(attrs("source-language", "target-language", "datatype", "xml:space", "my:k", "date", max_size=3))}
        fk = [*head, ("body", {}, draw(body(2, fn)))]
        for _ in range(draw(st.sampled_from([0, 0, 0, 0, 0, 0, 1, 2]))):
            fk.insert(draw(st.integers(0, len(fk))), (None, {}, [draw(cmt)]))
        kids.append(("file", fa, fk))
    ra = {"version": ver, **draw(attrs("xml:lang", "my:k", "xsi:schemaLocation"))}
    top = draw(st.one_of(st.just([]), st.lists(cmt, max_size=3)))
    return {"ns": draw(st.sampled_from([NS + ver, NS + ver, NS + ver, ""])), "root": ("xliff", ra, kids), "top": top, "style": draw(st.integers(0, 15)), "src": draw(st.booleans())}


# --- writing


def esc(s, style, attr=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace("\r", "&#13;")
    if attr:
        return s.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#x9;")
    if style & 1:
        s = s.replace(">", "&gt;")
    else:
        s = s.replace("]]>", "]]&gt;")
    return s


def mark_text(s, style):
    if style & 2 and "\r" not in s and "]]>" not in s:
        n = len(s) // 2
        return esc(s[:n], style) + (f"<![CDATA[{s[n:]}]]>" if s[n:] else "")
    return esc(s, style)


def write(el, style, depth=0, inside=False):
    name, at, kids = el
    if name is None:
        return f"<!-- {kids[0]} -->"
    res = "<" + name + "".join(f' {k}="{esc(v, style, True)}"' for k, v in at.items())
    if not kids and style & 4:
        return res + "/>"
    res += ">"
    inside = inside or name in MSG
    mixed = inside or any(isinstance(k, str) for k in kids)
    nl = "" if mixed or not style & 8 else "\n" + " " * depth
    for k in kids:
        res += mark_text(k, style) if isinstance(k, str) else nl + write(k, style, depth + 1, inside)
    return res + nl + f"</{name}>"


def tops(case):
    """The comments before the root element"""
    return case["top"] if "top" in case else [c for c in [case["comment"]] if c]


def source_of(case):
    name, at, kids = case["root"]
    ns = {"xmlns": case["ns"]} if case["ns"] else {}
    ns |= {f"xmlns:{p}": u for p, u in PREFIX.items() if p != "xml"}
    res = '<?xml version="1.0" encoding="utf-8"?>\n'
    for c in tops(case):
        res += f"<!-- {c} -->\n"
    return res + write((name, {**ns, **at}, kids), case["style"])


# --- the expected model


def clark(name):
    if ":" not in name:
        return name
    p, n = name.split(":")
    return f"{{{PREFIX[p]}}}{n}"


def model_attrs(at, base, skip=()):
    return [Metadata(f"{base}@{k}", v) for k, v in at.items() if k not in skip]


def model_el(el, path, in_msg=False):
    """An element as metadata, its values at XPath-like keys"""
    name, at, kids = el
    in_msg = in_msg or name in MSG
    res = model_attrs(at, path + "/")
    seen = {}
    for k in kids:
        if isinstance(k, str):
            if in_msg or not k.isspace():
                res.append(Metadata(path, k))
        elif k[0] is None:
            res.append(Metadata(f"{path}/comment()", f" {k[2][0]} "))
        else:
            n = seen[k[0]] = seen.get(k[0], 0) + 1
            res += model_el(k, f"{path}/{k[0]}" + (f"[{n}]" if n > 1 else ""), in_msg)
    if not at and not any(not isinstance(k, str) or in_msg or not k.isspace() for k in kids):
        res.append(Metadata(path, ""))
    return res


def model_pattern(kids):
    res = []
    for k in kids:
        if isinstance(k, str):
            res.append(k)
            continue
        name, opts = clark(k[0]), {clark(a): v for a, v in k[1].items()}
        if k[0] in ("x", "bx", "ex"):
            res.append(Markup("standalone", name, opts))
        else:
            res += [Markup("open", name, opts), *model_pattern(k[2]), Markup("close", name)]
    return res


def model_unit(el, src):
    name, at, kids = el
    meta = model_attrs(at, "", ("id",))
    seen = {}
    notes = []
    pattern = []
    for k in kids:
        if k[0] is None:
            meta.append(Metadata("comment()", f" {k[2][0]} "))
            continue
        n = seen[k[0]] = seen.get(k[0], 0) + 1
        if name == "trans-unit" and k[0] == ("source" if src else "target"):
            meta += model_attrs(k[1], k[0] + "/")
            pattern = model_pattern(k[2])
            continue
        meta += model_el(k, k[0] + (f"[{n}]" if n > 1 else ""))
        if name == "trans-unit" and k[0] == "note" and k[2]:
            who = k[1].get("from")
            notes.append(f"{who}: {k[2][0].strip()}" if who else k[2][0].strip())
    if name == "bin-unit":
        return Entry((at["id"],), PatternMessage([Expression(None, attributes={"bin-unit": True})]), meta=meta)
    return Entry((at["id"],), PatternMessage(pattern), comment="\n\n".join(notes), meta=meta)


def model_body(path, meta, kids, src):
    sec = Section(path, [], meta=meta)
    res = [sec]
    seen = {}
    for k in kids:
        if k[0] is None:
            sec.entries.append(Comment(k[2][0]))
        elif k[0] in ("trans-unit", "bin-unit"):
            sec.entries.append(model_unit(k, src))
        elif k[0] == "group":
            res += model_body((*path, k[1]["id"]), model_attrs(k[1], "", ("id",)), k[2], src)
        else:
            n = seen[k[0]] = seen.get(k[0], 0) + 1
            meta += model_el(k, k[0] + (f"[{n}]" if n > 1 else ""))
    return res


def model_of(case):
    res = Resource(Format.xliff, [], comment="\n\n".join(tops(case)))
    _, at, kids = case["root"]
    res.meta = model_attrs(at, "")
    res.meta += [Metadata("@xmlns", case["ns"])] if case["ns"] else []
    res.meta += [Metadata(f"@xmlns:{p}", u) for p, u in PREFIX.items() if p != "xml"]
    comment = []
    for k in kids:
        if k[0] is None:
            comment += k[2]
            continue
        meta = model_attrs(k[1], "", ("original",))
        for c in k[2]:
            if c[0] == "header":
                meta += model_el(c, "header")
        secs = model_body((k[1]["original"],), meta, next(c for c in k[2] if c[0] == "body")[2], case["src"])
        secs[0].entries[:0] = [Comment(c[2][0]) for c in k[2] if c[0] is None]
        secs[0].comment = "\n\n".join(comment)
        comment = []
        res.sections += secs
    return res


def meta_key(m):
    return m.key, m.value


def norm_model(res, unit_order=False):
    res = copy.deepcopy(res)
    res.meta.sort(key=meta_key)
    if unit_order:
        for sec in res.sections:
            for e in sec.entries:
                if isinstance(e, Entry):
                    # children of units are sorted, while the order within each stays
                    e.meta.sort(key=lambda m: m.key.split("/")[0])
    return res


# --- normalized trees


def canon_kids(kids, keep):
    out = []
    for k in kids:
        if isinstance(k, str):
            if out and isinstance(out[-1], str):
                out[-1] += k
            elif k:
                out.append(k)
        else:
            out.append(k)
    return [k for k in out if not isinstance(k, str) or keep or not k.isspace()]


def canon(name, at, kids, keep):
    """One element, with its children already in normal form"""
    kids = canon_kids(kids, keep)
    if name == "trans-unit":
        kids = [k for k in kids if k != ("target", {}, [])]
    if name in ("trans-unit", "bin-unit"):
        kids.sort(key=lambda k: (0 if k[0] == "source" else 1 if k[0] == "target" else 2, k[0] or ""))
    elif name == "group":
        kids.sort(key=lambda k: 2 if k[0] == "group" else 1 if k[0] in (None, "trans-unit", "bin-unit") else 0)
    elif name == "body":
        kids.sort(key=lambda k: k[0] == "group")
    elif name == "file":
        # The comments of a file are at the start of its body
        cs = [k for k in kids if k[0] is None]
        kids = [(*k[:2], cs + k[2]) if k[0] == "body" else k for k in kids if k[0] is not None]
    elif name == "xliff":
        # and those before it are one comment
        old, kids = kids, []
        for k in old:
            if k[0] is None and kids and kids[-1][0] is None:
                kids[-1] = (None, {}, [f"{kids[-1][2][0]} {k[2][0]}"])
            else:
                kids.append(k)
    return (name, at, kids)


def canon_doc(el, keep=False):
    name, at, kids = el
    if name is None:
        return (None, {}, [" ".join(kids[0].split())])
    keep = keep or name in MSG
    return canon(clark(name), {clark(k): v for k, v in at.items()}, [k if isinstance(k, str) else canon_doc(k, keep) for k in kids], keep)


def strip_ns(tag):
    return tag.rsplit("}", 1)[1] if tag.startswith("{" + NS) else tag


def canon_et(el, keep=False):
    if el.tag is ET.Comment:
        return (None, {}, [" ".join((el.text or "").split())])
    name = strip_ns(el.tag)
    keep = keep or name in MSG
    kids = [el.text or ""]
    for c in el:
        kids += [canon_et(c, keep), c.tail or ""]
    return canon(name, dict(el.attrib), kids, keep)


def et_parse(s):
    return ET.fromstring(s, ET.XMLParser(target=ET.TreeBuilder(insert_comments=True)))


def first_diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, str) or isinstance(b, str) or a[0] != b[0]:
        return f"{path}: expected {a!r}, got {b!r}"
    path += f"/{a[0]}"
    if a[1] != b[1]:
        return f"{path}: expected attributes {a[1]!r}, got {b[1]!r}"
    if len(a[2]) != len(b[2]):
        return f"{path}: expected children {a[2]!r}, got {b[2]!r}"
    return next((d for x, y in zip(a[2], b[2]) if (d := first_diff(x, y, path))), "?")


def walk(el):
    yield el
    for k in el[2]:
        if not isinstance(k, str):
            yield from walk(k)


def check_document(case, ctx):
    src = source_of(case)
    names = [e[0] for e in walk(case["root"])]
    if any(n in ("g", "ph", "mrk", "group", "my:el", "context-group", "alt-trans", "x") for n in names):
        ctx.nontrivial(src)
    for n in set(names):
        ctx.label(f"element {n}")
    kw = {"source_entries": True} if case["src"] else {}
    try:
        res = xliff_parse(src.encode() if case["style"] & 1 else src, **kw)
    except Exception as e:
        raise Violation(f"document rejected: {e!r}\n{src}") from e
    d = gen.diff(norm_model(model_of(case)), norm_model(res))
    if d:
        raise Violation(f"parsed resource: {d}\n{src}")
    try:
        out = "".join(xliff_serialize(res, **kw))
    except Exception as e:
        raise Violation(f"parsed document not serialized: {e!r}\n{src}") from e
    try:
        root = et_parse(out)
    except ET.ParseError as e:
        raise Violation(f"not well-formed: {e}\n{out}") from e
    if case["ns"] and root.tag != f"{{{case['ns']}}}xliff":
        raise Violation(f"root {root.tag}\n{out}")
    d = first_diff(canon_doc(case["root"]), canon_et(root))
    if d:
        raise Violation(f"serialized document differs at {d}\n{src}\n{out}")
    again = xliff_parse(out, **kw)
    d = gen.diff(norm_model(res, True), norm_model(again, True))
    if d:
        raise Violation(f"reparsed resource: {d}\n{src}\n{out}")
    out2 = "".join(xliff_serialize(again, **kw))
    if out2 != out:
        raise Violation(f"not a fixed point\n{out}\n{out2}")


# --- resources


@st.composite
def resource(draw):
    case = draw(document())
    case["edits"] = []
    case["trim"] = draw(st.integers(0, 3)) == 0
    for i in range(draw(st.sampled_from([0, 1, 2, 3, 4]))):
        case["edits"].append(draw(st.tuples(st.integers(0, 20), st.sampled_from(["value", "str", "comment", "nonote", "after", "head", "split", "mix"]), message, dashed, txt)))
    case["implicit"] = draw(st.sets(st.integers(0, 12), max_size=3).map(sorted))
    return case


def note_names(m):
    return m.key.split("/")[0].split("[")[0] == "note"


def tidy_meta(meta):
    """Without notes, their parents may turn to empty elements, and the text around them is joined"""
    res = []
    for m in meta:
        if m.value and res and res[-1].key == m.key:
            res[-1] = Metadata(m.key, res[-1].value + m.value)
        elif m.value:
            res.append(m)
    return res


def check_model(case, ctx):
    src = case["src"]
    kw = {"source_entries": True} if src else {}
    res = norm_model(model_of(case), True)
    exp = copy.deepcopy(res)
    entries = [(i, j) for i, s in enumerate(res.sections) for j, e in enumerate(s.entries) if isinstance(e, Entry)]
    changed = set()
    for n, kind, msg, comment, t in case["edits"]:
        if not entries:
            break
        i, j = entries[n % len(entries)]
        e, x = res.sections[i].entries[j], exp.sections[i].entries[j]
        if (i, j) in changed or "bin-unit" in getattr(e.value.pattern[0] if e.value.pattern else None, "attributes", ()):
            continue
        changed.add((i, j))
        ctx.nontrivial([kind, msg, comment, t, e.id])
        ctx.label("edit " + kind)
        if kind == "value":
            e.value.pattern = model_pattern(msg)
            x.value.pattern = model_pattern(msg)
        elif kind == "str":
            e.value = t
            x.value = PatternMessage([t])
        elif kind in ("comment", "nonote"):
            e.meta = [m for m in e.meta if not note_names(m)]
            if kind == "nonote":
                comment = ""
            e.comment = x.comment = comment
            x.meta = [*e.meta, Metadata("note", comment)] if comment else e.meta[:]
        elif kind == "split":
            # The text of an element may be given in parts
            e.meta = [
                Metadata(m.key, v)
                for m in e.meta
                for v in ([m.value] if "@" in m.key or "()" in m.key else [m.value[: n % 5], "", m.value[n % 5 :]])
            ]
        elif kind == "mix":
            # The order between elements is that of the first metadata of each
            by_root = {}
            for m in e.meta:
                by_root.setdefault(m.key.split("/")[0], []).append(m)
            e.meta = [m for row in zip_longest(*by_root.values()) for m in row if m is not None]
        elif kind == "head":
            res.comment = exp.comment = comment
        else:
            c = Comment(comment)
            # only at the end, to keep the positions of others
            res.sections[i].entries.append(c)
            exp.sections[i].entries.append(c)
    # The file and group elements of sections not included in the resource are created as required,
    # without any of the metadata of the sections that they contain.
    for i in sorted(case.get("implicit", ()), reverse=True):
        if i + 1 < len(res.sections):
            id = exp.sections[i].id
            next = res.sections[i + 1].id
            if next[: len(id)] == id and next != id:
                ctx.label("implicit section")
                ctx.nontrivial(["implicit", id, next])
                del res.sections[i]
                exp.sections[i] = Section(id, [])
    if case["trim"]:
        ctx.label("trim")
        exp.comment = ""
        for s in exp.sections:
            s.comment = ""
            s.meta = [m for m in s.meta if "note" not in [p.split("[")[0] for p in m.key.split("/")]]
            s.entries = [e for e in s.entries if isinstance(e, Entry)]
            for e in s.entries:
                e.comment = ""
                e.meta = [m for m in e.meta if "note" not in [p.split("[")[0] for p in m.key.split("/")]]
    before = copy.deepcopy(res)
    try:
        out = "".join(xliff_serialize(res, trim_comments=case["trim"], **kw))
    except Exception as e:
        raise Violation(f"resource not serialized: {e!r}\n{res}") from e
    d = gen.diff(before, res)
    if d:
        raise Violation(f"serializing changed the resource: {d}")
    got = xliff_parse(out, **kw)
    exp, got = norm_model(exp, True), norm_model(got, True)
    for r in (exp, got):
        # the zero-width spaces that separate the dashes of comments
        for x in (r, *r.sections, *(e for s in r.sections for e in s.entries)):
            x.comment = x.comment.replace("\u200b", "")
    if case["trim"]:
        for r in (exp, got):
            for s in r.sections:
                s.meta = tidy_meta(s.meta)
                for e in s.entries:
                    e.meta = tidy_meta(e.meta)
    d = gen.diff(exp, got)
    if d:
        raise Violation(f"{d}\n{out}")


# --- messages


def check_message(case, ctx):
    pattern = model_pattern(case)
    if any(not isinstance(k, str) or set(k) & set("<>&\r]") for k in case):
        ctx.nontrivial(case)
    if any(p.name.startswith("{") or any(k.startswith("{urn") for k in p.options) for p in pattern if isinstance(p, Markup)):
        # without a namespace declaration, not a <target> fragment
        ctx.label("foreign namespace")
        return
    msg = PatternMessage(pattern)
    out = xliff_serialize_message(msg)
    try:
        tree = ET.fromstring(f"<target>{out}</target>")
    except ET.ParseError as e:
        raise Violation(f"not well-formed: {e}\n{out}") from e
    d = first_diff(canon_doc(("target", {}, case)), canon_et(tree))
    if d:
        raise Violation(f"{d}\n{out}")
    for src in (out, "".join(mark_text(k, 1) if isinstance(k, str) else write(k, 0, 0, True) for k in case)):
        got = xliff_parse_message(src)
        d = gen.diff(msg, got)
        if d:
            raise Violation(f"{d}\n{src!r}")
    # Comments and processing instructions are not a part of the contents
    src = commented(case, len(out))
    got = xliff_parse_message(src)
    got.normalize()
    msg.normalize()
    d = gen.diff(msg, got)
    if d:
        raise Violation(f"{d}\n{src!r}")


def commented(kids, n):
    out = []
    for i, k in enumerate(kids, n):
        c = "<?p i?>" if i % 3 == 0 else "<!-- <c>& -->" if i % 3 == 1 else ""
        if isinstance(k, str):
            out.append(c + mark_text(k[: i % 5], 1) + c + mark_text(k[i % 5 :], 1))
        else:
            start, _, end = write((k[0], k[1], ["\x00"]), 0, 0, True).partition("\x00")
            out.append(start + commented(k[2], i) + end)
    return "".join(out)


# --- rejections

P = "xmlns:q='urn:q'"
unit = "<trans-unit id='a'><source>s</source></trans-unit>"
DOCS = {
    "version": f"<xliff version='2.0' xmlns='{NS}1.2'>%F</xliff>",
    "no version": f"<xliff xmlns='{NS}1.2'>%F</xliff>",
    "namespace": "<xliff version='1.2' xmlns='urn:oasis:names:tc:xliff:document:2.0'>%F</xliff>",
    "other namespace": "<xliff version='1.2' xmlns='urn:foo'>%F</xliff>",
    "root": f"<xlif version='1.2' xmlns='{NS}1.2'>%F</xlif>",
    "foreign root": f"<q:xliff version='1.2' xmlns:q='urn:q' xmlns='{NS}1.2'>%F</q:xliff>",
    "text in xliff": "<xliff version='1.2'>x%F</xliff>",
    "text after file": "<xliff version='1.2'>%Fx</xliff>",
    "no original": "<xliff version='1.2'><file><body>%U</body></file></xliff>",
    "no body": "<xliff version='1.2'><file original='x'/></xliff>",
    "two bodies": "<xliff version='1.2'><file original='x'><body>%U</body><body/></file></xliff>",
    "element in file": "<xliff version='1.2'><file original='x'><note/><body>%U</body></file></xliff>",
    "unit in file": f"<xliff version='1.2'><file original='x'><body/>{unit}</file></xliff>",
    "text in file": "<xliff version='1.2'><file original='x'><body>%U</body>x</file></xliff>",
    "text in body": "<xliff version='1.2'><file original='x'><body>x%U</body></file></xliff>",
    "text after unit": "<xliff version='1.2'><file original='x'><body>%Ux</body></file></xliff>",
    "element in body": "<xliff version='1.2'><file original='x'><body>%U<note>x</note></body></file></xliff>",
    "text in group": "<xliff version='1.2'><file original='x'><body><group id='g'>x%U</group></body></file></xliff>",
    "text after group unit": "<xliff version='1.2'><file original='x'><body><group id='g'>%Ux</group></body></file></xliff>",
    "unit id": "<xliff version='1.2'><file original='x'><body>%U<trans-unit><source>s</source></trans-unit></body></file></xliff>",
    "bin-unit id": "<xliff version='1.2'><file original='x'><body>%U<bin-unit/></body></file></xliff>",
    "group unit id": "<xliff version='1.2'><file original='x'><body><group id='g'>%U<trans-unit><source>s</source></trans-unit></group></body></file></xliff>",
    "two targets": "<xliff version='1.2'><file original='x'><body>%U<trans-unit id='b'><source>s</source><target>a</target><target>b</target></trans-unit></body></file></xliff>",
    "text in unit": "<xliff version='1.2'><file original='x'><body>%U<trans-unit id='b'>x<source>s</source></trans-unit></body></file></xliff>",
    "text after source": "<xliff version='1.2'><file original='x'><body>%U<trans-unit id='b'><source>s</source>x</trans-unit></body></file></xliff>",
    "malformed": "<xliff version='1.2'><file original='x'><body>%U</file></xliff>",
    "two roots": "<xliff version='1.2'/><xliff version='1.2'/>",
}


def base_resource():
    return Resource(
        Format.xliff,
        [Section(("f",), [Entry(("a",), PatternMessage(["x"]), meta=[Metadata("source", "s")])])],
        meta=[Metadata("@version", "1.2")],
    )


def bad_pattern(*parts):
    def f(res):
        res.sections[0].entries[0].value.pattern = list(parts)

    return f


MODELS = {
    "anonymous section": lambda r: r.sections.append(Section((), [])),
    "duplicate section": lambda r: r.sections.append(Section(("f",), [])),
    "duplicate group": lambda r: r.sections.extend([Section(("f", "g"), []), Section(("f", "g"), [])]),
    "long id": lambda r: setattr(r.sections[0].entries[0], "id", ("a", "b")),
    "empty id": lambda r: setattr(r.sections[0].entries[0], "id", ()),
    "no source": lambda r: setattr(r.sections[0].entries[0], "meta", []),
    "root metadata": lambda r: r.meta.append(Metadata("foo", "x")),
    "unknown prefix": lambda r: r.meta.append(Metadata("@zz:foo", "x")),
    "unknown section prefix": lambda r: r.sections[0].meta.append(Metadata("@zz:foo", "x")),
    "unknown entry prefix": lambda r: r.sections[0].entries[0].meta.append(Metadata("zz:foo", "x")),
    "variable": bad_pattern(Expression(VariableRef("x"))),
    "function": bad_pattern("a", Expression("x", "number")),
    "variable option": bad_pattern(Markup("standalone", "x", {"id": VariableRef("x")})),
    "unclosed": bad_pattern("a", Markup("open", "g", {"id": "1"}), "b"),
    "unopened": bad_pattern("a", Markup("close", "g")),
    "crossed": bad_pattern(Markup("open", "g"), Markup("open", "mrk"), Markup("close", "g"), Markup("close", "mrk")),
    "close options": bad_pattern(Markup("open", "g"), Markup("close", "g", {"id": "1"})),
    "close target": bad_pattern(Markup("close", "target")),
    "unknown markup prefix": bad_pattern(Markup("standalone", "zz:x")),
    "declarations": lambda r: setattr(r.sections[0].entries[0], "value", PatternMessage(["x"], {"v": Expression("x", "number")})),
    "select": lambda r: setattr(
        r.sections[0].entries[0],
        "value",
        SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {(CatchallKey(),): ["x"]}),
    ),
    "control character": bad_pattern("a\x01b"),
}
MSG_ONLY = ("variable", "function", "variable option", "unclosed", "unopened", "crossed", "close options", "close target", "unknown markup prefix", "declarations", "select", "control character")

reject = st.one_of(
    st.tuples(st.just("doc"), st.sampled_from(sorted(DOCS)), st.booleans(), st.integers(0, 2)),
    st.tuples(st.just("model"), st.sampled_from(sorted(MODELS)), st.booleans(), st.integers(0, 2)),
)


def check_reject(case, ctx):
    kind, name, src, extra = case
    ctx.label(f"{kind} {name}")
    ctx.nontrivial([kind, name, src, extra])
    kw = {"source_entries": True} if src else {}
    if kind == "doc":
        u = unit * (1 if extra else 0)
        u = "".join(unit.replace("'a'", f"'a{n}'") for n in range(extra)) if extra > 1 else u
        f = f"<file original='x'><body>{u}</body></file>"
        s = DOCS[name].replace("%F", f).replace("%U", u)
        if name in ("two targets",) and src:
            s = s.replace("target>", "source>")
        try:
            res = xliff_parse(s, **kw)
        except Exception:
            return
        raise Violation(f"document accepted ({name}): {s}\n{res}")
    res = base_resource()
    if extra:
        res.sections[0].entries.insert(0, Entry(("z",), PatternMessage(["x"]), meta=[Metadata("source", "s")]))
        res.sections[0].entries.reverse()
    MODELS[name](res)
    if name == "no source" and src:
        return
    msg = res.sections[0].entries[0].value
    try:
        out = "".join(xliff_serialize(res, **kw))
    except Exception:
        pass
    else:
        raise Violation(f"resource serialized ({name}): {out}")
    if name in MSG_ONLY:
        try:
            out = xliff_serialize_message(msg)
        except Exception:
            return
        raise Violation(f"message serialized ({name}): {out}")


SUBS = [
    Sub("document", document(), check_document, 2600),
    Sub("model", resource(), check_model, 1800),
    Sub("message", message, check_message, 1500),
    Sub("reject", reject, check_reject, 400),
]
