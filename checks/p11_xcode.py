"""P11: XLIFF from Xcode: plurals, variations and printf placeholders."""

from __future__ import annotations

import copy
import itertools
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from checks.p10_xliff import NS, canon_doc, canon_et, et_parse, first_diff, write
from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.xliff import (
    xliff_is_xcode,
    xliff_parse,
    xliff_parse_message,
    xliff_serialize,
    xliff_serialize_message,
)
from moz.l10n.model import (
    CatchallKey,
    Entry,
    Expression,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P11"
RULE = (
    "document: generated Xcode exports with .strings, .stringsdict and .xcstrings files, of plain, plural, device and substitution"
    " messages over every plural category, with translated and untranslated units, in both entry modes; the messages read must be the ones an"
    " independent model derives, and serializing them must give the same trans-units; non-trivial = a message with variants."
    " edit: the same, with the values of some variants replaced; non-trivial = a replaced value."
    " message: single printf-style strings; non-trivial = at least one placeholder. reject: one unsupported"
    " part in a valid document or resource."
)
ASSUMPTIONS = [
    "messages with multiple substitutions are only parsed, and combined variations not generated: they are documented as unsupported",
    "the text around a substitution may move to its variants, and the target of a format key may default to its source",
    "the placeholders that select a variant have the same form in all variants",
    "%arg is not treated as a placeholder of its own",
]

CATS = ("zero", "one", "two", "few", "many", "other")
txt = gen.text(["<", "&", " ", "\n", "'", '"', "{", "}", "$", "@", "#", "d", "1", "é"], any=gen.XML_CHARS, exclude="%", min_size=1, max_size=6)
ident = gen.text([" ", "&", "<", "'", ".", "-", "é"], any=gen.XML_CHARS, exclude="|=:/%", min_size=1, max_size=5)
var_name = gen.ident("abcXYZ_", "abcXYZ_019", 5)
INT = [m + c for m in ("", "h", "hh", "l", "ll", "q", "z", "t", "j") for c in "douxX"] + ["D", "O", "U", "p"]
NUM = [*"aAeEfFgG", "La", "LA", "Le", "LE", "Lf", "LF", "Lg", "LG"]
STR = [*"cCsS"]


@st.composite
def spec(draw, kinds="insa", index=("", "", "", "1$", "2$", "8$", "9$")):
    idx = draw(st.sampled_from(index))
    k = draw(st.sampled_from(kinds))
    conv = draw(st.sampled_from({"i": INT, "n": NUM, "s": STR, "a": ["@"]}[k]))
    fl = draw(st.sampled_from(["", "", "", "-", "#", "+", "0", " ", ","])) if k != "a" else ""
    wd = draw(st.sampled_from(["", "", "", "5", "08", ".2", "10.3"])) if k != "a" else ""
    return (f"%{idx}{fl}{wd}{conv}", {"i": "int", "n": "num", "s": "str", "a": "arg"}[k], idx[:1])


FUNC = {"int": "integer", "num": "number", "str": "string", "arg": None}


def expr(sp):
    if sp == "%%":
        return Expression("%", attributes={"source": "%%"})
    src, kind, idx = sp
    return Expression(VariableRef(kind + idx), FUNC[kind], attributes={"source": src, **({"index": idx} if idx else {})})


def tokens(specs, max_size=4):
    """Lists of text, %% and given placeholders"""
    return st.lists(gen.weighted((4, txt), (1, st.just(("%%",))), (4, specs.map(lambda s: (s,)))), max_size=max_size)


def source(toks):
    return "".join(t if isinstance(t, str) else t[0] if isinstance(t[0], str) else t[0][0] for t in toks)


def pattern(toks):
    res = []
    for t in toks:
        if isinstance(t, str):
            if res and isinstance(res[-1], str):
                res[-1] += t
            else:
                res.append(t)
        else:
            res.append(expr(t[0]))
    return res


# A unit: (id suffix, source tokens, target tokens or None, [notes], {attributes}, {target attributes})
at = st.dictionaries(st.sampled_from(["xml:space", "approved", "my:k"]), st.sampled_from(["preserve", "yes", "a b"]), max_size=1)
tat = st.dictionaries(st.sampled_from(["state", "my:k"]), st.sampled_from(["new", "x", "a b"]), max_size=1)
notes = st.lists(st.tuples(st.dictionaries(st.sampled_from(["from", "priority"]), st.sampled_from(["1", "me"]), max_size=1), txt.filter(lambda s: s.strip())), max_size=2)


@st.composite
def unit(draw, suffix, toks):
    tr = draw(st.integers(0, 3))
    target = None if tr == 0 else draw(toks)
    return {"suffix": suffix, "source": draw(toks), "target": target, "notes": draw(notes), "at": draw(at), "tat": draw(tat) if target is not None else {}}


def cats(draw, need_other=True):
    res = draw(st.lists(st.sampled_from(CATS[:-1]), unique=True, max_size=3))
    if need_other or draw(st.booleans()):
        res.insert(draw(st.integers(0, len(res))), "other")
    return res or ["other"]


@st.composite
def plain(draw):
    return {"kind": "plain", "units": [draw(unit("", tokens(spec())))]}


@st.composite
def plural(draw):
    # one numerical placeholder that may be the selector, and others that are not
    sel = draw(spec("in", ("", "1$")))
    others = st.one_of(spec("sa"), spec("insa", ("2$", "7$", "9$")))
    toks = tokens(st.one_of(st.just(sel), others))
    return {"kind": "plural", "units": [draw(unit(f"|==|plural.{c}", toks)) for c in cats(draw)], "sel": sel}


@st.composite
def device(draw):
    names = draw(st.lists(st.sampled_from(["iphone", "ipad", "mac", "ipod", "applewatch", "appletv"]), unique=True, max_size=3))
    names.insert(draw(st.integers(0, len(names))), "other")
    return {"kind": "device", "units": [draw(unit(f"|==|device.{c}", tokens(spec()))) for c in names]}


@st.composite
def substitution(draw):
    name = draw(var_name)
    idx = draw(st.sampled_from(["", "", "1$", "3$"]))
    sel = draw(spec("insa", (idx,)))
    other = spec("insa", ("2$", "7$", "9$"))
    ref = (f"%{idx}#@{name}@", "sub", idx[:1])
    around = tokens(spec("insa", ("2$", "7$", "9$")), 2).filter(lambda t: True)
    units = []

    def base():
        pre, post = draw(gen.weighted((2, st.just(([], []))), (1, st.tuples(around, around))))
        return [*pre, (ref,), *post]

    def variant():
        res = draw(tokens(other, 3))
        if draw(st.integers(0, 3)):
            res.insert(draw(st.integers(0, len(res))), (sel,))
        return res

    names = cats(draw, draw(st.integers(0, 3)) > 0)
    for c in ["", *names]:
        u = draw(unit(f"|==|substitutions.{name}.plural.{c}" if c else "", st.just([])))
        u["source"] = base() if not c else variant()
        if u["target"] is not None:
            u["target"] = base() if not c else variant()
        units.append(u)
    return {"kind": "substitution", "units": units, "name": name, "ref": ref, "sel": sel, "cats": names}


@st.composite
def stringsdict(draw):
    name = draw(var_name)
    units = []
    around = tokens(spec(), 2)
    ref = ((f"%#@{name}@", "sub", ""),)
    if draw(st.integers(0, 4)):
        u = draw(unit(":dict/NSStringLocalizedFormatKey:dict/:string", st.just([])))
        u["source"] = [*draw(around), ref, *draw(around)]
        if u["target"] is not None:
            u["target"] = draw(st.sampled_from([u["source"], [*draw(around), ref]]))
        units.append(u)
    for c in cats(draw, False):
        units.append(draw(unit(f":dict/{name}:dict/{c}:dict/:string", tokens(spec()))))
    if draw(st.integers(0, 3)) == 0 and units[0]["suffix"].endswith("Key:dict/:string"):
        units.append(units.pop(0))  # the format key need not come first
    return {"kind": "stringsdict", "units": units, "name": name}


xc = st.one_of(plain(), plural(), device(), substitution())


@st.composite
def file(draw):
    kind = draw(st.sampled_from(["strings", "stringsdict", "xcstrings", "xcstrings"]))
    msgs = []
    for i in draw(st.lists(ident, unique=True, min_size=1, max_size=4)):
        m = draw({"strings": plain(), "stringsdict": stringsdict(), "xcstrings": xc}[kind])
        m["id"] = i
        if draw(st.integers(0, 2)) == 0:
            # The same notes on all or most of its units
            nn = draw(notes)
            for u in m["units"]:
                u["notes"] = nn
            if draw(st.booleans()):
                m["units"][draw(st.integers(0, len(m["units"]) - 1))]["notes"] = []
        msgs.append(m)
    return {"name": draw(st.sampled_from(["a", "en.lproj/x", "é b"])), "ext": kind, "messages": msgs}


@st.composite
def document(draw):
    return {
        "files": draw(st.lists(file(), min_size=1, max_size=2, unique_by=lambda f: (f["name"], f["ext"]))),
        "src": draw(st.integers(0, 3)) == 0,
        "style": draw(st.integers(0, 15)),
        "edits": [],
    }


def text_kids(toks):
    s = source(toks)
    return [s] if s else []


def unit_id(f, m, u):
    return ("/" if f["ext"] == "stringsdict" else "") + m["id"] + u["suffix"]


def tree(case, canonical=False):
    kids = []
    for f in case["files"]:
        units = []
        for m in f["messages"]:
            for u, target in zip(m["units"], targets(m, case["src"]) if canonical else [u["target"] for u in m["units"]]):
                us = [("source", {}, text_kids(u["source"]))]
                if target is not None:
                    us.append(("target", u["tat"], text_kids(target)))
                us += [("note", a, [t]) for a, t in u["notes"]]
                units.append(("trans-unit", {"id": unit_id(f, m, u), **u["at"]}, us))
        head = ("header", {}, [("tool", {"tool-id": "com.apple.dt.xcode", "tool-name": "Xcode"}, [])])
        kids.append(("file", {"original": f"{f['name']}.{f['ext']}", "source-language": "en"}, [head, ("body", {}, units)]))
    return ("xliff", {"version": "1.2"}, kids)


def own(m, src):
    """The value side of each unit"""
    return [u["source" if src else "target"] for u in m["units"]]


def spliced(m, src):
    """Values of a substitution, with the text around it included"""
    base, *subs = own(m, src)
    if not base:
        return [base, *subs]
    at = next(i for i, t in enumerate(base) if t == (m["ref"],))
    return [[base[at]], *([*base[:at], *s, *base[at + 1 :]] if s else s for s in subs)]


def targets(m, src):
    res = [u["target"] for u in m["units"]]
    if m["kind"] == "substitution" and not src:
        res = spliced(m, False)
    if m["kind"] == "stringsdict":
        res = [
            u["source"] if not (t and source(t)) and u["suffix"].endswith("Key:dict/:string") else t
            for u, t in zip(m["units"], res)
        ]
    return res


def text(case):
    ns = {"xmlns": NS + "1.2", "xmlns:my": "urn:x-my"}
    name, a, kids = tree(case)
    return '<?xml version="1.0" encoding="utf-8"?>\n' + write((name, {**ns, **a}, kids), case["style"])


def key(c):
    return CatchallKey("other") if c == "other" else c


def model_message(m, src):
    vals = [v or [] for v in own(m, src)]
    kind = m["kind"]
    if kind == "plain":
        return PatternMessage(pattern(vals[0]))
    if kind == "stringsdict":
        fmt = [u for u in m["units"] if u["suffix"].endswith("Key:dict/:string")]
        sel = Expression(VariableRef(m["name"]), "number", attributes={"source": source(fmt[0]["source"])} if fmt else {})
        return SelectMessage(
            {m["name"]: sel},
            (VariableRef(m["name"]),),
            {(key(u["suffix"].split(":dict/")[2]),): pattern(v) for u, v in zip(m["units"], vals) if u not in fmt},
        )
    names = [u["suffix"].rsplit(".", 1)[-1] for u in m["units"]]
    pats = [pattern(v) for v in vals] if kind != "substitution" else []
    if kind == "device":
        return SelectMessage({"device": Expression(None, "device")}, (VariableRef("device"),), {(key(n),): p for n, p in zip(names, pats)})
    sel = expr(m["sel"])
    if kind == "plural":
        if any(sel in p for p in pats):
            var = sel.arg.name
            decl = Expression(VariableRef(var), sel.function)
            for p in pats:
                for e in p:
                    if e == sel:
                        e.function = None
        else:
            var = "plural"
            decl = Expression(None, "number")
        # (an edited copy must not equal the selector once more)
        return SelectMessage({var: decl}, (VariableRef(var),), {(key(n),): p for n, p in zip(names, pats)})
    # substitution
    ref_src, _, idx = m["ref"]
    decl = Expression(VariableRef(m["name"]), "substitution", attributes={"substitution": idx or True})
    if vals[0]:
        decl.attributes = {"source": ref_src, "substitution": idx or True}
    elif idx:
        decl.attributes["substitution"] = True
    sp = [v or [] for v in spliced(m, src)]
    variants = {}
    for n, v, own_v in zip(names[1:], sp[1:], vals[1:]):
        p = pattern(v)
        if own_v and (vals[0] or not idx):
            for e in p:
                if e == sel:
                    e.arg.name = m["name"]
                    if e.function is not None:
                        decl.function = e.function
                        e.function = None
        variants[(key(n),)] = p
    return SelectMessage({m["name"]: decl}, (VariableRef(m["name"]),), variants)


def model_comment(m, ext):
    """The notes of the units of a message. Only those shared by all of its variants are not labelled."""
    if m["kind"] == "stringsdict":
        return ""
    res = {}
    for u in m["units"]:
        name = u["suffix"].replace("|==|", "").replace("substitutions.", "").replace(".plural.", "/")
        name = name.removeprefix("plural.").removeprefix("device.")
        if u["notes"]:
            res[name] = "\n\n".join(
                f"{a['from']}: {t.strip()}" if ext == "strings" and "from" in a else t.strip() for a, t in u["notes"]
            )
    if len(set(res.values())) == 1 and (len(res) > 1 if m["kind"] == "substitution" else len(res) == len(m["units"])):
        return next(iter(res.values()))
    return "\n\n".join(f"{k}: {v}" if k else v for k, v in res.items())


def compare_doc(case, out, expected, what):
    try:
        root = et_parse(out)
    except ET.ParseError as e:
        raise Violation(f"not well-formed: {e}\n{out}") from e
    d = first_diff(sort_units(canon_doc(expected)), sort_units(canon_et(root)))
    if d:
        raise Violation(f"{what} differs at {d}\n{text(case)}\n{out}")


def sort_units(el):
    name, a, kids = el
    if name == "body":
        return (name, a, sorted(kids, key=lambda k: k[1].get("id", "")))
    return (name, a, [k if isinstance(k, str) else sort_units(k) for k in kids])


def messages(case):
    return [(f, m) for f in case["files"] for m in f["messages"]]


def check_document(case, ctx):
    doc = text(case)
    kw = {"source_entries": True} if case["src"] else {}
    for f, m in messages(case):
        ctx.label(f"kind {m['kind']}")
        if m["kind"] != "plain":
            ctx.nontrivial(m)
    try:
        res = xliff_parse(doc, **kw)
    except Exception as e:
        raise Violation(f"document rejected: {e!r}\n{doc}") from e
    if not xliff_is_xcode(res):
        raise Violation("not recognised as Xcode")
    if len(res.sections) != len(case["files"]):
        raise Violation(f"sections {[s.id for s in res.sections]}")
    for sec, f in zip(res.sections, case["files"]):
        if [e.id for e in sec.entries] != [(m["id"],) for m in f["messages"]]:
            raise Violation(f"entries {[e.id for e in sec.entries]}\n{doc}")
        for e, m in zip(sec.entries, f["messages"]):
            d = gen.diff(model_message(m, case["src"]), e.value)
            if d:
                raise Violation(f"message {m['id']!r}: {d}\n{e.value}\n{doc}")
            c = model_comment(m, f["ext"])
            if e.comment != c:
                raise Violation(f"comment {e.comment!r} of {m['id']!r} is not {c!r}\n{doc}")
    expected = case
    if case["src"]:
        expected = copy.deepcopy(case)
        for f, m in messages(expected):
            if m["kind"] == "substitution":
                for u, v in zip(m["units"], spliced(m, True)):
                    u["source"] = v
    try:
        out = "".join(xliff_serialize(res, **kw))
    except Exception as e:
        raise Violation(f"parsed document not serialized: {e!r}\n{doc}") from e
    compare_doc(case, out, tree(expected, True), "serialized document")
    again = xliff_parse(out, **kw)
    d = gen.diff(canonical_meta(res), canonical_meta(again))
    if d:
        raise Violation(f"reparsed: {d}\n{doc}\n{out}")
    if "".join(xliff_serialize(again, **kw)) != out:
        raise Violation(f"not a fixed point\n{out}")


def canonical_meta(res):
    res = copy.deepcopy(res)
    res.meta.sort(key=lambda m: m.key)
    for sec in res.sections:
        for e in sec.entries:
            # a format key target may be added
            e.meta = sorted(e.meta, key=lambda m: m.key.split("/note")[0])
    return res


@st.composite
def edited(draw):
    case = draw(document())
    n = len(messages(case))
    case["edits"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, 5), tokens(spec(), 3).filter(lambda t: source(t))), min_size=1, max_size=3))
    return case


def check_edit(case, ctx):
    kw = {"source_entries": True} if case["src"] else {}
    res = xliff_parse(text(case), **kw)
    side = "source" if case["src"] else "target"
    expected = copy.deepcopy(case)
    entries = [e for s in res.sections for e in s.entries]
    for f, m in messages(expected):
        if m["kind"] == "substitution":
            for u, v in zip(m["units"], spliced(m, case["src"])):
                u[side] = v
    for n, v, toks in case["edits"]:
        f, m = messages(expected)[n]
        msg = entries[n].value
        ctx.nontrivial([m["kind"], v, toks])
        ctx.label("edit " + m["kind"])
        if m["kind"] == "plain":
            msg.pattern = pattern(toks)
            m["units"][0][side] = toks
            continue
        units = [u for u in m["units"] if not u["suffix"].endswith("Key:dict/:string") and u["suffix"]]
        keys = list(msg.variants)
        v %= len(units)
        msg.variants[keys[v]] = pattern(toks)
        units[v][side] = toks
    case2 = {**expected, "src": case["src"]}
    try:
        out = "".join(xliff_serialize(res, **kw))
    except Exception as e:
        raise Violation(f"not serialized: {e!r}\n{res}") from e
    for f, m in messages(case2):
        if m["kind"] == "substitution":
            m["kind"] = "spliced"
    compare_doc(case2, out, tree(case2, True), "edited document")


msg_case = st.tuples(tokens(spec(), 6), st.lists(st.tuples(st.sampled_from(["g", "x", "ph"]), tokens(spec(), 2)), max_size=2))


def check_message(case, ctx):
    toks, kids = case
    if any(not isinstance(t, str) for t in toks):
        ctx.nontrivial(case)
    exp = pattern(toks)
    s = [source(toks)] if toks else []
    for name, body in kids:
        if name == "x":
            exp.append(Markup("standalone", name))
            s.append((name, {}, []))
            exp += pattern(body)
            s.append(source(body))
        else:
            exp += [Markup("open", name), *pattern(body), Markup("close", name)]
            s.append((name, {}, [source(body)] if body else []))
    src = write(("target", {}, s), 1)[len("<target>") : -len("</target>")]
    got = xliff_parse_message(src, is_xcode=True)
    d = gen.diff(PatternMessage(exp), got)
    if d:
        raise Violation(f"{d}\n{src!r}")
    out = xliff_serialize_message(got)
    d = first_diff(canon_doc(("target", {}, s)), canon_et(ET.fromstring(f"<target>{out}</target>")))
    if d:
        raise Violation(f"{d}\n{src!r}\n{out!r}")
    got = xliff_parse_message(out)
    if "%" in out and any(isinstance(p, Expression) for p in got.pattern):
        raise Violation(f"placeholders without is_xcode: {got}")


# --- multiple substitutions, which are only parsed


@st.composite
def multi(draw):
    names = draw(st.lists(var_name, min_size=2, max_size=3, unique=True))
    indexed = draw(st.booleans())
    plain_txt = txt.map(lambda t: (t,))
    base, subs = [], {}
    for i, n in enumerate(names):
        idx = f"{i + 1}$" if indexed else ""
        base += draw(st.one_of(st.just(()), plain_txt))
        base.append(((f"%{idx}#@{n}@", "sub", idx[:1], n),))
        sel = draw(spec("ins", (idx,)))
        subs[n] = {}
        for c in cats(draw):
            toks = list(draw(st.one_of(st.just(()), plain_txt)))
            if draw(st.integers(0, 3)) or not toks:
                toks.append((sel,))
            toks += draw(st.one_of(st.just(()), plain_txt))
            subs[n][c] = toks
    base += draw(st.one_of(st.just(()), plain_txt))
    order = draw(st.permutations([(n, c) for n in names for c in subs[n]]))
    if draw(st.booleans()):
        order = sorted(order)
    return {"names": names, "base": base, "subs": subs, "order": order, "src": draw(st.booleans())}


def multi_doc(case):
    tail = "source" if case["src"] else "target"

    def tu_of(suffix, toks):
        t = ("source", {}, text_kids(toks))
        return ("trans-unit", {"id": "k" + suffix}, [t] if tail == "source" else [("source", {}, ["x"]), ("target", {}, text_kids(toks))])

    units = [tu_of("", case["base"])]
    units += [tu_of(f"|==|substitutions.{n}.plural.{c}", case["subs"][n][c]) for n, c in case["order"]]
    f = ("file", {"original": "f.xcstrings"}, [("header", {}, [("tool", {"tool-id": "com.apple.dt.xcode"}, [])]), ("body", {}, units)])
    return write(("xliff", {"version": "1.2", "xmlns": NS + "1.2"}, [f]), 0)


def check_multi(case, ctx):
    doc = multi_doc(case)
    kw = {"source_entries": True} if case["src"] else {}
    res = xliff_parse(doc, **kw)
    msg = next(res.all_entries()).value
    names = case["names"]
    ctx.nontrivial(doc)
    if list(msg.declarations) != names or [v.name for v in msg.selectors] != names:
        raise Violation(f"declarations {msg.declarations}\n{doc}")
    want = {}
    by_name = {n: [c for m, c in case["order"] if m == n] for n in names}
    for cc in itertools.product(*by_name.values()):
        toks = []
        for t in case["base"]:
            if isinstance(t, str):
                toks.append(t)
            else:
                n = t[0][3]
                toks += [x if isinstance(x, str) else (x[0], n) for x in case["subs"][n][cc[names.index(n)]]]
        pat = []
        for t in toks:
            if isinstance(t, str):
                if pat and isinstance(pat[-1], str):
                    pat[-1] += t
                else:
                    pat.append(t)
            else:
                e = expr(t[0])
                e.arg.name = t[1]
                e.function = None
                pat.append(e)
        want[tuple(key(c) for c in cc)] = pat
    for n in names:
        funcs = {FUNC[t[0][1]] for toks in case["subs"][n].values() for t in toks if not isinstance(t, str)}
        ref = next(t[0] for t in case["base"] if not isinstance(t, str) and t[0][3] == n)
        decl = Expression(VariableRef(n), *funcs or ["substitution"], attributes={"source": ref[0], "substitution": ref[2] or True})
        if d := gen.diff(decl, msg.declarations[n]):
            raise Violation(f"declaration of {n}: {d}\n{doc}")
    if list(msg.variants) != list(want):
        raise Violation(f"variants {list(msg.variants)}\n{doc}")
    for k, pat in want.items():
        if d := gen.diff(pat, msg.variants[k]):
            raise Violation(f"variant {k}: {d}\n{doc}")
    # No part is in more than one variant
    seen = set()
    for pat in msg.variants.values():
        for part in pat:
            if not isinstance(part, str):
                if id(part) in seen or id(part.arg) in seen:
                    raise Violation(f"{part} is in more than one place\n{doc}")
                seen |= {id(part), id(part.arg)}
    try:
        out = "".join(xliff_serialize(res, **kw))
    except ValueError:
        return
    raise Violation(f"serialized: {out}")


# --- rejections


def doc_of(ext, units):
    us = "".join(u if u.startswith("<") else f"<trans-unit id='{u}'><source>%d</source><target>%d</target></trans-unit>" for u in units)
    return (
        f"<xliff version='1.2' xmlns='{NS}1.2'><file original='f.{ext}'><header><tool tool-id='com.apple.dt.xcode'/></header>"
        f"<body>{us}</body></file></xliff>"
    )


def tu(uid, rest):
    return f"<trans-unit id='{uid}'>{rest}</trans-unit>"


SD = "/k:dict/v:dict/other:dict/:string"
FMT = tu("/k:dict/NSStringLocalizedFormatKey:dict/:string", "<source>%#@v@</source><target>%#@v@</target>")
SUB = tu("k", "<source>%#@n@</source><target>%#@n@</target>")
DOCS = {
    "sd long": ("stringsdict", [FMT, SD, "/k:dict/v:dict/one:dict/x:dict/:string"]),
    "sd long other": ("stringsdict", [FMT, "/k:dict/v:dict/other:dict/x:dict/:string"]),
    "sd shorter": ("stringsdict", [FMT, SD, "/k:dict/one:dict/:string"]),
    "sd long format": ("stringsdict", [FMT.replace("Key:dict", "Key:dict/x:dict"), SD]),
    "sd format value": ("stringsdict", [FMT.replace("%#@v@", "%@"), SD]),
    "sd bad category": ("stringsdict", [FMT, SD, SD.replace("other", "odd")]),
    "sd repeated": ("stringsdict", [FMT, SD, SD]),
    "sd other variable": ("stringsdict", [FMT, SD.replace("v:dict", "w:dict")]),
    "sd second variable": ("stringsdict", [FMT, SD, SD.replace("v:dict/other", "w:dict/one")]),
    "sub long id": ("xcstrings", [SUB, "k|==|substitutions.n.plural.other", "k|==|substitutions.n.plural.one.x"]),
    "sub long": ("xcstrings", [SUB, "k|==|substitutions.n.plural.other", "k|==|substitutions.n.x.plural.one"]),
    "sub not plural": ("xcstrings", [SUB, "k|==|substitutions.n.plural.other", "k|==|substitutions.n.foo.one"]),
    "sub short": ("xcstrings", [SUB, "k|==|substitutions.n.plural.other", "k|==|substitutions.one"]),
    "long plural": ("xcstrings", ["k|==|plural.other", "k|==|plural.one.x"]),
    "long device": ("xcstrings", ["k|==|device.other", "k|==|device.mac.x"]),
    "no variation": ("xcstrings", ["k|==|plural.other", "k|==|plural"]),
    "deep plural": ("xcstrings", ["k|==|plural.other", "k|==|plural.one|==|x"]),
    "no other": ("xcstrings", ["k|==|plural.one"]),
    "device no other": ("xcstrings", ["k|==|device.mac"]),
    "category": ("xcstrings", ["k|==|plural.other", "k|==|plural.odd"]),
    "sub category": ("xcstrings", [tu("k", "<source>%#@n@</source><target>%#@n@</target>"), "k|==|substitutions.n.plural.odd"]),
    "sub no base": ("xcstrings", ["k|==|substitutions.n.plural.other"]),
    "sub and plural": ("xcstrings", [tu("k", "<source>%#@n@</source><target>%#@n@</target>"), "k|==|substitutions.n.plural.other", "k|==|plural.other"]),
    "sub and device": ("xcstrings", [tu("k", "<source>%#@n@</source><target>%#@n@</target>"), "k|==|substitutions.n.plural.other", "k|==|device.other"]),
    "base and plural": ("xcstrings", ["k", "k|==|plural.other"]),
    "base and device": ("xcstrings", ["k", "k|==|device.other"]),
    "plural and device": ("xcstrings", ["k|==|plural.other", "k|==|device.other"]),
    "id": ("xcstrings", ["k|==|foo.other"]),
    "long id": ("xcstrings", ["k|==|plural.other.more"]),
    "deep id": ("xcstrings", ["k|==|device.mac|==|plural.other"]),
    "mismatch": ("xcstrings", ["k|==|plural.other", tu("k|==|plural.one", "<source>%ld</source><target>%ld</target>")]),
    "no id": ("xcstrings", ["<trans-unit><source>x</source></trans-unit>"]),
    "no source": ("xcstrings", [tu("k", "<target>x</target>")]),
    "two sources": ("xcstrings", [tu("k", "<source>x</source><source>x</source>")]),
    "two targets": ("xcstrings", [tu("k", "<source>x</source><target>x</target><target>x</target>")]),
    "source attribute": ("xcstrings", [tu("k", "<source xml:lang='x'>x</source>")]),
    "sd source attribute": ("stringsdict", [FMT, tu(SD, "<source xml:lang='x'>%d</source>")]),
    "child": ("xcstrings", [tu("k", "<source>x<g id='1'/></source>")]),
    "target child": ("xcstrings", [tu("k", "<source>x</source><target>x<x id='1'/></target>")]),
    "other element": ("xcstrings", [tu("k", "<source>x</source><alt-trans/>")]),
    "text": ("xcstrings", [tu("k", "x<source>x</source>")]),
    "tail": ("xcstrings", [tu("k", "<source>x</source>x")]),
    "group": ("xcstrings", ["<group id='k'><trans-unit id='x'><source>x</source></trans-unit></group>"]),
    "sd category": ("stringsdict", [SD, SD.replace("other", "odd")]),
    "sd duplicate": ("stringsdict", [SD, SD]),
    "sd variable": ("stringsdict", [SD, SD.replace("v:dict/other", "w:dict/one")]),
    "sd format": ("stringsdict", [SD, "/k:dict/NSStringLocalizedFormatKey:dict/:string"]),
    "sd short": ("stringsdict", [SD, "/k:dict/v:dict/:string"]),
    "sd two formats": ("stringsdict", [SD, *2 * [tu("/k:dict/NSStringLocalizedFormatKey:dict/:string", "<source>%#@v@</source>")]]),
    "sd no source": ("stringsdict", [tu(SD, "<target>x</target>")]),
    "sd text": ("stringsdict", [tu(SD, "x<source>x</source>")]),
    "sd tail": ("stringsdict", [tu(SD, "<source>x</source>x")]),
    "sd child": ("stringsdict", [tu(SD, "<source>x<g id='1'/></source>")]),
}


def model(ext, msg, meta=None, **kw):
    m = meta if meta is not None else [Metadata(f"{c}/source", "x") for c in ("one", "other")]
    return Resource(
        Format.xliff,
        [Section((f"f.{ext}",), [Entry(("k",), msg, meta=m, **kw)], meta=[Metadata("header/tool/@tool-id", "com.apple.dt.xcode")])],
        meta=[Metadata("@version", "1.2")],
    )


def sel(decl=None, variants=None, name="n"):
    return SelectMessage(
        {name: decl or Expression(VariableRef(name), "number")},
        (VariableRef(name),),
        variants or {("one",): ["x"], (CatchallKey("other"),): ["y"]},
    )


two = SelectMessage(
    {"a": Expression(VariableRef("a"), "number"), "b": Expression(VariableRef("b"), "number")},
    (VariableRef("a"), VariableRef("b")),
    {("one", "one"): ["x"], (CatchallKey("other"), CatchallKey("other")): ["y"]},
)
no_src = {(CatchallKey("other"),): [Expression(VariableRef("x"), "number")]}
MODELS = {
    "strings": lambda: model("strings", sel()),
    "plain xliff": lambda: model("html", sel()),
    "sd function": lambda: model("stringsdict", sel(Expression(VariableRef("n"), "string"))),
    "sd selector": lambda: model("stringsdict", sel(Expression("5", "number"))),
    "sd two": lambda: model("stringsdict", two),
    "sd comment": lambda: model("stringsdict", sel(), comment="c"),
    "sd placeholder": lambda: model("stringsdict", sel(variants=no_src)),
    "sd no source": lambda: model("stringsdict", sel(), meta=[]),
    "sd format": lambda: model("stringsdict", sel(), meta=[Metadata("one/source", "x"), Metadata("other/source", "x"), Metadata("format/@a", "x")]),
    "xc function": lambda: model("xcstrings", sel(Expression(VariableRef("n"), "string"))),
    "xc no function": lambda: model("xcstrings", sel(Expression(VariableRef("n")))),
    "xc two": lambda: model("xcstrings", two),
    "xc placeholder": lambda: model("xcstrings", sel(variants=no_src)),
    "xc no source": lambda: model("xcstrings", sel(), meta=[]),
}
reject = st.one_of(
    st.tuples(st.just("doc"), st.sampled_from(sorted(DOCS)), st.booleans(), st.booleans()),
    st.tuples(st.just("model"), st.sampled_from(sorted(MODELS)), st.booleans(), st.booleans()),
)


def check_reject(case, ctx):
    kind, name, extra, src = case
    ctx.label(f"{kind} {name}")
    ctx.nontrivial(case)
    kw = {"source_entries": True} if src else {}
    if kind == "doc":
        ext, units = DOCS[name]
        if extra:
            units = [*units, SD.replace("/k", "/z")] if ext == "stringsdict" else [*units, "z"]
        try:
            res = xliff_parse(doc_of(ext, units), **kw)
        except ValueError:
            return
        raise Violation(f"document accepted ({name}): {doc_of(ext, units)}\n{res}")
    if src and "no source" in name:
        return
    res = MODELS[name]()
    if extra:
        res.sections[0].entries.insert(0, copy.deepcopy(model("xcstrings", PatternMessage(["x"]), [Metadata("source", "x")]).sections[0].entries[0]))
    try:
        out = "".join(xliff_serialize(res, **kw))
    except ValueError:
        return
    raise Violation(f"resource serialized ({name}): {out}")


SUBS = [
    Sub("document", document(), check_document, 3000),
    Sub("edit", edited(), check_edit, 1500),
    Sub("multi", multi(), check_multi, 800),
    Sub("message", msg_case, check_message, 2000),
    Sub("reject", reject, check_reject, 400),
]
