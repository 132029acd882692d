"""P12: MessageFormat 2 syntax."""

from __future__ import annotations

import copy
import re
import string

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats.mf2 import (
    MF2ParseError,
    mf2_parse_message,
    mf2_serialize_message,
    mf2_validate_message,
)
from moz.l10n.model import (
    CatchallKey,
    Expression,
    Markup,
    PatternMessage,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P12"
RULE = (
    "derive: sources derived from the MF2 ABNF (LDML 46), with optional and required white space, bidi marks, names over the whole"
    " of their ranges, quoted and unquoted literals, escapes, options, attributes, declarations, selectors and variants, along with the"
    " meaning of the derivation; non-trivial = a placeholder or a declaration. mutate: such sources with 1-3 characters inserted,"
    " deleted, replaced or swapped, or an arbitrary sequence of MF2 tokens; an independent recognizer decides if it is valid, and its meaning; non-trivial = differs"
    " from its origin. loose: well-formed messages over few names that may break the rules on repeated and self-referential declarations,"
    " annotated selectors, keys, fallback variants and repeated options, judged by the same recognizer; non-trivial = any. model: message models with arbitrary text, literals, names and nested structure, serialized and parsed; non-trivial = a"
    " placeholder, declaration or special character."
)
ASSUMPTIONS = [
    "bidi marks around a name may be repeated; names and keys are compared without Unicode normalization",
    "a repeated attribute in one placeholder is not generated, as the specification calls it discouraged",
    "NUL and surrogates are not generated in message models",
]

WS = "\t\n\r \u3000"
BIDI = "\u061c\u200e\u200f\u2066\u2067\u2068\u2069"
RANGES = [(0x61, 0x7A), (0x41, 0x5A), (0x5F, 0x5F), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x61B), (0x61D, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFC), (0x10000, 0xEFFFF)]  # fmt: skip
CHAR_RANGES = [*RANGES, (0x30, 0x39), (0x2D, 0x2D), (0x2E, 0x2E), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)]


def range_char(ranges):
    edges = [chr(c) for r in ranges for c in r]
    return gen.weighted(
        (8, st.sampled_from(string.ascii_letters)),
        (2, st.sampled_from(edges)),
        (1, st.sampled_from(ranges).flatmap(lambda r: st.integers(*r)).map(chr)),
    )


name_start = range_char(RANGES)
name_char = gen.weighted((6, name_start), (3, st.sampled_from("0123456789-.\u00b7")), (1, range_char(CHAR_RANGES)))
NAME = st.builds(lambda a, b: a + "".join(b), name_start, st.lists(name_char, max_size=3))
simple_name = gen.weighted((3, st.sampled_from(["a", "b", "x", "y", "foo"])), (1, NAME))
identifier = st.one_of(simple_name, st.builds(lambda a, b: f"{a}:{b}", simple_name, simple_name))
number = st.builds(
    lambda *p: "".join(p),
    st.sampled_from(["", "-"]),
    st.sampled_from(["0", "1", "42", "907"]),
    st.sampled_from(["", "", ".0", ".50"]),
    st.sampled_from(["", "", "e1", "E+05", "e-9"]),
)
SPECIAL = ["\\", "{", "}", "|", ".", "{{", "}}", ".input", ".match", " ", "\n", "\r", "\u3000", "\u200e", "$x", ":f", "@a", "#b", "*", "=", "/", "\u2068"]
any_char = st.characters(exclude_categories=("Cs",), exclude_characters="\x00")
raw_text = gen.text(SPECIAL, any=any_char, min_size=1, max_size=6)

# --- derivations: strategies of (source, value)


@st.composite
def o(draw):
    return draw(gen.weighted((4, st.just("")), (2, st.just(" ")), (1, st.text(WS + BIDI, max_size=3))))


@st.composite
def s(draw):
    return draw(gen.weighted((5, st.just(" ")), (1, st.builds(lambda a, b, c: a + b + c, st.text(BIDI, max_size=2), st.sampled_from(WS), st.text(WS + BIDI, max_size=2)))))


bidi_opt = gen.weighted((9, st.just("")), (1, st.sampled_from(BIDI)))


@st.composite
def d_name(draw, value):
    return draw(bidi_opt) + value + draw(bidi_opt)


@st.composite
def d_ident(draw, value):
    return ":".join([draw(d_name(p)) for p in value.split(":")])


def esc(text, chars, draw):
    """Escape what needs it, and at times what does not"""
    res = ""
    for c in text:
        if c in chars or (c in "\\{|}" and draw(st.booleans())):
            res += "\\" + c
        else:
            res += c
    return res


name_full = re.compile("[" + "".join(f"{re.escape(chr(a))}-{re.escape(chr(b))}" for a, b in RANGES) + "][" + "".join(f"{re.escape(chr(a))}-{re.escape(chr(b))}" for a, b in CHAR_RANGES) + "]*")
num_full = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?")


@st.composite
def d_literal(draw):
    kind = draw(st.integers(0, 4))
    val = draw(simple_name) if kind == 0 else draw(number) if kind == 1 else draw(st.sampled_from(["", " ", "1 2", "1x5", "٣", "01", "+1"])) if kind == 2 else draw(raw_text)
    if (name_full.fullmatch(val) or num_full.fullmatch(val)) and draw(st.booleans()):
        return val, val
    return "|" + esc(val, "\\|", draw) + "|", val


@st.composite
def d_options(draw, names, var_names, used):
    src, val = "", {}
    for name in draw(st.lists(identifier, unique=True, max_size=2)) if draw(st.integers(0, 2)) == 0 else []:
        src += draw(s()) + draw(d_ident(name)) + draw(o()) + "=" + draw(o())
        if draw(st.integers(0, 2)):
            ls, lv = draw(d_literal())
            src += ls
            val[name] = lv
        else:
            v = draw(var_names)
            used.add(v)
            src += "$" + draw(d_name(v))
            val[name] = VariableRef(v)
    return src, val


@st.composite
def d_attributes(draw):
    src, val = "", {}
    for name in draw(st.lists(identifier, unique=True, max_size=2)) if draw(st.integers(0, 2)) == 0 else []:
        src += draw(s()) + "@" + draw(d_ident(name))
        if draw(st.booleans()):
            ls, lv = draw(d_literal())
            src += draw(o()) + "=" + draw(o()) + ls
            val[name] = lv
        else:
            val[name] = True
    return src, val


@st.composite
def d_expression(draw, arg=None, func=None, var_names=simple_name, used=None, kinds="lvf"):
    used = set() if used is None else used
    kind = draw(st.sampled_from(kinds))
    src = "{" + draw(o())
    has_func = kind == "f" or (draw(st.booleans()) if func is None else func)
    if kind == "l":
        ls, arg = draw(d_literal())
        src += ls
    elif kind == "v":
        name = draw(var_names) if arg is None else arg
        used.add(name)
        src += "$" + draw(d_name(name))
        arg = VariableRef(name)
    else:
        arg = None
    fn, opts = None, {}
    if has_func:
        fn = draw(identifier)
        if kind != "f":
            src += draw(s())
        os_, opts = draw(d_options(identifier, var_names, used))
        src += ":" + draw(d_ident(fn)) + os_
    as_, at = draw(d_attributes())
    return src + as_ + draw(o()) + "}", Expression(arg, fn, opts, at)


@st.composite
def d_markup(draw):
    name = draw(identifier)
    kind = draw(st.sampled_from(["open", "standalone", "close"]))
    os_, opts = draw(d_options(identifier, simple_name, set()))
    as_, at = draw(d_attributes())
    src = "{" + draw(o()) + ("/" if kind == "close" else "#") + draw(d_ident(name)) + os_ + as_ + draw(o())
    return src + ("/}" if kind == "standalone" else "}"), Markup(kind, name, opts, at)


@st.composite
def d_pattern(draw, max_size=5):
    src, val = "", []
    for _ in range(draw(st.integers(0, max_size))):
        if draw(st.booleans()):
            t = draw(raw_text)
            src += esc(t, "\\{}", draw)
            if val and isinstance(val[-1], str):
                val[-1] += t
            else:
                val.append(t)
        else:
            ps, pv = draw(gen.weighted((3, d_expression()), (1, d_markup())))
            src += ps
            val.append(pv)
    return src, val


@st.composite
def d_simple(draw):
    src, val = draw(d_pattern())
    if re.match(f"[{WS}{BIDI}]*\\.", src):
        src = "x" + src
        val[0] = "x" + val[0]
    return src, PatternMessage(val)


@st.composite
def d_complex(draw):
    src = draw(o())
    decls = {}
    used = set()
    funcs = []
    for _ in range(draw(st.integers(0, 4))):
        pool = st.one_of(st.sampled_from(sorted(decls)), simple_name) if decls else simple_name
        if draw(st.booleans()):
            name = draw(simple_name.filter(lambda n: n not in used and n not in decls))
            mine = set()
            es, ev = draw(d_expression(arg=name, kinds="v", var_names=pool.filter(lambda n: n != name), used=mine))
            src += ".input" + draw(o()) + es + draw(o())
        else:
            name = draw(simple_name.filter(lambda n: n not in used and n not in decls))
            mine = set()
            es, ev = draw(d_expression(var_names=pool.filter(lambda n: n != name), used=mine))
            src += ".local" + draw(s()) + "$" + draw(d_name(name)) + draw(o()) + "=" + draw(o()) + es + draw(o())
        used |= mine | {name}
        decls[name] = ev
    ok = [n for n in decls if annotated(decls, n)]
    if not ok or draw(st.integers(0, 2)) == 0:
        ps, pv = draw(d_pattern(3))
        return src + "{{" + ps + "}}" + draw(o()), PatternMessage(pv, decls)
    sels = draw(st.lists(st.sampled_from(ok), min_size=1, max_size=3))
    src += ".match"
    for n in sels:
        src += draw(s()) + "$" + draw(d_name(n))
    src += draw(s())
    variants = {}
    keys = st.one_of(st.just(("*", CatchallKey())), d_literal())
    rows = draw(st.lists(st.lists(keys, min_size=len(sels), max_size=len(sels)), max_size=3, unique_by=lambda r: tuple("*" if isinstance(v, CatchallKey) else "=" + v for _, v in r)))
    rows = [r for r in rows if any(k[1] != CatchallKey() for k in r)]
    rows.insert(draw(st.integers(0, len(rows))), [("*", CatchallKey())] * len(sels))
    for i, row in enumerate(rows):
        if i:
            src += draw(o())
        for j, (ks, _) in enumerate(row):
            src += (draw(s()) if j else "") + ks
        ps, pv = draw(d_pattern(2))
        src += draw(o()) + "{{" + ps + "}}"
        variants[tuple(v for _, v in row)] = pv
    return src + draw(o()), SelectMessage(decls, tuple(VariableRef(n) for n in sels), variants)


def annotated(decls, name):
    seen = set()
    while name in decls and name not in seen:
        seen.add(name)
        e = decls[name]
        if e.function:
            return True
        if not isinstance(e.arg, VariableRef):
            return False
        name = e.arg.name
    return False


derived = gen.weighted((2, d_simple()), (3, d_complex()))


# --- an independent recognizer


def char_class(ranges):
    return "".join(f"\\U{a:08x}-\\U{b:08x}" for a, b in ranges)


B = f"[{BIDI}]*"
O_ = f"[{WS}{BIDI}]*"
S_ = f"{B}[{WS}]{O_}"
NM = f"{B}[{char_class(RANGES)}][{char_class(CHAR_RANGES)}]*{B}"
ID = f"{NM}(?::{NM})?"
NUM = r"-?(?:0|[1-9][0-9]*)(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?"
QUO = r"\|(?:[^\\|\0]|\\[\\{|}])*\|"
LIT = f"(?:{QUO}|{NUM}|{NM})"
OPT = f"{S_}(?P<on>{ID}){O_}={O_}(?:\\$(?P<ov>{NM})|(?P<ol>{LIT}))"
ATT = f"{S_}@(?P<an>{ID})(?:{O_}={O_}(?P<av>{LIT}))?"


def plain(rx):
    return re.sub(r"\?P<\w+>", "?:", rx)


FUN = f":(?P<fn>{ID})(?P<fo>(?:{plain(OPT)})*)"
EXP = f"\\{{{O_}(?:(?:\\$(?P<v>{NM})|(?P<l>{LIT}))(?:{S_}{FUN})?|{FUN.replace('<f', '<g')})(?P<at>(?:{plain(ATT)})*){O_}\\}}"
MKP = f"\\{{{O_}(?P<k>[#/])(?P<mn>{ID})(?P<mo>(?:{plain(OPT)})*)(?P<ma>(?:{plain(ATT)})*){O_}(?P<sl>/?)\\}}"
TXT = r"(?:[^\\{}\0]|\\[\\{|}])+"
re_exp, re_mkp, re_txt, re_opt, re_att, re_lit, re_o, re_s, re_nm = (re.compile(x) for x in (EXP, MKP, TXT, OPT, ATT, LIT, O_, S_, NM))


class Reject(Exception):
    pass


class Unclear(Exception):
    pass


def unlit(src):
    if src.startswith("|"):
        return re.sub(r"\\(.)", r"\1", src[1:-1], flags=re.S)
    return src.strip(BIDI)


def unid(src):
    return ":".join(p.strip(BIDI) for p in src.split(":"))


def r_options(src):
    res = {}
    for m in re_opt.finditer(src or ""):
        n = unid(m["on"])
        if n in res:
            raise Reject
        res[n] = VariableRef(m["ov"].strip(BIDI)) if m["ov"] is not None else unlit(m["ol"])
    return res


def r_attributes(src):
    res = {}
    for m in re_att.finditer(src or ""):
        n = unid(m["an"])
        if n in res:
            raise Unclear
        res[n] = True if m["av"] is None else unlit(m["av"])
    return res


class Reader:
    def __init__(self, src):
        self.src = src
        self.pos = 0

    def at(self, lit):
        return self.src.startswith(lit, self.pos)

    def take(self, lit):
        if not self.at(lit):
            raise Reject
        self.pos += len(lit)

    def match(self, rx):
        m = rx.match(self.src, self.pos)
        if not m:
            raise Reject
        self.pos = m.end()
        return m

    def pattern(self):
        res = []
        while self.pos < len(self.src) and not self.at("}"):
            if self.at("{"):
                if m := re_exp.match(self.src, self.pos):
                    self.pos = m.end()
                    res.append(self.expression(m))
                else:
                    m = self.match(re_mkp)
                    if m["k"] == "/" and m["sl"]:
                        raise Reject
                    kind = "close" if m["k"] == "/" else "standalone" if m["sl"] else "open"
                    res.append(Markup(kind, unid(m["mn"]), r_options(m["mo"]), r_attributes(m["ma"])))
            else:
                res.append(re.sub(r"\\(.)", r"\1", self.match(re_txt)[0], flags=re.S))
        return res

    def expression(self, m):
        arg = VariableRef(m["v"].strip(BIDI)) if m["v"] is not None else None if m["l"] is None else unlit(m["l"])
        fn = m["fn"] or m["gn"]
        return Expression(arg, fn and unid(fn), r_options(m["fo"] or m["go"]), r_attributes(m["at"]))

    def quoted(self):
        self.take("{{")
        res = self.pattern()
        self.take("}}")
        return res

    def message(self):
        self.match(re_o)
        if not self.at(".") and not self.at("{{"):
            self.pos = 0
            res = PatternMessage(self.pattern())
        else:
            res = self.complex()
            self.match(re_o)
        if self.pos < len(self.src):
            raise Reject
        return res

    def complex(self):
        decls = {}
        used = set()
        while self.at(".input") or self.at(".local"):
            is_input = self.at(".input")
            self.pos += 6
            if is_input:
                self.match(re_o)
                e = self.expression(self.match(re_exp))
                if not isinstance(e.arg, VariableRef):
                    raise Reject
                name = e.arg.name
            else:
                self.match(re_s)
                self.take("$")
                name = self.match(re_nm)[0].strip(BIDI)
                self.match(re_o)
                self.take("=")
                self.match(re_o)
                e = self.expression(self.match(re_exp))
                if isinstance(e.arg, VariableRef):
                    used.add(e.arg.name)
            used |= {v.name for v in e.options.values() if isinstance(v, VariableRef)}
            if name in used or name in decls:
                raise Reject
            decls[name] = e
            self.match(re_o)
        if not self.at(".match"):
            return PatternMessage(self.quoted(), decls)
        self.pos += 6
        sels = []
        while m := re.compile(f"{S_}\\$({NM})").match(self.src, self.pos):
            self.pos = m.end()
            sels.append(m[1].strip(BIDI))
        # the trailing bidi marks of a name may also belong to the space that follows
        if not sels or not all(annotated(decls, n) for n in sels):
            raise Reject
        self.match(re_s)
        variants = {}
        while self.pos < len(self.src):
            keys = []
            while not self.at("{"):
                if keys and not re.search(f"[{WS}]", gap):
                    raise Reject
                if self.at("*"):
                    self.pos += 1
                    keys.append(CatchallKey())
                else:
                    keys.append(unlit(self.match(re_lit)[0]))
                gap = self.match(re_o)[0]
            if len(keys) != len(sels) or tuple(keys) in variants:
                raise Reject
            variants[tuple(keys)] = self.quoted()
            self.match(re_o)
        if tuple([CatchallKey()] * len(sels)) not in variants:
            raise Reject
        return SelectMessage(decls, tuple(map(VariableRef, sels)), variants)


def check_meaning(exp, got, src):
    d = gen.diff(exp, got)
    if d:
        raise Violation(f"{d}\nsource: {src!r}\nexpected {exp}\ngot      {got}")


def check_roundtrip(msg, src):
    before = copy.deepcopy(msg)
    out = mf2_serialize_message(msg)
    d = gen.diff(before, msg)
    if d:
        raise Violation(f"serializing changed the message: {d}")
    try:
        again = mf2_parse_message(out)
    except MF2ParseError as e:
        raise Violation(f"serialized message rejected: {e}\nsource: {src!r}\nserialized: {out!r}") from e
    check_meaning(msg, again, out)
    try:
        ref = Reader(out).message()
    except Unclear:
        return out
    except Reject:
        raise Violation(f"serialized outside the grammar: {out!r}")
    check_meaning(msg, ref, out)
    if mf2_serialize_message(again) != out:
        raise Violation(f"not a fixed point: {out!r}")
    return out


def check_derive(case, ctx):
    src, exp = case
    if "{" in src or "." in src:
        ctx.nontrivial(src)
    ctx.label(type(exp).__name__)
    try:
        ref = Reader(src).message()
    except Reject:
        raise Violation(f"the derivation and recognizer differ on {src!r}")
    check_meaning(exp, ref, src)
    try:
        got = mf2_parse_message(src.encode() if len(src) % 2 else src)
    except MF2ParseError as e:
        raise Violation(f"valid source rejected: {e}\n{src!r}") from e
    check_meaning(exp, got, src)
    check_roundtrip(got, src)
    copy_ = copy.deepcopy(got)
    try:
        mf2_validate_message(copy_)
    except Exception as e:
        raise Violation(f"parsed message is not valid: {e!r}\n{src!r}") from e


SMALL = st.sampled_from(["a", "b", "c"])


@st.composite
def loose_expr(draw, var=None):
    """An expression over few names, with options that may be repeated"""
    kind = "v" if var else draw(st.sampled_from("vvlf"))
    arg = "" if kind == "f" else "$" + (var or draw(SMALL)) if kind == "v" else draw(st.sampled_from(["1", "||", "a", "|x y|"]))
    parts = [arg] if arg else []
    if not arg or draw(st.booleans()):
        parts.append(":" + draw(st.sampled_from(["f", "n:f"])))
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3]))):
            value = draw(gen.weighted((3, SMALL.map("${}".format)), (2, st.sampled_from(["1", "||", "a"]))))
            parts.append(draw(st.sampled_from(["a", "b", "c", "n:a"])) + "=" + value)
    if draw(st.integers(0, 5)) == 0:
        parts.append("@a=" + draw(st.sampled_from(["$a", "||", "1"])) if draw(st.booleans()) else "@a")
    return "{" + " ".join(parts) + draw(st.sampled_from(["", "", "", " "])) + "}"


@st.composite
def loose(draw):
    """Well-formed messages that may break the rules on declarations, selectors, variants and options"""
    src = ""
    names = []
    for _ in range(draw(st.integers(0, 4))):
        # mostly different names, so that most of the declarations are fine
        fresh = [n for n in "abcde" if n not in names]
        name = draw(gen.weighted((5, st.sampled_from(fresh)), (1, SMALL)))
        names.append(name)
        if draw(st.integers(0, 2)) == 0:
            src += ".input " + draw(loose_expr(var=name))
        elif draw(st.booleans()) and len(names) > 1:
            # chains of declarations
            src += f".local ${name} = {{${names[-2]}}}"
        else:
            src += f".local ${name} = " + draw(loose_expr())
        src += draw(st.sampled_from(["", " ", "\n"]))
    if draw(st.booleans()) or not names:
        return None, src + "{{" + "".join(draw(st.lists(loose_expr(), max_size=2))) + "}}"
    n = draw(st.sampled_from([1, 1, 2, 2, 3]))
    src += ".match" + "".join(f" ${draw(gen.weighted((6, st.sampled_from(names[-2:])), (1, SMALL)))}" for _ in range(n)) + "\n"
    key = st.sampled_from(["*", "*", "*", "1", "one", "|*|", "|1|", "||"])
    rows = draw(st.lists(st.lists(key, min_size=n, max_size=n), max_size=4))
    if draw(st.integers(0, 9)):
        rows = [r for r in rows if set(r) != {"*"}] if draw(st.integers(0, 3)) else rows
        rows.insert(draw(st.integers(0, len(rows))), ["*"] * n)
    if rows and draw(st.integers(0, 9)) == 0:
        row = draw(st.sampled_from(rows))
        row.append("1") if draw(st.booleans()) else row.pop()
    return None, src + "\n".join(" ".join(r) + " {{x}}" for r in rows)


TOKENS = ["|\\a|", "{|\\ |}", "{|\\|}", "{|x\\$|}", "\\a", "\x00", "||:f", "{||:a}", "{||@a}", "{|x|:a}", "{$x:a}", "{:f||}", "{", "}", "{{", "}}", "|", "\\", "\\\\", "\\{", "$", "$x", "$y", ":f", ":", "@a", "@", "=", "*", ".", ".input", ".local", ".match", " ", "\n", "\u200e", "\u3000", "x", "1", "-1.5e2", "1.", "01", "#b", "/b", "/", "\x00", "é", "·", "o=1", "x:y", "{$x}", "{$x :f}", "{#b/}", "{/b}", "|q|", ".input {$x :f}", ".local $y = {1}", "* {{}}", "a"]  # fmt: skip


@st.composite
def mutation(draw):
    if draw(st.integers(0, 3)) == 0:
        return None, "".join(draw(st.lists(st.sampled_from(TOKENS), max_size=10)))
    src, _ = draw(derived)
    out = src
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 6))
        i = draw(st.integers(0, len(out)))
        if k > 4:
            # white space that may be required, or empty literals
            found = [m.span() for m in re.finditer(r"\s+" if k == 5 else r"\|[^|\\]*\|", out)]
            if found:
                i, j = draw(st.sampled_from(found))
                out = out[:i] + ("" if k == 5 else "||") + out[j:]
        elif k == 0:
            out = out[:i] + draw(st.sampled_from(TOKENS)) + out[i:]
        elif k == 1:
            out = out[:i] + out[i + 1 :]
        elif k == 2:
            out = out[:i] + draw(st.sampled_from(TOKENS)) + out[i + 1 :]
        elif k == 3:
            j = draw(st.integers(0, len(out)))
            i, j = min(i, j), max(i, j)
            out = out[:i] + out[j:] if draw(st.booleans()) else out[:j] + out[i:j] + out[j:]
        else:
            out = out[:i] + out[i + 1 : i + 2] + out[i : i + 1] + out[i + 2 :]
    return src, out


def check_mutate(case, ctx):
    orig, src = case
    if orig != src:
        ctx.nontrivial(src)
    try:
        ref = Reader(src).message()
    except Reject:
        ref = None
    except Unclear:
        return
    try:
        got = mf2_parse_message(src)
    except MF2ParseError as e:
        if ref is not None:
            raise Violation(f"valid source rejected: {e}\n{src!r}\nmeaning {ref}") from e
        if not isinstance(e.pos, int) or not 0 <= e.pos <= len(src):
            raise Violation(f"error position {e.pos} in {src!r}")
        ctx.label("invalid")
        return
    except Exception as e:
        raise Violation(f"not a parse error: {e!r}\n{src!r}") from e
    ctx.label("valid")
    if ref is None:
        raise Violation(f"invalid source accepted: {src!r}\n{got}")
    check_meaning(ref, got, src)
    check_roundtrip(got, src)


# --- models

near_number = gen.text("0123456789-+.eE?[ \u3000", any=st.just("1"), min_size=1, max_size=5)
m_literal = st.one_of(simple_name, number, raw_text, st.sampled_from(["", "1 2", "1x5", "*", "01", "٣"]), near_number)
m_var = simple_name.map(VariableRef)
m_options = st.dictionaries(identifier, st.one_of(m_literal, m_var), max_size=2)
m_attrs = st.dictionaries(identifier, st.one_of(m_literal, st.just(True)), max_size=2)
m_expr = st.one_of(
    st.builds(lambda a, t: Expression(a, None, {}, t), st.one_of(m_literal, m_var), m_attrs),
    st.builds(Expression, st.one_of(st.none(), m_literal, m_var), identifier, m_options, m_attrs),
)
m_markup = st.builds(Markup, st.sampled_from(["open", "standalone", "close"]), identifier, m_options, m_attrs)


@st.composite
def m_pattern(draw, max_size=5):
    res = []
    if draw(st.integers(0, 9)) == 0:
        res.append(draw(st.text(WS + BIDI, max_size=3)) + draw(st.sampled_from([".", ".input", ".a {", "{{"])))
    for p in draw(st.lists(gen.weighted((3, raw_text), (2, m_expr), (1, m_markup)), max_size=max_size)):
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        else:
            res.append(p)
    return res


@st.composite
def m_decls(draw, min_size=0):
    """Valid declarations, in any order of their names"""
    decls = {}
    used = set()
    for _ in range(draw(st.integers(min_size, 4))):
        name = draw(simple_name.filter(lambda n: n not in used and n not in decls))
        others = st.sampled_from([*decls, "z1", "z2"]).map(VariableRef)
        opts = draw(st.dictionaries(identifier, st.one_of(m_literal, others), max_size=2))
        arg = draw(st.one_of(st.just(VariableRef(name)), st.none(), m_literal, others))
        fn = draw(identifier) if arg is None or draw(st.booleans()) else None
        e = Expression(arg, fn, opts if fn else {}, draw(m_attrs))
        used |= {v.name for v in [arg, *e.options.values()] if isinstance(v, VariableRef)} | {name}
        decls[name] = e
    return decls


@st.composite
def m_message(draw):
    decls = draw(m_decls()) if draw(st.integers(0, 2)) else {}
    ok = [n for n in decls if annotated(decls, n)]
    if not ok or draw(st.integers(0, 2)) == 0:
        return PatternMessage(draw(m_pattern()), decls)
    sels = draw(st.lists(st.sampled_from(ok), min_size=1, max_size=3))
    key = st.one_of(st.just(CatchallKey()), m_literal)
    variants = draw(st.dictionaries(st.tuples(*[key] * len(sels)), m_pattern(3), max_size=4))
    variants[tuple(CatchallKey() for _ in sels)] = draw(m_pattern(3))
    return SelectMessage(decls, tuple(map(VariableRef, sels)), variants)


def check_model(msg, ctx):
    out = check_roundtrip(msg, None)
    ctx.label(type(msg).__name__)
    if set(out) & set("{}\\|."):
        ctx.nontrivial(out)
    if isinstance(msg, PatternMessage) and len(msg.pattern) and isinstance(msg.pattern[0], str):
        # text may be split up in any way
        t = msg.pattern[0]
        for parts in (["", t], [t[:1], t[1:]], list(t)):
            m = PatternMessage([*parts, *msg.pattern[1:]], msg.declarations)
            try:
                got = mf2_parse_message(mf2_serialize_message(m))
            except MF2ParseError as e:
                raise Violation(f"serialized message rejected: {e}\n{m}") from e
            check_meaning(msg, got, repr(m))


SUBS = [
    Sub("derive", derived, check_derive, 6000),
    Sub("mutate", mutation(), check_mutate, 7000),
    Sub("loose", loose(), check_mutate, 5000),
    Sub("model", m_message(), check_model, 4000),
]
