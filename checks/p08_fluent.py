"""P08: Fluent. The reference for the syntax is the fluent.syntax parser; the reference for the
meaning of messages is a small evaluator of its AST, compared with one of the message model."""

from __future__ import annotations

import copy
import random
import re
from itertools import product

from fluent.syntax import FluentParser
from fluent.syntax import ast as ftl
from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.formats.fluent import (
    fluent_parse,
    fluent_parse_entry,
    fluent_parse_message,
    fluent_serialize,
    fluent_serialize_entry,
    fluent_serialize_message,
)
from moz.l10n.model import (
    CatchallKey,
    Comment,
    Entry,
    Expression,
    LinePos,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P08"
RULE = (
    "source: FTL text from an independent writer (nested and repeated selectors, terms, attributes,"
    " comments, block text with odd indents); non-trivial = a selector, an attribute, or a comment."
    " model: message models with any text, all expression kinds, 1-3 selectors with ragged, shuffled"
    " variants; non-trivial = escaped text or a selector. message: the same for single messages."
    " pattern: pattern source with what could follow it in a file; non-trivial = accepted with a line break or"
    " a placeable. raw: entries of pattern sources, written without escapes; non-trivial = an attribute with a placeable."
    " reject: content that Fluent cannot represent. Distinct by the serialized source."
)
ASSUMPTIONS = [
    "plural category matching is abstracted to equality of the selector value and the key",
    "functions have at most one positional argument, a variable or a literal; terms have only named ones",
    "the FTL parser of fluent.syntax is the reference for the grammar",
]

# ------------------------------------------------------------------ meaning

PARSER = FluentParser(with_spans=True)


def lit(v):
    return v.value if isinstance(v, ftl.NumberLiteral) else v.parse()["value"]


def ast_token(e):
    while isinstance(e, ftl.Placeable):
        e = e.expression
    if isinstance(e, ftl.StringLiteral):
        return e.parse()["value"]
    if isinstance(e, ftl.NumberLiteral):
        return ("num", e.value)
    if isinstance(e, ftl.VariableReference):
        return ("var", e.id.name)
    if isinstance(e, ftl.MessageReference):
        return ("msg", e.id.name, e.attribute and e.attribute.name)
    if isinstance(e, ftl.TermReference):
        named = e.arguments.named if e.arguments else []
        return ("term", e.id.name, e.attribute and e.attribute.name, tuple(sorted((n.name.name, lit(n.value)) for n in named)))
    assert isinstance(e, ftl.FunctionReference), e
    arg = None
    if e.arguments.positional:
        a = e.arguments.positional[0]
        while isinstance(a, ftl.Placeable):
            a = a.expression
        arg = ("var", a.id.name) if isinstance(a, ftl.VariableReference) else ("lit", lit(a))
    return ("fn", e.id.name, arg, tuple(sorted((n.name.name, lit(n.value)) for n in e.arguments.named)))


def sel_token(tok):
    """The bare NUMBER($x) is the same selector as $x"""
    if isinstance(tok, tuple) and tok[0] == "fn" and tok[1] == "NUMBER" and tok[2] and tok[2][0] == "var" and not tok[3]:
        return tok[2]
    return tok


def add(out, tok):
    if isinstance(tok, str):
        if out and isinstance(out[-1], str):
            out[-1] += tok
        elif tok:
            out.append(tok)
    else:
        out.append(tok)


def ast_eval(pattern, env, out=None):
    out = [] if out is None else out
    for el in pattern.elements:
        if isinstance(el, ftl.TextElement):
            add(out, el.value)
            continue
        e = el.expression
        while isinstance(e, ftl.Placeable):
            e = e.expression
        if isinstance(e, ftl.SelectExpression):
            val = env[sel_token(ast_token(e.selector))]
            key = lambda v: v.key.name if isinstance(v.key, ftl.Identifier) else v.key.value  # noqa: E731
            var = next((v for v in e.variants if key(v) == val), None) or next(v for v in e.variants if v.default)
            ast_eval(var.value, env, out)
        else:
            add(out, ast_token(e))
    return out


def ast_selectors(pattern, out):
    """{selector token: [[keys of one select expression]]}"""
    for el in pattern.elements:
        e = el
        while isinstance(e, ftl.Placeable):
            e = e.expression
        if isinstance(e, ftl.SelectExpression):
            keys = [(v.key.name, False) if isinstance(v.key, ftl.Identifier) else (v.key.value, True) for v in e.variants]
            out.setdefault(sel_token(ast_token(e.selector)), []).append((e.selector, keys))
            for i, v in enumerate(e.variants):
                if v.default or keys[i] not in keys[:i]:
                    ast_selectors(v.value, out)
    return out


def model_token(msg, e, seen=()):
    """A token for an expression, resolving its declarations"""
    if isinstance(e, VariableRef):
        if e.name in msg.declarations and e.name not in seen:
            return model_token(msg, msg.declarations[e.name], (*seen, e.name))
        return ("var", e.name)
    fn = e.attributes.get("fluent-fn")
    opts = tuple(sorted(e.options.items()))
    arg = e.arg
    if fn is None and e.function == "datetime":
        fn = "DATETIME"
    if fn is None and e.function == "number" and opts:
        fn = "NUMBER"
    if fn is None and e.function == "message":
        name, dot, attr = arg.partition(".")
        if name.startswith("-"):
            return ("term", name[1:], attr or None, opts)
        return ("msg", name, attr or None)
    if isinstance(arg, VariableRef):
        arg = model_token(msg, arg, seen)
    elif arg is not None:
        arg = ("lit", arg)
    if fn is not None:
        return ("fn", fn, arg, opts)
    if isinstance(arg, tuple) and arg[0] == "lit":
        return ("num", arg[1]) if e.function == "number" else arg[1]
    return arg


def model_eval(msg, env):
    out = []
    if isinstance(msg, PatternMessage):
        pattern = msg.pattern
    else:
        vals = [env[sel_token(model_token(msg, s))] for s in msg.selectors]
        best = None
        for keys, pat in msg.variants.items():
            if all(isinstance(k, CatchallKey) or k == v for k, v in zip(keys, vals)):
                rank = tuple(isinstance(k, CatchallKey) for k in keys)
                if best is None or rank < best[0]:
                    best = (rank, pat)
        if best is None:
            # the name of a default key is a match for it, if there is no other
            raise Violation(f"no variant of {msg!r} for {vals!r}")
        pattern = best[1]
    for el in pattern:
        add(out, el if isinstance(el, str) else model_token(msg, el))
    return out


def model_keys(msg):
    out = {}
    if isinstance(msg, SelectMessage):
        for i, s in enumerate(msg.selectors):
            tok = sel_token(model_token(msg, s))
            out.setdefault(tok, set()).update(str(k[i]) or "other" for k in msg.variants)
    return out


def envs(keys, limit=60):
    names = list(keys)
    vals = [sorted(keys[n]) + ["no-such-key"] for n in names]
    n = 1
    for v in vals:
        n *= len(v)
    if n <= limit:
        return [dict(zip(names, c)) for c in product(*vals)]
    rnd = random.Random(n)
    return [dict(zip(names, (rnd.choice(v) for v in vals))) for _ in range(limit)]


def ast_keys(sels):
    return {tok: {k for _, keys in lst for k, _ in keys} for tok, lst in sels.items()}


def same_meaning(pattern, msg, what):
    """Compare an FTL pattern (or None) with a message"""
    if pattern is None:
        if not (isinstance(msg, PatternMessage) and msg.pattern == []):
            raise Violation(f"{what}: expected no value, got {msg!r}")
        return
    sels = ast_selectors(pattern, {})
    keys = ast_keys(sels)
    if bool(keys) != isinstance(msg, SelectMessage):
        raise Violation(f"{what}: message type of {msg!r}")
    mk = model_keys(msg)
    if set(mk) != set(keys):
        raise Violation(f"{what}: selectors {sorted(map(repr, keys))} != {sorted(map(repr, mk))}")
    for tok in keys:
        if not mk[tok] <= keys[tok]:
            raise Violation(f"{what}: keys {keys} != {mk}")
    for env in envs(keys):
        a = ast_eval(pattern, env)
        b = model_eval(msg, env)
        if a != b:
            raise Violation(f"{what}: with {env}: expected {a!r}, got {b!r}, from {msg!r}")


PLURAL = {"zero", "one", "two", "few", "many", "other"}


def check_types(pattern, msg, what):
    if pattern is None or not isinstance(msg, SelectMessage):
        return
    exprs = msg.selector_expressions()
    for lst in ast_selectors(pattern, {}).values():
        for selector, keys in lst:
            if isinstance(selector, ftl.VariableReference):
                fn = "number" if all(num or k in PLURAL for k, num in keys) else "string"
                if Expression(VariableRef(selector.id.name), fn) not in exprs:
                    raise Violation(f"{what}: no :{fn} selector of {selector.id.name} in {exprs!r}")
    for v in msg.variants.values():
        for a, b in zip(v, v[1:]):
            if isinstance(a, str) and isinstance(b, str):
                raise Violation(f"{what}: adjacent strings in {v!r}")


# ------------------------------------------------------------------ FTL source generation

ident = st.sampled_from(["a", "b", "foo", "Bar", "x-1", "y_2", "key", "accesskey", "label", "title", "label-accesskey", "label-b"])
var = st.sampled_from(["a", "b", "n", "a_1", "count"])
src_text = gen.text(
    ["[", "*", ".", " ", "  ", "\n", "\n", "\n  ", "\n\n", '"', "\\", "#", "=", "-", "\t", "->", "$a", "\u2028", "\r"],
    exclude="{}",
)
str_lit = gen.text(["\\\\", '\\"', "\\u00e9", "\\U01F600", "{", "}", " ", "\\u000A", "1", "."], exclude='"\\\u2028', max_size=5).map(
    lambda s: f'"{s}"'
)
num_lit = st.sampled_from(["0", "1", "-1", "3.14", "007", "1.0", "10000"])
literal = st.one_of(str_lit, num_lit)
sp = st.sampled_from([" ", " ", "", "  ", "\n    "])


@st.composite
def named(draw, lo=0):
    names = draw(st.lists(st.sampled_from(["opt", "style", "minimumFractionDigits", "x-1"]), min_size=lo, max_size=2, unique=True))
    return [f"{n}:{draw(sp)}{draw(literal)}" for n in names]


@st.composite
def inline(draw, selector=False):
    kind = draw(st.sampled_from(["var", "var", "str", "num", "msg", "term", "fn", "fn", "nested"]))
    if selector and kind in ("msg", "nested"):
        kind = "var"
    if kind == "var":
        return "$" + draw(var)
    if kind == "str":
        return draw(str_lit)
    if kind == "num":
        return draw(num_lit)
    if kind == "msg":
        return draw(ident) + draw(st.sampled_from(["", "", ".foo", ".x-1"]))
    if kind == "term":
        # terms as selectors need an attribute, others must not have one
        t = "-" + draw(ident) + (".attr" if selector else "")
        if draw(st.booleans()):
            t += "(" + ", ".join(draw(named())) + ")"
        return t
    if kind == "nested":
        return "{ " + draw(inline()) + " }"
    name = draw(st.sampled_from(["NUMBER", "NUMBER", "DATETIME", "FOO", "STRING", "MESSAGE", "F-2"]))
    arg = draw(st.one_of(var.map(lambda s: "$" + s), var.map(lambda s: "$" + s), literal))
    if name in ("FOO", "F-2") and draw(st.integers(0, 3)) == 0:
        args = draw(named())
    else:
        args = [arg, *draw(named())]
    s = draw(sp)
    return f"{name}({s}{', '.join(args)}{s})"


IDKEYS = ["one", "other", "few", "foo", "bar-9_X", "a", "1", "0", "2.5"]


@st.composite
def select(draw, depth, indent):
    sel = draw(st.one_of(var.map(lambda s: "$" + s), var.map(lambda s: "$" + s), inline(selector=True)))
    keys = draw(st.lists(st.sampled_from(IDKEYS), min_size=1, max_size=3, unique=True))
    if draw(st.integers(0, 7)) == 0:
        keys.insert(draw(st.integers(0, len(keys))), draw(st.sampled_from(keys)))
    dflt = draw(st.integers(0, len(keys) - 1))
    out = [draw(sp), sel, " ->"]
    pad = "\n" + " " * (indent + 4)
    for i, k in enumerate(keys):
        out.append(f"{pad}{'*' if i == dflt else ''}[{k}]{draw(pattern(depth - 1, indent + 6))}")
    res = "{" + "".join(out) + "\n" + " " * indent + "}"
    return "{ " + res + " }" if draw(st.integers(0, 9)) == 0 else res


@st.composite
def pattern(draw, depth=2, indent=4):
    parts = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.integers(0, 9))
        if k < 5:
            parts.append(draw(src_text).replace("\n", "\n" + " " * indent))
        elif k < 8 or depth <= 0:
            s = draw(sp)
            parts.append("{" + s + draw(inline()) + s + "}")
        else:
            parts.append(draw(select(depth, indent)))
    s = "".join(parts)
    # The number of variants of a message is a product over its selects
    if not s.strip() or s.count("->") > 6:
        s = '{ "" }'
    return draw(st.sampled_from([" ", " ", "", "\n" + " " * indent])) + s


cmt = gen.comment("#{}=", any=gen.NO_CONTROL)


@st.composite
def entry_src(draw):
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return draw(st.sampled_from(["#", "##", "##", "###"])), draw(cmt)
    if kind == 1 and draw(st.booleans()):
        return "junk", draw(st.sampled_from(["foo", "foo =", "= x", "foo = }", "-x =", "foo = {", "x = { $a -> [b] c\n}"]))
    term = kind == 2
    name = draw(ident)
    c = draw(cmt) if draw(st.integers(0, 3)) == 0 else ""
    attrs = [(draw(ident), draw(pattern(1, 8))) for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2, 3])))]
    has_value = term or not attrs or draw(st.booleans())
    out = [f"{'-' if term else ''}{name}{draw(st.sampled_from([' ', '', '  ']))}="]
    if has_value:
        out.append(draw(pattern(draw(st.integers(0, 3)))))
    for a, p in attrs:
        out.append(f"\n  .{a} ={p}")
    return "entry", c, "".join(out)


@st.composite
def sources(draw):
    entries = draw(st.lists(entry_src(), min_size=1, max_size=4))
    out = []
    for e in entries:
        if e[0] == "entry":
            if e[1]:
                out += [f"# {ln}" if ln else "#" for ln in e[1].split("\n")]
            out.append(e[2])
            if draw(st.integers(0, 3)) == 0:
                out.append("")
        elif e[0] == "junk":
            out += [e[1], ""]
        else:
            out += [f"{e[0]} {ln}" if ln else e[0] for ln in e[1].split("\n")] + [""]
    return "\n".join(out) + draw(st.sampled_from(["\n", "\n", ""]))


def line_of(src, idx):
    """The line of an exclusive end or a start, counting a line break with the line after it."""
    return 1 + (src if src.endswith("\n") else src + "\n").count("\n", 0, idx + 1)


def lp(src, start, key, value, end):
    return LinePos(line_of(src, start), line_of(src, key), line_of(src, value), line_of(src, end))


def check_source(src, ctx):
    tree = PARSER.parse(src)
    if any(isinstance(e, ftl.Junk) for e in tree.body):
        try:
            fluent_parse(src)
        except ValueError:
            ctx.label("junk")
            return
        raise Violation(f"junk was accepted: {src!r}")
    rest = [e for e in tree.body if not isinstance(e, ftl.BaseComment) or e.content]
    if rest and isinstance(rest[0], ftl.Comment) and rest[0] is not tree.body[0]:
        ctx.label("empty first comment")  # dropped, which moves any comment after it
        return
    res = fluent_parse(src)
    for data in (src.encode("utf8"), tree):
        d = gen.diff(res, fluent_parse(data))
        if d:
            raise Violation(f"{type(data)}: {d}\n{src!r}")
    compare_ast(tree, res, src, True)
    out = "".join(fluent_serialize(res))
    tree2 = PARSER.parse(out)
    compare_ast(tree2, res, out, False)
    res2 = fluent_parse(out)
    d = gen.diff(canon_res(res), canon_res(res2))
    if d:
        raise Violation(f"re-parsed: {d}\n{src!r}\n{out!r}")
    # the same messages, with the same meaning and order
    m1, m2 = messages(tree), messages(tree2)
    if [(e.id.name, type(e)) for e in m1] != [(e.id.name, type(e)) for e in m2]:
        raise Violation(f"messages changed\n{src!r}\n{out!r}")
    fixpoint(out, res2)
    trimmed = PARSER.parse("".join(fluent_serialize(res, trim_comments=True)))
    if any(not isinstance(e, (ftl.Message, ftl.Term)) or e.comment for e in trimmed.body):
        raise Violation(f"comments left in {src!r}")
    plain = copy.deepcopy(res)
    plain.comment = ""
    plain.meta = []
    plain.sections = [Section((), [e for e in res.all_entries()])]
    plain = copy.deepcopy(plain)
    for e in plain.all_entries():
        e.comment = ""
    compare_ast(trimmed, plain, "trimmed " + src, False)
    entries = list(res.all_entries())
    for e in m1:
        one = src[e.span.start : e.span.end]
        d = gen.diff(next((x for x in reversed(entries) if x.id == node_id(e)), None), fluent_parse_entry(e))
        if d and sum(1 for x in entries if x.id == node_id(e)) == 1:
            raise Violation(f"fluent_parse_entry(ftl): {d}\n{src!r}")
        ent = fluent_parse_entry(one)
        orig = next(x for x in reversed(list(res.all_entries())) if x.id == ent.id)
        if sum(1 for x in res.all_entries() if x.id == ent.id) == 1:
            # comments are skipped when parsing a single entry
            d = gen.diff(without_comment(orig), ent)
            if d:
                raise Violation(f"fluent_parse_entry: {d}\n{one!r}")
            back = fluent_parse_entry(fluent_serialize_entry(ent))
            if (ent.id, ent.comment, set(ent.properties)) != (back.id, back.comment, set(back.properties)):
                raise Violation(f"fluent_serialize_entry: {ent!r} became {back!r}")
            equal_meaning(ent.value, back.value, one)
            for k, m in ent.properties.items():
                equal_meaning(m, back.properties[k], f"{k} of {one}")
    if any("->" in src for _ in [0]) or any(e.attributes or e.comment for e in m1):
        ctx.nontrivial(src)
    for e in res.all_entries():
        if isinstance(e.value, SelectMessage):
            ctx.label(f"{min(len(e.value.selectors), 3)} selectors")
        if e.properties:
            ctx.label("attributes")


def fixpoint(src, res):
    """Serializing a resource parsed from a serialization gives the same source, except that
    the order of variants and repeated selectors may be normalized."""
    out = "".join(fluent_serialize(res))
    if any(isinstance(m, SelectMessage) for e in res.all_entries() for m in (e.value, *e.properties.values())):
        for _ in range(4):
            if src == out:
                break
            src, out = out, "".join(fluent_serialize(fluent_parse(out)))
    if src != out:
        raise Violation(f"not a fixpoint: {src!r} -> {out!r}")


def node_id(e):
    return (("-" if isinstance(e, ftl.Term) else "") + e.id.name,)


def without_comment(entry):
    entry = copy.deepcopy(entry)
    entry.comment = ""
    return entry


def messages(tree):
    return [e for e in tree.body if isinstance(e, (ftl.Message, ftl.Term))]


def compare_ast(tree, res, src, linepos):
    body = list(tree.body)
    meta = []
    if body and isinstance(body[0], ftl.Comment) and body[0].content:
        meta = [Metadata("info", body.pop(0).content)]
    if res.meta != meta:
        raise Violation(f"expected meta {meta!r}, got {res.meta!r}: {src!r}")
    sections = [("", [])]
    rc = []
    for e in body:
        if isinstance(e, ftl.ResourceComment):
            if e.content:
                rc.append(e.content)
        elif isinstance(e, ftl.GroupComment):
            if sections[-1][1] or sections[-1][0]:
                sections.append((e.content or "", []))
            else:
                sections[-1] = (e.content or "", [])
        elif isinstance(e, ftl.Comment):
            if e.content:
                sections[-1][1].append(e)
        else:
            sections[-1][1].append(e)
    if res.comment != "\n\n".join(rc):
        raise Violation(f"resource comment {res.comment!r}, expected {rc!r}: {src!r}")
    got = [(s.comment, s.entries) for s in res.sections]
    if [c for c, _ in got] != [c for c, _ in sections] or any(s.id or s.meta for s in res.sections):
        raise Violation(f"sections {got!r}, expected {[c for c, _ in sections]!r}: {src!r}")
    for (_, ents), (_, want) in zip(got, sections):
        if len(ents) != len(want):
            raise Violation(f"expected {len(want)} entries, got {ents!r}: {src!r}")
        for e, w in zip(ents, want):
            if isinstance(w, ftl.Comment):
                if not isinstance(e, Comment) or e.comment != w.content:
                    raise Violation(f"expected comment {w.content!r}, got {e!r}: {src!r}")
                continue
            name = ("-" if isinstance(w, ftl.Term) else "") + w.id.name
            wc = (w.comment.content or "") if w.comment else ""
            if not isinstance(e, Entry) or e.id != (name,) or e.comment != wc or e.meta:
                raise Violation(f"expected {name} with comment {wc!r}, got {e!r}: {src!r}")
            attrs = {a.id.name: a.value for a in w.attributes}
            if set(attrs) != set(e.properties):
                raise Violation(f"expected attributes {list(attrs)}, got {list(e.properties)}: {src!r}")
            try:
                same_meaning(w.value, e.value, name)
                for k, p in attrs.items():
                    same_meaning(p, e.properties[k], f"{name}.{k}")
                if linepos:
                    check_types(w.value, e.value, name)
            except Violation as err:
                raise Violation(f"{err}\n{src!r}") from None
            if linepos:
                end = w.value.span.end if w.value else w.span.end
                if w.attributes:
                    end = w.attributes[-1].value.span.end
                v0 = w.value.span.start if w.value else w.span.start
                start = w.comment.span.start if wc else w.span.start
                pos = lp(src, start, w.id.span.start, v0, end)
                if e.linepos != pos:
                    raise Violation(f"{name}: expected {pos}, got {e.linepos}: {src!r}")


def canon_msg(m):
    """Literals are text; normal variable names; no bare NUMBER() selectors"""
    def pat(p):
        out = []
        for el in p:
            if isinstance(el, Expression) and isinstance(el.arg, str) and el.function is None:
                el = el.arg
            add(out, el)
        return out

    if isinstance(m, PatternMessage):
        m.pattern = pat(m.pattern)
    else:
        sels = m.selector_expressions()
        m.declarations = {}
        for i, s in enumerate(sels):
            if s.function == "number" and isinstance(s.arg, VariableRef) and not s.options:
                # NUMBER() is left out, so the type is determined by the keys
                keys = {str(k[i]) or "other" for k in m.variants}
                plural = all(k in PLURAL or k[0] in "-0123456789" for k in keys)
                s = Expression(s.arg, "number" if plural else "string")
            elif s.function == "string" and isinstance(s.arg, VariableRef) and not s.attributes:
                s = Expression(s.arg, "string")
            elif isinstance(s.arg, str) and s.function in (None, "string") and not s.attributes:
                s = Expression(s.arg, "string")
            m.declarations[f"s{i}"] = s
        m.selectors = tuple(VariableRef(f"s{i}") for i in range(len(sels)))
        m.variants = {k: pat(v) for k, v in m.variants.items()}
    for opts in [e.options for e in list(m.declarations.values())] + [
        el.options for p in ([m.pattern] if isinstance(m, PatternMessage) else m.variants.values()) for el in p if not isinstance(el, str)
    ]:
        items = sorted(opts.items())
        opts.clear()
        opts.update(items)
    return m


def canon_res(res):
    res = copy.deepcopy(res)
    for e in res.all_entries():
        e.properties = {k: m for k, m in sorted(e.properties.items())}
        for m in (e.value, *e.properties.values()):
            # flattened selects have the same meaning, which compare_ast() has checked
            if isinstance(m, SelectMessage):
                m.declarations, m.selectors, m.variants = {}, (), {}
            else:
                canon_msg(m)
    return res


# ------------------------------------------------------------------ models

m_text = gen.text(
    ["{", "}", "[", "*", ".", " ", "\n", "\n ", "\n  ", "\n\n", "\r\n", "\r", '"', "\\", "\u2028", "#", "=", "-", "\t", "\n[", "\n  *", "\x85", "\x00"],
    max_size=8,
)
m_lit = st.one_of(
    gen.text(["{", "}", '"', "\\", "\n", " ", "\u2028", "\x00"], max_size=5),
    st.sampled_from(["1", "1e5", "nan", "inf", "1_000", "-2.50", "", "+1", " 1", "٣", ".5", "1.", "true", "\\u0041"]),
)
optname = st.sampled_from(["opt", "style", "minimumFractionDigits", "x-1"])
opts_ = st.dictionaries(optname, m_lit, max_size=2)
v_ref = var.map(VariableRef)


@st.composite
def m_expr(draw, selector=False):
    kind = draw(st.sampled_from(["var", "var", "lit", "num", "fn", "fn2", "NUMBER", "number", "datetime", "msg", "term"]))
    if selector and kind in ("msg", "term", "lit", "num"):
        kind = "termattr" if kind == "term" else "var"
    if kind == "var":
        if selector:
            return Expression(draw(v_ref), draw(st.sampled_from(["number", "string"])))
        return Expression(draw(v_ref))
    if kind == "lit":
        return Expression(draw(m_lit), draw(st.sampled_from([None, None, "string"])))
    if kind == "num":
        return Expression(draw(num_lit), "number")
    if kind in ("fn", "fn2"):
        name = draw(st.sampled_from(["FOO", "F-2", "STRING", "STRING", "MESSAGE"]))
        arg = draw(st.one_of(v_ref, m_lit)) if kind == "fn" else None
        return Expression(arg, name.lower(), draw(opts_), {"fluent-fn": name})
    if kind == "NUMBER":
        return Expression(draw(v_ref), "number", draw(opts_), {"fluent-fn": "NUMBER"})
    if kind == "number":
        return Expression(draw(v_ref), "number", {"opt": draw(m_lit)})
    if kind == "datetime":
        return Expression(draw(v_ref), "datetime", draw(opts_))
    if kind == "msg":
        return Expression(draw(ident) + draw(st.sampled_from(["", ".foo"])), "message")
    if kind == "term":
        return Expression("-" + draw(ident), "message", draw(opts_))
    return Expression("-" + draw(ident) + ".foo", "message", draw(opts_))


@st.composite
def m_pattern(draw, decl_names=()):
    el = st.one_of(m_text, m_text, m_text, m_expr())
    if decl_names:
        el = st.one_of(el, el, st.sampled_from(decl_names).map(lambda n: Expression(VariableRef(n))))
    return draw(st.lists(el, max_size=4))


def usable(decls):
    # attributes of terms may only be used as selectors
    return tuple(k for k, e in decls.items() if e.function != "message")


def separate(decls, pattern):
    # in Fluent, a function can not be applied on the value of another function
    for e in pattern:
        if isinstance(e, Expression) and e.function and isinstance(e.arg, VariableRef) and e.arg.name in decls:
            e.arg = VariableRef("w-" + e.arg.name)
    return pattern


@st.composite
def m_message(draw):
    """Messages, some of them with variables referred to by other names"""
    msg = draw(m_message_())
    if draw(st.integers(0, 2)):
        return msg
    seen = {}
    exprs = [e for p in ([msg.pattern] if isinstance(msg, PatternMessage) else msg.variants.values()) for e in p if isinstance(e, Expression)]
    for e in [*msg.declarations.values(), *exprs]:
        if isinstance(e.arg, VariableRef) and e.arg.name not in msg.declarations and draw(st.booleans()):
            name = e.arg.name
            for i in range(draw(st.integers(1, 2))):
                alias = f"alias-{i}-{name}"
                seen[alias] = Expression(VariableRef(name))
                name = alias
            e.arg = VariableRef(name)
    items = [*msg.declarations.items(), *seen.items()]
    msg.declarations = dict(draw(st.permutations(items)))
    return msg


@st.composite
def m_message_(draw):
    n = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3]))
    decls = {}
    if n == 0:
        if draw(st.integers(0, 4)) == 0:
            decls["loc"] = draw(m_expr(selector=True))
        return PatternMessage(separate(decls, draw(m_pattern(usable(decls)))), decls)
    sels = []
    seen = set()
    for i in range(n):
        e = draw(m_expr(selector=True))
        tok = repr(sel_token(model_token(PatternMessage([]), e)))
        if tok in seen or isinstance(e.arg, VariableRef) and e.arg.name in decls:
            e = Expression(VariableRef(f"v{i}"), "number")
        seen.add(tok)
        own = isinstance(e.arg, VariableRef) and draw(st.booleans())
        name = e.arg.name if own else f"local-{i}"
        decls[name] = e
        sels.append(VariableRef(name))
    # a declaration that shadows another expression's variable would change its meaning
    for k, e in decls.items():
        if isinstance(e.arg, VariableRef) and e.arg.name in decls and e.arg.name != k:
            e.arg = VariableRef("w-" + k)
    keysets = []
    for s in sels:
        ks = draw(st.lists(st.sampled_from(["one", "few", "0", "1", "2.5", "foo", "other", "other1", "x-y_1"]), max_size=2, unique=True))
        keysets.append(ks)
    variants = []

    def tree(prefix, level):
        if level == n:
            variants.append((prefix, separate(decls, draw(m_pattern(usable(decls))))))
            return
        for k in keysets[level]:
            if level == 0 or draw(st.integers(0, 3)):
                tree((*prefix, k), level + 1)
        tree((*prefix, CatchallKey(draw(st.sampled_from([None, "other", "many", "9"])))), level + 1)

    tree((), 0)
    if draw(st.integers(0, 2)) == 0:
        variants = draw(st.permutations(variants))
    return SelectMessage(decls, tuple(sels), dict(variants))


@st.composite
def resources(draw):
    sections = []
    for i in range(draw(st.integers(1, 2))):
        entries = []
        for _ in range(draw(st.integers(i, 3))):
            if draw(st.integers(0, 7)) == 0:
                entries.append(Comment(draw(cmt) or "c"))
                continue
            props = draw(st.dictionaries(ident, m_message(), max_size=2)) if draw(st.integers(0, 3)) == 0 else {}
            name = draw(st.sampled_from(["", "", "", "-"])) + draw(ident)
            entries.append(Entry((name,), draw(m_message()), props, comment=draw(st.one_of(st.just(""), cmt))))
        sections.append(Section((), entries, comment=draw(st.one_of(st.just(""), cmt))))
    if sections[0].entries == [] and not sections[0].comment:
        sections[0].comment = "c"
    meta = [Metadata("info", draw(cmt) or "c")] if draw(st.integers(0, 4)) == 0 else []
    res = Resource(Format.fluent, sections, draw(st.one_of(st.just(""), cmt)), meta)
    if not meta and not res.comment and not sections[0].comment and isinstance(sections[0].entries[0], Comment):
        res.comment = "c"  # a leading comment would be the resource info
    return res


def equal_meaning(a, b, what):
    """Two message models"""
    if isinstance(a, PatternMessage) and isinstance(b, PatternMessage):
        x, y = model_eval(a, {}), model_eval(b, {})
        if x != y:
            raise Violation(f"{what}: expected {x!r}, got {y!r}")
        return
    ka, kb = model_keys(a), model_keys(b)
    if set(ka) != set(kb):
        raise Violation(f"{what}: selectors {ka!r} became {kb!r}")
    keys = {t: ka[t] | kb[t] for t in ka}
    # a name of the default key may be used anywhere else: it has no meaning of its own
    for env in envs(keys):
        x, y = model_eval(a, env), model_eval(b, env)
        if x != y:
            raise Violation(f"{what}: with {env}: expected {x!r}, got {y!r}")


def variant_names(node):
    """The keys of each select expression in an AST"""
    if isinstance(node, list):
        for x in node:
            yield from variant_names(x)
    elif isinstance(node, ftl.BaseNode):
        if isinstance(node, ftl.SelectExpression):
            yield [v.key.name if isinstance(v.key, ftl.Identifier) else v.key.value for v in node.variants]
        for k, x in vars(node).items():
            if k != "span":
                yield from variant_names(x)


def defaults(node):
    """The names of default variants in an AST"""
    if isinstance(node, list):
        for x in node:
            yield from defaults(x)
    elif isinstance(node, ftl.BaseNode):
        if isinstance(node, ftl.Variant) and node.default:
            yield node.key.name if isinstance(node.key, ftl.Identifier) else node.key.value
        for x in vars(node).values():
            yield from defaults(x)


def check_defaults(res, tree, src):
    """An unnamed default is called `other`, or the first of `other1`, `other2`, ... that is free"""
    for entry, node in zip(res.all_entries(), messages(tree)):
        for msg, pat in [(entry.value, node.value)] + [
            (m, next(a.value for a in node.attributes if a.id.name == k)) for k, m in entry.properties.items()
        ]:
            if isinstance(msg, SelectMessage):
                keys = [k for ks in msg.variants for k in ks]
                names = {k.value if isinstance(k, CatchallKey) else k for k in keys}
                free = next(n for n in ("other", *(f"other{i}" for i in range(1, 99))) if n not in names)
                want = {k.value or free for k in keys if isinstance(k, CatchallKey)}
                if set(defaults(pat)) != want:
                    raise Violation(f"default names {set(defaults(pat))}, expected {want}\n{msg}\n{src!r}")


def check_model(res, ctx):
    before = copy.deepcopy(res)
    for trim in (False, True):
        src = "".join(fluent_serialize(res, trim_comments=trim))
        d = gen.diff(before, res)
        if d:
            raise Violation(f"serialize changed its input: {d}")
        tree = PARSER.parse(src)
        if any(isinstance(e, ftl.Junk) for e in tree.body):
            raise Violation(f"not valid Fluent: {src!r}")
        got = fluent_parse(src)
        if got.comment != ("" if trim else res.comment) or got.meta != ([] if trim else res.meta):
            raise Violation(f"resource comment or meta: {src!r}")
        want = [(s.comment, s.entries) for s in res.sections]
        if trim:
            want = [("", [e for e in res.all_entries()])]
        if [s.comment for s in got.sections] != [c for c, _ in want]:
            raise Violation(f"section comments: {src!r}")
        for s, (_, es) in zip(got.sections, want):
            if len(s.entries) != len(es):
                raise Violation(f"expected {len(es)} entries: {src!r}")
            for a, b in zip(es, s.entries):
                if isinstance(a, Comment):
                    if a != b:
                        raise Violation(f"expected {a!r}, got {b!r}: {src!r}")
                    continue
                if a.id != b.id or b.comment != ("" if trim else a.comment) or set(a.properties) != set(b.properties):
                    raise Violation(f"expected {a!r}, got {b!r}: {src!r}")
                try:
                    equal_meaning(a.value, b.value, a.id[0])
                    for k, m in a.properties.items():
                        equal_meaning(m, b.properties[k], f"{a.id[0]}.{k}")
                except Violation as err:
                    raise Violation(f"{err}\n{src!r}") from None
        names = [[a.id.name for a in e.attributes] for e in messages(tree)]
        for ns in names:
            order = sorted(ns, key=lambda n: n.lower().replace("accesskey", "\uffff"))
            if ns != order and sorted(map(str.lower, ns)) == sorted({n.lower() for n in ns}):
                raise Violation(f"attribute order {ns}")
        check_defaults(res, tree, src)
        fixpoint(src, got)
    if "{" in src:
        ctx.nontrivial(src)
    for e in res.all_entries():
        if isinstance(e.value, SelectMessage):
            ctx.label(f"{len(e.value.selectors)} selectors")


def check_message(msg, ctx):
    before = copy.deepcopy(msg)
    src = fluent_serialize_message(msg, escape_empty=True)
    d = gen.diff(before, msg)
    if d:
        raise Violation(f"serialize changed its input: {d}")
    equal_meaning(msg, fluent_parse_message(src), repr(src))
    if isinstance(msg, SelectMessage) or "{" in src:
        ctx.nontrivial(src)
    plain = isinstance(msg, PatternMessage) and "".join(p for p in msg.pattern if isinstance(p, str))
    if isinstance(msg, PatternMessage) and len(msg.pattern) == 1 and plain and re.fullmatch(r"[\w,!?;-]( ?[\w,!?;-])*", plain):
        if src != plain:
            raise Violation(f"plain text {plain!r} serialized as {src!r}")


piece = st.sampled_from(
    ["a", "b ", " ", "  ", "\n", "\n", "\n ", "\n  ", "\n\n", "{ $x }", '{ "" }', "{ -t }", ".a", ".b = c", "[a]", "*", "}", "{", "#", "=", "k = v"]
    + ["{ $n ->\n  [a] x\n *[b] y\n}", "{ $n ->\n [a] x\n}", "\r\n"]
)


@st.composite
def pattern_text(draw):
    return "".join(draw(st.lists(piece, min_size=1, max_size=7)))


def check_pattern(src, ctx):
    """A pattern is what can be the value of a message, with its following lines indented."""
    body = src.lstrip()
    if not body:
        return
    tree = PARSER.parse("k = " + body.replace("\n", "\n ") + "\n").body
    one = len(tree) == 1 and isinstance(tree[0], ftl.Message) and tree[0].value and not tree[0].attributes
    try:
        msg = fluent_parse_message(src)
    except ValueError:
        if one:
            raise Violation(f"pattern {src!r} is rejected")
        ctx.label("rejected")
        return
    if not one:
        raise Violation(f"{src!r} is not a pattern, but is read as {msg!r}")
    d = gen.diff(fluent_parse_entry(tree[0]).value, msg)
    if d:
        raise Violation(f"{src!r}: {d}")
    if "\n" in body or "{" in body:
        ctx.nontrivial(src)


# ------------------------------------------------------------------ metadata


def check_meta(case, ctx):
    res, where, metas = case
    res = copy.deepcopy(res)
    target = {"resource": res, "section": res.sections[0]}.get(where)
    if target is None:
        target = next(res.all_entries(), None)
        if target is None:
            return
    target.meta = list(target.meta) + [Metadata(k, v) for k, v in metas]
    info = target.meta[:1] if where == "resource" and target.meta and target.meta[0].key == "info" else []
    real = [m for m in target.meta if m not in info]
    if real:
        try:
            src = "".join(fluent_serialize(res))
        except ValueError:
            ctx.nontrivial((where, metas, res.comment))
        else:
            raise Violation(f"metadata was dropped: {real!r}\n{src!r}")
    plain = copy.deepcopy(res)
    ptarget = {"resource": plain, "section": plain.sections[0]}.get(where) or next(plain.all_entries())
    ptarget.meta = info
    a = "".join(fluent_serialize(res, serialize_metadata=lambda m: None))
    if a != "".join(fluent_serialize(plain)):
        raise Violation(f"discarded metadata changed the output: {a!r}")
    add = "\n".join(f"@{m.key}: {m.value}" for m in real)
    ptarget.comment = f"{ptarget.comment}\n{add}" if ptarget.comment and add else ptarget.comment or add
    b = "".join(fluent_serialize(res, serialize_metadata=lambda m: f"@{m.key}: {m.value}\n"))
    if b != "".join(fluent_serialize(plain)):
        raise Violation(f"metadata comments: {b!r}")
    c = "".join(fluent_serialize(res, trim_comments=True))
    if c != "".join(fluent_serialize(plain, trim_comments=True)):
        raise Violation(f"trimmed: {c!r}")


# ------------------------------------------------------------------ rejected content

x = VariableRef("x")
NUM = Expression(x, "number")
OK = PatternMessage(["x"])
bad = st.sampled_from(
    [Entry(i, OK) for i in [("a", "b"), (), ("1a",), ("a b",), ("",), ("-",), ("é",), ("aé",), ("--a",)]]
    + [Entry(("a",), OK, {k: OK}) for k in ["a b", "", "1", "é", "-a"]]
    + [
        Entry(("a",), m)
        for m in [
            PatternMessage([Markup("open", "b"), "x", Markup("close", "b")]),
            PatternMessage([Expression(x, "foo")]),
            PatternMessage([Expression("-a.b", "message")]),
            PatternMessage([Expression(x)], {"x": Expression("-a.b", "message")}),
            SelectMessage({"x": Expression("a", "message")}, (x,), {(CatchallKey(),): ["y"]}),
            SelectMessage({"x": Expression("-a", "message")}, (x,), {(CatchallKey(),): ["y"]}),
            SelectMessage({"x": Expression("a.b", "message")}, (x,), {(CatchallKey(),): ["y"]}),
            PatternMessage([Expression(None, "number")]),
            PatternMessage([Expression(None, "datetime")]),
            PatternMessage([Expression(x, "string", {"a": "b"})]),
            PatternMessage([Expression(x, "message")]),
            PatternMessage([Expression("a b", "message")]),
            PatternMessage([Expression("aé", "message")]),
            PatternMessage([Expression("a.b.c", "message")]),
            PatternMessage([Expression("a", "message", {"x": "y"})]),
            PatternMessage([Expression(x, "number", {"a": x})]),
            PatternMessage([Expression(x, "number", {"a b": "x"})]),
            PatternMessage([Expression(VariableRef("a b"))]),
            PatternMessage([Expression(VariableRef(""))]),
            PatternMessage([Expression(x, "foo", {}, {"fluent-fn": "foo"})]),
            PatternMessage([Expression(x, "foo", {}, {"fluent-fn": "F O"})]),
            SelectMessage({"x": NUM}, (x,), {("one",): ["x"]}),
            SelectMessage({"x": NUM}, (x,), {("a b",): ["x"], (CatchallKey(),): ["y"]}),
            SelectMessage({"x": NUM}, (x,), {("1e5",): ["x"], (CatchallKey(),): ["y"]}),
            SelectMessage({"x": NUM}, (x,), {("é",): ["x"], (CatchallKey("ok"),): ["y"]}),
            SelectMessage({"x": NUM}, (x,), {("one",): ["x"], (CatchallKey("n o"),): ["y"]}),
            SelectMessage(
                {"x": NUM, "y": Expression(VariableRef("y"), "string")},
                (x, VariableRef("y")),
                {("one", "a"): ["x"], (CatchallKey(), CatchallKey()): ["y"]},
            ),
        ]
    ]
    + [Section(("s",), [Entry(("a",), OK)])]
)


def check_reject(case, ctx):
    res, what = case
    res = copy.deepcopy(res)
    if isinstance(what, Section):
        res.sections.append(what)
    else:
        res.sections[-1].entries.append(what)
    try:
        src = "".join(fluent_serialize(res))
    except (ValueError, IndexError):
        ctx.nontrivial((what, res.comment))
        return
    raise Violation(f"not rejected: {what!r}\n{src!r}")


# ------------------------------------------------------------------ without escapes


@st.composite
def raw_entries(draw):
    """Ids, with the Fluent sources of their value and attributes"""
    res = {}
    for id in draw(st.lists(st.sampled_from(["a", "b", "-a", "-b"]), min_size=1, max_size=3, unique=True)):
        value = draw(pattern(indent=1)).strip(" \n")
        attrs = {k: draw(pattern(indent=1)).strip(" \n") for k in draw(st.lists(st.sampled_from(["x", "y", "accesskey"]), unique=True, max_size=2))}
        res[id] = (value, attrs)
    return res


def check_raw(case, ctx):
    """With escape_syntax disabled, the text of values and of attributes is Fluent syntax"""
    want, entries = {}, []
    for id, (value, attrs) in case.items():
        for src in (value, *attrs.values()):
            # fluent.syntax indents the lines of Python, so others need escapes
            if not src or src != src.strip() or src.splitlines() != src.split("\n"):
                return
            if src[0] in "*.[" and "\n " in src:
                return
            # The indent of later lines may be counted from that of the first one, or not
            block = "k =\n " + src.replace("\n", "\n ")
            try:
                if gen.diff(fluent_parse(block).sections[0].entries[0].value, fluent_parse_message(src)):
                    return
            except (ValueError, IndexError):
                return
        want[id,] = (fluent_parse_message(value), {k: fluent_parse_message(attrs[k]) for k in sorted(attrs)})
        entries.append(Entry((id,), PatternMessage([value]), properties={k: PatternMessage([v]) for k, v in attrs.items()}))
    if any("{" in v for _, attrs in case.values() for v in attrs.values()):
        ctx.nontrivial(repr(case))
    res = Resource(Format.fluent, [Section((), entries)])
    before = copy.deepcopy(res)
    out = "".join(fluent_serialize(res, escape_syntax=False))
    if gen.diff(before, res):
        raise Violation(f"{before} was changed")
    try:
        back = fluent_parse(out)
    except ValueError as e:
        raise Violation(f"{case}: serialized without escapes as {out!r}: {e}") from e
    got = {e.id: (e.value, {k: e.properties[k] for k in sorted(e.properties)}) for e in back.sections[0].entries}
    d = gen.diff(want, got) or gen.diff(sorted(want), sorted(got))
    if d:
        raise Violation(f"{case}: serialized without escapes as {out!r}: {d}")


SUBS = [
    Sub("source", sources, check_source, 4000),
    Sub("model", resources, check_model, 4000),
    Sub("message", m_message, check_message, 5000),
    Sub("pattern", pattern_text, check_pattern, 4000),
    Sub("raw", raw_entries, check_raw, 1500),
    Sub(
        "meta",
        lambda: st.tuples(
            resources(),
            st.sampled_from(["resource", "section", "entry"]),
            st.lists(st.tuples(st.sampled_from(["a", "b", "info"]), st.sampled_from(["x", "y z"])), max_size=2),
        ),
        check_meta,
        800,
    ),
    Sub("reject", lambda: st.tuples(resources(), bad), check_reject, 800),
]
