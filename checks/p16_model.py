"""P16: model utilities."""

from __future__ import annotations

import copy

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.model import (
    CatchallKey,
    Comment,
    Entry,
    Expression,
    LinePos,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)
from moz.l10n.formats import Format

PROPERTY = "P16"
RULE = (
    "normalize: messages with empty and adjacent text, markup, and declarations that depend on each other in any way (also in cycles) or are not used;"
    " the reference joins text and follows references; non-trivial = something to drop or join. meta: histories of up to 12 get, has, set, del and direct edits"
    " of the metadata of a resource, section and entry made with or without initial metadata, against a list of pairs; non-trivial = a set or del that finds a repeated key."
    " queries: resources of any content: all_entries, is_empty, selector_expressions, variable_refs, variant lookup, equality without positions and catch-all names,"
    " and the evaluation of repr(); non-trivial = more than one section or a selector."
)
ASSUMPTIONS = ["repr() is that of valid model values, and does not show catch-all names any other way"]

names = st.sampled_from(["a", "b", "c", "d", "e"])
var = names.map(VariableRef)
text = st.sampled_from(["", "", "x", "y z", "\n", " ", "é", "{", "''", '"\\'])
opts = st.dictionaries(st.sampled_from(["o", "p"]), st.one_of(text, var), max_size=2)
attrs = st.dictionaries(st.sampled_from(["s", "t"]), st.one_of(text, st.just(True)), max_size=2)
expr = st.builds(Expression, st.one_of(var, var, text, st.none()), st.sampled_from([None, "f", "ns:g"]), opts, attrs).filter(lambda e: e.arg is not None or e.function)
markup = st.builds(Markup, st.sampled_from(["open", "standalone", "close"]), names, opts, attrs)
pattern = st.lists(gen.weighted((4, text), (2, expr), (1, markup)), max_size=6)
decls = st.dictionaries(names, expr, max_size=5)
key = st.one_of(st.sampled_from(["one", "two", "*", "other"]), st.builds(CatchallKey, st.sampled_from([None, "other", "x"])))


@st.composite
def messages(draw):
    d = draw(decls)
    if draw(st.booleans()) or not d:
        return PatternMessage(draw(pattern), d)
    sels = draw(st.lists(st.sampled_from(list(d)), min_size=1, max_size=3))
    variants = draw(st.dictionaries(st.tuples(*[key] * len(sels)), pattern, min_size=1, max_size=4))
    return SelectMessage(d, tuple(map(VariableRef, sels)), variants)


def pats(msg):
    return [msg.pattern] if isinstance(msg, PatternMessage) else list(msg.variants.values())


def refs(part):
    vs = [part.arg] if isinstance(part, Expression) else []
    return [v.name for v in [*vs, *part.options.values()] if isinstance(v, VariableRef)]


def joined(pattern):
    res = []
    for p in pattern:
        if p == "":
            continue
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        else:
            res.append(p)
    return res


def check_normalize(msg, ctx):
    orig = copy.deepcopy(msg)
    parts = [[p for p in pat if not isinstance(p, str)] for pat in pats(msg)]
    used = {n for pat in pats(msg) for p in pat if not isinstance(p, str) for n in refs(p)}
    if isinstance(msg, SelectMessage):
        used |= {s.name for s in msg.selectors}
    todo = list(used)
    while todo:
        n = todo.pop()
        if n in msg.declarations:
            for r in refs(msg.declarations[n]):
                if r not in used:
                    used.add(r)
                    todo.append(r)
    want = copy.deepcopy(orig)
    want.declarations = {n: e for n, e in want.declarations.items() if n in used}
    if isinstance(want, PatternMessage):
        want.pattern = joined(want.pattern)
    else:
        want.variants = {k: joined(v) for k, v in want.variants.items()}
    if gen.diff(want, orig):
        ctx.nontrivial(repr(orig))
    got = msg.normalize()
    if got is not msg:
        raise Violation(f"normalize() gives another message: {orig}")
    d = gen.diff(want, got)
    if d:
        raise Violation(f"{d}\n{orig}")
    for a, pat in zip(parts, pats(got)):
        if [id(p) for p in a] != [id(p) for p in pat if not isinstance(p, str)]:
            raise Violation(f"placeholders were replaced: {orig}")
    d = gen.diff(want, got.normalize())
    if d:
        raise Violation(f"normalizing again: {d}\n{orig}")
    ctx.label(type(msg).__name__)


# ------------------------------------------------------------------ metadata

mkey = st.sampled_from(["a", "b", "A", "a ", ""])
mval = st.sampled_from(["x", "y", "", "x y"])
op = st.one_of(
    st.tuples(st.just("get"), mkey),
    st.tuples(st.just("has"), mkey, st.one_of(st.none(), mval)),
    st.tuples(st.just("set"), mkey, mval),
    st.tuples(st.just("set"), mkey, mval),
    st.tuples(st.just("del"), mkey),
    st.tuples(st.just("append"), mkey, mval),
    st.tuples(st.just("insert"), mkey, mval),
)
pairs = st.one_of(st.none(), st.lists(st.tuples(mkey, mval), max_size=4))


def check_meta(case, ctx):
    kind, first, ops = case
    make = {
        "entry": lambda **kw: Entry(("k",), PatternMessage(["x"]), **kw),
        "section": lambda **kw: Section((), [], **kw),
        "resource": lambda **kw: Resource(None, [], **kw),
    }[kind]
    other = make()
    obj = make() if first is None else make(meta=[Metadata(k, v) for k, v in first])
    model = list(first or [])
    for name, k, *rest in ops:
        hits = [i for i, (a, _) in enumerate(model) if a == k]
        if name == "get":
            got, want = obj.get_meta(k), model[hits[0]][1] if hits else None
        elif name == "has":
            want = any(rest[0] is None or model[i][1] == rest[0] for i in hits)
            got = obj.has_meta(k) if rest[0] is None and len(model) % 2 else obj.has_meta(k, rest[0])
        elif name == "set":
            got, want = obj.set_meta(k, rest[0]), None
            if hits:
                model[hits[0]] = (k, rest[0])
            else:
                model.append((k, rest[0]))
        elif name == "del":
            got, want = obj.del_meta(k), len(hits)
            model = [m for m in model if m[0] != k]
        elif name == "append":
            got = want = None
            obj.meta.append(Metadata(k, rest[0]))
            model.append((k, rest[0]))
        else:
            got = want = None
            obj.meta.insert(0, Metadata(k, rest[0]))
            model.insert(0, (k, rest[0]))
        if len(hits) > 1 and name in ("set", "del"):
            ctx.nontrivial(case)
        if got != want or type(got) is not type(want):
            raise Violation(f"{name} {k!r} {rest}: expected {want!r}, got {got!r}, in {case}")
        if [(m.key, m.value) for m in obj.meta] != model:
            raise Violation(f"after {name} {k!r} {rest}: expected {model}, got {obj.meta}, in {case}")
    if other.meta or make().meta:
        raise Violation("metadata is shared between objects")


# ------------------------------------------------------------------ queries

cmt = st.sampled_from(["", "", "c", "a\n b"])
metas = st.lists(st.builds(Metadata, mkey, mval), max_size=2)
pos = st.one_of(st.none(), st.builds(LinePos, *[st.integers(1, 9)] * 4))
entry = st.builds(
    Entry,
    st.lists(names, min_size=1, max_size=2).map(tuple),
    messages(),
    properties=st.dictionaries(names, messages(), max_size=1),
    comment=cmt,
    meta=metas,
    linepos=pos,
)
section = st.builds(
    Section,
    st.lists(names, max_size=2).map(tuple),
    st.lists(gen.weighted((3, entry), (1, st.builds(Comment, cmt, pos))), max_size=3),
    comment=cmt,
    meta=metas,
    linepos=pos,
)
resource = st.builds(Resource, st.sampled_from([None, *Format]), st.lists(section, max_size=3), comment=cmt, meta=metas)
SCOPE = {c.__name__: c for c in (CatchallKey, Comment, Entry, Expression, Format, LinePos, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef)}


def check_queries(res, ctx):
    entries = [e for s in res.sections for e in s.entries if isinstance(e, Entry)]
    if [id(e) for e in res.all_entries()] != [id(e) for e in entries]:
        raise Violation(f"all_entries() of {res}")
    if len(res.sections) > 1:
        ctx.nontrivial(repr(res))
    back = eval(repr(res), dict(SCOPE))
    d = gen.diff(res, back)
    if d or back != res:
        raise Violation(f"repr: {d}\n{res!r}")
    for a, b in zip(res.sections, back.sections):
        for x, y in [(a, b), *zip(a.entries, b.entries)]:
            if x.linepos != y.linepos:
                raise Violation(f"repr: line position {x.linepos} / {y.linepos}\n{res!r}")
            y.linepos = None
    if back != res:
        raise Violation(f"positions count in comparison: {res!r}")
    for e in entries:
        for msg in (e.value, *e.properties.values()):
            ps = pats(msg)
            empty = all(all(isinstance(p, str) and not p for p in pat) for pat in ps)
            if msg.is_empty() is not empty:
                raise Violation(f"is_empty() of {msg}")
            for pat in [*ps, list(msg.declarations.values())]:
                for p in pat:
                    if not isinstance(p, str) and [v.name for v in p.variable_refs()] != refs(p):
                        raise Violation(f"variable_refs() of {p}: {list(p.variable_refs())}")
            if isinstance(msg, SelectMessage):
                ctx.nontrivial(repr(msg))
                want = [msg.declarations[s.name] for s in msg.selectors]
                if [id(x) for x in msg.selector_expressions()] != [id(x) for x in want]:
                    raise Violation(f"selector_expressions() of {msg}")
                for keys, pat in msg.variants.items():
                    other = tuple(k if isinstance(k, str) else CatchallKey("zz") for k in keys)
                    if msg.variants.get(other) is not pat:
                        raise Violation(f"variant {keys} of {msg}")
                    for i, k in enumerate(keys):
                        if isinstance(k, CatchallKey) and k.value and (*keys[:i], k.value, *keys[i + 1 :]) in msg.variants:
                            if msg.variants[(*keys[:i], k.value, *keys[i + 1 :])] is pat:
                                raise Violation(f"a catch-all key is the same as its name in {msg}")


SUBS = [
    Sub("normalize", messages(), check_normalize, 8000),
    Sub("meta", st.tuples(st.sampled_from(["entry", "section", "resource"]), pairs, st.lists(op, max_size=12)), check_meta, 6000),
    Sub("queries", resource, check_queries, 1500),
]
