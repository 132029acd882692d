"""P19: equality of resources up to order and formatting."""

from __future__ import annotations

import copy
import random
from collections import Counter

from hypothesis import strategies as st

from checks.p16_model import messages
from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.model import (
    CatchallKey,
    Comment,
    Entry,
    Expression,
    LinePos,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)
from moz.l10n.resource import l10n_equal

PROPERTY = "P19"
RULE = (
    "pairs: a resource (sections and entries with ids from a small set, so that they repeat) and a copy of it with sections, entries and metadata shuffled, anonymous sections"
    " split, sections without entries, standalone comments, line positions and comment padding changed, and in 3 of 4 cases also one or two edits of content at any depth;"
    " the oracle compares multisets; non-trivial = more than one section or entry, and the pair differs from being identical."
)
ASSUMPTIONS = ["metadata is compared as sets of key-value pairs", "line positions and catch-all names do not count, as elsewhere in the library"]

sid = st.sampled_from([(), (), ("s",), ("t",), ("s", "t")])
eid = st.sampled_from([("a",), ("b",), ("c",), ("a", "b"), ("d",)])
cmt = st.sampled_from(["", "", "", "c", "d e"])
metas = st.lists(st.builds(Metadata, st.sampled_from(["k", "l"]), st.sampled_from(["x", "y", ""])), max_size=2).map(
    lambda ms: [m for i, m in enumerate(ms) if m not in ms[:i]]
)
simple = st.sampled_from(["x", "y", ""]).map(lambda s: PatternMessage([s]))
value = st.one_of(simple, simple, messages(), st.sampled_from(["x", "y"]))
entry = st.builds(
    Entry, eid, value, properties=st.one_of(st.just({}), st.dictionaries(st.sampled_from(["p", "q"]), value, max_size=2)), comment=cmt, meta=metas
)
section = st.builds(
    Section, sid, st.lists(gen.weighted((4, entry), (1, st.builds(Comment, cmt))), max_size=4), comment=cmt, meta=st.one_of(st.just([]), metas)
)
resource = st.builds(
    Resource, st.sampled_from([None, Format.fluent, Format.gettext]), st.lists(section, max_size=4), comment=cmt, meta=metas
)


def freeze(x):
    if isinstance(x, dict):
        return frozenset((freeze(k), freeze(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(map(freeze, x))
    if isinstance(x, CatchallKey):
        return CatchallKey
    if isinstance(x, PatternMessage):
        return ("P", freeze(x.declarations), freeze(x.pattern))
    if isinstance(x, SelectMessage):
        return ("S", freeze(x.declarations), freeze(x.selectors), freeze(x.variants))
    if isinstance(x, Expression):
        return ("E", freeze(x.arg), x.function, freeze(x.options), freeze(x.attributes))
    if isinstance(x, VariableRef):
        return ("V", x.name)
    if isinstance(x, Markup):
        return ("M", x.kind, x.name, freeze(x.options), freeze(x.attributes))
    return x


def meta(x):
    return frozenset((m.key, m.value) for m in x.meta)


def canon(res):
    out = Counter()
    anon = Counter()
    for s in res.sections:
        es = Counter((e.id, e.comment.strip(), meta(e), freeze(e.value), freeze(e.properties)) for e in s.entries if isinstance(e, Entry))
        if es:
            if not s.id and not s.comment.strip() and not s.meta:
                anon += es
            else:
                out[(s.id, s.comment.strip(), meta(s), frozenset(es.items()))] += 1
    return (res.format, res.comment.strip(), meta(res), out, anon)


def reorder(res, rnd):
    sections = []
    for s in res.sections:
        if not s.id and not s.comment and not s.meta and rnd.random() < 0.5:
            i = rnd.randint(0, len(s.entries))
            sections += [Section((), s.entries[:i]), Section((), s.entries[i:])]
        else:
            sections.append(s)
        if rnd.random() < 0.2:
            sections.append(Section(("zz",), [Comment("new")], comment="empty", meta=[Metadata("u", "v")]))
    rnd.shuffle(sections)
    res.sections = sections
    for x in [res, *sections, *(e for s in sections for e in s.entries)]:
        if not isinstance(x, Comment):
            rnd.shuffle(x.meta)
        if rnd.random() < 0.3:
            x.comment = "\n " + x.comment + " \n"
        if not isinstance(x, Resource) and rnd.random() < 0.3:
            x.linepos = LinePos(rnd.randint(1, 9), 1, 2, 3)
    for s in sections:
        if rnd.random() < 0.3:
            s.entries = [e for e in s.entries if isinstance(e, Entry)]
        if rnd.random() < 0.3:
            s.entries = [*s.entries, Comment("added")]
        rnd.shuffle(s.entries)
        for e in s.entries:
            if isinstance(e, Entry):
                for d in (e.properties, getattr(e.value, "variants", {}), getattr(e.value, "declarations", {})):
                    items = list(d.items())
                    rnd.shuffle(items)
                    d.clear()
                    d.update(items)


def edit(res, rnd):
    """One change of content (or none, if there is nothing to change)."""
    sections = res.sections
    entries = [(s, e) for s in sections for e in s.entries if isinstance(e, Entry)]
    kind = rnd.randrange(13)
    x = rnd.choice([res, *sections, *(e for _, e in entries)])
    if kind == 0:
        x.comment = x.comment + "!" if rnd.random() < 0.5 else ""
    elif kind == 1:
        if x.meta and rnd.random() < 0.5:
            x.meta.pop()
        else:
            x.meta.append(Metadata("k", rnd.choice("xz")))
    elif kind == 2:
        if x.meta:
            x.meta[-1] = Metadata(x.meta[-1].key + "x", x.meta[-1].value)
    elif kind == 3:
        res.format = rnd.choice([None, Format.fluent, Format.inc])
    elif kind == 4 and sections:
        s = rnd.choice(sections)
        s.id = rnd.choice([(), ("s",), (*s.id, "u"), s.id[:-1], s.id[::-1]])
    elif entries:
        s, e = rnd.choice(entries)
        if kind == 5:
            e.id = rnd.choice([(*e.id, "z"), ("a",), e.id[::-1], (".".join(e.id),)])
        elif kind == 6:
            s.entries = [y for y in s.entries if y is not e]
        elif kind == 7:
            s.entries.append(copy.deepcopy(e))
        elif kind == 8:
            e.properties["q"] = PatternMessage([rnd.choice("xy")])
        elif kind == 9 and e.properties:
            e.properties.popitem()
        elif kind == 10:
            s2, e2 = rnd.choice(entries)
            e.value, e2.value = e2.value, e.value
        elif kind == 11:
            s2 = rnd.choice(sections)
            s.entries = [y for y in s.entries if y is not e]
            s2.entries.append(e)
        elif isinstance(e.value, str):
            e.value += "z"
        elif isinstance(e.value, PatternMessage):
            p = e.value.pattern
            if p and isinstance(p[0], str):
                p[0] = p[0] + rnd.choice(["z", " "])
            elif p:
                p.pop()
            else:
                p.append("")
        else:
            v = e.value.variants
            k = rnd.choice(list(v))
            if rnd.random() < 0.5:
                v[k] = [*v[k], "z"]
            else:
                pat = v.pop(k)
                v[tuple("n" if isinstance(y, CatchallKey) else CatchallKey() for y in k)] = pat


def check_pairs(case, ctx):
    a, seed, edits, shuffled = case
    a = copy.deepcopy(a)
    b = copy.deepcopy(a)
    rnd = random.Random(seed)
    for _ in range(edits):
        edit(b, rnd)
    if shuffled:
        reorder(b, rnd)
    ra, rb = repr(a), repr(b)
    want = canon(a) == canon(b)
    if ra != rb and sum(len(s.entries) for s in a.sections) > 1:
        ctx.nontrivial(case)
    for x, y, what in ((a, b, "a, b"), (b, a, "b, a")):
        got = l10n_equal(x, y)
        if got is not want:
            raise Violation(f"l10n_equal({what}) is {got}, expected {want}:\n{a}\n{b}")
    for x in (a, b):
        if l10n_equal(x, x) is not True:
            raise Violation(f"not equal to itself: {x}")
    if repr(a) != ra or repr(b) != rb:
        raise Violation(f"arguments were changed:\n{ra}\n{rb}")
    ctx.label("equal" if want else "different", f"{edits} edits")


SUBS = [
    Sub("pairs", st.tuples(resource, st.integers(0, 1 << 32), st.sampled_from([0, 1, 1, 2]), st.sampled_from([True, True, False])), check_pairs, 14000),
]
