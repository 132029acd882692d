"""P18: add_entries."""

from __future__ import annotations

import copy

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.model import Comment, Entry, Metadata, PatternMessage, Resource, Section
from moz.l10n.resource import add_entries

PROPERTY = "P18"
RULE = (
    "merge: target and source resources whose sections and entries have identifiers, comments, metadata and values from small sets, so that they overlap; sections may share"
    " an identifier (as Fluent groups do) but identifiers of entries are distinct per section identifier; with and without use_source_entries; the oracle is an independent"
    " model of where entries go, and invariants; non-trivial = something is added and something was there already."
)
ASSUMPTIONS = [
    "entry identifiers are distinct within all sections of one identifier",
    "with use_source_entries, repeating the merge changes nothing if no target section holds entries of two source sections with different comments or metadata, or had different metadata and only gained entries",
]

sid = st.sampled_from([(), (), ("s",), ("t",)])
cmt = st.sampled_from(["", "", "g", "h"])
metas = st.sampled_from([[], [], [("k", "x")], [("k", "y")]])
ids = st.sampled_from([("a",), ("b",), ("c",), ("d",), ("e",), ("a", "b"), ("f",)])
ent = st.tuples(ids, st.sampled_from("xy"), st.sampled_from(["", "", "c"]))
comm = st.sampled_from(["", "standalone"])
sect = st.tuples(sid, cmt, metas, st.lists(gen.weighted((5, ent), (1, comm)), max_size=5))
sects = st.lists(sect, max_size=4)


def build(data, tag):
    seen = set()
    sections = []
    for s_id, c, m, es in data:
        entries = []
        for e in es:
            if isinstance(e, str):
                entries.append(Comment(e))
            elif (s_id, e[0]) not in seen:
                seen.add((s_id, e[0]))
                entries.append(Entry(e[0], PatternMessage([e[1]]), comment=e[2], meta=[Metadata("m", "1")] if e[1] == "y" else []))
        sections.append(Section(s_id, entries, comment=c, meta=[Metadata(*x) for x in m]))
    return Resource(Format.fluent, sections, comment=tag, meta=[Metadata("res", tag)])


def model(target, source, override):
    """The expected sections as [id, comment, meta, [objects]], and the number of changes."""
    out = [[s.id, s.comment, [(m.key, m.value) for m in s.meta], list(s.entries)] for s in target.sections]
    count = 0
    last = None  # the section that the latest source entry is in, or none yet
    for src in source.sections:
        sm = [(m.key, m.value) for m in src.meta]
        same = [s for s in out if s[0] == src.id]
        prev = None  # the latest source entry and its place
        fresh = None
        for e in src.entries:
            if isinstance(e, Comment):
                continue
            home = next((s for s in same if any(isinstance(x, Entry) and x.id == e.id for x in s[3])), None)
            if home:
                i = next(i for i, x in enumerate(home[3]) if isinstance(x, Entry) and x.id == e.id)
                if override:
                    if home[3][i] != e:
                        home[3][i] = e
                        count += 1
                    if home[1] != src.comment or home[2] != sm:
                        home[1], home[2] = src.comment, sm
                        count += 1
                last = home
                prev = (home, home[3][i])
                continue
            count += 1
            place = next((s for s in same if s[1] == src.comment), None)
            if prev and prev[0][1] == src.comment:
                at = next(i for i, x in enumerate(prev[0][3]) if x is prev[1])
                prev[0][3].insert(at + 1, e)
                prev = (prev[0], e)
            elif place:
                place[3].append(e)
                prev = (place, e)
            else:
                fresh = fresh or [src.id, src.comment, sm, []]
                fresh[3].append(e)
                prev = None
        if fresh:
            at = next((i for i, s in enumerate(out) if s is last), -1)
            out.insert(at + 1, fresh)
            last = fresh
    return out, count


def check_merge(case, ctx):
    td, sd, override = case
    target, source = build(td, "t"), build(sd, "s")
    info = f"{case}"
    before = copy.deepcopy(target)
    src_repr = repr(source)
    want, count = model(target, source, override)
    kw = {"use_source_entries": True} if override else {} if len(td) % 2 else {"use_source_entries": False}
    old_sections = list(target.sections)
    old_entries = {(s.id, e.id): e for s in target.sections for e in s.entries if isinstance(e, Entry)}
    src_entries = {(s.id, e.id): e for s in source.sections for e in s.entries if isinstance(e, Entry)}
    got = add_entries(target, source, **kw)
    if src_repr != repr(source):
        raise Violation(f"the source was changed: {source}\n{info}")
    if target.comment != "t" or target.meta != before.meta or target.format != Format.fluent:
        raise Violation(f"the resource comment or metadata was changed: {target}\n{info}")
    # nothing is lost, nothing is there twice, and nothing comes from nowhere
    new_entries = [(s.id, e.id) for s in target.sections for e in s.entries if isinstance(e, Entry)]
    if sorted(new_entries) != sorted({*old_entries, *src_entries}):
        raise Violation(f"expected entries {sorted({*old_entries, *src_entries})}, got {new_entries}\n{info}")
    if [id(s) for s in target.sections if any(s is o for o in old_sections)] != [id(s) for s in old_sections]:
        raise Violation(f"target sections were dropped or reordered\n{info}")
    for s, b in zip(old_sections, before.sections):
        kept = [e.id if isinstance(e, Entry) else e for e in s.entries if isinstance(e, Comment) or (s.id, e.id) in old_entries]
        if kept != [e.id if isinstance(e, Entry) else e for e in b.entries]:
            raise Violation(f"target entries or comments were dropped or reordered: {s}\n{info}")
        if not override and (s.comment != b.comment or s.meta != b.meta or [e for e in s.entries if isinstance(e, Comment) or (s.id, e.id) in old_entries] != b.entries):
            raise Violation(f"target entries were changed: {s}\n{info}")
    # the model
    res = [[s.id, s.comment, [(m.key, m.value) for m in s.meta], s.entries] for s in target.sections]
    if [(a, b, c, list(map(repr, d))) for a, b, c, d in res] != [(a, b, c, list(map(repr, d))) for a, b, c, d in want]:
        raise Violation(f"expected {want}\ngot      {res}\n{info}")
    if got != count:
        raise Violation(f"expected {count} changes, got {got}\n{info}")
    if count and old_entries:
        ctx.nontrivial(case)
    # again
    if override:
        homes = {}
        for s in source.sections:
            for e in s.entries:
                if isinstance(e, Entry):
                    i = next(i for i, t in enumerate(target.sections) if t.id == s.id and any(isinstance(x, Entry) and x.id == e.id for x in t.entries))
                    homes.setdefault(i, []).append((s.comment, s.meta))
        # a section to which entries are only added keeps its own metadata for now
        if any(x != (target.sections[i].comment, target.sections[i].meta) for i, xs in homes.items() for x in xs):
            return
    after = repr(target)
    again = add_entries(target, source, **kw)
    if again != 0 or repr(target) != after:
        raise Violation(f"merging again makes {again} changes: {after}\n-> {target}\n{info}")
    ctx.label("override" if override else "add")


SUBS = [Sub("merge", st.tuples(sects, sects, st.booleans()), check_merge, 24000)]
