"""P24: applying migrations."""

from __future__ import annotations

import logging
import os
from copy import deepcopy
from os.path import isfile, join, normpath, realpath
from shutil import rmtree
from tempfile import mkdtemp

from click.testing import CliRunner
from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.migrate import Migrate, all_migrations, copy, entry
from moz.l10n.migrate.utils import get_pattern, plural_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Markup, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef
from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths
from moz.l10n.resource import parse_resource, serialize_resource

PROPERTY = "P24"
RULE = (
    "apply: migrations of up to 3 files and 4 functions each (constants, copies of entries, properties and variants with replacements, entries built from several sources, plurals,"
    " with and without insertion ids) over a tree of reference and locale files in 8 formats, where files of a locale may be missing, empty or malformed and sections may be missing;"
    " run dry, then applied, then applied again, with paths that are discovered, configured or given on the command line; every file and every result is compared to those of a"
    " reference interpreter. order: the same, for entries built from several others of a file that has them in any order; uses: invalid uses of the command line and API, over a small tree; copies: the same, for copies with replacements that may change placeholders in place; no directories are created without need; non-trivial = at least one entry added next to existing ones, and one left out."
)
ASSUMPTIONS = [
    "entry and comment texts are simple words (what a serializer makes of other contents is that of the format properties)",
    "if a serializer rejects a resource, the file is left as it was, and other files may or may not be migrated",
]

# ------------------------------------------------------------- functions as data
# A spec is data from which both the actual function and the expected result are made.

E_ = Expression
words = st.sampled_from(["Foo", "Bar baz", "x", "Hej", "longer text here"])
REPL = [None, "upper", "drop", "mutate", "swap"]


def replacer(kind):
    if kind == "upper":
        return lambda ph: ph.upper() if isinstance(ph, str) else None
    if kind == "drop":
        return lambda ph: None if isinstance(ph, str) else ""
    if kind == "swap":
        return lambda ph: E_(VariableRef("y")) if isinstance(ph, (Expression, Markup)) else None
    if kind == "mutate":

        def mutate(ph):
            if isinstance(ph, Expression):
                ph.arg = VariableRef("changed")
            elif isinstance(ph, Markup):
                ph.name = "changed"

        return mutate
    return None


def replaced(msg, kind):
    """A copy of a Message or Pattern, with its parts replaced."""

    def part(ph):
        ph = deepcopy(ph)
        if isinstance(ph, str):
            return ph.upper() if kind == "upper" else ph
        if kind == "drop":
            return ""
        if kind == "swap":
            return E_(VariableRef("y"))
        if kind == "mutate":
            if isinstance(ph, Expression):
                ph.arg = VariableRef("changed")
            else:
                ph.name = "changed"
        return ph

    if isinstance(msg, list):
        return [part(ph) for ph in msg]
    msg = deepcopy(msg)
    if isinstance(msg, PatternMessage):
        msg.pattern = [part(ph) for ph in msg.pattern]
    else:
        msg.variants = {k: [part(ph) for ph in v] for k, v in msg.variants.items()}
    return msg


def lookup(res, id):
    """The first entry with the full identifier `id`."""
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, Entry) and s.id + e.id == id:
                return e
    return None


def tup(id):
    return id if isinstance(id, tuple) else (id,)


def pick(msg, variant):
    """The pattern of a message for a variant, or its fallback."""
    if isinstance(msg, PatternMessage):
        return msg.pattern
    if variant is not None:
        for k, v in msg.variants.items():
            if k == tup(variant):
                return v
    for k, v in msg.variants.items():
        if all(isinstance(x, CatchallKey) for x in k):
            return v
    return None


def make(spec):
    """The actual migration function."""
    kind = spec[0]
    if kind == "value":
        return lambda res, ctx: deepcopy(spec[1])
    if kind == "none":
        return lambda res, ctx: None
    if kind == "stop":
        return lambda res, ctx: get_pattern(res, "no such entry")
    if kind == "at":
        inner = make(spec[1])
        return lambda res, ctx: (inner(res, ctx), set(spec[2]))
    if kind == "copy":
        _, ref, id, opts = spec
        opts = dict(opts)
        if "replace" in opts:
            opts["replace"] = replacer(opts["replace"])
        return copy(ref, id, **opts)
    if kind == "build":
        _, value, props, opts = spec
        return entry(make_arg(value), {k: make_arg(v) for k, v in props.items()} if props is not None else None, **opts)
    if kind == "plural":
        _, var, ids = spec

        def plural(res, ctx):
            other = get_pattern(res, *tup(ids["other"]))
            msg = plural_message(var, **{k: get_pattern(res, *tup(id), default=other) for k, id in ids.items()})
            return msg, {tup(id) for id in ids.values()}

        return plural
    raise AssertionError(kind)


def make_arg(spec):
    if spec is not None and spec[0] == "const":
        return deepcopy(spec[1])
    return spec and make(spec)


class Skip(Exception):
    """StopIteration, for the reference."""


def expect(spec, res, get, target):
    """None, or the expected result and the ids it is inserted after (None for the default ones)."""
    kind = spec[0]
    if kind in ("value", "const"):
        return deepcopy(spec[1]), None
    if kind == "none":
        return None
    if kind == "stop":
        raise Skip
    if kind == "at":
        return expect(spec[1], res, get, target)[0], {tup(i) for i in spec[2]}
    if kind == "copy":
        _, ref, id, opts = spec
        id = tup(id)
        src = get(ref) if ref else res
        e = lookup(src, id) if src is not None else None
        if e is None:
            return None
        prop, variant, repl = opts.get("property"), opts.get("variant"), opts.get("replace")
        if prop and prop not in e.properties:
            return None
        msg = e.properties[prop] if prop else e.value
        if variant is not None:
            pat = pick(msg, variant)
            return None if pat is None else (PatternMessage(replaced(pat, repl)), {id})
        if prop or opts.get("value_only"):
            return replaced(msg, repl), {id}
        return Entry(e.id, replaced(e.value, repl), {k: replaced(v, repl) for k, v in e.properties.items()}, e.comment, deepcopy(e.meta), e.linepos), {id}
    if kind == "build":
        _, value, props, opts = spec
        partial = opts.get("allow_partial", False)
        after = set()
        comment, meta = opts.get("comment"), deepcopy(opts.get("meta"))
        val = None
        if value is not None:
            r = expect(value, res, get, target)
            if r is None:
                if not partial:
                    return None
            else:
                val = r[0]
                if value[0] != "const":
                    after |= r[1] or set()
                if isinstance(val, Entry):
                    comment = val.comment if comment is None else comment
                    meta = val.meta if meta is None else meta
        out = {}
        for name, p in (props or {}).items():
            r = expect(p, res, get, target)
            if r is None:
                if not partial:
                    return None
                continue
            if p[0] != "const":
                after |= r[1] or set()
            out[name] = as_message(r[0])
        if val is None and not out:
            return None
        return Entry(target, PatternMessage([]) if val is None else as_message(val), out, comment or "", meta or []), after
    if kind == "plural":
        _, var, ids = spec
        pats = {}

        def get_pat(cat):
            e = lookup(res, tup(ids[cat]))
            return None if e is None else pick(e.value, None)

        other = get_pat("other")
        if other is None:
            raise Skip
        for cat in ("zero", "one", "two", "few", "many", "other"):
            if cat in ids:
                pat = get_pat(cat)
                pats[(CatchallKey("other") if cat == "other" else cat,)] = deepcopy(other if pat is None else pat)
        return SelectMessage({var: E_(VariableRef(var), "number")}, (VariableRef(var),), pats), {tup(i) for i in ids.values()}
    raise AssertionError(kind)


def as_message(x):
    return PatternMessage([x]) if isinstance(x, str) else x.value if isinstance(x, Entry) else x


def insert(res, new, target, after):
    """Put `new` in its place; False if there is none."""
    place = None
    last = None
    for s in res.sections:
        n = len(s.id)
        if target[:n] != s.id or len(target) == n:
            continue
        last = (s, len(s.entries))
        for i, e in enumerate(s.entries):
            if isinstance(e, Entry) and s.id + e.id in after:
                place = (s, i + 1)
    place = place or last
    if place is None:
        return False
    s, i = place
    new.id = target[len(s.id) :]
    s.entries.insert(i, new)
    return True


def add_all(res, specs, get):
    """Add the entries of a map to `res`, giving those that were added."""
    added = []
    prev = set()
    for key, spec in specs.items():
        target = tup(key)
        if lookup(res, target) is None:
            try:
                r = expect(spec, res, get, target)
            except Skip:
                r = None
            if r is not None:
                val, after = r
                if isinstance(val, Entry):
                    new = Entry(target, val.value, val.properties, val.comment, val.meta, val.linepos)
                    after = {val.id} if after is None else after
                else:
                    new = Entry(target, as_message(val))
                    after = {target} if after is None else after
                if insert(res, new, target, after | prev):
                    added.append(new)
        prev.add(target)
    return added


# ------------------------------------------------------------- file trees

V = VariableRef
SELECT = SelectMessage({"n": E_(V("n"), "number")}, (V("n"),), {("one",): ["One ", E_(V("n"))], (CatchallKey("other"),): ["Other"]})
QUANT = SelectMessage({"quantity": E_(V("quantity"), "number")}, (V("quantity"),), {("one",): ["One"], (CatchallKey("other"),): ["Other"]})
GETTEXT = SelectMessage({"n": E_(V("n"), "number")}, (V("n"),), {("0",): ["One"], (CatchallKey("1"),): ["Other"]})

text_msg = words.map(lambda w: PatternMessage([w]))
ftl_msg = gen.weighted((3, text_msg), (2, words.map(lambda w: PatternMessage([w + " ", E_(V("x")), " end"]))), (1, st.just(SELECT)))

NAMES = ["k1", "k2", "k3", "k4", "k5"]
FILES = {
    "a.ftl": Format.fluent,
    "sub/b.ftl": Format.fluent,
    "c.properties": Format.properties,
    "d.ini": Format.ini,
    "deep/er/e.json": Format.webext,
    "f.json": Format.plain_json,
    "g.xml": Format.android,
    "h.po": Format.gettext,
    "i.xlf": Format.xliff,
}
NAMED = (Format.fluent, Format.properties, Format.gettext)  # known by their name
BROKEN = {Format.ini: "x\n[", Format.webext: '{"k1": ', Format.plain_json: "{]", Format.android: "<resources><string", Format.xliff: "<xliff>", Format.gettext: 'msgid "x\n"', Format.fluent: "== =", Format.properties: "x\\u12"}


def full_ids(fmt):
    if fmt == Format.ini:
        return [(s, k) for s in "AB" for k in NAMES]
    if fmt == Format.xliff:
        return [(s, k) for s in ("f1", "f2") for k in NAMES]
    if fmt == Format.plain_json:
        return [(k,) for k in NAMES[:3]] + [("g", k) for k in NAMES[:3]]
    if fmt == Format.gettext:
        return [(k,) for k in NAMES[:3]] + [(k, "ctx") for k in NAMES[:3]]
    return [(k,) for k in NAMES]


comment = gen.weighted((3, st.just("")), (1, st.just("A comment")))


def resource(fmt):
    ids = full_ids(fmt)
    value = {
        Format.fluent: ftl_msg,
        Format.android: gen.weighted((3, text_msg), (1, st.just(QUANT))),
        Format.gettext: gen.weighted((3, text_msg), (1, st.just(GETTEXT))),
    }.get(fmt, text_msg)
    props = st.dictionaries(st.sampled_from(["p", "q"]), ftl_msg, max_size=2) if fmt == Format.fluent else st.just({})
    cmt = st.just("") if fmt in (Format.plain_json,) else comment

    def ent(id):
        meta = st.just([])
        if fmt == Format.xliff:
            meta = words.map(lambda w: [Metadata("source", "Src")])
        return st.builds(Entry, st.just(id), value, props, cmt, meta)

    def many(ids, **kw):
        return st.lists(st.sampled_from(ids), unique=True, max_size=4, **kw).flatmap(lambda x: st.tuples(*map(ent, x))).map(list)

    if fmt in (Format.ini, Format.xliff):
        names = sorted({i[0] for i in ids})
        secs = st.lists(st.sampled_from(names), unique=True, max_size=2).flatmap(
            lambda x: st.tuples(*[st.builds(Section, st.just((s,)), many([(i[1],) for i in ids if i[0] == s]), cmt if fmt == Format.ini else st.just("")) for s in x])
        ).map(list)
    elif fmt == Format.fluent:
        secs = many(ids).flatmap(
            lambda es: st.integers(0, len(es)).flatmap(
                lambda k: st.booleans().map(lambda two: [Section((), es[:k]), Section((), es[k:], "Group")] if two else [Section((), es)])
            )
        )
    else:
        secs = many(ids).map(lambda es: [Section((), es)])
    head = [Metadata("@version", "1.2"), Metadata("@xmlns", "urn:oasis:names:tc:xliff:document:1.2")] if fmt == Format.xliff else []
    res = st.builds(Resource, st.just(fmt), secs, st.just(""), st.builds(list, st.just(head)))
    if fmt in (Format.fluent, Format.properties, Format.ini):
        # a standalone comment somewhere
        def with_comment(r, at):
            r = deepcopy(r)
            es = r.sections[at % len(r.sections)].entries if r.sections else None
            if es is not None and at < 4:
                es.insert(at % (len(es) + 1), Comment("Standalone"))
            return r

        res = st.builds(with_comment, res, st.integers(0, 8))
    return res


def state(fmt):
    """Contents of a file: a Resource, source text, or None for no file."""
    return gen.weighted((6, resource(fmt)), (2, st.none()), (1, st.just("")), (1, st.just(BROKEN[fmt])))


# ------------------------------------------------------------- migrations


def key_of(id):
    """Plain strings may be used for single-part ids."""
    return st.sampled_from([id, id[0]]) if len(id) == 1 else st.just(id)


def ids_of(name):
    return st.sampled_from(full_ids(FILES[name]))


def funcs(name, names):
    fmt = FILES[name]
    msgs = gen.weighted((2, words), (2, text_msg), (1, ftl_msg))
    consts = st.one_of(msgs, st.builds(Entry, ids_of(name), msgs.map(as_message), comment=comment))
    metas = st.sampled_from([[], [Metadata("m", "1")]])

    def copies(ref):
        opts = st.fixed_dictionaries(
            {},
            optional={
                "property": st.sampled_from(["p", "q"]),
                "replace": st.sampled_from(REPL),
                "variant": st.sampled_from(["one", ("one",), "other", "few", ("one", "two")]),
            },
        )
        opts = st.one_of(opts, st.fixed_dictionaries({"value_only": st.booleans()}, optional={"replace": st.sampled_from(REPL), "variant": st.just("one")}))
        opts = st.one_of(st.just({}), opts)
        src = ref or name
        return ids_of(src).flatmap(lambda id: st.tuples(st.just("copy"), st.just(ref), key_of(id), opts))

    copying = gen.weighted((2, copies(None)), *[(2 if n != name else 1, copies(n)) for n in names if n != name] or [(1, copies(None))])
    const_fn = st.tuples(st.just("value"), consts)
    after = st.one_of(st.lists(ids_of(name), max_size=2), st.lists(st.sampled_from(NAMES), max_size=2))
    base = gen.weighted(
        (5, copying),
        (2, const_fn),
        (1, st.tuples(st.just("at"), const_fn, after)),
        (1, st.just(("none",))),
        (1, st.just(("stop",))),
    )
    arg = gen.weighted((4, base), (2, st.tuples(st.just("const"), consts)))
    build = st.tuples(
        st.just("build"),
        gen.weighted((4, arg), (1, st.none())),
        gen.weighted((3, st.none()), (4 if fmt == Format.fluent else 1, st.dictionaries(st.sampled_from(["p", "q", "r"]), arg, max_size=2))),
        st.fixed_dictionaries({}, optional={"allow_partial": st.booleans(), "comment": st.sampled_from([None, "", "New comment"]), **({"meta": metas} if fmt == Format.xliff else {})}),
    )
    cats = st.fixed_dictionaries({"other": ids_of(name)}, optional={c: ids_of(name) for c in ("zero", "one", "two", "few", "many")})
    plural = st.tuples(st.just("plural"), st.sampled_from(["n", "quantity"]), cats)
    return gen.weighted((6, base), (3, build), (1, plural))


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(list(FILES)), min_size=1, max_size=3, unique=True))
    locales = draw(st.lists(st.sampled_from(["fr", "de-AT", "zh-Hant"]), max_size=3, min_size=1, unique=True))
    ref = {n: draw(gen.weighted((6, resource(FILES[n])), (1, st.just(BROKEN[FILES[n]])))) for n in names}
    tree = {(n, lc): draw(state(FILES[n])) for n in names for lc in locales}
    map = {}
    for n in names if draw(st.booleans()) else names[:1]:
        ids = draw(st.lists(ids_of(n), max_size=4, unique=True))
        if FILES[n] in (Format.ini, Format.xliff) and draw(st.integers(0, 9)) == 0:
            ids = [*ids, ids and ids[0][:1] or ("A",), ("k1",)]
        map[n] = {draw(key_of(id)): draw(funcs(n, names)) for id in ids}
    return {
        "ref": ref,
        "tree": tree,
        "map": map,
        "locales": locales,
        "how": draw(st.sampled_from(["dir", "discover", "ref_root", "config", "config-path", "cli-root", "cli-config", "cli-ref"])),
        "opts": draw(st.sampled_from([{}, {}, {"properties_printf_placeholders": True}, {"gettext_plurals": ["one", "other"]}])),
        "sep": draw(st.sampled_from("-_")),
    }


CURRENT = None


def to_text(r):
    return r if isinstance(r, str) else "".join(serialize_resource(r))


def try_parse(path, opts):
    if not isfile(path):
        return None
    try:
        return parse_resource(path, **opts)
    except Exception:
        return None


def read_tree(root):
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            with open(join(d, f), "rb") as fp:
                out[join(d, f)] = fp.read()
    return out


def read_dirs(root):
    return {d for d, _, _ in os.walk(root)}


def parents(path):
    while path != os.path.dirname(path):
        path = os.path.dirname(path)
        yield path


def check_apply(c, ctx):
    root = os.path.realpath(ctx.fresh_dir())
    how, opts, sep = c["how"], c["opts"], c["sep"]
    config = "config" in how
    ref_root = join(root, "orig", "en-US") if how in ("ref_root", "cli-ref") else join(root, "l10n", "en-US")
    base = join(root, "l10n")

    def put(path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data.encode())

    def tgt(name, lc):
        return join(base, lc if config else lc.replace("-", sep), name)

    for name, r in c["ref"].items():
        put(join(ref_root, name + "t" if name == "h.po" and sep == "-" else name), to_text(r))
    for (name, lc), r in c["tree"].items():
        os.makedirs(join(base, lc if config else lc.replace("-", sep)), exist_ok=True)
        if r is not None:
            put(tgt(name, lc), to_text(r))
    toml = join(root, "l10n.toml")
    if config:
        put(toml, f'basepath = "l10n/en-US"\nlocales = {c["locales"]!r}\n[[paths]]\n  reference = "**"\n  l10n = "../{{locale}}/**"\n')
    script = join(root, "script.py")
    put(script, "from checks import p24_migrate as m\nm.Migrate(m.actual_map(m.CURRENT), **m.CURRENT['opts'])\n")

    before = read_tree(root)
    info = f"{c}\n{ {k[len(root) :]: v for k, v in before.items()} }"

    # the expected result
    disk = {}
    empty = {}
    for name in c["ref"]:
        fmt = FILES[name]
        if fmt in NAMED:
            empty[name] = Resource(fmt, [Section((), [])])
        else:
            r = try_parse(join(ref_root, name), {})
            if r is None:
                empty[name] = None
            elif r.format in (Format.ini, Format.xliff):
                for s in r.sections:
                    s.entries = []
                empty[name] = r
            else:
                empty[name] = Resource(r.format, [Section((), [])])
        for lc in c["locales"]:
            disk[name, lc] = try_parse(tgt(name, lc), opts)

    def run(dry):
        """Expected changes by path; new file contents."""
        out, files, rejected = {}, {}, False
        now = dict(disk)
        for name, specs in c["map"].items():
            for lc in c["locales"]:
                path = tgt(name, lc)
                res = deepcopy(now[name, lc])
                if res is None:
                    if isfile(path) or empty[name] is None:
                        ctx.label("unparsed")
                        continue
                    res = deepcopy(empty[name])
                    ctx.label("new file")
                added = add_all(res, specs, lambda n: now[n, lc])
                if len(added) < len(specs):
                    ctx.label("left out")
                if added:
                    out[path] = added
                    try:
                        files[path] = "".join(serialize_resource(res)).encode()
                    except Exception as err:
                        ctx.label("not serializable")
                        rejected = True
                        continue
                    if not dry:
                        # read back, for later copies
                        with open(join(root, "tmp" + os.path.splitext(path)[1]), "wb") as f:
                            f.write(files[path])
                        now[name, lc] = try_parse(f.name, opts)
                        os.remove(f.name)
        return out, files, rejected

    def apply(dry):
        global CURRENT
        CURRENT = c
        logging.disable(logging.CRITICAL)
        try:
            if how.startswith("cli"):
                args = ["-n"] if dry else []
                # Paths are relative to the current directory
                relative = len(repr(c)) % 2
                cwd = os.getcwd()
                arg = os.path.relpath if relative else str
                os.chdir(root)
                args += ["--config", arg(toml)] if config else ["--root", arg(base)]
                if how == "cli-ref":
                    args += ["--ref", arg(ref_root)]
                from moz.l10n.bin.migrate import cli

                try:
                    r = CliRunner().invoke(cli, ["-q", *args, arg(script)], catch_exceptions=False)
                finally:
                    os.chdir(cwd)
                if r.exit_code:
                    raise RuntimeError(f"exit code {r.exit_code}: {r.output}")
                return None
            paths = {"dir": lambda: base, "discover": lambda: L10nDiscoverPaths(base), "ref_root": lambda: L10nDiscoverPaths(base, ref_root=ref_root), "config": lambda: L10nConfigPaths(toml), "config-path": lambda: toml}[how]()
            m = Migrate(actual_map(c), paths, **opts)
            return m.apply(dry_run=True) if dry else m.apply()
        finally:
            logging.disable(logging.NOTSET)
            all_migrations.clear()

    for step in ("dry run", "apply", "apply again"):
        dry = step == "dry run"
        now = read_tree(root)
        dirs = read_dirs(root)
        out, files, rejected = run(dry)
        try:
            res = apply(dry)
        except Exception as err:
            if not rejected or dry:
                raise Violation(f"{step}: {type(err).__name__}: {err}\n{info}") from err
            after = read_tree(root)
            bad = [p for p, b in after.items() if b != now.get(p) and b != files.get(p)] + [p for p in now if p not in after]
            if bad:
                raise Violation(f"failed {step} leaves other contents in {bad}: {[after.get(p) for p in bad]}\n{info}") from err
            return
        if rejected and not dry:
            raise Violation(f"{step}: no error, but the result can not be serialized\n{info}")
        after = read_tree(root)
        expected = now if dry else {**now, **files}
        for p in sorted({*after, *expected}):
            if after.get(p) != expected.get(p):
                raise Violation(f"{step}: {p}\nexpected {expected.get(p)!r}\ngot      {after.get(p)!r}\n{info}")
        made = set() if dry else {d for p in files for d in parents(p)}
        extra = read_dirs(root) - dirs - made
        if extra:
            raise Violation(f"{step}: created directories {sorted(extra)}\n{info}")
        if res is not None:
            got = {normpath(p): es for p, es in res.items()}
            if set(got) != set(out):
                raise Violation(f"{step}: changed files {list(got)}, expected {list(out)}\n{info}")
            for p, es in got.items():
                d = gen.diff(out[p], es)
                if d:
                    raise Violation(f"{step}: result for {p}: {d}\n{info}")
        if step == "apply":
            for (name, lc), r in disk.items():
                disk[name, lc] = try_parse(tgt(name, lc), opts)
            if out:
                ctx.label("entries added", how)
            if any(len(o) for o in out.values()) and any(p in now for p in out):
                ctx.nontrivial()


def actual_map(c):
    return {name: {k: make(s) for k, s in specs.items()} for name, specs in c["map"].items()}


@st.composite
def order_cases(draw):
    """New entries that are built from several entries of a file that has all of them."""
    name = draw(st.sampled_from(["a.ftl", "a.ftl", "c.properties", "d.ini"]))
    fmt = FILES[name]
    ids = [i for i in full_ids(fmt) if fmt != Format.ini or i[0] == "A"]
    order = draw(st.permutations(ids))
    entries = [Entry(i[-1:], PatternMessage([i[-1]])) for i in order]
    if fmt == Format.fluent and draw(st.booleans()):
        k = draw(st.integers(0, len(entries)))
        sections = [Section((), entries[:k], "One"), Section((), entries[k:], "Two")]
    else:
        sections = [Section(("A",) if fmt == Format.ini else (), entries)]
    some = st.sampled_from(ids)
    src = gen.weighted(
        (4, some.flatmap(lambda i: st.tuples(st.just("copy"), st.just(None), key_of(i), st.just({})))),
        (1, st.tuples(st.just("at"), st.tuples(st.just("value"), words), st.lists(some, max_size=2))),
        (1, st.tuples(st.just("const"), words)),
    )
    fluent = fmt == Format.fluent
    build = st.tuples(
        st.just("build"),
        gen.weighted((3, src), (1 if fluent else 0, st.none())),
        st.dictionaries(st.sampled_from(["p", "q", "r"]), src, min_size=1, max_size=3) if fluent else st.none(),
        st.just({}),
    )
    cats = st.fixed_dictionaries({"other": some}, optional={c: some for c in ("zero", "one", "two", "few", "many")})
    fn = gen.weighted((4, build), (1, st.tuples(st.just("plural"), st.just("n"), cats) if fluent else src.filter(lambda x: x[0] == "copy")))
    pre = ("A",) if fmt == Format.ini else ()
    keys = draw(st.lists(st.sampled_from(["n1", "n2", "n3"]), min_size=1, max_size=2, unique=True))
    res = Resource(fmt, sections)
    return {
        "ref": {name: res},
        "tree": {(name, "fr"): res},
        "map": {name: {(*pre, k): draw(fn) for k in keys}},
        "locales": ["fr"],
        "how": "dir",
        "opts": {},
        "sep": "-",
    }


@st.composite
def copy_cases(draw):
    """Copies of entries, values, properties and variants with placeholders, that are changed while they are copied"""
    parts = st.lists(
        gen.weighted((2, words.map(lambda w: w + " ")), (3, st.sampled_from(["x", "y", "z"]).map(lambda n: E_(V(n)))), (1, st.just(E_(V("x"), "number", {"a": "1"}, {"fluent-fn": "NUMBER"})))),
        min_size=1,
        max_size=3,
    ).map(lambda p: ["A ", *p, "."])

    def joined(p):
        res = []
        for x in p:
            if res and isinstance(res[-1], str) and isinstance(x, str):
                res[-1] += x
            else:
                res.append(x)
        return res

    parts = parts.map(joined)
    select = st.builds(lambda a, b: SelectMessage({"n": E_(V("n"), "number")}, (V("n"),), {("one",): a, (CatchallKey("other"),): b}), parts, parts)
    msg = gen.weighted((2, st.builds(PatternMessage, parts)), (2, select))
    entries = [
        Entry((k,), draw(msg), draw(st.dictionaries(st.sampled_from(["p", "q"]), msg, max_size=2)), draw(comment)) for k in draw(st.permutations(NAMES[:3]))
    ]
    res = Resource(Format.fluent, [Section((), entries)])
    opts = st.fixed_dictionaries(
        {"replace": st.sampled_from(REPL)},
        optional={"property": st.sampled_from(["p", "q"]), "variant": st.sampled_from(["one", ("one",), "other", "few"])},
    )
    value_opts = st.fixed_dictionaries({"replace": st.sampled_from(REPL), "value_only": st.booleans()})
    ref = st.sampled_from([None, "a.ftl", "sub/b.ftl"])
    cp = st.tuples(st.just("copy"), ref, st.sampled_from(NAMES[:3]), st.one_of(opts, value_opts))
    build = st.tuples(st.just("build"), gen.weighted((3, cp), (1, st.none())), st.dictionaries(st.sampled_from(["p", "q", "r"]), cp, max_size=2), st.just({"allow_partial": True}))
    keys = draw(st.lists(st.sampled_from(["n1", "n2", "n3", "n4"]), min_size=2, max_size=4, unique=True))
    map = {k: draw(gen.weighted((3, cp), (1, build))) for k in keys}
    return {
        "ref": {"a.ftl": res, "sub/b.ftl": res},
        "tree": {("a.ftl", "fr"): res, ("sub/b.ftl", "fr"): res},
        # with a second file that is copied from the first
        "map": {"a.ftl": map, **({"sub/b.ftl": {k: draw(cp) for k in keys[:2]}} if draw(st.booleans()) else {})},
        "locales": ["fr"],
        "how": "dir",
        "opts": {},
        "sep": "-",
    }


# ------------------------------------------------------------------ invalid uses

GOOD = "from moz.l10n.migrate import *\nfrom moz.l10n.model import PatternMessage\nMigrate({'a.ftl': {'x': lambda r, c: PatternMessage(['X'])}})\n"
SCRIPTS = {
    "good": GOOD,
    "raises": GOOD + "raise KeyError('x')\n",
    "syntax": GOOD + "def\n",
    "empty": "x = 1\n",
    "bad copy": GOOD + "copy('a.ftl', 'x', value_only=True, property='y')\n",
    "bad path": GOOD.replace("a.ftl", "../other/a.ftl"),
}
ftl_texts = st.lists(st.tuples(st.sampled_from("abc"), words), max_size=3, unique_by=lambda t: t[0]).map(lambda es: "".join(f"{k} = {v}\n" for k, v in es))
uses = st.sampled_from(
    [("cli", s, how) for s in SCRIPTS for how in ("root", "config", "both", "none", "noref", "second")]
    + [("cli", None, how) for how in ("root", "config")]
    + [("api", None, how) for how in ("unset", "missing", "outside", "copy")]
)


def check_uses(case, ctx):
    """Invalid uses are reported as errors, without changes to any file"""
    (kind, script, how), texts = case
    ctx.label(f"{kind} {script} {how}")
    root = realpath(mkdtemp(prefix="p24-"))
    logging.disable(logging.CRITICAL)
    try:
        os.makedirs(join(root, "l10n", "en"))
        os.makedirs(join(root, "l10n", "de"))
        os.makedirs(join(root, "bare", "de"))
        for n, t in zip(("en", "de"), texts):
            with open(join(root, "l10n", n, "a.ftl"), "w") as f:
                f.write(t)
        cfg = join(root, "l10n.toml")
        with open(cfg, "w") as f:
            f.write('basepath = "l10n/en"\nlocales = ["de"]\n[[paths]]\nreference = "*.ftl"\nl10n = "../{locale}/*.ftl"\n')
        scripts = []
        if script:
            for name in {"second": ["good", script]}.get(how, [script]):
                scripts.append(join(root, f"m{len(scripts)}.py"))
                with open(scripts[-1], "w") as f:
                    f.write(SCRIPTS[name])
        else:
            scripts.append(join(root, "missing.py"))
        before = read_tree(root)
        if kind == "cli":
            from moz.l10n.bin.migrate import cli

            where = {
                "root": ["--root", join(root, "l10n")],
                "second": ["--root", join(root, "l10n")],
                "config": ["--config", cfg],
                "both": ["--root", join(root, "l10n"), "--config", cfg],
                "none": [],
                "noref": ["--root", join(root, "bare")],
            }[how]
            r = CliRunner().invoke(cli, ["-q", *where, *scripts])
            failed = r.exit_code != 0
            if r.exit_code not in (0, 2):
                raise Violation(f"{case}: exit code {r.exit_code}: {r.output} {r.exception!r}")
        else:
            mig = {"a.ftl": {"x": lambda r, c: PatternMessage(["X"])}}
            try:
                if how == "unset":
                    Migrate(mig).apply()
                elif how == "missing":
                    Migrate(mig, join(root, "missing")).apply()
                elif how == "outside":
                    Migrate({"../other/a.ftl": mig["a.ftl"]}, join(root, "l10n")).apply()
                else:
                    copy("a.ftl", "x", value_only=True, property="y")
                failed = False
            except ValueError:
                failed = True
        ok = kind == "cli" and (script == "good" and how in ("root", "config") or script in ("good", "empty") and how == "second")
        if failed == ok:
            raise Violation(f"{case}: {'rejected' if failed else 'accepted'}")
        after = {k: v for k, v in read_tree(root).items() if "__pycache__" not in k}
        # all scripts are loaded before any is applied
        if not ok and (script, how) != ("bad path", "second") and after != before:
            raise Violation(f"{case}: files changed: {after}")
        if ok and after == before:
            raise Violation(f"{case}: nothing is changed")
        ctx.nontrivial(repr(case))
    finally:
        all_migrations.clear()
        logging.disable(logging.NOTSET)
        rmtree(root)


SUBS = [Sub("uses", st.tuples(uses, st.tuples(ftl_texts, ftl_texts)), check_uses, 700), Sub("copies", copy_cases, check_apply, 1500), Sub("apply", cases, check_apply, 2000), Sub("order", order_cases, check_apply, 1200)]
