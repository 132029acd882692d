"""P25: migration helpers."""

from __future__ import annotations

from copy import deepcopy

from hypothesis import strategies as st

from checks.p16_model import messages
from checks.p24_migrate import REPL, Skip, expect, insert, lookup, make, pick, tup
from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats import Format
from moz.l10n.migrate.utils import MigrationContext, get_entry, get_pattern, insert_entry_after, plural_message
from moz.l10n.model import CatchallKey, Comment, Entry, Expression, Metadata, PatternMessage, Resource, Section, SelectMessage, VariableRef

PROPERTY = "P25"
RULE = (
    "functions: copy(), entry() and plural functions over resources of any sections and messages (selectors, markup, declarations, properties), called twice and compared to a reference interpreter, with the source"
    " resource compared to what it was, also after the result is edited; lookups: get_entry() and get_pattern() with variants and defaults; insert: insert_entry_after() over any arrangement of"
    " sections, comments and repeated ids; plural_message() with any set of categories; non-trivial = the helper finds or inserts something."
)
ASSUMPTIONS = ["replacement functions depend on nothing but the part they are given"]

KEYS = ["a", "b", "c", "d"]
keys = st.sampled_from(KEYS)
ids = gen.weighted((3, st.tuples(keys)), (3, st.tuples(keys, keys)), (1, st.tuples(keys, keys, keys)))
sec_id = gen.weighted((2, st.just(())), (3, st.tuples(keys)), (1, st.tuples(keys, keys)))
comment = st.sampled_from(["", "", "Note", "two\nlines"])
meta = st.lists(st.builds(Metadata, st.sampled_from(["m", "n"]), st.sampled_from(["1", "2"])), max_size=2)
props = st.dictionaries(st.sampled_from(["p", "q"]), messages(), max_size=2)


def resources(values=None, props=props):
    values = values if values is not None else messages()
    ents = st.builds(Entry, ids, values, props, comment, meta)
    items = st.lists(gen.weighted((5, ents), (1, st.builds(Comment, st.just("standalone")))), max_size=5)
    secs = st.builds(Section, sec_id, items, comment, meta)
    return st.builds(Resource, st.just(Format.fluent), st.lists(secs, max_size=4), comment, meta)


variant = st.sampled_from(["one", "two", "other", "*", "x", ("one",), ("one", "two"), ("*", "one"), (CatchallKey(),), ("one", CatchallKey("other")), (CatchallKey(), CatchallKey())])


def key_of(id):
    return st.sampled_from([id, id[0]]) if len(id) == 1 else st.just(id)


def known(res):
    full = [s.id + e.id for s in res.sections for e in s.entries if isinstance(e, Entry)]
    return gen.weighted((5, st.sampled_from(full)), (1, ids)) if full else ids


def funcs(res):
    idk = known(res)
    opts = gen.weighted(
        (1, st.just({})),
        (2, st.fixed_dictionaries({}, optional={"property": st.sampled_from(["p", "q"]), "replace": st.sampled_from(REPL), "variant": variant})),
        (1, st.fixed_dictionaries({"value_only": st.booleans()}, optional={"replace": st.sampled_from(REPL), "variant": variant})),
    )
    copies = st.tuples(st.just("copy"), st.none(), idk.flatmap(key_of), opts)
    vals = st.one_of(st.sampled_from(["text", ""]), messages(), st.builds(Entry, ids, messages(), props, comment, meta))
    value = st.tuples(st.just("value"), vals)
    at = st.tuples(st.just("at"), value, st.one_of(st.lists(ids, max_size=2), st.lists(keys, max_size=2)))
    base = gen.weighted((5, copies), (1, value), (1, at), (1, st.just(("none",))), (1, st.just(("stop",))))

    def builds(inner):
        arg = gen.weighted((4, inner), (2, st.tuples(st.just("const"), vals)))
        return st.tuples(
            st.just("build"),
            gen.weighted((4, arg), (1, st.none())),
            gen.weighted((1, st.none()), (2, st.dictionaries(st.sampled_from(["p", "q", "r"]), arg, max_size=3))),
            st.fixed_dictionaries({}, optional={"allow_partial": st.booleans(), "comment": st.sampled_from([None, "", "New comment"]), "meta": gen.weighted((1, st.none()), (3, meta))}),
        )

    build = builds(base)
    cats = st.fixed_dictionaries({"other": idk}, optional={c: idk for c in ("zero", "one", "two", "few", "many")})
    plural = st.tuples(st.just("plural"), st.sampled_from(["n", "quantity"]), cats)
    return gen.weighted((4, copies), (4, build), (1, builds(build)), (1, plural))


@st.composite
def fn_cases(draw):
    res = draw(resources())
    return {"res": res, "spec": draw(funcs(res)), "target": draw(ids)}


def scramble(x):
    """Edit everything that can be edited in a result."""
    if isinstance(x, tuple):
        x = x[0]
    if isinstance(x, Entry):
        x.meta.append(Metadata("edited", "x"))
        for m in [x.value, *x.properties.values()]:
            scramble(m)
        x.properties["edited"] = PatternMessage(["x"])
        x.comment = "edited"
    elif isinstance(x, (PatternMessage, SelectMessage)):
        x.declarations["edited"] = Expression("x")
        for p in [x.pattern] if isinstance(x, PatternMessage) else x.variants.values():
            for part in p:
                if not isinstance(part, str):
                    part.options["edited"] = "x"
            p.append("edited")


def check_fn(c, ctx):
    res, spec, target = c["res"], c["spec"], c["target"]
    orig = deepcopy(res)
    mc = MigrationContext(None, "a.ftl", "fr", {})
    mc.target_id = target
    fn = make(spec)
    try:
        exp = expect(spec, orig, None, target)
    except Skip:
        exp = Skip
    info = f"{c}\nexpected {exp}"
    for n in range(2):
        try:
            got = fn(res, mc)
        except StopIteration:
            got = Skip
        except Exception as err:
            raise Violation(f"{type(err).__name__}: {err}\n{info}") from err
        if exp is None or exp is Skip:
            if got is not exp:
                raise Violation(f"got {got}\n{info}")
        elif spec[0] == "value":
            pass
        else:
            if not isinstance(got, tuple) or len(got) != 2:
                raise Violation(f"got {got}\n{info}")
            if spec[0] == "copy" and isinstance(exp[0], Entry) and isinstance(got[0], Entry):
                got[0].linepos = exp[0].linepos
            d = gen.diff(exp[0], got[0])
            if d:
                raise Violation(f"call {n + 1}: {d}\ngot {got}\n{info}")
            if {tup(i) for i in got[1]} != exp[1]:
                raise Violation(f"call {n + 1}: to be inserted after {got[1]}\n{info}")
            ctx.label(spec[0])
            ctx.nontrivial()
        d = gen.diff(orig, res)
        if d:
            raise Violation(f"source changed: {d}\n{info}")
    if exp is not None and exp is not Skip and spec[0] == "copy":
        scramble(got)
        d = gen.diff(orig, res)
        if d:
            raise Violation(f"source changes with the result: {d}\n{info}")
        again = fn(res, mc)
        d = gen.diff(exp[0], again[0])
        if d:
            raise Violation(f"later result changes with an earlier one: {d}\n{info}")


@st.composite
def get_cases(draw):
    res = draw(resources())
    return {
        "res": res,
        "id": draw(known(res)),
        "property": draw(st.sampled_from([None, None, "p", "q"])),
        "variant": draw(st.one_of(st.none(), variant)),
        "default": draw(st.sampled_from([None, None, [], ["default"]])),
    }


def check_get(c, ctx):
    res, id, default = c["res"], c["id"], c["default"]
    orig = deepcopy(res)
    exp = lookup(res, id)
    got = get_entry(res, *id)
    if got is not exp:
        raise Violation(f"get_entry: {got}, expected {exp}\n{c}")
    pat = None
    if exp is not None:
        msg = exp.value if c["property"] is None else exp.properties.get(c["property"])
        if msg is not None:
            pat = pick(msg, c["variant"])
            ctx.nontrivial()
    if pat is None:
        pat = default
    kw = {k: c[k] for k in ("property", "variant", "default") if c[k] is not None}
    try:
        got = get_pattern(res, *id, **kw)
    except StopIteration:
        got = None
    if got is not pat:
        raise Violation(f"get_pattern: {got}, expected {pat}\n{c}")
    d = gen.diff(orig, res)
    if d:
        raise Violation(f"source changed: {d}\n{c}")
    # string resources
    sres = Resource(res.format, [Section(s.id, [Entry(e.id, str(i)) if isinstance(e, Entry) else e for i, e in enumerate(s.entries)]) for s in res.sections])
    exp = lookup(sres, id)
    if get_entry(sres, *id) is not exp:
        raise Violation(f"get_entry: {get_entry(sres, *id)}, expected {exp}\n{c}")


@st.composite
def insert_cases(draw):
    res = draw(resources(st.sampled_from(["x", "y"]), st.just({})))
    return {"res": res, "id": draw(gen.weighted((2, known(res)), (2, ids))), "after": draw(st.lists(gen.weighted((3, known(res)), (1, keys)), max_size=3))}


def check_insert(c, ctx):
    res, id = deepcopy(c["res"]), c["id"]
    model = deepcopy(c["res"])
    new = Entry(id, "new", {"p": "q"}, "comment", [Metadata("m", "1")])
    done = insert(model, Entry(id, "new", {"p": "q"}, "comment", [Metadata("m", "1")]), id, {tup(i) for i in c["after"]})
    try:
        insert_entry_after(res, new, *c["after"])
        got = True
    except StopIteration:
        got = False
    if got != done:
        raise Violation(f"inserted: {got}, expected {done}: {model}\n{c}")
    d = gen.diff(model, res)
    if d:
        raise Violation(f"{d}\nexpected {model}\ngot {res}\n{c}")
    if done:
        if not any(e is new for s in res.sections for e in s.entries):
            raise Violation(f"the entry itself is not inserted\n{c}")
        ctx.nontrivial()


CATS = ["zero", "one", "two", "few", "many", "other"]
pattern = st.lists(st.one_of(st.sampled_from(["a", ""]), st.builds(Expression, st.just(VariableRef("x")))), max_size=2)
plural_cases = st.fixed_dictionaries({"var": st.sampled_from(["n", "quantity", "x"]), "pats": st.fixed_dictionaries({"other": pattern}, optional={k: st.one_of(st.none(), pattern) for k in CATS[:-1]})})


def check_plural(c, ctx):
    msg = plural_message(c["var"], **c["pats"])
    v = VariableRef(c["var"])
    exp = SelectMessage(
        {c["var"]: Expression(v, "number")},
        (v,),
        {(CatchallKey("other") if k == "other" else k,): c["pats"][k] for k in CATS if c["pats"].get(k) is not None},
    )
    d = gen.diff(exp, msg)
    if d:
        raise Violation(f"{d}\ngot {msg}\n{c}")
    if len(exp.variants) > 1:
        ctx.nontrivial()


SUBS = [
    Sub("functions", fn_cases, check_fn, 2200),
    Sub("lookups", get_cases, check_get, 1200),
    Sub("insert", insert_cases, check_insert, 3000),
    Sub("plural", plural_cases, check_plural, 500),
]
