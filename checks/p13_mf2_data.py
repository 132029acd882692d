"""P13: MessageFormat 2 validation and data-model JSON."""

from __future__ import annotations

import copy
import json
import os

from hypothesis import strategies as st

from checks.p12_mf2_syntax import annotated, identifier, m_attrs, m_literal, m_message, m_pattern, simple_name
from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.formats.mf2 import (
    MF2ValidationError,
    mf2_from_json,
    mf2_parse_message,
    mf2_serialize_message,
    mf2_to_json,
    mf2_validate_message,
)
from moz.l10n.model import (
    CatchallKey,
    Expression,
    Markup,
    PatternMessage,
    SelectMessage,
    VariableRef,
)

PROPERTY = "P13"
RULE = (
    "graph: messages with up to 6 declarations that refer to each other in any way, also in cycles, with selectors on any of"
    " them and variants that may lack keys or the fallback; a reference validator decides; non-trivial = a declaration that refers to another."
    " corrupt: valid messages with one part replaced by an invalid name or value of another type; non-trivial = every case."
    " json: valid messages as data-model JSON, compared to an independent representation and to the schema, and read back; non-trivial = a placeholder, declaration or variant."
    " json_mutate: such JSON with 1-2 parts deleted, replaced, duplicated or renamed; an independent schema validator decides; non-trivial = differs from its origin."
)
ASSUMPTIONS = [
    "the order of declarations after validation is only required to have dependencies first",
    "the readability of data-model JSON with unknown extra members is as in the schema, which allows them",
]

MISC = [None, True, False, 0, 3, "x", "", [], {}, ["x"], {"type": "literal", "value": "a"}, {"type": "variable", "name": "a"}, {"type": "*"}, {"type": "markup", "kind": "open", "name": "b"}, {"type": "expression", "arg": {"type": "variable", "name": "q"}}]  # fmt: skip

# ------------------------------------------------------------------ validation


def refs(name, e):
    res = [v.name for v in e.options.values() if isinstance(v, VariableRef)]
    if isinstance(e.arg, VariableRef) and e.arg.name != name:
        res.append(e.arg.name)
    return res


def is_valid(msg):
    decls = msg.declarations
    done, active = set(), set()

    def acyclic(n):
        if n in done or n not in decls:
            return True
        if n in active:
            return False
        active.add(n)
        ok = all(acyclic(r) for r in refs(n, decls[n]))
        active.discard(n)
        done.add(n)
        return ok

    if not all(acyclic(n) for n in decls):
        return "a declaration cycle"
    if isinstance(msg, SelectMessage):
        for sel in msg.selectors:
            if not annotated(decls, sel.name):
                return f"no annotation for {sel.name}"
        n = len(msg.selectors)
        if any(len(k) != n for k in msg.variants):
            return "a variant key mismatch"
        if not any(all(isinstance(x, CatchallKey) for x in k) for k in msg.variants):
            return "no fallback"
    return None


NAMES = ["a", "b", "c", "d", "e", "f"]


@st.composite
def graph(draw):
    decls = {}
    names = draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=6))
    # often a graph without cycles, in any order
    acyclic = draw(st.booleans())
    rank = draw(st.permutations(NAMES))
    for name in names:
        pool = [n for n in NAMES if rank.index(n) < rank.index(name)] if acyclic else NAMES
        others = st.sampled_from([*pool, "z"]).map(VariableRef)
        arg = draw(st.one_of(st.just(VariableRef(name)), others, others, st.none(), m_literal))
        fn = draw(identifier) if arg is None or draw(st.booleans()) else None
        opts = draw(st.dictionaries(identifier, st.one_of(m_literal, others), max_size=2)) if fn else {}
        decls[name] = Expression(arg, fn, opts, draw(m_attrs) if draw(st.integers(0, 4)) == 0 else {})
    if draw(st.integers(0, 2)) == 0:
        return PatternMessage(draw(m_pattern(2)), decls)
    pool = draw(st.sampled_from([NAMES, names or NAMES]))
    good = [n for n in decls if annotated(decls, n)]
    if good and draw(st.booleans()):
        pool = good
    sels = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3))
    n = len(sels)
    key = st.one_of(st.builds(CatchallKey, st.sampled_from([None, "other"])), m_literal)
    size = st.just(n) if draw(st.integers(0, 3)) else st.integers(max(0, n - 1), n + 1)
    variants = draw(st.dictionaries(size.flatmap(lambda k: st.tuples(*[key] * k)), m_pattern(1), max_size=3))
    if draw(st.integers(0, 3)):
        variants[tuple(draw(st.builds(CatchallKey, st.sampled_from([None, "other"]))) for _ in sels)] = ["x"]
    return SelectMessage(decls, tuple(map(VariableRef, sels)), variants)


def check_graph(msg, ctx):
    reason = is_valid(msg)
    orig = copy.deepcopy(msg)
    if any(r in msg.declarations for n, e in msg.declarations.items() for r in refs(n, e)):
        ctx.nontrivial(repr(msg))
    try:
        mf2_validate_message(msg)
    except MF2ValidationError as e:
        if not reason:
            raise Violation(f"valid message rejected: {e}\n{orig}") from e
        ctx.label("invalid: " + reason.split(" for")[0])
        return
    except Exception as e:
        raise Violation(f"not a validation error: {e!r}\n{orig}") from e
    if reason:
        raise Violation(f"message with {reason} accepted\n{orig}")
    ctx.label("valid")
    order = list(msg.declarations)
    if sorted(order) != sorted(orig.declarations):
        raise Violation(f"declarations {list(orig.declarations)} became {order}\n{orig}")
    for i, n in enumerate(order):
        for r in refs(n, msg.declarations[n]):
            if r in order[i:]:
                raise Violation(f"${n} is before ${r}, which it depends on, in {order}\n{orig}")
    sorted_ = copy.deepcopy(msg)
    msg.declarations = {n: msg.declarations[n] for n in orig.declarations}
    d = gen.diff(orig, msg)
    if d:
        raise Violation(f"validation changed the message: {d}\n{orig}")
    again = copy.deepcopy(sorted_)
    mf2_validate_message(again)
    d = gen.diff(sorted_, again)
    if d:
        raise Violation(f"validating again changed the message: {d}\n{orig}")
    src = "".join(mf2_serialize_message(sorted_))
    got = mf2_parse_message(src)
    if got.declarations != orig.declarations or (isinstance(msg, SelectMessage) and (got.selectors, got.variants) != (msg.selectors, msg.variants)):
        raise Violation(f"the validated message is read back as {got}\n{orig}\n{src}")


# ------------------------------------------------------------------ single faults

BAD_ID = ["", "1", "-a", "a b", "a\n", " a", "$a", "a:", ":a", "a:b:c", "a|", "a{", "·a", "a\u3000", "\u200ea", "a\u2000b", "×", 5, None, True, ("a",)]
BAD_NAME = [*BAD_ID, "a:b"]
BAD_VAR = [VariableRef(n) for n in BAD_NAME]


def expressions(msg):
    yield from msg.declarations.values()
    for pat in patterns(msg):
        yield from (p for p in pat if isinstance(p, Expression))


def patterns(msg):
    return [msg.pattern] if isinstance(msg, PatternMessage) else list(msg.variants.values())


@st.composite
def corrupt(draw):
    msg = copy.deepcopy(draw(m_message()))
    kinds = ["decl", "name", "part"]
    exprs = list(expressions(msg))
    marks = [p for pat in patterns(msg) for p in pat if isinstance(p, Markup)]
    if exprs:
        kinds += ["function", "arg", "none", "no-function", "expr-opt", "expr-attr"]
    if marks:
        kinds += ["kind", "markup-name", "markup-opt", "markup-attr"]
    kinds += ["pattern"]
    if isinstance(msg, SelectMessage):
        kinds += ["selectors", "selector", "keys", "key", "fallback", "variants"]
    kind = draw(st.sampled_from(kinds))

    def opts(d):
        if draw(st.booleans()):
            d[draw(st.sampled_from([n for n in BAD_ID if n not in d]))] = "x"
        else:
            d["k"] = draw(st.sampled_from([5, None, True, ["a"], *BAD_VAR, Expression("a")]))

    def attrs(d):
        if draw(st.booleans()):
            d[draw(st.sampled_from([n for n in BAD_ID if n not in d]))] = draw(st.sampled_from(["x", True]))
        else:
            d["k"] = draw(st.sampled_from([5, None, False, ["a"], VariableRef("a"), Expression("a")]))

    if kind == "decl":
        msg.declarations["q"] = draw(st.sampled_from([None, "x", 5, Markup("open", "b"), VariableRef("q")]))
    elif kind == "name":
        msg.declarations[draw(st.sampled_from(BAD_NAME))] = Expression("a", "f")
    elif kind == "part":
        pat = draw(st.sampled_from(patterns(msg)))
        pat.insert(draw(st.integers(0, len(pat))), draw(st.sampled_from([None, 5, VariableRef("a"), {}, CatchallKey(), ["a"]])))
    elif kind == "pattern":
        bad = draw(st.sampled_from(["abc", None, 5]))
        if isinstance(msg, PatternMessage):
            msg.pattern = bad
        else:
            msg.variants[draw(st.sampled_from(list(msg.variants)))] = bad
    elif kind == "function":
        draw(st.sampled_from(exprs)).function = draw(st.sampled_from([n for n in BAD_ID if n is not None]))
    elif kind == "arg":
        draw(st.sampled_from(exprs)).arg = draw(st.sampled_from([5, True, ["a"], Expression("a"), *BAD_VAR]))
    elif kind == "none":
        e = draw(st.sampled_from(exprs))
        e.arg, e.function, e.options = None, None, {}
    elif kind == "no-function":
        e = draw(st.sampled_from(exprs))
        e.arg, e.function, e.options = "a", None, {"a": "b"}
    elif kind == "expr-opt":
        e = draw(st.sampled_from(exprs))
        e.function = e.function or "f"
        opts(e.options)
    elif kind == "expr-attr":
        attrs(draw(st.sampled_from(exprs)).attributes)
    elif kind == "kind":
        draw(st.sampled_from(marks)).kind = draw(st.sampled_from(["", "OPEN", "elem", None, "self"]))
    elif kind == "markup-name":
        draw(st.sampled_from(marks)).name = draw(st.sampled_from(BAD_ID))
    elif kind == "markup-opt":
        opts(draw(st.sampled_from(marks)).options)
    elif kind == "markup-attr":
        attrs(draw(st.sampled_from(marks)).attributes)
    elif kind == "selectors":
        msg.selectors = draw(st.sampled_from([(), [], list(msg.selectors), None]))
    elif kind == "selector":
        sels = list(msg.selectors)
        sels[draw(st.integers(0, len(sels) - 1))] = draw(st.sampled_from(["a", None, Expression(VariableRef("a"), "f"), VariableRef("undeclared"), *BAD_VAR]))
        msg.selectors = tuple(sels)
    elif kind == "keys":
        n = len(msg.selectors)
        msg.variants[draw(st.sampled_from([("a",) * (n + 1), ("a",) * (n - 1), "a" * n, None, "a"]))] = ["x"]
    elif kind == "key":
        msg.variants[tuple([draw(st.sampled_from([5, None, True]))] * len(msg.selectors))] = ["x"]
    elif kind == "fallback":
        del msg.variants[(CatchallKey(),) * len(msg.selectors)]
    elif kind == "variants":
        msg.variants = draw(st.sampled_from([None, [], list(msg.variants.items())]))
    return kind, msg


def check_corrupt(case, ctx):
    kind, msg = case
    ctx.label(kind)
    ctx.nontrivial(repr(msg))
    try:
        mf2_validate_message(msg)
    except MF2ValidationError:
        return
    except Exception as e:
        raise Violation(f"not a validation error: {e!r}\n{kind}: {msg}") from e
    raise Violation(f"invalid {kind} accepted: {msg}")


# ------------------------------------------------------------------ JSON

SCHEMAS = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "schemas")


def j_lit(v):
    return {"type": "literal", "value": v} if isinstance(v, str) else {"type": "variable", "name": v.name}


def j_attr(attrs):
    return {k: True if v is True else j_lit(v) for k, v in attrs.items()}


def j_part(p):
    if isinstance(p, str):
        return p
    if isinstance(p, Markup):
        res = {"type": "markup", "kind": p.kind, "name": p.name}
        if p.options:
            res["options"] = {k: j_lit(v) for k, v in p.options.items()}
    else:
        res = {"type": "expression"}
        if p.arg is not None:
            res["arg"] = j_lit(p.arg)
        if p.function:
            res["function"] = {"type": "function", "name": p.function}
            if p.options:
                res["function"]["options"] = {k: j_lit(v) for k, v in p.options.items()}
    if p.attributes:
        res["attributes"] = j_attr(p.attributes)
    return res


def j_message(msg):
    decls = [
        {"type": "input" if e.arg == VariableRef(n) else "local", "name": n, "value": j_part(e)}
        for n, e in msg.declarations.items()
    ]
    if isinstance(msg, PatternMessage):
        return {"type": "message", "declarations": decls, "pattern": [j_part(p) for p in msg.pattern]}

    def key(k):
        if isinstance(k, str):
            return j_lit(k)
        return {"type": "*"} if k.value is None else {"type": "*", "value": k.value}

    return {
        "type": "select",
        "declarations": decls,
        "selectors": [j_lit(s) for s in msg.selectors],
        "variants": [
            {"keys": [key(k) for k in keys], "value": [j_part(p) for p in pat]} for keys, pat in msg.variants.items()
        ],
    }


@st.composite
def named_message(draw):
    """A message, with names for some of its catch-all keys"""
    msg = draw(m_message())
    if isinstance(msg, SelectMessage):
        cat = st.builds(CatchallKey, st.sampled_from([None, "other", "x y", "*"]))
        msg.variants = {tuple(k if isinstance(k, str) else draw(cat) for k in ks): p for ks, p in msg.variants.items()}
    return msg


_validator = None


def schema_error(data):
    global _validator
    if _validator is None:
        import jsonschema

        with open(os.path.join(SCHEMAS, "mf2-message.json")) as f:
            _validator = jsonschema.Draft7Validator(json.load(f))
    err = next(_validator.iter_errors(data), None)
    return None if err is None else err.message[:300]


def check_json(msg, ctx):
    orig = copy.deepcopy(msg)
    got = mf2_to_json(msg)
    want = j_message(orig)
    try:
        text = json.dumps(got)
    except Exception as e:
        raise Violation(f"not JSON: {e!r}\n{orig}") from e
    if json.loads(text) != want or list(got) != list(want):
        raise Violation(f"JSON of {orig}\n  expected {json.dumps(want)}\n  got      {text}")
    err = schema_error(got)
    if err:
        raise Violation(f"JSON is not valid by the schema: {err}\n{text}")
    if "{" in text[1:] or isinstance(msg, SelectMessage):
        ctx.nontrivial(text)
    back = mf2_from_json(got)
    d = gen.diff(orig, back) or gen.diff(orig, msg)
    if d:
        raise Violation(f"read back: {d}\n{text}")
    if got != want:
        raise Violation("reading changed the JSON")
    # nothing is shared
    for e in [*expressions(back), *(p for pat in patterns(back) for p in pat if isinstance(p, Markup))]:
        e.options["zz"] = "1"
        e.attributes["zz"] = "1"
    for pat in patterns(back):
        pat.append("zz")
    if got != want:
        raise Violation(f"the message read from JSON shares its values: {text}")


def v_str(d, k):
    return isinstance(d, dict) and isinstance(d.get(k), str)


def v_lit(d):
    return v_str(d, "value") and d.get("type") == "literal"


def v_var(d):
    return v_str(d, "name") and d.get("type") == "variable"


def v_opts(d, attr=False):
    return isinstance(d, dict) and all(v is True or v_lit(v) if attr else v_lit(v) or v_var(v) for v in d.values())


def v_expr(d):
    if not isinstance(d, dict) or d.get("type") != "expression" or not ("arg" in d or "function" in d):
        return False
    if "arg" in d and not (v_lit(d["arg"]) or v_var(d["arg"])):
        return False
    if "function" in d:
        f = d["function"]
        if not v_str(f, "name") or f.get("type") != "function" or not v_opts(f.get("options", {})):
            return False
    return v_opts(d.get("attributes", {}), True)


def v_markup(d):
    return (
        isinstance(d, dict)
        and d.get("type") == "markup"
        and isinstance(d.get("kind"), str)
        and d["kind"] in ("open", "standalone", "close")
        and v_str(d, "name")
        and v_opts(d.get("options", {}))
        and v_opts(d.get("attributes", {}), True)
    )


def v_pattern(d):
    return isinstance(d, list) and all(isinstance(p, str) or v_expr(p) or v_markup(p) for p in d)


def v_key(d):
    return isinstance(d, dict) and (v_lit(d) or (d.get("type") == "*" and isinstance(d.get("value", ""), str)))


def v_json(d):
    if not isinstance(d, dict) or not isinstance(d.get("declarations"), list):
        return False
    seen = set()
    for decl in d["declarations"]:
        if not v_str(decl, "name") or not v_expr(decl.get("value")) or decl["name"] in seen:
            return False
        seen.add(decl["name"])
        same = decl["value"].get("arg") and decl["value"]["arg"].get("type") == "variable" and decl["value"]["arg"]["name"] == decl["name"]
        if not (same if decl.get("type") == "input" else decl.get("type") == "local" and not same):
            return False
    if d.get("type") == "message":
        return v_pattern(d.get("pattern"))
    if d.get("type") != "select" or not isinstance(d.get("selectors"), list) or not all(map(v_var, d["selectors"])):
        return False
    if not isinstance(d.get("variants"), list):
        return False
    rows = set()
    for v in d["variants"]:
        if not isinstance(v, dict) or not isinstance(v.get("keys"), list) or not all(map(v_key, v["keys"])):
            return False
        row = tuple(("*",) if k["type"] == "*" else k["value"] for k in v["keys"])
        if row in rows or not v_pattern(v.get("value")):
            return False
        rows.add(row)
    return True


def paths(d, at=()):
    if isinstance(d, dict):
        for k, v in d.items():
            yield (*at, k)
            yield from paths(v, (*at, k))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield (*at, i)
            yield from paths(v, (*at, i))


@st.composite
def mutated_json(draw, base, to_json, misc, names):
    data = json.loads(json.dumps(to_json(draw(base))))
    orig = copy.deepcopy(data)
    for _ in range(draw(gen.weighted((4, st.just(1)), (1, st.just(2))))):
        ps = list(paths(data))
        if not ps or draw(st.integers(0, 30)) == 0:
            data = copy.deepcopy(draw(st.sampled_from(misc)))
            continue
        p = draw(st.sampled_from(ps))
        obj = data
        for k in p[:-1]:
            obj = obj[k]
        k = p[-1]
        op = draw(st.sampled_from(["delete", "replace", "dup", "rename", "copy", "self"]))
        if op == "delete":
            del obj[k]
        elif op == "replace":
            obj[k] = copy.deepcopy(draw(st.sampled_from(misc)))
        elif op == "dup" and isinstance(obj, list):
            obj.insert(draw(st.integers(0, len(obj))), copy.deepcopy(obj[k]))
        elif op == "rename" and isinstance(obj, dict):
            obj[draw(st.sampled_from(names))] = obj.pop(k)
        elif op == "self":
            # a declaration, or a part of it, refers to its own variable
            decls = [p for p in ps if len(p) == 2 and p[0] == "declarations"]
            for p in decls[:1] and [draw(st.sampled_from(decls))]:
                decl = data["declarations"][p[1]]
                name = decl.get("name") if isinstance(decl, dict) else None
                for q in [q for q in paths(decl) if q[-1] in ("arg", "value")] if name else ():
                    if draw(st.booleans()):
                        continue
                    obj = decl
                    for k in q[:-1]:
                        obj = obj[k] if isinstance(obj, dict) and k in obj else {}
                    if isinstance(obj, dict) and isinstance(obj.get(q[-1]), dict) and obj[q[-1]].get("type") in ("literal", "variable"):
                        obj[q[-1]] = {"type": "variable", "name": name}
        elif op == "copy":
            src = data
            for q in draw(st.sampled_from(ps)):
                src = src[q]
            obj[k] = copy.deepcopy(src)
    return orig, data


J_NAMES = ["type", "name", "value", "arg", "function", "options", "attributes", "pattern", "declarations", "selectors", "variants", "keys", "kind"]
J_MISC = [*MISC, "input", "local", "literal", "variable", "expression", "markup", "message", "select", "*", "open"]


def check_json_mutate(case, ctx):
    orig, data = case
    if orig != data:
        ctx.nontrivial(json.dumps(data))
    before = copy.deepcopy(data)
    valid = v_json(data)
    try:
        msg = mf2_from_json(data)
    except MF2ValidationError as e:
        if valid:
            raise Violation(f"valid JSON rejected: {e}\n{json.dumps(data)}") from e
        ctx.label("invalid")
        return
    except Exception as e:
        raise Violation(f"not a validation error: {e!r}\n{json.dumps(data)}") from e
    ctx.label("valid")
    if not valid:
        raise Violation(f"invalid JSON accepted as {msg}\n{json.dumps(data)}")
    if data != before:
        raise Violation(f"reading changed the JSON\n{json.dumps(before)}")
    back = mf2_to_json(msg)
    if not v_json(back) or gen.diff(mf2_from_json(back), msg):
        raise Violation(f"{json.dumps(data)}\nread as {msg}\nwritten as {json.dumps(back)}")


SUBS = [
    Sub("graph", graph(), check_graph, 9000),
    Sub("corrupt", corrupt(), check_corrupt, 6000),
    Sub("json", named_message(), check_json, 4000),
    Sub("json_mutate", mutated_json(m_message(), mf2_to_json, J_MISC, J_NAMES), check_json_mutate, 6000),
]
