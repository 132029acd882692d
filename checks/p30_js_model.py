"""P30: message utilities of the JavaScript package."""

from __future__ import annotations

import copy
import json

from hypothesis import strategies as st

from lib import gen, js
from lib.harness import Sub, Violation
from moz.l10n.message import message_from_json, message_to_json

PROPERTY = "P30"
RULE = (
    "normalize: message JSON with empty and adjacent text and with declarations that depend on each other in any way (also in cycles) or are not used,"
    " with names that are also those of built-in properties of JavaScript objects; a reference model, and normalize() of the Python package, decide;"
    " non-trivial = something to drop or join. equal: two messages, the second of which is the first, the first written differently (declarations and"
    " options in another order, other catch-all names, absent and empty options, an empty list of declarations), or has a single difference;"
    " the verdict is known from the construction, and is the same in both directions; non-trivial = not identical JSON."
    " empty: messages with empty, blank and other patterns and variants; non-trivial = an empty pattern."
)
ASSUMPTIONS = ["the JavaScript runs in Node, bundled with esbuild as it is in the working tree"]

names = st.sampled_from(["a", "b", "c", "constructor", "toString", "__proto__", "d"])
var = names.map(lambda n: {"$": n})
text = st.sampled_from(["", "", "x", "y z", "\n", " ", "é", "{", "\ud83d\ude00"])
opts = st.dictionaries(st.sampled_from(["o", "p", "toString", "__proto__"]), st.one_of(text, var), min_size=1, max_size=2)
attrs = st.dictionaries(st.sampled_from(["s", "t", "constructor", "__proto__"]), st.one_of(text, st.just(True)), min_size=1, max_size=2)


@st.composite
def expr(draw):
    res = {}
    k = draw(st.integers(0, 5))
    if k < 3:
        res["$"] = draw(names)
    elif k < 5:
        res["_"] = draw(text)
    if k == 5 or draw(st.booleans()):
        res["fn"] = draw(st.sampled_from(["f", "ns:g", "number"]))
        if draw(st.booleans()):
            res["opt"] = draw(opts)
    if draw(st.integers(0, 3)) == 0:
        res["attr"] = draw(attrs)
    return res


@st.composite
def markup(draw):
    res = {draw(st.sampled_from(["open", "close", "elem"])): draw(st.sampled_from(["b", "i", "x:y"]))}
    if draw(st.booleans()):
        res["opt"] = draw(opts)
    if draw(st.integers(0, 3)) == 0:
        res["attr"] = draw(attrs)
    return res


pattern = st.lists(gen.weighted((4, text), (2, expr()), (1, markup())), max_size=6)
decls = st.dictionaries(names, expr(), max_size=5)
key = st.one_of(st.sampled_from(["one", "two", "*", "other", ""]), st.sampled_from([{"*": "other"}, {"*": ""}, {"*": "x"}]))


@st.composite
def messages(draw):
    d = draw(decls)
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(pattern)
    if k == 1 or not d:
        return {"decl": d, "msg": draw(pattern)}
    sels = draw(st.lists(st.sampled_from(sorted(d)), min_size=1, max_size=3))
    alts = draw(st.lists(st.tuples(st.tuples(*[key] * len(sels)), pattern), min_size=1, max_size=4, unique_by=lambda v: json.dumps([k if isinstance(k, str) else "*" for k in v[0]]) + str([isinstance(k, str) for k in v[0]])))
    return {"decl": d, "sel": sels, "alt": [{"keys": list(k), "pat": p} for k, p in alts]}


def pats(msg):
    return [msg] if isinstance(msg, list) else [msg["msg"]] if "msg" in msg else [v["pat"] for v in msg["alt"]]


def refs(part):
    return ([part["$"]] if "$" in part else []) + [v["$"] for v in part.get("opt", {}).values() if isinstance(v, dict)]


def joined(pattern):
    res = []
    for p in pattern:
        if isinstance(p, str) and res and isinstance(res[-1], str):
            res[-1] += p
        elif p != "":
            res.append(p)
    return res


def normal(msg):
    if isinstance(msg, list):
        return joined(msg)
    used = {n for pat in pats(msg) for p in pat if not isinstance(p, str) for n in refs(p)} | set(msg.get("sel", ()))
    todo = list(used)
    while todo:
        n = todo.pop()
        for r in refs(msg["decl"].get(n, {})):
            if r not in used:
                used.add(r)
                todo.append(r)
    decl = {n: e for n, e in msg["decl"].items() if n in used}
    if "msg" in msg:
        return {"decl": decl, "msg": joined(msg["msg"])} if decl else joined(msg["msg"])
    return {"decl": decl, "sel": msg["sel"], "alt": [{"keys": v["keys"], "pat": joined(v["pat"])} for v in msg["alt"]]}


def same(a, b):
    """Equal, also in the order of the members"""
    return json.dumps(a) == json.dumps(b)


def check_normalize(msg, ctx):
    want = normal(copy.deepcopy(msg))
    if not same(want, msg):
        ctx.nontrivial(json.dumps(msg))
    res = js.request("normalizeMessage", msg, frozen=True)
    if "error" in res:
        raise Violation(f"normalizeMessage({json.dumps(msg)}): {res['error']}")
    if res["mutated"]:
        raise Violation(f"normalizeMessage() changes {json.dumps(msg)}")
    if res["shared"]:
        raise Violation(f"the result of normalizeMessage({json.dumps(msg)}) shares a part with it")
    got = res["value"]
    if not same(want, got):
        raise Violation(f"normalizeMessage({json.dumps(msg)})\nis {json.dumps(got)}\nnot {json.dumps(want)}")
    again = js.call("normalizeMessage", got)
    if not same(got, again):
        raise Violation(f"normalizeMessage() twice: {json.dumps(again)}\nonce: {json.dumps(got)}")
    model = message_from_json(copy.deepcopy(msg))
    model.normalize()
    if not same(want, message_to_json(model)):
        raise Violation(f"Python: {message_to_json(model)}\nJavaScript: {got}")
    ctx.label("pattern" if isinstance(msg, list) else "pattern message" if "msg" in msg else "select")


# ------------------------------------------------------------------ equality


def places(msg):
    """Everything of a message that counts: (container, key) pairs"""
    out = []

    def part(p):
        if isinstance(p, dict):
            for k in ("_", "$", "fn", "open", "close", "elem"):
                if k in p:
                    out.append((p, k))
            for m in ("opt", "attr"):
                if p.get(m):
                    out.append((p, m))
                for k in p.get(m, {}):
                    out.append((p[m], k))

    for pat in pats(msg):
        for i, p in enumerate(pat):
            out.append((pat, i))
            part(p)
    if isinstance(msg, dict):
        for n, e in msg["decl"].items():
            out.append((msg["decl"], n))
            part(e)
        for i in range(len(msg.get("sel", ()))):
            out.append((msg["sel"], i))
        for v in msg.get("alt", ()):
            for i in range(len(v["keys"])):
                out.append((v["keys"], i))
    return out


@st.composite
def pairs(draw):
    a = draw(messages())
    b = copy.deepcopy(a)
    how = draw(st.sampled_from(["same", "rewrite", "differ", "differ", "differ"]))
    if how == "rewrite" or draw(st.booleans()):
        for container, k in places(b):
            v = container[k]
            if isinstance(v, dict) and ("opt" in v or "attr" in v or "fn" in v):
                for m in ("opt", "attr"):
                    if m in v:
                        items = list(v[m].items())
                        v[m] = dict(draw(st.permutations(items)))
                    elif draw(st.integers(0, 4)) == 0:
                        v[m] = {}
            if isinstance(v, dict) and "*" in v:
                v["*"] = draw(st.sampled_from(["other", "", "y"]))
        if isinstance(b, dict):
            b["decl"] = dict(draw(st.permutations(list(b["decl"].items()))))
            if "msg" in b and not b["decl"] and draw(st.booleans()):
                b = b["msg"]
        elif draw(st.integers(0, 3)) == 0:
            b = {"decl": {}, "msg": b}
    if how != "differ":
        return a, b, True
    spots = places(b)
    k = draw(st.integers(0, 5))
    if spots and k < 4:
        container, k = draw(st.sampled_from(spots))
        old = container[k]
        how = draw(st.sampled_from(["delete", "change", "change"]))
        if k in ("opt", "attr"):
            del container[k]
        elif isinstance(old, dict) and "*" in old:
            container[k] = draw(st.sampled_from(["other", old["*"]]))
        elif how == "delete" and (isinstance(container, list) and container in pats(b) or isinstance(b, dict) and container is b["decl"] or isinstance(container, dict) and not {"_", "$", "fn", "open", "close", "elem"} & set(container)):
            del container[k]
        elif isinstance(old, str):
            container[k] = draw(st.sampled_from([{"*": old}] if isinstance(container, list) and container not in pats(b) and "alt" in b and container is not b["sel"] else [old + "x"]))
        elif old is True:
            container[k] = draw(st.sampled_from(["", "true", "x"]))
        elif "$" in old and len(old) == 1:
            container[k] = draw(st.sampled_from([old["$"], {"$": old["$"] + "x"}]))
        else:
            container[k] = {**old, "attr": {**old.get("attr", {}), "new": True}}
        return a, b, False
    if isinstance(b, list):
        b.append(draw(st.sampled_from(["", "x", {"$": "a"}])))
    elif k == 4 or "msg" in b:
        b["decl"]["new"] = {"_": "x"}
    else:
        b["alt"].append(copy.deepcopy(b["alt"][0]))
    return a, b, False


def check_equal(case, ctx):
    a, b, want = case
    ctx.label("equal" if want else "different")
    if not same(a, b):
        ctx.nontrivial(json.dumps(case))
    for x, y in ((a, b), (b, a)):
        res = js.request("messagesEqual", x, y, frozen=True)
        if res.get("value") is not want or res["mutated"]:
            raise Violation(f"messagesEqual({json.dumps(x)},\n{json.dumps(y)})\nis {json.dumps(res)}, not {want}")


# ------------------------------------------------------------------ empty

blank = st.lists(st.sampled_from(["", "", "", " ", "x", {"_": ""}, {"$": "a"}]), max_size=3)


@st.composite
def empties(draw):
    k = draw(st.integers(0, 2))
    if k == 0:
        return draw(blank)
    decl = {"a": {"$": "a", "fn": "number"}}
    if k == 1:
        return {"decl": draw(st.sampled_from([decl, {}])), "msg": draw(blank)}
    keys = draw(st.lists(st.sampled_from(["1", "2"]), unique=True))
    return {"decl": decl, "sel": ["a"], "alt": [{"keys": [k], "pat": draw(blank)} for k in [*keys, {"*": ""}]]}


def check_empty(msg, ctx):
    flags = [all(p == "" for p in pat) for pat in pats(msg)]
    if any(flags):
        ctx.nontrivial(json.dumps(msg))
    for args, want in (((), all(flags)), ((False,), all(flags)), ((True,), any(flags))):
        got = js.call("messageIsEmpty", msg, *args)
        if got is not want:
            raise Violation(f"messageIsEmpty({json.dumps(msg)}, {args}) is {got}")
    got = js.call("isSelectMessage", msg)
    if got is not (isinstance(msg, dict) and "alt" in msg) or js.call("isSelectMessage", None) is not False:
        raise Violation(f"isSelectMessage({json.dumps(msg)}) is {got}")
    for pat in pats(msg):
        for p in pat:
            for fn, kinds in (("isExpression", "_ $ fn"), ("isMarkup", "open close elem")):
                if js.call(fn, p) is not (isinstance(p, dict) and bool(set(kinds.split()) & set(p))):
                    raise Violation(f"{fn}({json.dumps(p)})")


SUBS = [
    Sub("normalize", messages(), check_normalize, 4000),
    Sub("equal", pairs(), check_equal, 6000),
    Sub("empty", empties(), check_empty, 800),
]
