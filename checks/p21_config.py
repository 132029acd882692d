"""P21: TOML-configured paths."""

from __future__ import annotations

import os
import re
from os.path import join, normpath

from hypothesis import strategies as st

from lib import gen
from lib.harness import Sub, Violation
from moz.l10n.paths import L10nConfigPaths, get_android_locale

PROPERTY = "P21"
RULE = (
    "config: file trees and configurations of up to 4 path rules (exact, *, **, both, with and without {locale}, {android_locale}, own and format variables, {l10n_base}, .pot templates,"
    " per-path locales) and up to 2 included files, with base paths, env, forced paths, directories with special characters, absolute and relative locations, TOML files or a loader,"
    " and later changes of base and locales; the oracle expands the rules over the tree component by component. All references, all locales and also near-miss paths are looked up"
    " both ways; non-trivial = a wildcard rule or include with a match."
)
ASSUMPTIONS = [
    "different rules have targets that do not overlap; each path component of a rule has at most one star",
    "where several rules match a reference and one of them is for all locales, either that or the last one may be given by target() (the documentation and tests differ)",
    "a config's own locales limit those of its includes in target(), as in the code",
]

LOCALES = ["fi", "de", "he", "pt-BR", "zh-Hant-HK", "en-GB"]
comp = st.sampled_from(["a", "b", "x.y", "c+d"])
fname = st.sampled_from(["a.ftl", "b.ftl", "axftl", "m.pot", "n.po", "s.xml", "m.po", "q.ini", "a.b.ftl", "(z).ftl"])
top = st.sampled_from(["en", "en", "src", "en-US"])
file = st.builds(lambda t, ds, f: "/".join([t, *ds, f]), top, st.lists(comp, max_size=2), fname)
mid = st.one_of(st.just(""), comp)
locs = st.one_of(st.none(), st.none(), st.lists(st.sampled_from(LOCALES), min_size=1, max_size=3, unique=True))
var = st.sampled_from(["{locale}", "{locale}", "{locale}", "v-{android_locale}", "{mod}/{locale}", "{locale}/x_{locale}", "{own}"])


@st.composite
def rule(draw, i):
    t = draw(top)
    f = draw(fname)
    ext = f[f.rindex(".") :] if "." in f else ""
    kind = draw(st.sampled_from(["exact", "exact", "star", "dirstar", "deep", "deepext", "deepname", "two", "twodeep", "starname"]))
    m = draw(mid)
    d = m + "/" if m else ""
    ref, tail = {
        "exact": (f"{t}/{d}{f}", f"{d}{f}"),
        "star": (f"{t}/{d}*{ext}", f"{d}*{ext}"),
        "starname": (f"{t}/{d}{f[0]}*{ext}", f"y{f[0]}-*{ext}"),
        "dirstar": (f"{t}/*/{f}", f"*/{f}"),
        "deep": (f"{t}/{d}**", f"{d}**"),
        "deepext": (f"{t}/**/*{ext}", f"**/*{ext}"),
        "deepname": (f"{t}/**/{f}", f"z/**/{f}"),
        "two": (f"{t}/*/*{ext}", f"*/*{ext}"),
        "twodeep": (f"{t}/*/{m or 'a'}/**", f"*/w/**"),
    }[kind]
    if tail.endswith(".pot") and draw(st.booleans()):
        tail = tail[:-1]
    v = draw(var)
    ls = draw(locs)
    if kind == "exact" and draw(st.integers(0, 4)) == 0:
        # braces are only special in targets
        brace = draw(st.sampled_from(["{b}", "c}d", "{", "}{x"]))
        ref = f"{t}/{d}{brace}{f}"
    if kind == "exact" and draw(st.integers(0, 4)) == 0:
        v, ls = "fixed", [draw(st.sampled_from(LOCALES))]
    pre = draw(st.sampled_from(["", "", "{l10n_base}/", "{pre}/", "./", "up/../"]))
    # the position of the variable among the wildcards
    if kind == "two" and draw(st.booleans()):
        target = f"{pre}t{i}/*/{v}/*{ext}"
    else:
        target = f"{pre}t{i}/{v}/{tail}"
    return {"reference": ref, "l10n": target, **({"locales": ls} if ls is not None else {})}


@st.composite
def config(draw, n, depth=0):
    rules = [draw(rule(f"{n}{i}")) for i in range(draw(st.integers(0 if depth else 1, 3)))]
    if rules and draw(st.integers(0, 3)) == 0:
        # the same targets for other references, of which only some may exist
        also = dict(draw(st.sampled_from(rules)))
        t, rest = also["reference"].split("/", 1)
        also["reference"] = draw(st.sampled_from([x for x in ("en", "src", "en-US", "none") if x != t])) + "/" + rest
        rules.insert(draw(st.integers(0, len(rules))), also)
    if rules and draw(st.integers(0, 3)) == 0:
        # the same once more, for other locales
        again = dict(draw(st.sampled_from(rules)))
        again["locales"] = [draw(st.sampled_from(LOCALES))]
        if draw(st.booleans()):
            again["l10n"] = again["l10n"].replace(f"t{n}", f"again{n}")
        rules.append(again)
    cfg = {"paths": rules, "env": {"pre": draw(st.sampled_from(["e", "e/f"]))}, "basepath": draw(st.sampled_from([None, ".", "..", "sub", "../"]))}
    ls = draw(locs)
    if ls is not None:
        cfg["locales"] = ls
    if depth == 0:
        cfg["includes"] = [draw(config(f"i{k}", 1)) for k in range(draw(st.integers(0, 2)))]
        cfg["where"] = draw(st.sampled_from(["", "", "cfg"]))
        for inc in cfg["includes"]:
            if rules and draw(st.integers(0, 3)) == 0:
                # The same paths, with the same base, for other locales
                inc["where"], inc["basepath"] = "", None
                inc["env"] = cfg["env"]
                inc["paths"] = [{k: v for k, v in r.items() if k != "locales"} for r in rules[:2]] + inc["paths"][:1]
                for r in inc["paths"]:
                    ls = draw(locs)
                    if ls is not None:
                        r["locales"] = ls
    else:
        cfg["where"] = draw(st.sampled_from(["", "lib", "lib/deep"]))
        cfg["envpath"] = draw(st.booleans())
        cfg["odd"] = draw(st.sampled_from(["", "", "", "{nope}/../", "./"]))
        # includes of the included
        cfg["includes"] = [draw(config(f"{n}j", 2))] if depth == 1 and draw(st.integers(0, 3)) == 0 else []
    return cfg


case = st.fixed_dictionaries(
    {
        "cfg": config("r"),
        "files": st.lists(file, min_size=1, max_size=10, unique=True),
        "force": st.lists(file, max_size=2, unique=True),
        "root": st.sampled_from(["r", "r", "c++ (x) [a]", "a.b"]),
        "relative": st.sampled_from([None, None, "top", "in"]),
        "load": st.booleans(),
        "new_base": st.sampled_from([None, None, "other", "/abs/base"]),
        "new_locales": st.sampled_from([None, None, None, ["de"], ["fi", "he", "xx"], []]),
        "dupinc": st.booleans(),
    }
)


def match(pat, parts):
    """Captures of a list of pattern components on path components, or None."""
    if not pat:
        return [] if not parts else None
    p = pat[0]
    if p == "**":
        if len(pat) == 1:
            # the file itself, below any directories
            if parts and not any(x.startswith(".") for x in parts):
                return ["/".join(parts)]
            return None
        for n in range(len(parts) + 1):
            if any(x.startswith(".") for x in parts[:n]):
                break
            rest = match(pat[1:], parts[n:])
            if rest is not None:
                return ["".join(x + "/" for x in parts[:n]), *rest]
        return None
    if not parts:
        return None
    if "*" in p:
        a, b = p.split("*")
        x = parts[0]
        if not (x.startswith(a) and x.endswith(b) and len(x) >= len(a) + len(b)):
            return None
        cap = [x[len(a) : len(x) - len(b)]]
    else:
        if p != parts[0]:
            return None
        cap = []
    rest = match(pat[1:], parts[1:])
    return None if rest is None else cap + rest


def fill(target, caps):
    caps = iter(caps)
    return re.sub(r"\*\*/|\*\*|\*", lambda m: next(caps), target)


class Model:
    """What a configuration means, for absolute paths."""

    def __init__(self, cfg, path, files, force):
        self.path = path
        self.ref_root = self.base = normpath(join(os.path.dirname(path), cfg["basepath"] or "."))
        self.locales = cfg.get("locales")
        self.data = {}
        self.rules = cfg["paths"]
        self.wild = False
        for r in cfg["paths"]:
            ref = normpath(join(self.ref_root, r["reference"]))
            target = r["l10n"].replace("{pre}", cfg["env"]["pre"])
            if "*" not in ref:
                self.data.setdefault(ref, {})[target] = r.get("locales")
                continue
            for f in [*files, *force]:
                if f.startswith(self.ref_root + "/"):
                    caps = match(r["reference"].split("/"), os.path.relpath(f, self.ref_root).split("/"))
                    if caps is not None:
                        self.wild = True
                        self.data.setdefault(f, {})[fill(target, caps)] = r.get("locales")
        self.includes = []
        # what the wildcard rules would give for the files that other rules name, if they existed
        self.loose = []
        for r in cfg["paths"]:
            for f in self.data:
                if "*" in r["reference"] and f not in files:
                    caps = match(r["reference"].split("/"), os.path.relpath(f, self.ref_root).split("/"))
                    if caps is not None:
                        self.loose.append((f, fill(r["l10n"].replace("{pre}", cfg["env"]["pre"]), caps)))
                if "*" in r["reference"] and f.endswith(".pot"):
                    # a template is found for the .po file of a wildcard rule
                    caps = match(r["reference"].split("/"), os.path.relpath(f[:-1], self.ref_root).split("/"))
                    if caps is not None:
                        self.loose.append((f, fill(r["l10n"].replace("{pre}", cfg["env"]["pre"]), caps)))

    def resolve(self, target, fmap):
        t = target.replace("{l10n_base}/", "")
        for k, v in fmap.items():
            t = t.replace("{" + k + "}", v)
        if t.endswith(".pot"):
            t = t[:-1]
        return normpath(join(self.base, t))

    def all(self, fmap):
        """[(ref, target, locales)]"""
        for ref, d in self.data.items():
            for t, ls in d.items():
                yield ref, self.resolve(t, fmap), ls or self.locales
        for inc in self.includes:
            yield from inc.all(fmap)

    def target(self, ref, fmap, locale):
        """Acceptable [(target, locales)], or [] for None."""
        if locale is not None and self.locales and locale not in self.locales:
            return []
        if ref not in self.data and ref.endswith(".po") and ref + "t" in self.data:
            d = self.data[ref + "t"]
        else:
            d = self.data.get(ref)
        if d:
            items = list(d.items())
            if locale is None:
                anyloc = [(self.resolve(t, fmap), set(self.locales or [])) for t, ls in items if ls is None]
                last = []
                for t, ls in reversed(items):
                    if ls is not None:
                        ok = set(ls) & set(self.locales) if self.locales else set(ls)
                        if ok:
                            last = [(self.resolve(t, fmap), ok)]
                            break
                if items[-1][1] is None:
                    last = []
                if anyloc or last:
                    return anyloc + last
            else:
                hits = [(self.resolve(t, fmap), {locale}) for t, ls in items if ls is not None and locale in ls]
                hits = hits or [(self.resolve(t, fmap), {locale}) for t, ls in items if ls is None]
                if hits:
                    return [(expand(t, locale), ls) for t, ls in hits]
        for inc in self.includes:
            res = inc.target(ref, fmap, locale)
            if res:
                return res
        return []

    def every(self):
        return [self, *(x for inc in self.includes for x in inc.every())]


OWN = {"own": lambda lc: "own" + lc.lower()}


def expand(t, locale):
    return normpath(t.replace("{locale}", locale).replace("{android_locale}", get_android_locale(locale)).replace("{own}", OWN["own"](locale)))


def toml_of(cfg, includes):
    out = [f'{k} = "{cfg[k]}"' for k in ("basepath",) if cfg[k]]
    if "locales" in cfg:
        out.append(f"locales = {cfg['locales']!r}".replace("'", '"'))
    out += ["[env]", *(f'{k} = "{v}"' for k, v in cfg["env"].items())]
    for r in cfg["paths"]:
        out += ["[[paths]]", f'reference = "{r["reference"]}"', f'l10n = "{r["l10n"]}"']
        if "locales" in r:
            out.append(f"locales = {r['locales']!r}".replace("'", '"'))
    for inc in includes:
        out += ["[[includes]]", f'path = "{inc}"']
    return "\n".join(out)


def norm(p):
    return normpath(os.path.abspath(p))


def check_config(c, ctx):
    topdir = os.path.realpath(ctx.fresh_dir())
    cwd = os.getcwd()
    try:
        check(c, ctx, topdir)
    finally:
        os.chdir(cwd)


def check(c, ctx, topdir):
    cfg = c["cfg"]
    proj = join(topdir, c["root"])
    path = join(proj, cfg["where"], "l10n.toml")
    base = normpath(join(os.path.dirname(path), cfg["basepath"] or "."))
    written = {}
    inc_models = []
    files = set()
    force = []
    for f in c["files"]:
        files.add(join(base, f))

    def place(cfg, path, base, up):
        """Find places for the files of a configuration; gives the paths of its includes"""
        incs = []
        for k, inc in enumerate(cfg.get("includes", [])):
            ip = normpath(join(base, inc["where"], f"inc{k}{up}.toml"))
            rel = os.path.relpath(ip, base)
            incs.append(inc.get("odd", "") + (f"{{pre}}/../{'../' * cfg['env']['pre'].count('/')}{rel}" if inc["envpath"] else rel))
            ibase = normpath(join(os.path.dirname(ip), inc["basepath"] or "."))
            for f in c["files"][::2]:
                files.add(join(ibase, f))
            inc_models.append((inc, ip, path))
            place(inc, ip, ibase, up + "x")
        written[path] = (cfg, incs)
        return incs

    incs = place(cfg, normpath(path), base, "")
    files = {f for f in files if f.startswith(topdir + "/")}
    force = [join(base, f) for f in c["force"]]
    for inc, ip, _ in inc_models[:1]:
        force += [join(normpath(join(os.path.dirname(ip), inc["basepath"] or ".")), f) for f in c["force"][:1]]
    if c["dupinc"]:
        incs = incs + incs[:1] + [os.path.relpath(path, base)]
    written[normpath(path)] = (cfg, incs)
    if len({ip for _, ip, _ in inc_models}) < len(inc_models):
        return
    for f in files:
        os.makedirs(os.path.dirname(f), exist_ok=True)
        open(f, "w").close()
    for p, (g, ii) in written.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf8") as fh:
            fh.write("" if c["load"] else toml_of(g, ii))
    # directories that exist can be walked through
    os.makedirs(base, exist_ok=True)
    if c["relative"] == "top":
        os.chdir(topdir)
    elif c["relative"] == "in":
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.chdir(os.path.dirname(path))
    arg = os.path.relpath(path) if c["relative"] else path
    kw = {"locale_map": OWN}
    loaded = []
    if c["load"]:

        def cfg_load(p):
            loaded.append(p)
            g, ii = written[norm(p)]
            res = {k: v for k, v in g.items() if k in ("paths", "env", "locales")}
            if g["basepath"]:
                res["basepath"] = g["basepath"]
            if ii:
                res["includes"] = [{"path": x} for x in ii]
            return res

        kw["cfg_load"] = cfg_load
    if force and c["relative"] is None:
        kw["force_paths"] = force
    else:
        force = []
    info = f"{c}\n{arg}"
    model = Model(cfg, normpath(path), files, force)
    by_path = {normpath(path): model}
    for inc, ip, parent in inc_models:
        by_path[ip] = Model(inc, ip, files, force)
        by_path[parent].includes.append(by_path[ip])
    paths = L10nConfigPaths(arg, **kw)
    if any(m.wild for m in model.every()) or model.includes:
        ctx.nontrivial(c)

    if list(map(norm, paths.config_paths())) != [m.path for m in model.every()]:
        raise Violation(f"config_paths(): {list(paths.config_paths())}\n{info}")
    if norm(paths.ref_root) != base or norm(paths.base) != base:
        raise Violation(f"base {paths.base}, ref_root {paths.ref_root}\n{info}")

    check_state(c, ctx, paths, model, info)
    if c["new_base"] or c["new_locales"] is not None:
        if c["new_base"]:
            nb = c["new_base"] if c["new_base"].startswith("/") else join(topdir, c["new_base"])
            paths.base = nb
            for m in model.every():
                m.base = nb
        if c["new_locales"] is not None:
            paths.locales = list(c["new_locales"])
            for m in model.every():
                m.locales = list(c["new_locales"])
        if norm(paths.base) != model.base or paths.locales != model.locales or norm(paths.ref_root) != model.ref_root:
            raise Violation(f"changed base {paths.base}, locales {paths.locales}\n{info}")
        check_state(c, ctx, paths, model, info + "\nafter changes")


def check_state(c, ctx, paths, model, info):
    mods = model.every()
    want = sorted({r for m in mods for r in m.data})
    got = sorted({norm(r) for r in paths.ref_paths})
    if want != got:
        raise Violation(f"ref_paths: expected {want}, got {got}\n{info}")
    want = {lc for m in mods for lc in [*(m.locales or []), *(x for d in m.data.values() for ls in d.values() for x in ls or [])]}
    if paths.all_locales != want:
        raise Violation(f"all_locales: expected {want}, got {paths.all_locales}\n{info}")
    for fmap in ({}, {"mod": "mm", "unused": "x"}):
        arg = {"format_map": fmap} if fmap else {}
        want = {}
        for r, t, ls in model.all(fmap):
            if (r, t) in want:
                # None and [] are all locales
                prev = want[(r, t)]
                ls = {*prev, *ls} if prev and ls else None
            want[(r, t)] = ls
        got = {(norm(r), norm(t)): ls for (r, t), ls in paths.all(**arg).items()}
        if {k: v and sorted(v) for k, v in want.items()} != {k: v and sorted(v) for k, v in got.items()}:
            raise Violation(f"all({fmap}): expected {want}\ngot {got}\n{info}")
        refs = sorted({r for r, _ in want})
        odd = [r[:-1] for r in refs if r.endswith(".pot")] + [r + "x" for r in refs] + [r.replace("a.ftl", "axftl") for r in refs] + [model.path, model.ref_root]
        for ref in [*refs, *odd]:
            # a locale can only be filled in when the other variables are
            need = not fmap and any("{mod}" in t for m in mods for t in m.data.get(ref, ()) or m.data.get(ref + "t", ()))
            for lc in [None] if need else [None, *LOCALES[:4], "xx"]:
                okay = model.target(ref, fmap, lc)
                a = ref if c["relative"] is None and len(ref) % 2 else os.path.relpath(ref, model.ref_root)
                t, ls = paths.target(a, locale=lc, **arg) if lc else paths.target(a, **arg)
                if t is None:
                    if okay or ls:
                        raise Violation(f"target({a!r}, {lc}) is None, expected {okay}\n{info}")
                elif (norm(t), set(ls)) not in [(norm(x), y) for x, y in okay]:
                    raise Violation(f"target({a!r}, {fmap}, {lc}): expected {okay}, got {t, ls}\n{info}")
    # and back
    every = [(r, t, ls) for r, t, ls in model.all({})]
    fmts = []
    loose = [(r, m.resolve(t, {}), None) for m in mods for r, t in m.loose]
    for r, t, ls in every + loose:
        rx = ""
        names = set()
        for i, x in enumerate(re.split(r"\{(\w+)\}", t)):
            if i % 2 == 0:
                rx += re.escape(x)
            else:
                rx += f"(?P={x})" if x in names else f"(?P<{x}>[^/]*)"
                names.add(x)
        fmts.append((r, re.compile(rx)))
    sure = fmts[: len(every)]
    probes = {"nothing", "", "t/fi/a.ftl", "../x", "tr0/fi"}
    for r, t, ls in every:
        for lc in (ls or ["fi", "zh-Hant-HK"])[:2]:
            x = expand(t, lc).replace("{mod}", "mo.d")
            probes |= {x, x.replace(".ftl", "xftl"), x + "t", x[:-1], x.replace("/t", "/T"), x.replace("/a/", "/"), x.replace("/" + lc, "/" + lc + "/more"), x.replace("-", "_")}
    for x in sorted(probes):
        if x.endswith(".pot"):
            continue  # never a target path, but may be taken for one
        full = normpath(join(model.base, x))
        okay = [(r, m.groupdict()) for r, rx in fmts for m in [rx.fullmatch(full)] if m]
        for a in {full, os.path.relpath(full, model.base)}:
            if os.path.isabs(a) and not os.path.isabs(paths.base):
                continue
            got = paths.find_reference(a)
            got = (norm(got[0]), got[1]) if got else None
            if got is None:
                if any(rx.fullmatch(full) for _, rx in sure):
                    raise Violation(f"find_reference({a!r}) is None, expected {okay}\n{info}")
            elif got not in okay:
                raise Violation(f"find_reference({a!r}): expected {okay}, got {got}\n{info}")
    for r, t, ls in every[:3]:
        for lc in ("he", "en-GB"):
            got = paths.format_target_path("./x/../" + t + "/./z//{unknown}".replace("{unknown}", "y"), lc) if "{mod}" not in t else None
            if got is not None and got != normpath("./x/../" + expand(t, lc) + "/z/y"):
                raise Violation(f"format_target_path(): {t!r}, {lc} gives {got!r}\n{info}")
    ctx.label("refs" if every else "empty")


SUBS = [Sub("config", case, check_config, 6000)]
