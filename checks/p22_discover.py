"""P22: discovered paths."""

from __future__ import annotations

import os
from os.path import join, normpath

from hypothesis import strategies as st

from lib.harness import Sub, Violation
from moz.l10n.paths import L10nDiscoverPaths
from moz.l10n.paths.discover import MissingSourceDirectoryError

PROPERTY = "P22"
RULE = (
    "layout: directory trees with a reference directory (named by source locale in any of its forms, or given), locale directories with - or _ in their names, templates, unsupported files,"
    " hidden and ignored files, other candidates for reference and target directories that are empty or worse, forced paths, and absolute and relative roots; the expected root, base, locales and"
    " paths follow from how the tree was built, and all paths are looked up both ways; non-trivial = at least two locales and two reference files."
)
ASSUMPTIONS = [
    "the target base has more locale directories than any other directory, and the best reference directory is unique",
    "directory names have no braces, and a template and its translation-file twin do not occur together",
]

VARIANTS = {"en-US": ["en-US", "en-us", "en_US", "en_us"], "en": ["en"], "fr": ["fr"], "pt-BR": ["pt-BR", "pt_br", "pt_BR"], "templates": ["templates"]}
LOC = ["fi", "de", "pt-PT", "zh-Hant-TW", "sr-Latn", "fil", "ca-valencia", "ja-JP-mac", "es-MX", "xx"]
rfile = st.sampled_from(["a.ftl", "sub/b.ini", "sub/deep/c.properties", "m.pot", "sub/n.pot", "p.po", "README.txt", "sub/x.py", ".hidden.ftl", "sub/.h/a.ftl", "d.xml", "fi/a.ftl", "a b.json", "img.png"])
case = st.fixed_dictionaries(
    {
        "source": st.sampled_from([None, None, None, "fr", "pt-BR", ["templates", "en"], ["en", "en-US"]]),
        "pick": st.integers(0, 7),
        "ref_at": st.sampled_from(["base", "base", "base", "other", "deep"]),
        "base": st.sampled_from(["", "", "l10n", "application/locales"]),
        "files": st.lists(rfile, min_size=1, max_size=6, unique=True),
        "locales": st.lists(st.tuples(st.sampled_from(LOC), st.sampled_from("-_-")), max_size=5, unique_by=lambda x: x[0]),
        "content": st.booleans(),
        "decoys": st.lists(st.sampled_from(["empty-ref", "worse-ref", "locale-like", "locale-like-2", "hidden", "in-locale"]), max_size=3, unique=True),
        "ignore": st.sampled_from([None, None, ["*.ftl"], ["/sub/"], ["*.txt", "*.py", "!x.py"]]),
        "ignore_at": st.sampled_from(["root", "root", "named", "off"]),
        "force": st.lists(st.sampled_from(["in.ftl", "sub/new.pot", "../out.ftl", "a.ftl"]), max_size=2, unique=True),
        "ref_root": st.sampled_from([None, None, None, "exact", "parent", "given"]),
        "root": st.sampled_from(["r", "r", "c++ (x) [a]", "en", "de"]),
        "cwd": st.sampled_from([None, None, "top", "root", "base"]),
        "outside": st.booleans(),
    }
)
EXTS = (".dtd", ".ftl", ".inc", ".ini", ".json", ".properties", ".po", ".pot", ".xlf", ".xliff", ".xml")


def put(*path):
    p = join(*path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, "w").close()


def norm(p):
    return normpath(os.path.abspath(p))


def check_layout(c, ctx):
    top = os.path.realpath(ctx.fresh_dir())
    cwd = os.getcwd()
    try:
        layout(c, ctx, top)
    finally:
        os.chdir(cwd)


def localizable(files):
    return [f for f in files if not any(x.startswith(".") for x in f.split("/")[:-1]) and not f.split("/")[-1].startswith(".") and f.endswith(EXTS)]


def layout(c, ctx, top):
    root = join(top, c["root"])
    os.mkdir(root)
    sources = c["source"] or ["en-US", "en"]
    if isinstance(sources, str):
        sources = [sources]
    used = sources[c["pick"] % len(sources)]
    ref_name = VARIANTS[used][c["pick"] // 2 % len(VARIANTS[used])]
    base = normpath(join(root, c["base"]))
    os.makedirs(base, exist_ok=True)
    outside = c["outside"] and c["ref_root"]
    parent = base if c["ref_at"] == "base" else join(root, "source") if c["ref_at"] == "other" else join(root, "source", "inner")
    if outside:
        parent = join(top, "elsewhere")
    ref = join(parent, ref_name)
    if c["ref_root"] == "given":
        # no directory named by the source locale
        ref = join(parent, "original")
    files = c["files"]
    twins = {f + "t" for f in files}
    files = [f for f in files if f not in twins]
    if not localizable(files):
        files = [*files, "z.ftl"]
    for f in files:
        put(ref, f)
    has_pot = any(f.endswith(".pot") for f in localizable(files))
    # locales
    dirs = []
    names = {lc for v in sources for lc in VARIANTS[v]}
    for lc, sep in c["locales"]:
        d = lc.replace("-", sep) if lc not in ("ca-valencia", "ja-JP-mac") else lc
        if d in names or lc in names:
            continue
        dirs.append(d)
        os.makedirs(join(base, d), exist_ok=True)
        if c["content"]:
            put(base, d, "a.ftl")
    content = c["content"] or (c["ref_at"] == "base" and not outside)
    decoys = set(c["decoys"])
    if "empty-ref" in decoys:
        put(root, "zzz-dir", "en-US", "README.md")
        put(root, "zzz-dir", "fr", ".x.ftl")
        # zzz looks like a base without contents, too
    if "worse-ref" in decoys and sources.index(used) + 1 < len(sources):
        worse = VARIANTS[sources[-1]][0]
        if has_pot:
            # templates have the preference, whatever their rank
            worse = VARIANTS[sources[0]][0]
        put(root, "worse-dir", worse, "w.ftl")
        # hidden files are not templates
        put(root, "worse-dir", worse, ".x.pot")
    n_decoy = 0
    if "locale-like" in decoys and content and dirs:
        # many directories with short names, but nothing to localize
        for d in ("abc", "lib", "doc", "cmd", "bin", "pkg"):
            put(root, "tools-dir", d, "x.py")
    if "locale-like-2" in decoys and len(dirs) > 1:
        put(root, "vendored", "ab", "a.ftl")
        n_decoy = 1
    if "hidden" in decoys:
        for d in LOC:
            put(root, ".git", d, "a.ftl")
        put(root, ".git", VARIANTS[sources[0]][0], "a.pot")
    if "in-locale" in decoys and len(dirs) > 1:
        put(base, dirs[0], "ab", "a.ftl")
        n_decoy = 1
    # locale-like directory names on the way
    if ("fi/a.ftl" in files) and len(dirs) < 2:
        n_decoy = 0  # below the reference directory: not a base
    if outside and not dirs and c["root"] in ("de",):
        pass
    ignore = c["ignore"]
    kw = {}
    if ignore is not None:
        text = "\n".join(ignore) + "\n"
        at = join(ref, ".l10n-ignore") if c["ignore_at"] != "named" else join(top, "ign")
        with open(at, "w") as f:
            f.write(text)
        if c["ignore_at"] == "named":
            kw["ignorepath"] = at
        elif c["ignore_at"] == "off":
            kw["ignorepath"] = None
            ignore = None
    kept = []
    for f in files:
        parts = f.split("/")
        if any(x.startswith(".") for x in parts):
            continue
        if ignore == ["*.ftl"] and f.endswith(".ftl") or ignore == ["/sub/"] and parts[0] == "sub":
            continue
        if ignore and "*.txt" in ignore and (f.endswith(".txt")):
            continue
        kept.append(f)
    refs = {join(ref, f) for f in kept}
    if c["force"] and c["cwd"] is None:
        kw["force_paths"] = [join(ref, f) for f in c["force"]]
        refs |= {join(ref, f) for f in c["force"] if not f.startswith("..")}
    if c["source"] is not None:
        kw["source_locale"] = c["source"]
    if c["cwd"]:
        os.chdir({"top": top, "root": root, "base": base}[c["cwd"]])
    arg = os.path.relpath(root) if c["cwd"] else root
    args = [arg]
    if c["ref_root"]:
        rr = ref if c["ref_root"] in ("exact", "given") else parent
        if c["ref_root"] == "parent" and parent == base and dirs and False:
            return
        args.append(os.path.relpath(rr, root) if len(files) % 2 else rr)
    info = f"{c}\nL10nDiscoverPaths({args}, {kw})\nref {ref}\nbase {base} {dirs}"
    try:
        paths = L10nDiscoverPaths(*args, **kw)
    except MissingSourceDirectoryError:
        raise Violation(f"no source directory found\n{info}") from None
    if norm(paths.ref_root) != ref:
        raise Violation(f"ref_root: {paths.ref_root}\n{info}")
    if {norm(p) for p in paths.ref_paths} != refs:
        raise Violation(f"ref_paths: {paths.ref_paths}, expected {refs}\n{info}")
    locales = sorted(d.replace("_", "-") for d in dirs)
    if len(dirs) <= n_decoy or not dirs:
        ctx.label("no base")
        if not dirs and not decoys & {"empty-ref", "locale-like-2", "in-locale", "locale-like", "worse-ref"} and c["ref_root"] is None and c["ref_at"] == "base" and c["base"] == "":
            if paths.base is not None or paths.locales is not None or paths.all_locales != set():
                raise Violation(f"base {paths.base} {paths.locales}, expected none\n{info}")
            for fn in (paths.all, lambda: paths.target("a.ftl", ref_required=False), lambda: paths.find_reference("fi/a.ftl")):
                try:
                    fn()
                except ValueError:
                    pass
                else:
                    raise Violation(f"no error without a base\n{info}")
        return
    if not content and decoys & {"empty-ref", "locale-like-2", "worse-ref"}:
        return
    if len(dirs) == 1 and (decoys & {"empty-ref"} or c["base"] == "application/locales" or c["ref_at"] != "base"):
        return  # other directories could be the base just as well
    if norm(paths.base) != base or paths.locales != locales or paths.all_locales != set(locales):
        raise Violation(f"base {paths.base}, locales {paths.locales}\n{info}")
    sep = "_" if sum("_" in d for d in dirs) > sum("-" in d for d in dirs) else "-"
    if paths.locale_dir_sep != sep:
        raise Violation(f"locale_dir_sep {paths.locale_dir_sep}\n{info}")
    if len(dirs) > 1 and len(refs) > 1:
        ctx.nontrivial(c)
    tgt = {r: join(base, "{locale}", os.path.relpath(r, ref)) for r in refs}
    tgt = {r: t[:-1] if t.endswith(".pot") else t for r, t in tgt.items()}
    got = {(norm(r), norm(t)): ls for (r, t), ls in paths.all().items()}
    if got != {(r, t): locales for r, t in tgt.items()}:
        raise Violation(f"all(): {got}\nexpected {tgt}\n{info}")
    byname = {d.replace("_", "-"): d for d in dirs}
    absolute = c["cwd"] is None
    for r, t in tgt.items():
        rel = os.path.relpath(r, ref)
        forms = [rel, "./" + rel] + ([r] if absolute else [])
        if rel.endswith(".pot"):
            forms.append(rel[:-1])
        for a in forms:
            g, ls = paths.target(a)
            if g is None or norm(g) != t or list(ls) != locales:
                raise Violation(f"target({a!r}) = {g, ls}, expected {t}\n{info}")
            for lc in locales:
                g, ls = paths.target(a, locale=lc)
                want = t.replace("{locale}", byname[lc])
                if g is None or norm(g) != want or set(ls) != {lc}:
                    raise Violation(f"target({a!r}, {lc}) = {g, ls}, expected {want}\n{info}")
                if norm(paths.format_target_path(t, lc)) != want:
                    raise Violation(f"format_target_path({t}, {lc}) = {paths.format_target_path(t, lc)}\n{info}")
                for b in [want, os.path.relpath(want, base)]:
                    if os.path.isabs(b) and not os.path.isabs(paths.base):
                        continue
                    found = paths.find_reference(b)
                    if not found or norm(found[0]) != r or found[1] != {"locale": lc}:
                        raise Violation(f"find_reference({b!r}) = {found}, expected {r}, {lc}\n{info}")
            g = paths.target(a, locale="qps-ploc")
            if g[0] is not None or list(g[1]):
                raise Violation(f"target({a!r}, qps-ploc) = {g}\n{info}")
    # a locale that is not there yet
    new = "kk-KZ"
    want = join(base, new.replace("-", sep) if new not in byname else byname[new], "n.ftl")
    if norm(paths.format_target_path(join(base, "{locale}", "n.ftl"), new)) != want:
        raise Violation(f"format_target_path for {new}: {paths.format_target_path(join(base, '{locale}', 'n.ftl'), new)}, expected {want}\n{info}")
    # paths that are not there
    for a in ("no.ftl", "../a.ftl", "sub", "x.po"):
        if normpath(join(ref, a)) in refs:
            continue
        if paths.target(a) != (None, ()):
            raise Violation(f"target({a!r}) = {paths.target(a)}\n{info}")
        g, _ = paths.target(a, ref_required=False) if not a.startswith("..") else ("x", 0)
        if a == "no.ftl" and (g is None or norm(g) != join(base, "{locale}", a)):
            raise Violation(f"target({a!r}, ref_required=False) = {g}\n{info}")
    lc = dirs[0]
    some = os.path.relpath(sorted(refs)[0], ref) if refs else "q.ftl"
    for b in (f"{lc}/no.ftl", lc, "", f"Xx/{some}", f"{lc}x-/{some}", f"{lc}/sub/more/{some}", f"../{lc}/{some}"):
        found = paths.find_reference(b)
        if found is not None and norm(found[0]) not in refs - {sorted(refs)[0]}:
            raise Violation(f"find_reference({b!r}) = {found}\n{info}")


def check_missing(c, ctx):
    kind, names, ref_root = c
    top = os.path.realpath(ctx.fresh_dir())
    for n in names:
        put(top, n)
    ok = any(n.split("/")[0] in ("en", "en-US", "en_us") and n.endswith(EXTS) and not n.split("/")[-1].startswith(".") for n in names)
    ok_root = any(n.endswith(EXTS) and not n.split("/")[-1].startswith(".") and not n.startswith(".") for n in names)
    try:
        paths = L10nDiscoverPaths(*([top, "."] if ref_root else [top] if kind else [join(top, "none")]))
    except MissingSourceDirectoryError:
        if (not kind and not ref_root) or ok or (ref_root and ok_root):
            raise Violation(f"no source directory found in {names}") from None
    except ValueError:
        if kind or ref_root:
            raise
    else:
        if not (ok or (ref_root and ok_root)):
            raise Violation(f"{paths.ref_root} found in {names}")
        ctx.nontrivial()


SUBS = [
    Sub("layout", case, check_layout, 5000),
    Sub(
        "missing",
        st.tuples(
            st.booleans(),
            st.lists(st.sampled_from(["en/a.ftl", "en-US/x.txt", "en/.a.ftl", "fi/a.ftl", "a.ini", "en_us/m.pot", "de/x", ".git/a.ftl", "EN/a.ftl", "en-GB/a.ftl"]), max_size=3, unique=True),
            st.booleans(),
        ),
        check_missing,
        600,
    ),
]
