"""P23: Android locale qualifiers."""

from __future__ import annotations

import re
import string

from hypothesis import strategies as st

from lib.harness import Sub, Violation
from moz.l10n.paths import get_android_locale, parse_android_locale

PROPERTY = "P23"
RULE = (
    "locale: language (with every legacy code, and all two- and three-letter ones), optional script, region (letters or digits), variants and extensions in BCP 47 case; expected qualifier"
    " from a table of the platform's rules, and back; non-trivial = a subtag besides a plain language. qualifier: strings near the qualifier syntax: the value given for valid ones"
    " turns back into the same qualifier (after the canonical form), and others give None; non-trivial = a qualifier with a region or b+ form."
)
ASSUMPTIONS = ["locale codes are in canonical case, and use the current language codes he, id and yi"]

LEGACY = {"he": "iw", "id": "in", "yi": "ji"}
lang = st.one_of(
    st.sampled_from(["he", "id", "yi", "fr", "sr", "zh", "en", "fil", "in", "ji", "iw", "b", "abcd", "r", "hei", "idx"]),
    st.text(string.ascii_lowercase, min_size=2, max_size=3),
)
script = st.sampled_from(["Latn", "Cyrl", "Hant", "Hans"])
region = st.one_of(st.sampled_from(["GB", "IL", "HK", "419", "001"]), st.text(string.ascii_uppercase, min_size=2, max_size=2))
tail = st.sampled_from(["valencia", "rozaj", "1994", "mac", "u-ca-buddhist", "x-foo", "arevela"])
opt = lambda s: st.one_of(st.just(""), s)  # noqa: E731


def check_locale(case, ctx):
    lc, sc, rg, tl = case
    if lc in LEGACY.values() or not 2 <= len(lc) <= 3:
        return
    locale = "-".join(x for x in case if x)
    lq = LEGACY.get(lc, lc)
    rest = [y for x in (sc, rg, tl) if x for y in x.split("-")]
    if not rest:
        want = lq
    elif not sc and not tl and rg.isalpha():
        want = f"{lq}-r{rg}"
    else:
        want = "+".join(["b", lq, *rest])
    if rest:
        ctx.nontrivial()
    got = get_android_locale(locale)
    if got != want:
        raise Violation(f"{locale}: expected {want}, got {got}")
    back = parse_android_locale(want)
    if back != locale:
        raise Violation(f"{want}: expected {locale}, got {back}")
    ctx.label("legacy" if lc in LEGACY else "plain", "b+" if want.startswith("b+") else "legacy form")


VALID = re.compile(r"[a-z]{2,3}(-r[A-Z]{2})?|b\+[A-Za-z]{2,8}(\+[A-Za-z0-9]{1,8})*")
near = st.one_of(
    st.builds(lambda p, a, r: p + a + r, st.sampled_from(["", "", "b+", "b", "+", "B+"]), lang, st.sampled_from(["", "-rGB", "-rgb", "-GB", "-r", "-rGBR", "-r41", "+Latn", "+", "+Latn+", "++", "_GB", "-rGB\n", "\n", "+toolongsubtag", "+é", " "])),
    st.lists(st.sampled_from(["b+", "b", "+", "-r", "r", "en", "iw", "GB", "Latn", "-", "1", "\n", "é", ""]), max_size=5).map("".join),
    st.text(max_size=5),
)


def check_qualifier(q, ctx):
    got = parse_android_locale(q)
    if not VALID.fullmatch(q):
        if got is not None:
            raise Violation(f"{q!r} is not a qualifier, got {got!r}")
        return
    if not isinstance(got, str):
        raise Violation(f"{q!r} is a qualifier, got {got!r}")
    ctx.label("valid")
    if not q.isalpha():
        ctx.nontrivial()
    parts = q[2:].split("+") if q.startswith("b+") else q.split("-r")
    parts[0] = {v: k for k, v in LEGACY.items()}.get(parts[0], parts[0])
    if got != "-".join(parts):
        raise Violation(f"{q!r}: expected {'-'.join(parts)}, got {got!r}")
    again = parse_android_locale(get_android_locale(got))
    if again != got and (len(parts[0]) <= 3 and parts[0].islower()):
        raise Violation(f"{q!r} is {got!r}, which comes back as {again!r}")


SUBS = [
    Sub("locale", st.tuples(lang, opt(script), opt(region), opt(tail)), check_locale, 6000),
    Sub("qualifier", near, check_qualifier, 12000),
]
