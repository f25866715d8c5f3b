"""
C24: Android locale codes map to BCP 47 codes and back without collision.

Every language of two or three letters with some of each kind of other subtag, every region and (sampled by letters) script with
some languages, and every combination of script, region, variants, extensions and private use up to the bound is converted to a code.  It must have one
of the forms that Android defines for resource directories, and be read back as the same locale; so no two locales share a code.
Every short string over the characters that matter is read as a code: it is either rejected, or it is one of the forms that Android defines and names
the locale with the same subtags.
"""

from __future__ import annotations

import itertools
import string

from core import Bad, Ctx, T, need, same, words
from moz.l10n.paths import get_android_locale, parse_android_locale

# Java's legacy names of languages, as used by Android
LEGACY = {"he": "iw", "id": "in", "yi": "ji"}
CURRENT = {v: k for k, v in LEGACY.items()}
LOWER = string.ascii_lowercase
UPPER = string.ascii_uppercase
ALNUM = set(string.ascii_letters + string.digits)


def is_lang(s: str) -> bool:
    return len(s) in (2, 3) and all(c in LOWER for c in s)


def encode(locale: str) -> str:
    lang, *rest = locale.split("-")
    lang = LEGACY.get(lang, lang)
    if not rest:
        return lang
    if len(rest) == 1 and len(rest[0]) == 2 and rest[0][0] in UPPER and rest[0][1] in UPPER:
        return f"{lang}-r{rest[0]}"
    return "+".join(["b", lang, *rest])


def judge(subtags) -> str:
    locale = "-".join(subtags)
    code = get_android_locale(locale)
    same("code", code, encode(locale))
    same(f"locale of {code}", parse_android_locale(code), locale)
    same("code again", get_android_locale(parse_android_locale(code)), code)
    T.trace(4)
    return code[:2] if code[:2] == "b+" else "-r" if "-" in code else "language"


def judge_code(code: str) -> str:
    got = parse_android_locale(code)
    T.trace(1)
    if code.startswith("b+"):
        lang, *rest = code[2:].split("+")
        ok = all(0 < len(s) <= 8 and set(s) <= ALNUM for s in [lang, *rest]) and len(lang) >= 2 and lang.isalpha()
        if not ok:
            same(f"locale of {code!r}", got, None)
            return "rejected b+"
        if not is_lang(lang):
            return "unusual language"
        same(f"locale of {code!r}", got, "-".join([CURRENT.get(lang, lang), *rest]))
        return "b+"
    lang, dash, region = code.partition("-")
    ok = is_lang(lang) and (not dash or (len(region) == 3 and region[0] == "r" and region[1] in UPPER and region[2] in UPPER))
    want = None
    if ok:
        want = CURRENT.get(lang, lang) + (f"-{region[1:]}" if dash else "")
    same(f"locale of {code!r}", got, want)
    if ok:
        same(f"code of {want}", get_android_locale(want), LEGACY.get(lang, lang) + code[len(lang) :] if lang in LEGACY else code)
        return "accepted"
    return "rejected"


def judge_pair(ls) -> str:
    a, b = ls
    if a != b:
        need(get_android_locale(a) != get_android_locale(b), f"{a} and {b} have the same code {get_android_locale(a)}")
    T.trace(2)
    return "same" if a == b else "distinct"


def langs():
    for n in (2, 3):
        for ls in itertools.product(LOWER, repeat=n):
            s = "".join(ls)
            if s not in CURRENT:  # not themselves current language codes
                yield s


REST = [(), ("GB",), ("419",), ("Latn",), ("Latn", "RS"), ("Latn", "419"), ("valencia",), ("1996",), ("DE", "1996"), ("rGB",), ("RGB",), ("x", "a"), ("u", "ca", "gregory")]
SOME = ["en", "fil", "he", "id", "yi", "rg", "br", "ra", "heb", "ini", "jib", "bb"]


def run(ctx: Ctx) -> None:
    ctx.assume("languages are of two or three lower case letters, and none is one of the codes iw, in and ji that Android uses for he, id and yi; regions and scripts are in the usual case")
    ctx.space("languages", lambda: ((lang, *rest) for lang in langs() for rest in REST[: ctx.pick(5, 13)]), judge, note="every language of 2 or 3 letters, with each kind of other subtags")
    ctx.space(
        "regions",
        lambda: (
            (lang, *script, *region, *var)
            for lang in SOME
            for script in ((), ("Latn",), ("Hant",), ("Rabc",))
            for region in itertools.chain((("".join(r),) for r in itertools.product(UPPER, repeat=2)), ((f"{i:03}",) for i in range(1000)), [()])
            for var in ((), ("valencia",), ("1996", "abcde"))
        ),
        judge,
        note="every region, with some languages, scripts and variants",
    )
    ctx.space(
        "scripts",
        lambda: ((lang, "".join((u, *ls)), *rest) for lang in ctx.pick(["sr"], ["sr", "he", "rab"]) for u in UPPER for ls in itertools.product(ctx.pick("abhirnt", LOWER), repeat=3) for rest in ((), ("RS",))),
        judge,
        note="every script, over some letters in quick",
    )
    parts = ["Latn", "GB", "419", "valencia", "1996", "a", "x", "u", "r", "b", "iw", "he", "rGB", "en"]
    ctx.space("subtags", lambda: ((lang, *rest) for lang in SOME for n in range(ctx.pick(4, 5)) for rest in itertools.product(parts, repeat=n)), judge, note="every sequence of subtags, well-formed together or not")
    base = ["en", "fr", "he", "id", "in-GB", "yi", "iw-Latn", "he-IL", "id-ID", "en-GB", "en-gb", "en-rGB", "en-Latn", "en-Latn-GB", "en-LatnGB", "sr-Latn", "b-en", "b-en-GB", "en-419", "en-US", "en-u-GB", "es", "fil", "fil-PH"]
    ctx.space("pairs", lambda: itertools.product(base, repeat=2), judge_pair, note="every pair of some similar locales")
    alpha = ["b", "+", "e", "n", "r", "R", "G", "-", "4", "_", " ", "", "iw", "é", "\n", "１"]
    ctx.space("codes", lambda: map("".join, words([a for a in alpha if a], ctx.pick(4, 5))), judge_code, note="every short string read as a code")
    toks = ["b+", "en", "iw", "in", "ji", "he", "-r", "-", "GB", "IL", "+", "Latn", "x", "\n", "abcdefghi", "EN", ""]
    ctx.space("code parts", lambda: map("".join, words([a for a in toks if a], ctx.pick(5, 6))), judge_code, note="every sequence of parts of codes read as a code")
