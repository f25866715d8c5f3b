"""
C20: Flattened Fluent select expressions, against an evaluator of the nested originals.

Every pattern of adjacent and nested select expressions up to the depth, over a pool of selectors
and variant lists, is parsed into a flat message, which is written as Fluent again. For every value
of the selectors (strings, and numbers with each plural category), the nested original, the flat
variants and the text written from them choose the same text.
"""

from __future__ import annotations

from itertools import product

from core import Bad, Ctx, T, need, same, words
from util import *
import ftl
from ftl import ast

from moz.l10n.formats.fluent import fluent_parse, fluent_parse_message, fluent_serialize, fluent_serialize_message

F = Format.fluent

SELECTORS = ["$x", "$y", "$x_1", "$sel_1", "FN()", "FN($x)", "NUMBER($x, a: 1)", "-t.a", "-t.a(b: 1)", "\"a\"", "1", "NUMBER($y)"]
KEYS = {  # with the default last or first; numbers come before categories
    "ab": ["a", "*b"], "ba": ["b", "*a"], "b": ["*b"], "*ab": ["*a", "b"], "acb": ["a", "c", "*b"], "az": ["a", "*z"],
    "1o": ["1", "*other"], "eo": ["one", "*other"], "1eo": ["1", "one", "*other"], "0o": ["0", "1", "*2"], "1.0": ["1.0", "*other"],
    "2eo": ["2", "one", "*few"], "oe": ["other", "*one"], "1a": ["1", "a", "*b"],
    "10": ["10", "-0.50", "*1"], "no2": ["1", "*2", "one"], "cats": ["zero", "two", "many", "*few"],
}


class Source:
    """Writes a case, with a distinct text for each variant."""

    def __init__(self) -> None:
        self.n = 0

    def pattern(self, parts: list) -> str:
        out = ""
        for p in parts:
            if isinstance(p, str):
                out += p
            else:
                out += self.select(*p)
        return out

    def select(self, selector: str, keys: str, subs: dict | None = None) -> str:
        out = f"{{ {selector} ->\n"
        for i, k in enumerate(KEYS[keys]):
            self.n += 1
            sub = self.pattern((subs or {}).get(str(i), []))
            d = k.startswith("*")
            out += f"   {'*' if d else ' '}[{k.lstrip('*')}] <{self.n}{sub}\n"
        return out + " }"


def rank(value, name: str, numeric: bool) -> int:
    """How well a value matches a key: exactly, by category, or not at all."""
    if isinstance(value, str):
        return 2 if not numeric and value == name else 0
    num, cat = value
    if numeric:
        return 2 if float(name) == num else 0
    return 1 if name == cat else 0


def is_num(s: str) -> bool:
    return s[0] in "-0123456789"


def key_of(form) -> object:
    """What the value of a selector depends on."""
    return ("var", form[2][0][1]) if form[:2] == ("fn", "NUMBER") and not form[3] and form[2] else form


def chooser(env):
    def choose(sel: ast.SelectExpression) -> ast.Variant:
        value = env(key_of(ftl.inline(sel.selector)))
        for v in sel.variants:  # the first match, or the default
            if isinstance(v.key, ast.NumberLiteral):
                if rank(value, v.key.value, True):
                    return v
            elif rank(value, v.key.name, False):
                return v
        return next(v for v in sel.variants if v.default)

    return choose


def flat_choice(msg: SM, env) -> list:
    """Best match: the first selector counts most; exact keys before categories before the catch-all."""
    values = []
    for s in msg.selectors:
        e = msg.declarations[s.name]
        if isinstance(e.arg, V) and e.attributes.get("fluent-fn") is None:
            values.append(env(("var", e.arg.name)))
        else:
            f = ftl.expr(e, None)
            values.append(env(f if isinstance(f, str) else key_of(f)))
    best = None
    for keys, pattern in msg.variants.items():
        need(len(keys) == len(values), "keys", keys)
        ranks = []
        for v, k in zip(values, keys):
            r = -1 if isinstance(k, CK) else rank(v, k, is_num(k))
            if r == 0:
                break
            ranks.append(r)
        else:
            if best is None or ranks > best[0]:
                best = (ranks, pattern)
    need(best, "no variant for", values)
    return ftl.msg_segs(best[1])


def collect(pattern, sels: dict) -> None:
    for e in pattern.elements:
        e = ftl.unplace(e)
        if isinstance(e, ast.SelectExpression):
            names = sels.setdefault(key_of(ftl.inline(e.selector)), set())
            for v in e.variants:
                names.add(v.key.value if isinstance(v.key, ast.NumberLiteral) else v.key.name)
                collect(v.value, sels)


def values_for(form, names: set) -> list:
    if isinstance(form, str):
        return [form]
    if form[0] == "number":
        return [(float(form[1]), c) for c in ("one", "other")]
    out: list = [n for n in sorted(names) if not is_num(n)] + ["zz"]
    nums = sorted({float(n) for n in names if is_num(n)}) + [7.0]
    cats = [c for c in ("one", "few", "other") if c in names] + ["many"]
    if form == ("var", "x_1") or len(out) + len(nums) < 2:
        nums = nums[:1]
    out += [(n, c) for n in nums for c in cats]
    return out


def judge(parts: list) -> str:
    src = "m = " + Source().pattern(parts)
    tree = ftl.parse_ast(src)
    assert not ftl.junk(tree), src
    orig = tree.body[0].value
    msg = fluent_parse(src).sections[0].entries[0].value
    if isinstance(msg, PM):
        same("pattern", ftl.msg_segs(msg.pattern), ftl.segs(orig))
        return "no selectors"
    need(isinstance(msg, SM), "message", msg)
    need(len({s.name for s in msg.selectors}) == len(msg.selectors) == len(msg.declarations), "selectors", msg.selectors, msg.declarations)
    for keys in msg.variants:
        need(len(keys) == len(msg.selectors), "keys", keys)
    for s, name in zip(msg.selectors, zip(*msg.variants)):
        fn = msg.declarations[s.name].function
        if fn in ("number", "string") and isinstance(msg.declarations[s.name].arg, V) and not msg.declarations[s.name].attributes:
            # Plural categories are only selected on for numbers
            plural = all((k.value if isinstance(k, CK) else k) in ("zero", "one", "two", "few", "many", "other", None)
                         or is_num(str(k)) for k in name)
            need(fn == "number" or not plural, "selector is not a number", msg.declarations, [str(k) for k in name])
    need(any(all(isinstance(k, CK) for k in keys) for keys in msg.variants), "no default")
    before = dump(msg)
    out = "".join(fluent_serialize(Resource(F, [S((), [E(("m",), msg)])])))
    same("message after serializing", dump(msg), before)
    tree = ftl.parse_ast(out)
    need(not ftl.junk(tree), "syntax error in", out)
    written = tree.body[0].value
    m2 = fluent_serialize_message(msg)
    same("parsed message", dump(fluent_parse_message(m2)), dump(fluent_parse(out).sections[0].entries[0].value))
    sels: dict = {}
    collect(orig, sels)
    forms = list(sels)
    n = 0
    for vals in product(*(values_for(f, sels[f]) for f in forms)):
        env = dict(zip(forms, vals)).__getitem__
        exp = ftl.segs(orig, chooser(env))
        got = flat_choice(msg, env)
        if got != exp:
            raise Bad(f"flat variants for {dict(zip(forms, vals))}: got {got!r}, expected {exp!r} from {src} as {msg.variants}")
        got = ftl.segs(written, chooser(env))
        if got != exp:
            raise Bad(f"written for {dict(zip(forms, vals))}: got {got!r}, expected {exp!r} from {src} as {out}")
        n += 1
    T.trace(3)
    T.state(n)
    return f"{len(msg.selectors)} selectors"


def adjacent(sels, keys, depth):
    for w in words([(s, k) for s in sels for k in keys], depth, 1):
        yield [x for s, k in w for x in ("t", [s, k])]


def nested(sels, keys, more: bool):
    """An outer select, with selects in its first and last variants, and one more before or after it."""
    opts = [None, *([s, k] for s in sels for k in keys)]
    for s in sels:
        for k in keys:
            for a in opts:
                for b in opts:
                    if not a and not b:
                        continue
                    subs = {}
                    if b:
                        subs[str(len(KEYS[k]) - 1)] = [b, "."]
                    if a:
                        subs["0"] = ["(", a]
                    yield [[s, k, subs]]
                    if more:
                        for c in opts[1:]:
                            yield [[s, k, subs], c]
                            yield ["-", c, "-", [s, k, subs]]


def deep(sels, keys):
    """Three levels, each below the first or the last variant."""
    pool = [(s, k) for s in sels for k in keys]
    for (s1, k1), (s2, k2), (s3, k3) in product(pool, repeat=3):
        for i, j in product((0, -1), repeat=2):
            inner = [s2, k2, {str(range(len(KEYS[k2]))[j]): [[s3, k3]]}]
            yield [[s1, k1, {str(range(len(KEYS[k1]))[i]): [inner, "!"]}]]


def run(ctx: Ctx) -> None:
    some = ["ab", "ba", "b", "*ab", "acb", "1o", "eo", "1eo", "1a"]
    ctx.space("single", lambda: adjacent(SELECTORS, KEYS, 1), judge)
    ctx.space("pairs", lambda: adjacent(ctx.pick([s for s in SELECTORS if s not in ("1", "\"a\"", "NUMBER($y)", "$sel_1")], SELECTORS), KEYS, 2), judge, note="all pairs of adjacent selects")
    ctx.space("triples", lambda: adjacent(["$x", "$y"], some, 3), judge)
    ctx.space("names", lambda: adjacent(["$x", "$x_1", "FN($x)", "NUMBER($x, a: 1)", "$sel_1", "FN()"], ["ab", "eo"], ctx.pick(3, 4)), judge)
    ctx.space("nested", lambda: nested(["$x", "$y"], ctx.pick(["ab", "acb", "1o", "eo"], some), True), judge)
    ctx.space("nested-all", lambda: nested(*ctx.pick((["$x", "$y"], ["ab", "*ab", "az", "1eo", "eo", "0o", "oe", "1.0"]), (["$x", "$y", "FN()"], KEYS)), False), judge)
    ctx.space("deep", lambda: deep(["$x", "$y"], ctx.pick(["ab", "acb", "1o", "1eo", "oe"], some)), judge)
    if not ctx.quick:
        ctx.space("quads", lambda: adjacent(["$x", "$y"], ["ab", "b", "acb", "1o", "eo", "1eo"], 4), judge)
    ctx.assume("In each select expression, numbers are listed before plural categories, as matters only for them.",
               "Numbers get every combination of value and plural category, as if in some locale.")
