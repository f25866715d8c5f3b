"""
C19: normalizing a message preserves what it formats to.

Every message of the bounds is normalized and compared with a reference: the declarations reachable from the uses are found as a
least fixpoint over the dependency graph, and the text is joined run by run.  Independently of that, the message is expanded
symbolically before and after, with each use of a declared variable replaced by what it stands for and external variables left free;
equal expansions format alike for every choice of variables.  All declaration graphs on up to four (thorough: five) names are enumerated,
in every order, with every set of uses, and every short sequence of pattern parts.
"""

from __future__ import annotations

import itertools
from copy import deepcopy

from core import Ctx, T, need, same, subsets, words
from util import *


def joined(pattern: list) -> list:
    out: list = []
    for el in pattern:
        if isinstance(el, str) and out and isinstance(out[-1], str):
            out[-1] += el
        else:
            out.append(el)
    return [el for el in out if el != ""]


def refs(x) -> set[str]:
    vals = [*x.options.values()]
    if isinstance(x, Ex):
        vals.append(x.arg)
    return {v.name for v in vals if isinstance(v, V)}


def patterns(msg) -> list[list]:
    return [msg.pattern] if isinstance(msg, PM) else list(msg.variants.values())


def needed(msg) -> set[str]:
    use = {r for p in patterns(msg) for el in p if not isinstance(el, str) for r in refs(el)}
    if isinstance(msg, SM):
        use |= {s.name for s in msg.selectors}
    while True:
        more = use | {r for n in use if n in msg.declarations for r in refs(msg.declarations[n])}
        if more == use:
            return use
        use = more


def expand(decls: dict, v, seen: tuple = ()):
    """What something stands for, as a tree over external variables."""
    if isinstance(v, V):
        if v.name in seen:  # the value given for an input, or a cycle
            return ("external", v.name, seen[0] == v.name)
        return ("declared", expand(decls, decls[v.name], (*seen, v.name))) if v.name in decls else ("external", v.name)
    if isinstance(v, (Ex, M)):
        opts = tuple((k, expand(decls, o, seen)) for k, o in v.options.items())
        head = (expand(decls, v.arg, seen), v.function) if isinstance(v, Ex) else (v.kind, v.name)
        return (type(v).__name__, head, opts, tuple(v.attributes.items()))
    return v


def meaning(msg):
    d = msg.declarations

    def text(p):
        return tuple(expand(d, el) for el in joined(p))

    if isinstance(msg, PM):
        return text(msg.pattern)
    return tuple(expand(d, s) for s in msg.selectors), tuple((dump_keys(ks), text(p)) for ks, p in msg.variants.items())


def dump_keys(ks):
    return tuple(("*", k.value) if isinstance(k, CK) else k for k in ks)


def check(msg, deep: bool = True) -> str:
    orig = deepcopy(msg) if deep else None
    use = needed(msg)
    decls = tuple((k, dump(v)) for k, v in msg.declarations.items() if k in use)
    pats = [[dump(el) for el in joined(p)] for p in patterns(msg)]
    before = meaning(msg) if deep else None
    dropped = len(msg.declarations) - len(decls)
    exp_sel = (msg.selectors, [dump_keys(k) for k in msg.variants]) if isinstance(msg, SM) else None

    res = msg.normalize()
    need(res is msg, "normalize() returns something else than the message", res)
    same("the declarations", tuple((k, dump(v)) for k, v in msg.declarations.items()), decls, "of", orig)
    same("the patterns", [[dump(el) for el in p] for p in patterns(msg)], pats, "of", orig)
    if exp_sel:
        same("selectors and keys", (msg.selectors, [dump_keys(k) for k in msg.variants]), exp_sel, "of", orig)
    if deep:
        same("what the message formats to", meaning(msg), before, "of", orig)
    d = dump(msg)
    msg.normalize()
    same("normalized again", dump(msg), d, "of", orig)
    T.trace(2)
    return f"{min(dropped, 3)} dropped"


# ---- declaration graphs


def decl(code: str):
    """A declaration: its argument, and then any variables that are options."""
    arg, opts = code[0], code[1:]
    return Ex(None if arg == "-" else "t" if arg == "t" else V(arg), "f", {f"o{i}": V(o) for i, o in enumerate(opts)} | {"z": "x"})


def judge_graph(c) -> str:
    # codes of the declarations, in name order; every order and set of uses
    codes, orders = c
    names = "xyzuw"[: len(codes)]
    out = set()
    perms = list(itertools.permutations(names)) if orders else [names]
    for i, order in enumerate(perms):
        for use in subsets(names):
            decls = {n: decl(codes[names.index(n)]) for n in order}
            # the uses are at different kinds of places
            kind = (i + len(use)) % 4
            if kind == 0:
                msg = PM([Ex(V(n)) for n in use], decls)
            elif kind == 1:
                msg = PM(["a", M("open", "b", {str(k): V(n) for k, n in enumerate(use)})], decls)
            elif kind == 2:
                msg = PM([Ex("t", "f", {str(k): V(n) for k, n in enumerate(use)}), "a"], decls)
            else:
                sel = use[:1]
                msg = SM(decls, tuple(V(n) for n in sel), {tuple(CK() for _ in sel): [Ex(V(n)) for n in use[1:]]})
            out.add(check(msg))
            T.state(1)
    return "/".join(sorted(out))


def gen_wide(n: int):
    names = "xyzuw"[:n]
    one = [a + o for a in "t" + names for o in ["", *names]]
    return ([list(codes), 1] for codes in itertools.product(one, repeat=n))


def gen_args(n: int, order: int):
    names = "xyzuw"[:n]
    return ([list(codes), order] for codes in itertools.product(["t", *names], repeat=n))


def gen_opts(n: int):
    names = "xyzuw"[:n]
    opts = ["".join(s) for s in subsets(names)]
    return ([list(codes), 0] for codes in itertools.product([a + o for a in "-tq" for o in opts], repeat=n))


# ---- patterns

PARTS = {
    "0": lambda: "", "a": lambda: "a", "s": lambda: " ", "n": lambda: "\n", "x": lambda: Ex(V("x")), "l": lambda: Ex(""), "q": lambda: Ex(None, "f", {"o": V("y")}, {"source": ""}),
    "m": lambda: M("standalone", "m", {"o": V("z"), "p": ""}, {"@": True}),
}


def judge_pattern(c) -> str:
    out = set()
    for last in [""] if c[1] else ["", *PARTS]:
        pat = [PARTS[p]() for p in c[0] + last]
        decls = {"z": Ex("1", "f"), "y": Ex(V("z")), "x": Ex(V("x"), "g"), "u": Ex(V("x"))}
        out.add(check(PM(pat, decls)))
    return "/".join(sorted(out))


def judge_select(c) -> str:
    sels, pats, keys = c
    ks = [("1",), ("",), (CK(),), (CK("other"),)] if len(sels) == 1 else [tuple("ab"), ("a", CK("b")), (CK("x"), "b"), (CK(), CK())]
    ks = ks[:2] + ks[2 + keys :][:1]
    decls = {"u": Ex(V("x")), "z": Ex("1", "f"), "y": Ex(V("z")), "x": Ex(V("x"), "g")}
    return check(SM(decls, tuple(V(s) for s in sels), {k: [PARTS[p]() for p in pat] for k, pat in zip(ks, pats)}))


def judge_chain(c) -> str:
    n, back, use = c
    order = range(n) if back else range(n - 1, -1, -1)
    decls = {f"v{i}": Ex(V(f"v{i + 1}") if i + 1 < n else "end", "f") for i in order}
    return check(PM([Ex(V(f"v{n * use // 4}"))], decls), deep=False)


def run(ctx: Ctx) -> None:
    ctx.space("graphs with options", lambda: (c for n in (1, 2, 3) for c in gen_wide(n)), judge_graph, note="an argument and an option of up to three declarations, in every order, with every set of uses")
    ctx.space("graphs of arguments", lambda: gen_args(4, 1), judge_graph, note="arguments of four declarations, in every order")
    if not ctx.quick:
        ctx.space("five arguments", lambda: gen_args(5, 1), judge_graph, note="arguments of five declarations, in every order")
    ctx.space("graphs of options", lambda: gen_opts(3), judge_graph, note="any options of three declarations")
    n = ctx.pick(4, 6)
    ctx.space("patterns", lambda: (["".join(w), len(w) < n] for w in words(PARTS, n)), judge_pattern, note="every sequence of pattern parts")
    pats = ["".join(w) for w in words("0amq", 2)]
    ctx.space("select", lambda: ([s, list(p), k] for s in ["x", "y", "xy", "zu", "w", "xx"] for p in itertools.product(pats, repeat=3) for k in (0, 1)), judge_select, note="every pattern of three variants")
    ctx.space("chains", lambda: ([n, b, u] for n in [1, 2, 10, 300, 900, 1500] for b in (0, 1) for u in range(4)), judge_chain, note="long chains of declarations")
    ctx.assume("Declarations used only by one another are unused")
