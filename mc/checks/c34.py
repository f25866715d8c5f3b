"""
C34: parsing and serializing have no side effects.

Operations parse, serialize, compare, convert and add resources and messages of every format, with each option, valid and not, on one pool of shared arguments.  All sequences of
operations are run, each in a process of its own; all interleavings of serializers that are read in turns; and, for each line of the code that an operation runs, another
operation there, and a failure there.  What an operation gives must be what it gives alone in a new process, under any hash seed, locale and working directory; the pool must stay
as it is to the last detail; and no mutable object may be shared by results, the pool, or entries of one resource.
Assumed: entries that are added to a resource are shared by it, as documented; the parser of gettext reads a source that is the name of a file from there.
"""

from __future__ import annotations

import itertools
import json
import logging
import math
import os
import re
import subprocess
import sys
from copy import deepcopy
from dataclasses import fields, is_dataclass
from enum import Enum

from core import Bad, Ctx, T, need, same, words
from fluent.syntax import FluentParser
from moz.l10n.formats import Format, detect_format
from moz.l10n.formats.fluent import fluent_astify, fluent_parse
from moz.l10n.formats.mf2 import mf2_from_json, mf2_to_json
from moz.l10n.message import entry_from_json, entry_to_json, message_from_json, message_to_json, parse_message, serialize_message
from moz.l10n.resource import add_entries, l10n_equal, parse_resource, serialize_resource
from util import PM, SM, CK, E, Ex, M, Md, S, V, Resource, Comment

logging.disable(logging.CRITICAL)

X12 = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">'
SRC = {
    "properties": "# R\n\n# c\na = A\\\n  %s\n! d\nb = \\u00e9\n",
    "dtd": '<!-- R -->\n\n<!-- c -->\n<!ENTITY a "A &amp; \'b\'">\n<!ENTITY % p SYSTEM "x">\n%p;\n',
    "inc": "# R\n\n#filter emptyLines\n\n# c\n#define a A\n#define b\n",
    "ini": "# R\n\n[S]\n# c\na=A\nb=B\n  C\n",
    "fluent": "### R\n\n# c\na = A { $x }\n    .t = T { NUMBER($n, a: 1) }\n## G\nb = { $n ->\n    [one] O\n   *[other] { $m ->\n        [x] X\n       *[y] { -t }\n    }\n }\n",
    "gettext": '# R\nmsgid ""\nmsgstr ""\n"Language: x\\n"\n"Plural-Forms: nplurals=2; plural=n != 1;\\n"\n\n# c\n#. e\n#: f:1\n#, fuzzy\nmsgctxt "k"\nmsgid "a"\nmsgid_plural "as"\nmsgstr[0] "A"\nmsgstr[1] "AA"\n\n#~ msgid "o"\n#~ msgstr "O"\n',
    "plain_json": '{"a": {"b": "B", "c": ""}, "d": "D"}',
    "webext": '{"a": {"message": "A $X$ $1 $$ $x$", "description": "c", "placeholders": {"x": {"content": "$2", "example": "e"}}}}',
    "android": """<?xml version="1.0" encoding="utf-8"?>
<!DOCTYPE resources [<!ENTITY e "E">]>
<!-- R -->

<resources xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2">
  <!-- c -->
  <string name="a" translatable="false">A <b>b</b> %1$s <xliff:g id="i" example="x">%d</xliff:g> &e;</string>
  <string-array name="s" m="n"><item>1</item><item>\\n</item></string-array>
  <plurals name="p"><item quantity="one">O %d</item><item quantity="other">X</item></plurals>
</resources>
""",
    "xliff": X12 + '<!-- R --><file original="f" source-language="en" datatype="x"><header><note>h</note></header><body><group id="g"><trans-unit id="a" xml:space="preserve"><source>A <g id="1">b</g><x id="2"/></source><target state="final">B</target><note>c</note></trans-unit></group></body></file></xliff>',
    "xcode": X12 + '<file original="L.stringsdict" source-language="en" datatype="plaintext"><header><tool tool-id="com.apple.dt.xcode" tool-name="Xcode" tool-version="1" build-num="1"/></header><body>'
    + "".join(f'<trans-unit id="/k:dict/{i}:dict/:string"><source>{s}</source><target>{s}</target></trans-unit>' for i, s in (("NSStringLocalizedFormatKey", "%#@v@"), ("v:dict/one", "%d o"), ("v:dict/other", "%d x")))
    + '<trans-unit id="m"><source>%@ y</source><target>%1$@</target></trans-unit></body></file></xliff>',
}
INVALID = {
    "dtd": "<!ENTITY a>", "inc": "a", "ini": "a", "fluent": "junk", "plain_json": '{"a": 1}', "webext": '{"a": {"message": "$X$"}}', "android": "<resources><string>a</string></resources>",
    "xliff": X12 + "<file/></xliff>", "gettext": 'msgid "a', "properties": "a=\\ud800\n\\",
}
MESSAGES = {
    "properties": "a %s \\n", "gettext": "a %1$s %%", "fluent": "{ $n ->\n [one] O\n *[other] { a.b }\n}", "android": "a <b>b</b> %s", "webext": "a $X$ $1", "xliff": "a <g id='1'>b</g>",
    "mf2": ".local $o = {exact}\n.input {$n :number select=$o @a=b}\n.match $n\none {{a {#b x=$o @c}{$n}{/b}}}\n* {{b}}", "mf2p": ".local $x = {1 :f o=|p|}\n{{a {$x @source=|s|} {#i @y /}}}",
}
BAD_MESSAGES = {"fluent": "{", "android": "<b>", "webext": "$Y$", "xliff": "<g>", "mf2": "{{"}


def fmt(name: str) -> Format:
    return Format[{"xcode": "xliff", "mf2p": "mf2"}.get(name, name)]


PHS = {"X": {"content": "$2", "example": "e"}}


def make_pool() -> dict:
    pool: dict = {"res": {k: parse_resource(fmt(k), s) for k, s in SRC.items()}, "phs": deepcopy(PHS), "plurals": ["one", "other"]}
    pool["msg"] = {k: parse_message(fmt(k), s, webext_placeholders=pool["phs"] and deepcopy(PHS)) for k, s in MESSAGES.items()}
    pool["json"] = {k: message_to_json(m) for k, m in pool["msg"].items()}
    pool["mf2"] = {k: mf2_to_json(m) for k, m in pool["msg"].items()}
    pool["entry"] = E(("a", "b.c"), PM(["a", Ex(V("x"), attributes={"source": "s"})]), {"p": SM({"n": Ex(V("n"), "number")}, (V("n"),), {("one",): ["o"], (CK("other"),): ["x"]})}, "c", [Md("m", "v")])
    pool["ejson"] = entry_to_json(pool["entry"])
    pool["ast"] = FluentParser().parse(SRC["fluent"])
    pool["text"] = Resource(None, [S((), [E(("a",), "A"), Comment("c"), E(("b",), "é{")], comment="s"), S(("t",), [E(("a",), "T")])], "R")
    pool["meta"] = Resource(None, [S((), [E(("a",), PM(["A"]), meta=[Md("k", "v")])], meta=[Md("s", "t")])], meta=[Md("r", "u")])
    pool["flat"] = Resource(None, [S((), [E(("a",), "A"), E(("b",), "é")])])
    pool["plural"] = parse_resource(Format.gettext, SRC["gettext"], gettext_plurals=["one", "other"])
    pool = deepcopy(pool)  # without anything shared by results
    for k in ("plain", "hash"):
        pool["pattern " + k] = ["a", Ex("b"), "", "#", "c"]
    return pool


def operations() -> dict:
    ops: dict = {}

    def op(name):
        def add(f):
            ops[name] = f
            return f
        return add

    OPTS = {"gettext": {"gettext_plurals": "plurals"}, "android": {"android_ascii_spaces": True, "android_literal_quotes": True}, "properties": {"properties_printf_placeholders": True}, "xliff": {"xliff_source_entries": True}}
    for k, s in SRC.items():
        ops[f"parse {k}"] = lambda p, k=k, s=s: parse_resource(fmt(k), s)
        if k in ("xliff", "gettext", "android", "properties"):
            ops[f"parse {k} with options"] = lambda p, k=k, s=s: parse_resource(fmt(k), s.encode(), **{o: p["plurals"] if v == "plurals" else v for o, v in OPTS[k].items()})
        ops[f"detect {k}"] = lambda p, k=k, s=s: detect_format(None, s)
        ops[f"serialize {k}"] = lambda p, k=k: serialize_resource(p["plural"] if k == "gettext" else p["res"][k], **({"gettext_plurals": p["plurals"]} if k == "gettext" else {}))
        ops[f"trim {k}"] = lambda p, k=k: serialize_resource(p["res"][k], trim_comments=True)
        ops[f"equal {k}"] = lambda p, k=k: [l10n_equal(p["res"][k], p["res"][k]), l10n_equal(p["res"][k], p["text"])]
        ops[f"add to {k}"] = lambda p, k=k: added(p["res"]["webext"], p["res"][k])
        ops[f"add from {k}"] = lambda p, k=k: added(p["res"][k], p["res"]["webext"], p["res"]["ini"], p["res"][k])
    for k in Format:
        if k != Format.mf2:
            ops[f"text as {k.name}"] = lambda p, k=k: serialize_resource(p["text"], k)
            ops[f"flat as {k.name}"] = lambda p, k=k: serialize_resource(p["flat"], k)
            ops[f"meta as {k.name}"] = lambda p, k=k: serialize_resource(p["meta"], k)
    for k, s in INVALID.items():
        ops[f"parse invalid {k}"] = lambda p, k=k, s=s: parse_resource(fmt(k), s)
    for k, s in MESSAGES.items():
        ops[f"parse message {k}"] = lambda p, k=k, s=s: parse_message(fmt(k), s, webext_placeholders=p["phs"], printf_placeholders=True)
        ops[f"serialize message {k}"] = lambda p, k=k: serialize_message(fmt(k), p["msg"][k])
        ops[f"message to json {k}"] = lambda p, k=k: message_to_json(p["msg"][k])
        ops[f"message from json {k}"] = lambda p, k=k: message_from_json(p["json"][k])
        ops[f"message to mf2 json {k}"] = lambda p, k=k: mf2_to_json(p["msg"][k])
        ops[f"message from mf2 json {k}"] = lambda p, k=k: mf2_from_json(p["mf2"][k])
        ops[f"message as mf2 {k}"] = lambda p, k=k: serialize_message(Format.mf2, p["msg"][k])
        ops[f"message as fluent {k}"] = lambda p, k=k: serialize_message(Format.fluent, p["msg"][k])
    for k, s in BAD_MESSAGES.items():
        ops[f"parse bad message {k}"] = lambda p, k=k, s=s: parse_message(fmt(k), s, webext_placeholders=p["phs"])
    for k in Format:
        ops[f"pattern as {k.name}"] = lambda p, k=k: serialize_message(k, p["pattern plain"])
    ops["entry to json"] = lambda p: entry_to_json(p["entry"])
    ops["entry from json"] = lambda p: entry_from_json(*p["ejson"])
    ops["ftl from ast"] = lambda p: fluent_parse(p["ast"])
    ops["ftl to ast"] = lambda p: fluent_astify(p["res"]["fluent"]).to_json()
    return ops


def added(target, *sources):
    target = deepcopy(target)
    out = [target]
    for use in (False, True):
        for s in sources:
            out.append(add_entries(target, s, use_source_entries=use))
    return out


# --- snapshots

SKIP = (str, bytes, int, float, bool, type(None), Enum)


def snap(x):
    """Everything there is in a value, with types and the order of dicts"""
    if isinstance(x, Enum):
        return x.name
    if isinstance(x, SKIP):
        return [type(x).__name__, x if isinstance(x, (int, type(None))) else str(x)]
    if isinstance(x, dict):
        return ["dict", [[snap(k), snap(v)] for k, v in x.items()]]
    if isinstance(x, (list, tuple)):
        return [type(x).__name__, [snap(y) for y in x]]
    if is_dataclass(x):
        return [type(x).__name__, [[f.name, snap(getattr(x, f.name))] for f in fields(x)], sorted(set(vars(x)) - {f.name for f in fields(x)})]
    if isinstance(x, BaseException):
        return [type(x).__name__, re.sub(r"\(.*|0x[0-9a-f]+", "", str(x))[:200]]
    if hasattr(x, "to_json"):
        return x.to_json()
    raise TypeError(type(x))


def mutables(x, out: dict, path: str = "") -> dict:
    """Mutable objects by their identity"""
    if isinstance(x, SKIP) or isinstance(x, BaseException):
        return out
    if isinstance(x, tuple):
        for i, y in enumerate(x):
            mutables(y, out, f"{path}[{i}]")
        return out
    if id(x) in out:
        return out
    if isinstance(x, dict):
        out[id(x)] = path
        for k, v in x.items():
            mutables(k, out, f"{path}.key")
            mutables(v, out, f"{path}[{k!r}]")
    elif isinstance(x, list):
        out[id(x)] = path
        for i, y in enumerate(x):
            mutables(y, out, f"{path}[{i}]")
    elif is_dataclass(x):
        out[id(x)] = path
        for f in fields(x):
            mutables(getattr(x, f.name), out, f"{path}.{f.name}")
    elif hasattr(x, "__dict__"):
        out[id(x)] = path
        for k, v in vars(x).items():
            mutables(v, out, f"{path}.{k}")
    return out


def run_op(name: str, pool: dict):
    try:
        out = OPS[name](pool)
        return list(out) if hasattr(out, "__next__") else out
    except Exception as e:
        return e.with_traceback(None)


OPS = operations()
NAMES = list(OPS)
ONLY = "import sys; sys.path[:0] = {path!r}; from checks import c34; c34.print_base()"
BASE: dict = {}
POOL0 = None


def print_base() -> None:
    pool = make_pool()
    start = snap(pool)
    out = {}
    for name in NAMES:
        r, w = os.pipe()
        if not (pid := os.fork()):
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(snap(run_op(name, pool)), f)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            out[name] = json.load(f)
        os.waitpid(pid, 0)
    print(json.dumps({"base": out, "pool": start}))


def baseline(env: dict, cwd: str | None = None) -> dict:
    p = subprocess.run([sys.executable, "-c", ONLY.format(path=[os.path.dirname(os.path.dirname(os.path.abspath(__file__))), *sys.path])], env={**os.environ, **env}, cwd=cwd, capture_output=True, text=True, timeout=120)
    need(p.returncode == 0, "no results:", p.stderr[-500:])
    return json.loads(p.stdout)


ENVS = [{"PYTHONHASHSEED": "0"}] + [{"PYTHONHASHSEED": str(n)} for n in (1, 2, 3, 5, 77, 1234)] + [{"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONHASHSEED": "9"}, {"TZ": "Asia/Tokyo", "LANG": "tr_TR.UTF-8", "PYTHONHASHSEED": "0"}, {"PYTHONUTF8": "1", "COLUMNS": "20", "NO_COLOR": "1"}]


def base() -> dict:
    if not BASE:
        BASE.update(baseline(ENVS[0]))
    return BASE


def judge_env(c) -> str:
    i, cwd = c
    got, want = baseline(ENVS[i], cwd), base()
    same("arguments", got["pool"], want["pool"])
    for name in NAMES:
        same(name, got["base"][name], want["base"][name], "with", ENVS[i])
    T.trace(len(NAMES))
    return "ok"


def child(f) -> None:
    """Runs a function in a process of its own"""
    r, w = os.pipe()
    if not (pid := os.fork()):
        msg = ""
        try:
            os.close(r)
            f()
        except Bad as e:
            msg = str(e)
        except BaseException as e:
            msg = f"unexpected {type(e).__name__}: {e}"
        with os.fdopen(w, "w") as p:
            p.write(msg)
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as p:
        msg = p.read()
    os.waitpid(pid, 0)
    if msg:
        raise Bad(msg)


POOL: list = []


def pool() -> dict:
    """The pool of this process, before any other operations"""
    if not POOL:
        POOL.append(make_pool())
        POOL.append(snap(POOL[0]))
        same("arguments", POOL[1], base()["pool"])
    return POOL[0]


def check(what: str, name: str, got) -> None:
    same(f"{name} {what}", snap(got), base()["base"][name])


def judge_history(c) -> str:
    p = pool()

    def go():
        args = mutables(p, {})
        results: list = []  # the last few
        for i, n in enumerate(c):
            name = NAMES[n]
            got = run_op(name, p)
            check(f"at {i}", name, got)
            if i % 10 == 9 or i == len(c) - 1:
                same(f"arguments after {name}", snap(p), POOL[1])
            if not name.startswith("add"):
                mine = mutables(got, {})
                for what, seen, _ in [("an argument", args, None), *results]:
                    both = set(mine) & set(seen)
                    need(not both, name, "shares with", what, [(mine[b], seen[b]) for b in both][:3])
                results.append((name, mine, got))
                del results[:-3]

    child(go)
    T.trace(len(c))
    T.step(len(c))
    return "ok"


def judge_own(c) -> str:
    """Entries of one resource share nothing"""
    (name,) = c
    got = run_op(name, pool())
    T.trace(1)
    if not isinstance(got, Resource):
        return "other"
    seen: dict = {}
    for i, s in enumerate(got.sections):
        for what, x in [("meta", s.meta), *((f"entry {j}", e) for j, e in enumerate(s.entries))]:
            mine = mutables(x, {})
            both = set(mine) & set(seen)
            need(not both, name, i, what, "shares", [(mine[b], seen[b]) for b in both][:3])
            seen.update({k: f"{i} {what} {v}" for k, v in mine.items()})
            # and no part of a message is there twice
            if isinstance(x, E) and not isinstance(x.value, str):
                for m in (x.value, *x.properties.values()):
                    pats = [m.pattern] if isinstance(m, PM) else list(m.variants.values())
                    parts = [("pattern", q) for q in pats] + [(f"part {q}", q) for pat in pats for q in pat if not isinstance(q, str)] + [("declaration", d) for d in m.declarations.values()]
                    parts += [("attributes", q.attributes) for _, q in parts if hasattr(q, "attributes")] + [("options", q.options) for _, q in parts if hasattr(q, "options")]
                    need(len({id(q) for _, q in parts}) == len(parts), "a part of", x, "is there twice")
    return "resource"


def groups(n: int, most: int) -> list:
    """The sizes of at most that many steps"""
    most = min(n, most)
    return [n // most + (i < n % most) for i in range(most)] if n else []


def judge_turns(c) -> str:
    """Two serializers are read in turns"""
    a, b, order, (na, nb) = c
    p = pool()
    its = [OPS[a](p), OPS[b](p)]
    got: list = [[], []]
    sizes = [groups(na, order.count("0")), groups(nb, order.count("1"))]
    for o in order:
        i = int(o)
        got[i] += itertools.islice(its[i], sizes[i].pop(0))
    for i in (0, 1):
        got[i] += its[i]
        check(f"in turns with {(b, a)[i]}", (a, b)[i], got[i])
    same("arguments", snap(p), POOL[1])
    T.trace(2)
    T.step(len(order))
    return "ok"


def judge_left(c) -> str:
    """A serializer is left before it ends"""
    a, k, b = c
    p = pool()
    it = OPS[a](p)
    part = list(itertools.islice(it, k))
    it.close()
    for n in (b, a):
        check(f"after part of {a}", n, run_op(n, p))
    need(snap(part)[1] == base()["base"][a][1][:k], "a part differs")
    same("arguments", snap(p), POOL[1])
    T.trace(3)
    return "ok"


class Stop(BaseException):
    pass


HERE = os.sep + os.path.join("moz", "l10n") + os.sep


def traced(name: str, p: dict, act, opcodes: bool = False):
    """Runs an operation, with an action before each line of its code"""

    def local(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            act()
        return local

    def trace(frame, event, arg):
        if HERE not in frame.f_code.co_filename:
            return None
        frame.f_trace_opcodes = opcodes
        return local

    sys.settrace(trace)
    try:
        return run_op(name, p)
    finally:
        sys.settrace(None)


def count(name: str, opcodes: bool) -> int:
    n = 0

    def act():
        nonlocal n
        n += 1

    traced(name, pool(), act, opcodes)
    return n


def judge_inside(c) -> str:
    """Another operation at each line, and a failure at each line"""
    a, b, part, of, opcodes = c
    p = pool()
    total = count(a, opcodes)
    runs = 0
    for k in range(part, total, of):
        n = -1
        inner = []

        def act():
            nonlocal n
            n += 1
            if n == k:
                if b is None:
                    raise Stop()
                inner.append(run_op(b, p))

        try:
            got = traced(a, p, act, opcodes)
            if b is not None:
                check(f"with {b} at step {k}", a, got)
                if inner:
                    check(f"at step {k} of {a}", b, inner[0])
                    if not b.startswith("add") and not a.startswith("add"):
                        need(not set(mutables(got, {})) & set(mutables(inner[0], {})), a, "and", b, "share parts")
        except Stop:
            pass
        if b is None:
            check(f"after it failed at step {k}", a, run_op(a, p))
        runs += 1
    same("arguments", snap(p), POOL[1])
    T.trace(runs * 2)
    T.step(runs)
    return "inside" if b else "failing"


def partners(name: str, names: list) -> list:
    """Operations of the same kind, and of the same format"""
    kind, _, what = name.rpartition(" ")
    i = names.index(name)
    near = [n for n in names if n.rpartition(" ")[2] == what and n != name][:2]
    alike = [n for n in names if n.rpartition(" ")[0] == kind and n != name][:1]
    return [name, *near, *alike]


def run(ctx: Ctx) -> None:
    q = ctx.pick
    try:
        base()
    except Bad:
        # Report it there
        ctx.space("environment", lambda: [[0, None]], judge_env, note="hash seeds, locales, and directories")
        return
    lens = {n: len(base()["base"][n][1]) for n in NAMES if n.split()[0] in ("serialize", "trim", "text", "flat") and "message" not in n and base()["base"][n][0] == "list"}
    ctx.space("environment", lambda: ([i, d] for i in range(len(ENVS)) for d in (None, "/")), judge_env, note="hash seeds, locales, and directories")
    ctx.space("sharing", lambda: ([n] for n in NAMES), judge_own, note="parts of one resource")
    # With three steps, those of the shared kinds
    few = [i for i, n in enumerate(NAMES) if not n.startswith(("detect", "equal", "text", "flat", "meta", "pattern"))]
    ctx.space("histories", lambda: ([x for b in range(k, len(NAMES), 4) for x in (a, b)] for a in range(len(NAMES)) for k in range(4)), judge_history, note="histories with all pairs of operations, in both orders")
    if not ctx.quick:
        ctx.space("pairs", lambda: (list(w) for n in (1, 2) for w in words(range(len(NAMES)), n, n)), judge_history, note="all sequences of two operations")
        three = [i for i in few if not NAMES[i].startswith(("add", "message as"))]
        ctx.space("longer", lambda: (list(w) for w in words(three, 3, 3)), judge_history, note="all sequences of three operations")
    m = q(3, 5)

    def turns():
        for a, b in itertools.product(lens, repeat=2):
            x, y = min(lens[a], m), min(lens[b], m)
            for at in itertools.combinations(range(x + y), x):
                yield [a, b, "".join("0" if i in at else "1" for i in range(x + y)), [lens[a], lens[b]]]

    ctx.space("turns", turns, judge_turns, note="all interleavings of two serializers in steps")
    ctx.space("left", lambda: ([a, k, b] for a in lens for k in range(lens[a]) for b in list(lens)[:: q(6, 1)]), judge_left, note="serializers that are not read to the end")
    ins = [n for n in NAMES if not n.startswith(("detect", "equal", "meta", "pattern", "flat", "text"))]
    ctx.space("inside", lambda: ([a, b, k, q(12, 12), not ctx.quick] for a in ins for b in [None, *partners(a, ins)] for k in range(12)), judge_inside, note="an operation or a failure at each line of another")
