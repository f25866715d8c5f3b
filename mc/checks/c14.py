"""
C14: messages and entries survive the round trip through JSON, and their JSON matches the published schemas.

Both JSON forms (the compact one of entries and messages, and the MessageFormat 2 data model) are written, passed through
JSON text, validated by the schemas of the repository, and read back, for every message of C12's structural spaces: every
expression, markup, pattern, declaration order, key and variant up to a depth, without normalizing any of them.
Entries: every id whose parts are texts over ".", "\\", "a" up to a depth, and every combination of comment, metadata, value and
properties.  That ids read back equal shows that distinct ids stay distinct.
"""

from __future__ import annotations

import itertools
import json
import os

import jsonschema
from checks import c12
from core import REPO, Bad, Ctx, T, need, same, texts, words
from moz.l10n.formats.mf2.from_json import mf2_from_json
from moz.l10n.formats.mf2.to_json import mf2_to_json
from moz.l10n.formats.mf2.validate import MF2ValidationError, mf2_validate_message
from moz.l10n.message import entry_from_json, entry_to_json, message_from_json, message_to_json
from referencing import Registry
from util import *


def schema(name: str) -> dict:
    with open(os.path.join(REPO, "schemas", name)) as f:
        return json.load(f)


msg_schema = schema("message.json")
reg = Registry().with_contents([("./message.json", msg_schema), (msg_schema["$id"], msg_schema)])
MSG = jsonschema.Draft7Validator(msg_schema)
ENTRY = jsonschema.Draft7Validator(schema("entry.json"), registry=reg)
MF2 = jsonschema.Draft7Validator(schema("mf2-message.json"))


def valid(v, doc, what: str) -> None:
    err = next(v.iter_errors(doc), None)
    if err:
        raise Bad(f"{what}: {doc!r} does not match the schema: {err.message}"[:500])


def texted(doc):
    got = json.loads(json.dumps(doc))
    same("JSON text", got, doc)
    return got


def fixkeys(m):
    """An empty name of a fallback key is no name."""
    if isinstance(m, SM):
        for keys in m.variants:
            for k in keys:
                if isinstance(k, CK) and k.value == "":
                    k.value = None
    return m


def check(msg, invalid_ok: bool = False) -> str:
    try:
        mf2_validate_message(msg)
    except MF2ValidationError:
        need(invalid_ok, "validator rejects", msg)
        return "invalid"
    before = dump(msg)
    doc = texted(message_to_json(msg))
    doc2 = texted(mf2_to_json(msg))
    same("message after conversion", dump(msg), before)
    valid(MSG, doc, "message JSON")
    valid(MF2, doc2, "MF2 JSON")
    same("read back", dump(message_from_json(doc)), before, "from", doc)
    same("read back from MF2 JSON", dump(mf2_from_json(doc2)), before, "from", doc2)
    same("JSON after reading", (doc, doc2), (message_to_json(msg), mf2_to_json(msg)))
    T.trace(2)
    return type(msg).__name__


def judge_literal(v: str) -> str:
    f = {"x": Ex(V("x"), "f")}
    check(PM([v, "", v]))
    check(PM([Ex(v), Ex(v, "f", {"o": v, "p": V("x")}, {"p": v, "q": True})]))
    check(PM([M(k, "m", {"o": v}, {"p": v}) for k in ("open", "standalone", "close")], {"y": Ex(v, None, {}, {"a": v})}))
    check(SM(dict(f), (V("x"),), {("k" + v,): [], (v,): [v], (CK(v or None),): [Ex(v)]}))
    return check_entry(E(("a", v), PM([v]), comment=v, meta=[Md("k", v), Md("k", v)], properties={"p" + v: PM([v])}))


def judge_pattern(c) -> str:
    parts = [c12.part(p) for p in c]
    check(PM(parts, {"x": Ex(V("x"), "f")}), True)
    check(SM({"x": Ex(V("x"), "f")}, (V("x"),), {("1",): parts[::-1], (CK(),): parts}), True)
    return check(PM(parts), True)


def judge_decls(c) -> str:
    d = c12.decls(c)
    res = check(PM(["a"], dict(d)), True)
    check(PM([], dict(d)), True)
    for n in ("x", "y", "z"):
        check(SM(dict(d), (V(n),), {(CK(),): []}), True)
    return res


def judge_select(c) -> str:
    n, keysets = c
    d = {"x": Ex(V("x"), "f"), "y": Ex(V("x")), "z": Ex("1", "f")}
    variants = {}
    for i, ks in enumerate(keysets):
        variants[tuple(CK("o" if i % 2 else None) if k is None else k for k in ks)] = [str(i)] if i else []
    return check(SM(d, tuple(map(V, "xyz"[:n])), variants), True)


def check_entry(entry) -> str:
    before = dump(entry)
    id, doc = entry_to_json(entry)
    same("entry after conversion", dump(entry), before)
    doc = texted(doc)
    need(isinstance(id, str), "id is", id)
    valid(ENTRY, doc, "entry JSON")
    T.trace()
    same("entry", dump(entry_from_json(id, doc)), before, "from", (id, doc))
    return "entry"


def judge_id(id) -> str:
    return check_entry(E(tuple(id), PM(["v"])))


VALUES = [PM([]), PM([""]), PM(["a"]), PM([], {"x": Ex(V("x"), "f")}), PM(["a"], {"x": Ex("1")}), PM([Ex(V("x"), "f", {"o": V("y")}, {"t": True})]),
          SM({"x": Ex(V("x"), "f")}, (V("x"),), {(CK("other"),): []}), SM({"x": Ex(V("x"), "f")}, (V("x"),), {("1",): ["a"], (CK(),): [M("open", "b")]})]
METAS = [[], [("k", "v")], [("k", "")], [("b", "1"), ("a", "2"), ("b", "1")]]
COMMENTS = ["", "c", "a\n\n b", " "]


def judge_entry(c) -> str:
    v, meta, comment, props = c
    return check_entry(E(("k",), VALUES[v], comment=comment, meta=[Md(k, x) for k, x in meta], properties={k: VALUES[i] for k, i in props}))


def run(ctx: Ctx) -> None:
    d = ctx.pick
    ctx.space("literals", lambda: texts(c12.LIT + ["\0", "[", '"', "\x7f"], d(2, 3)), judge_literal, note="each text in every position")
    ctx.space("one part", lambda: ([p] for p in c12.all_parts()), judge_pattern, note="every expression and markup")
    ctx.space("patterns", lambda: (list(w) for w in words(c12.FEW, d(3, 4))), judge_pattern)
    ctx.space("declarations", lambda: (list(w) for n in range(d(4, 5)) for w in itertools.permutations(c12.DECLS, n) if len({x[0] for x in w}) == n),
              judge_decls)
    ctx.space("variants", lambda: ([1, [list(k) for k in w]] for n in range(1, d(5, 6)) for w in itertools.permutations([(k,) for k in c12.KEYS], n)), judge_select)
    ctx.space("two selectors", lambda: ([2, [list(k) for k in w] + [[None, None]]] for n in range(d(3, 4))
                                        for w in itertools.permutations(list(itertools.product(c12.KEYS, repeat=2)), n)), judge_select)
    parts = list(texts([".", "\\", "a"], d(3, 4)))
    ctx.space("ids", lambda: (list(w) for w in words(parts, 2, 1)), judge_id, note="every id of one or two parts over the separator, the escape and a letter")
    ctx.space("odd ids", lambda: (list(w) for w in words(list(texts([".", "\\", "\n", "\u2028"], 2)), 2, 1)), judge_id)
    ctx.space("long ids", lambda: (list(w) for w in words(list(texts([".", "\\", "a"], 1)) + ["\\\\", "\\.", ".\\", "a.b"], d(4, 5), 3)), judge_id)
    ctx.space("entries", lambda: ([v, m, c, list(p)] for v in range(len(VALUES)) for m in METAS for c in COMMENTS
                                  for p in itertools.chain([()], (((k, i),) for k in ("p", "", "=.") for i in range(len(VALUES))), ((("q", 0), ("p", i)) for i in range(len(VALUES))))),
              judge_entry, note="every combination of value, metadata, comment and properties")
    ctx.assume("An empty name of a fallback key is the same as none")
