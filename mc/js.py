"""
Runs the JavaScript package of the repository (js/src) under Node.

The public entry point js/src/index.ts is bundled from the current tree with esbuild.
The two packages it imports that aren't installed here, `messageformat` and `@fluent/syntax`,
are replaced by stubs: only the functions which do not use them are called.
The DOM classes which browsers provide are replaced by the small implementation in js_dom.mjs.
"""
from __future__ import annotations

import json
import os
import subprocess
from typing import Any

HERE = os.path.dirname(os.path.abspath(__file__))
ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"
STUB = """
const h = { get: (t, k) => k === '__esModule' ? true : k === 'prototype' ? t.prototype : P, construct: () => ({}), apply: () => P }
const P = new Proxy(function () {}, h)
module.exports = P
"""
DRIVER = """
import * as api from %s
import './js_dom.mjs'
import { createInterface } from 'node:readline'
let loaded = []
const ops = {
  load(list) { loaded = list; return list.length },
  equalAll: (i) => loaded.flatMap((b, j) => (api.messagesEqual(loaded[i], b) ? [j] : [])),
  parse: (f, src, opt) => api.parsePattern(f, src, opt),
  ser: (f, pat) => api.serializePattern(f, pat),
  serAll(f, pat) {
    const errors = []
    const res = api.serializePattern(f, pat, (e) => errors.push([e.constructor.name, e.pos ?? null]))
    return [res, errors]
  },
  mf2: (msg) => api.mf2SerializeMessage(msg),
  fluent: (msg) => api.fluentSerializeMessage(msg),
  fluentEntry: (id, entry) => api.fluentSerializeEntry(id, entry),
  webext: (msg, src) => api.webextParsePattern(msg, src),
  isEmpty: (msg, any) => api.messageIsEmpty(msg, any),
  guards: (x) => [api.isExpression(x), api.isMarkup(x)],
  isSelect: (x) => api.isSelectMessage(x),
  equal: (a, bs) => bs.map((b) => api.messagesEqual(a, b)),
  normalize(msg) {
    // The result, the argument afterwards, and whether they share any object
    const seen = new Set()
    const walk = (x, f) => { if (x && typeof x === 'object') { f(x); for (const v of Object.values(x)) walk(v, f) } }
    walk(msg, (x) => seen.add(x))
    const res = api.normalizeMessage(msg)
    let shared = false
    walk(res, (x) => { if (seen.has(x)) shared = true })
    return [res, msg, shared]
  }
}
for await (const line of createInterface({ input: process.stdin, crlfDelay: Infinity })) {
  const [op, ...args] = JSON.parse(line)
  let res
  try {
    const ref = JSON.stringify(args)
    res = { ok: ops[op](...args) }
    if (JSON.stringify(args) !== ref) res = { changed: args }
  } catch (e) {
    res = { err: e?.constructor?.name ?? typeof e, msg: String(e?.message ?? e) }
  }
  process.stdout.write(JSON.stringify(res).replace(/[\\u2028\\u2029]/g, (c) => '\\\\u' + c.charCodeAt(0).toString(16)) + '\\n')
}
"""

BUNDLE = ""
_proc: tuple[int, subprocess.Popen] | None = None


class JSError(Exception):
    def __init__(self, name: str, msg: str):
        super().__init__(f"{name}: {msg}")
        self.name = name


def build(scratch: str, repo: str) -> None:
    """Bundle the JavaScript package of `repo`; raises an error if that fails."""
    global BUNDLE
    src = os.path.join(scratch, "js")
    os.makedirs(src, exist_ok=True)
    with open(os.path.join(src, "stub.cjs"), "w") as f:
        f.write(STUB)
    with open(os.path.join(HERE, "js_dom.mjs")) as f:
        dom = f.read()
    with open(os.path.join(src, "js_dom.mjs"), "w") as f:
        f.write(dom)
    with open(os.path.join(src, "driver.mjs"), "w") as f:
        f.write(DRIVER % json.dumps(os.path.join(repo, "js", "src", "index.ts")))
    out = os.path.join(src, "bundle.mjs")
    stub = os.path.join(src, "stub.cjs")
    names = ["messageformat", *(f"@fluent/syntax/esm/{n}.js" for n in ("ast", "index", "stream", "parser", "serializer", "visitor")), "@fluent/syntax"]
    subprocess.run(
        [ESBUILD, "driver.mjs", "--bundle", "--format=esm", "--platform=node", f"--outfile={out}", "--keep-names", "--log-level=error", *(f"--alias:{n}={stub}" for n in names)],
        cwd=src, check=True, timeout=120,
    )
    BUNDLE = out


def call(op: str, *args: Any) -> Any:
    global _proc
    if _proc is None or _proc[0] != os.getpid():
        _proc = os.getpid(), subprocess.Popen(["node", BUNDLE], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    p = _proc[1]
    p.stdin.write(json.dumps([op, *args]).encode() + b"\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise RuntimeError(f"Node exited at {op} {args}")
    res = json.loads(line)
    if "err" in res:
        raise JSError(res["err"], res["msg"])
    if "changed" in res:
        raise JSError("ArgumentChanged", json.dumps(res["changed"]))
    return res.get("ok")
