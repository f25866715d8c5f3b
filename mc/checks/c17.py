"""
C17: adding entries merges two resources without loss or duplication.

Targets and sources are all sequences, up to a depth, of section headers (anonymous, named, with and without a comment and
metadata), entries and (in targets) standalone comments; every pair is merged, with and without use_source_entries, where the
shared entries are in part the same and in part different.  Each result is judged by what it must hold and where:
every id exactly once; everything of the target that is not replaced the same object, in the same order; each new entry in a section with its
source section's id and comment, right after its predecessor if that was in such a section, else at the end of one, else in a new
section, which follows the section of what precedes it in the source; the count; and repeating the merge.
The resources of a pair do not repeat ids, as no valid resource does.
"""

from __future__ import annotations

import copy
import itertools

from core import Bad, Ctx, T, need, same, texts, words
from moz.l10n.resource import add_entries
from util import *

HEADS = {"0": ((), "", ()), "G": ((), "g", ()), "X": (("x",), "", ()), "C": (("x",), "c", ()), "D": (("x",), "c", (("m", "1"),)), "Y": (("x", "y"), "", ())}


def make(code: str, side: str) -> Resource | None:
    """A resource from its code: capitals and digits start a section, small letters are entries, # is a comment."""
    secs: list[S] = []
    seen = set()
    for i, ch in enumerate(code):
        if ch in HEADS:
            id, com, meta = HEADS[ch]
            secs.append(S(id, [], comment=com, meta=[Md(*m) for m in meta]))
        elif ch == "#":
            secs[-1].entries.append(C(f"standalone {i}"))
        else:
            key = (secs[-1].id, ch)
            if key in seen:
                return None
            seen.add(key)
            # a differs by value, b by comment, c by metadata, d by properties; others are the same on both sides
            v = PM([side if ch == "a" else "v"])
            e = E((ch,), v, comment=side if ch == "b" else "", meta=[Md("m", side)] if ch == "c" else [], properties={"p": PM([side])} if ch == "d" else {})
            secs[-1].entries.append(e)
    return Resource(Format.fluent, secs, comment=side)


def all_ids(res: Resource) -> list:
    return [(s.id, e.id) for s in res.sections for e in s.entries if isinstance(e, E)]


def place(res: Resource, entry) -> tuple:
    for s in res.sections:
        for i, e in enumerate(s.entries):
            if e is entry:
                return s, i
    raise Bad(f"entry {entry} is lost")


def judge(c) -> str:
    tcode, scode, use = c
    target, source = make(tcode, "t"), make(scode, "s")
    twin = make(tcode, "t")
    old_ids, src_ids = all_ids(target), all_ids(source)
    before = dump(source)
    head = dump(Resource(target.format, [], target.meta, target.comment))
    tsec = [(s, s.id, s.comment, dump(s.meta), list(s.entries)) for s in target.sections]
    tent = {(s.id, e.id): e for s in target.sections for e in s.entries if isinstance(e, E)}
    sent = {(s.id, e.id): (s, e) for s in source.sections for e in s.entries if isinstance(e, E)}
    new_ids = [i for i in src_ids if i not in tent]
    shared = [i for i in src_ids if i in tent]

    n = add_entries(target, source, use_source_entries=use)
    T.trace()
    same("source", dump(source), before)
    same("resource", dump(Resource(target.format, [], target.meta, target.comment)), head)

    # Every id of either, once
    ids = all_ids(target)
    same("ids", sorted(ids), sorted({*old_ids, *src_ids}), target)
    # All that was there still is, in the same sections and order
    pos = -1
    exp_count = len(new_ids)
    for s, id, com, meta, entries in tsec:
        i = next((i for i, x in enumerate(target.sections) if x is s), None)
        need(i is not None and i > pos, "section moved or lost", s)
        pos = i
        same("section id", s.id, id)
        want = []
        updates = []
        for e in entries:
            if isinstance(e, E) and use and (id, e.id) in sent:
                src_s, src_e = sent[id, e.id]
                updates.append((src_s.comment, dump(src_s.meta)))
                if src_e != e:
                    exp_count += 1
                    e = src_e
            want.append(e)
        if use:
            updates += [(sent[s.id, e.id][0].comment, dump(sent[s.id, e.id][0].meta)) for e in s.entries
                        if isinstance(e, E) and (s.id, e.id) in new_ids]
        kept = [e for e in s.entries if any(e is w for w in want)]
        need(len(kept) == len(want) and all(a is b for a, b in zip(kept, want)), "entries", s.entries, "are to hold", want, "in order")
        now = (s.comment, dump(s.meta))
        if updates:
            need(now in updates, "section comment and metadata", now, "are of none of", updates)
            if all(u == now for u in updates):
                exp_count += now != (com, meta)
            else:
                exp_count = None  # several source sections in one of the target's
                break
        else:
            same("section comment and metadata", now, (com, meta))
    # With several source sections in one of the target's, its comment and metadata are those of any
    clear = not use or exp_count is not None and all(
        len({(q.comment, dump(q.meta)) for q, x in sent.values() if any(x is y for y in s.entries)}) < 2 for s in target.sections)
    if clear:
        same("count", n, exp_count, "to get", target)
    made: list[S] = []
    # New entries are the source's own, in sections like their own
    for id in new_ids:
        src_s, e = sent[id]
        s, i = place(target, e)
        same("section of new entry", s.id, src_s.id)
        if not use:
            same("comment of a new entry's section", s.comment, src_s.comment)
            peers = [x for x in src_s.entries if isinstance(x, E)]
            k = next(k for k, x in enumerate(peers) if x is e)
            old = [x for x, *_ in tsec]
            prev = None
            if k:
                pid = (src_s.id, peers[k - 1].id)
                ps, pi = place(target, tent.get(pid, peers[k - 1]))
                if ps.comment == src_s.comment:
                    prev = (ps, pi)
            if prev:
                need(s is prev[0] and i == prev[1] + 1, f"new entry {e.id} does not follow its predecessor in", target)
            elif any(s is x for x in old):
                after = s.entries[i + 1 :]
                need(all(isinstance(x, E) and (s.id, x.id) in sent and sent[s.id, x.id][1] is x for x in after), f"new entry {e.id} is not at a section's end:", s)
            else:
                need(not any(id == src_s.id and com == src_s.comment for _, id, com, *_ in tsec), "needless new section", s, "in", target)
                made.append(s)
    # A new section has the metadata of a source section, and follows the target section of the last entry before it
    for s in made:
        own = [q for q in source.sections if any(x is y for x in q.entries for y in s.entries)]
        need(dump(s.meta) in [dump(q.meta) for q in own], "metadata of new section", s.meta)
        k = next(k for k, q in enumerate(source.sections) if q is own[0])
        prior = [(q.id, x.id) for q in source.sections[: k + 1] for x in q.entries]
        prior = [p for p in prior if not any(x is sent[p][1] for x in s.entries)]
        at = next(j for j, q in enumerate(target.sections) if q is s)
        if prior:
            ps, _ = place(target, sent[prior[-1]][1] if prior[-1] not in tent or use else tent[prior[-1]])
            if prior[-1] in tent or any(ps is q for q in made):
                need(target.sections[at - 1] is ps, "new section does not follow that of", prior[-1], "in", target)
        elif not prior:
            same("position of new first section", at, 0)
    # In the source's order, where added to one section
    for s in target.sections:
        new = [(s.id, e.id) for e in s.entries if isinstance(e, E) and (s.id, e.id) in new_ids]
        if all(x not in tent for x in src_ids):
            same("order of new entries", new, [x for x in new_ids if x in new])
        added = not any(s is x for x, *_ in tsec)
        if added:
            need(s.entries, "empty new section")
            same("order in new section", new, [x for x in new_ids if x in new])
    # Once more
    after = dump(target)
    n = add_entries(target, source, use_source_entries=use)
    if clear:
        same("count, again", n, 0)
        same("target, again", dump(target), after)
    # Nothing of the target is shared with another
    same("nothing added by itself", add_entries(twin, make(tcode, "t"), use_source_entries=use), 0)
    return f"{len(new_ids)} new, {len(shared)} shared"


def codes(alphabet: str, heads: str, depth: int, side: str) -> list:
    out = [""]
    for h in heads:
        out += [h + "".join(w) for w in words(alphabet, depth - 1) if make(h + "".join(w), side) is not None]
    return out


def run(ctx: Ctx) -> None:
    d = ctx.pick

    def pairs(t, s):
        return ([x, y, u] for x in t for y in s for u in (False, True))

    ctx.space("plain", lambda: pairs(codes("abcd#", "0", d(5, 6), "t"), codes("abcdn", "0", d(5, 5), "s")), judge,
              note="one section on each side, with every order of shared, new and standalone contents")
    ctx.space("sections", lambda: pairs(codes("0GXab", "0GX", d(4, 5), "t"), codes("0GXan", "0GX", d(4, 5), "s")), judge,
              note="several anonymous, commented and named sections on each side")
    ctx.space("section contents", lambda: pairs(codes("XCab#", "XC", d(4, 5), "t"), codes("XCabn", "XC", d(4, 5), "s")), judge, note="sections that differ by comment")
    ctx.space("section metadata", lambda: pairs(codes("CDYa", "CDY", d(4, 5), "t"), codes("CDYan", "CDY", d(4, 5), "s")), judge, note="sections that differ by metadata or id")
    ctx.space("runs", lambda: pairs(codes("ab", "0X", 3, "t"), codes("abnmop", "0X", d(5, 6), "s")), judge, note="runs of new entries between shared ones")
