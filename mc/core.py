"""
Explicit-state exploration of the real code.

A *space* is a finite transition system given by a generator: it yields its states (cases) in
breadth-first order, each as plain JSON data. A *judge* runs the real implementation on one case,
compares what it does with a reference model and raises `Bad` when they disagree.
`Ctx.space` visits every state of a space, on all cores, and counts what was visited.
Nothing is sampled: a space is either visited completely, or the run says that it was capped.
"""

from __future__ import annotations

import atexit
import itertools
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from typing import Any, Callable, Iterable, Iterator

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

CASE_TIMEOUT = 20.0  # seconds for a single case: much more than any case needs
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "780"))  # seconds for a whole quick run


class Bad(Exception):
    """The implementation disagrees with the reference model."""


class Hang(BaseException):
    pass


def need(cond: Any, *msg: Any) -> None:
    if not cond:
        raise Bad(" ".join(m if isinstance(m, str) else repr(m) for m in msg))


def same(what: str, got: Any, exp: Any, *ctx: Any) -> None:
    if got != exp:
        extra = " ".join(c if isinstance(c, str) else repr(c) for c in ctx)
        raise Bad(f"{what}: got {got!r}, expected {exp!r} {extra}".rstrip())


# ---------------------------------------------------------------- enumeration


def words(alphabet: Iterable[Any], depth: int, start: int = 0) -> Iterator[tuple]:
    """Every sequence over the alphabet up to the depth, shortest first."""
    alphabet = list(alphabet)
    for n in range(start, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def texts(alphabet: Iterable[str], depth: int, start: int = 0) -> Iterator[str]:
    """As words(), but joined, and every distinct text once."""
    seen: set[str] = set()
    for w in words(alphabet, depth, start):
        s = "".join(w)
        if s not in seen:
            seen.add(s)
            yield s


def subsets(items: Iterable[Any], max_size: int | None = None) -> Iterator[tuple]:
    items = list(items)
    for n in range(0, (len(items) if max_size is None else max_size) + 1):
        yield from itertools.combinations(items, n)


def walk(init: Iterable[Any], step: Callable[[Any], Iterable[Any]], depth: int, canon=None):
    """Breadth-first exploration of a transition system with deduplication; yields each new state."""
    canon = canon or (lambda s: s)
    seen = set()
    frontier = []
    for s in init:
        k = canon(s)
        if k not in seen:
            seen.add(k)
            frontier.append(s)
            yield s
    for _ in range(depth):
        nxt = []
        for s in frontier:
            for t in step(s):
                k = canon(t)
                if k not in seen:
                    seen.add(k)
                    nxt.append(t)
                    yield t
        frontier = nxt


# ---------------------------------------------------------------- running


class Tally:
    """What a judge reports on the side; one per worker."""

    def __init__(self) -> None:
        self.traces = 0  # executions of the real code that were compared with the model
        self.transitions = 0  # extra transitions, for judges that step through histories
        self.states = 0  # extra states, likewise
        self.outcomes: Counter[str] = Counter()

    def trace(self, n: int = 1) -> None:
        self.traces += n

    def step(self, n: int = 1) -> None:
        self.transitions += n

    def state(self, n: int = 1) -> None:
        self.states += n


T = Tally()


def _alarm(*_: Any) -> None:
    raise Hang()


def plain(x: Any) -> Any:
    """The JSON form of a case."""
    return json.loads(json.dumps(x))


def judge_one(judge: Callable, case: Any, timeout: float = CASE_TIMEOUT) -> str | None:
    """None if the case is fine, otherwise what is wrong."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        out = judge(case)
        T.outcomes[out if isinstance(out, str) else "ok"] += 1
        return None
    except Bad as e:
        return str(e)
    except Hang:
        return f"did not end within {timeout:g} s"
    except RecursionError:
        return "recursion limit exceeded"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))
        return f"unexpected {type(e).__name__}: {e} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(args: tuple) -> None:
    i, n, gen, judge, known, stop_at, pipe, maxbad, timeout = args
    T.__init__()  # type: ignore[misc]
    bad: list[tuple[int, Any, str]] = []
    knowns: dict[str, Any] = {}
    count = 0
    capped = False
    sample: list[Any] = []
    err = None
    try:
        for idx, case in enumerate(gen()):
            if idx % n != i:
                continue
            if count % 64 == 0 and time.time() > stop_at:
                capped = True
                break
            count += 1
            if i == 0 and len(sample) < 3 and count in (1, 40, 900):
                sample.append(plain(case))
            msg = judge_one(judge, case, timeout)
            if msg is not None:
                key = known(plain(case), msg)
                if key is not None:
                    knowns.setdefault(key, (plain(case), msg))
                    continue
                bad.append((idx, plain(case), msg))
                if len(bad) >= maxbad:
                    break
    except BaseException:
        err = traceback.format_exc()
    pipe.send((count, T.traces, T.states, T.transitions, dict(T.outcomes), bad, knowns, capped, sample, err))
    pipe.close()


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int) -> None:
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.stop_at = self.t0 + (DEADLINE if self.quick else DEADLINE * 20)
        self.states = self.transitions = self.traces = 0
        self.spaces: list[dict] = []
        self.samples: list[Any] = []
        self.outcomes: Counter[str] = Counter()
        self.bad: list[tuple[str, Any, str]] = []
        self.judges: dict[str, Callable] = {}
        self.capped = False
        self.findings = load_findings(prop)
        self.assumptions: list[str] = []
        self.jobs = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
        self.maxbad = int(os.environ.get("VERIF_MAXBAD", "1"))
        self.only = os.environ.get("VERIF_SPACE")
        self.replay_space: str | None = None

    def pick(self, quick: Any, thorough: Any) -> Any:
        return quick if self.quick else thorough

    def scratch(self) -> str:
        """A scratch directory, which is removed when this process ends."""
        path = os.path.realpath(tempfile.mkdtemp(prefix=f"verif-{self.prop}-"))
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(path, ignore_errors=True))
        return path

    def assume(self, *text: str) -> None:
        self.assumptions.extend(text)

    def space(self, name: str, gen: Callable[[], Iterable[Any]], judge: Callable[[Any], Any],
              known: Callable[[Any, str], str | None] | None = None, roots: int = 1,
              edges: Callable[[Any], int] | None = None, timeout: float = CASE_TIMEOUT,
              note: str | None = None) -> None:
        """
        Visit every state of a space.

        `known` may map a disagreement to the key of a finding listed in known_findings.txt;
        an unlisted key counts as a violation all the same.
        """
        self.judges[name] = judge
        if self.replay_space is not None:
            return
        if self.only and self.only != name:
            return
        if self.bad and not os.environ.get("VERIF_KEEP_GOING"):
            return  # a violation was found already

        def is_known(case: Any, msg: str) -> str | None:
            for key, f in self.findings.items():
                if f.get("space") == name and f.get("case") == case:
                    return key
            if known is not None:
                key = known(case, msg)
                if key is not None and key in self.findings:
                    return key
            return None

        t0 = time.time()
        n = self.jobs
        mpc = mp.get_context("fork")
        procs, pipes = [], []
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(n):
            r, w = mpc.Pipe(False)
            p = mpc.Process(target=_worker, args=((i, n, gen, judge, is_known, self.stop_at, w, self.maxbad, timeout),))
            p.start()
            w.close()
            procs.append(p)
            pipes.append(r)
        count = traces = xstates = xtrans = 0
        outcomes: Counter[str] = Counter()
        bad: list[tuple[int, Any, str]] = []
        for i, (p, r) in enumerate(zip(procs, pipes)):
            try:
                c, tr, xs, xt, oc, b, kn, capped, sample, err = r.recv()
            except EOFError:
                p.join()
                raise SystemExit(f"worker {i} of space {name} died (exit {p.exitcode})")
            p.join()
            if err:
                print(err, file=sys.stderr)
                raise SystemExit(f"worker {i} of space {name} failed")
            count += c
            traces += tr
            xstates += xs
            xtrans += xt
            outcomes.update(oc)
            bad.extend(b)
            self.capped |= capped
            self.samples.extend({"space": name, "case": s} for s in sample)
            for key, (case, msg) in kn.items():
                self.findings[key].setdefault("seen", (case, msg))
        bad.sort(key=lambda x: x[0])
        for _, case, msg in bad:
            self.bad.append((name, case, msg))
        self.states += count + xstates
        self.transitions += max(count - roots, 0) + xtrans
        self.traces += traces or count
        self.outcomes.update({f"{name}: {k}": v for k, v in outcomes.items()})
        info = {"space": name, "states": count + xstates, "traces": traces or count,
                "outcomes": len(outcomes), "wall_s": round(time.time() - t0, 2)}
        if note:
            info["bounds"] = note
        self.spaces.append(info)
        print(f"  {self.prop} {name}: {count} cases, {traces or count} traces, "
              f"{dict(outcomes.most_common(6))}, {info['wall_s']} s" + (", CAPPED" if self.capped else ""))
        if bad and (os.environ.get("VERIF_KEEP_GOING")):
            for _, case, msg in bad[: int(os.environ.get("VERIF_SHOW", "3"))]:
                print("    BAD", json.dumps(case, ensure_ascii=False)[:400], "\n       ", msg[:700])

    # ------------------------------------------------------------ reporting

    def finish(self) -> int:
        wall = time.time() - self.t0
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        for key, f in self.findings.items():
            if f.get("space") in self.judges and "case" in f and "seen" not in f and not self.only:
                # a listed case which no space contains
                msg = judge_one(self.judges[f["space"]], f["case"])
                if msg is not None:
                    f["seen"] = (f["case"], msg)
            if "seen" in f:
                print(f"KNOWN-FINDING: property={self.prop} {key}: {f['what']}")
        evidence = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "exhaustive": not self.capped and not self.bad,
                "spaces": self.spaces,
                "distinct_outcomes": dict(self.outcomes.most_common(60)),
                "samples": self.samples[:12],
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.bad),
        }
        with open(f"{HERE}/evidence/{self.prop}.json", "w") as f:
            json.dump(evidence, f, indent=1, ensure_ascii=False)
            f.write("\n")
        if self.bad:
            os.makedirs(f"{HERE}/replays", exist_ok=True)
            for n, (space, case, msg) in enumerate(self.bad[:1]):
                path = f"{HERE}/replays/{self.prop}-{n}.json"
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "space": space, "case": case, "message": msg,
                               "replay": f"./run.sh {self.prop} --replay {path}"}, f, indent=1, ensure_ascii=False)
                    f.write("\n")
                print(f"VIOLATION property={self.prop} replay={path}")
                print(f"  space {space}, case {json.dumps(case, ensure_ascii=False)[:500]}")
                print(f"  {msg[:1500]}")
            return 1
        print(f"{self.prop} held: {self.states} states, {self.transitions} transitions, "
              f"{self.traces} traces, {wall:.1f} s" + (" (capped by time)" if self.capped else ""))
        return 0


def load_findings(prop: str) -> dict[str, dict]:
    """
    Lines of known_findings.txt:
      finding: property=<id> key=<key> [space=<space> case=<json>] :: <what fails>
      fixed: property=<id> <commit> <what failed>
    """
    out: dict[str, dict] = {}
    path = f"{HERE}/known_findings.txt"
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("finding: "):
            continue
        head, _, what = line[9:].partition(" :: ")
        f: dict[str, Any] = {"what": what}
        head, _, case = head.partition(" case=")
        if case:
            f["case"] = json.loads(case)
        for part in head.split():
            k, _, v = part.partition("=")
            f[k] = v
        if f["property"] == prop:
            out[f["key"]] = f
    return out
