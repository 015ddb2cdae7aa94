"""C11: a build runs each needed producer partition once, in order, and nothing else."""

from __future__ import annotations

from arti.backends.memory import MemoryBackend

from symex.case import Case

from .builds import AFTER, CALLS, SHAPES, define, reset
from .c10_builds import History, cases

TOLD_APART = [s for s in SHAPES if s != "spread"]  # the builds of its partitions are all the same


def which(call):
    """The producer, and the partition if its input has one."""
    return (call[0], tuple([k for k, _ in call[1]])) if isinstance(call[1], list) else (call[0],)


def runs(t, shape, where, changes, fresh):
    h = History(t, shape, where)
    stored = []  # (version, call) of every build so far
    for n, names in enumerate(changes):
        needed = h.step(n, names, fresh[n])
        made = list(CALLS)
        wider = shape == "widen" and h.place.pick  # all outputs of the producer are used
        new = [(v, c) for v, c in needed
               if not any(which(c) == which(d) and bool(v == w) and bool(t.same(c, d)) and (all_stored or not wider)
                          for w, d, all_stored in stored)]
        t.check(len(made) == len(new), "no partition is built that has its output, or twice")
        for _, c in new:
            got = [d for d in made if which(d) == which(c)]
            t.check(len(got) == 1, "each partition without an output is built once")
            t.check(t.same(got[0], c), "with exactly the inputs mapped to it")
        for i, c in enumerate(made):
            t.check(not any(d[0] in AFTER.get(c[0], ()) for d in made[i + 1:]
                            if not (shape == "diamond" and c[0] == "Neg")), "after what it depends on")
        stored += [(*vc, wider) for vc in new]
        if not new:
            t.cover("nothing to do")
    majors = {c[0]: v for v, c in needed}
    majors = {name: majors.get(name, 1) for name in ("Inc", "Neg", "Sum", "Two", "Each", "Positive", "Kept", "Total", "Running", "Last")}
    for backend in [h.backend] + ([] if where == "literal" else [MemoryBackend()]):
        reset()
        define(shape, h.place, majors, backend).build()
        t.check(not CALLS, "nothing is built again")
    t.cover("built")


def missing(t, shape, where):
    """Any of the outputs are lost: what makes them is built again, and nothing else."""
    h = History(t, shape, where)
    data = h.data(0)
    h.step(0, (), False, data=data, pick=True)
    before = h.taken[-1][0]
    again = []
    with h.backend.connect() as conn:
        for name, artifact in before.artifacts.walk():
            if artifact.producer_output is None:
                continue
            for p in conn.read_snapshot_partitions(before, name, artifact):
                keys = [f.value for f in p.partition_key.values()]
                if t.bool(f"lose {name} {keys}"):
                    if where == "gcs":
                        t.gcs_remove(p.storage_partition.path)
                    else:
                        t.remove(p.storage_partition.path)
                    again.append((type(artifact.producer_output.producer).__name__, keys))
    needed = h.step(1, (), True, data=data, pick=True)
    made = list(CALLS)
    for _, c in needed:
        keys = [k for k, _ in c[1]][-1:] if isinstance(c[1], list) and c[0] not in ("Total", "Last") else []
        lost = any(name == c[0] and ks == keys for name, ks in again)
        got = [d for d in made if which(d) == which(c)]
        t.check(len(got) == lost, "a partition is built again, once, if any of its outputs is missing")
        if lost:
            t.cover("built again")
            t.check(t.same(got[0], c), "with exactly the inputs mapped to it")
    t.check(len(made) <= len(needed), "nothing else is built")
    h.check_reads()
    h.step(2, (), True, data=data, pick=True)
    t.check(not CALLS, "nothing is missing any more")
    h.check_reads()


def CASES(tier):
    out = list(cases(tier, runs, "built", TOLD_APART))
    for shape in TOLD_APART:
        for where in ("local", "gcs") if tier != "quick" or shape != "guard" else ("local",):
            out.append(Case(
                f"missing:{shape}:{where}", missing, dict(shape=shape, where=where), cover=("built again",),
                bounds=f"{shape} over {where}: any raw data, any of the stored outputs are lost, then built with a fresh backend",
                budget_s=240))
    return out
