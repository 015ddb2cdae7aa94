"""What a harness module is made of (shared by the symbolic and the replay process)."""

from __future__ import annotations

from dataclasses import dataclass, field
from collections.abc import Mapping
from typing import Any, Callable


@dataclass
class Case:
    """One harness: `fn(t, **params)` over symbolic inputs drawn from `t`.

    bounds: the stated bounds of this case (goes to the evidence).
    cover: labels that some path has to reach (vacuity guard).
    """

    name: str
    fn: Callable[..., None]
    params: dict[str, Any] = field(default_factory=dict)
    bounds: str = ""
    cover: tuple[str, ...] = ()
    max_paths: int = 20000
    budget_s: float = 240.0


class Known:
    """Ids of the listed findings; others are ignored (so they stay violations)."""

    listed: frozenset = frozenset()


def leaf_pairs(a, b):
    """Pairs of scalar leaves that have to be equal for `a` and `b` to be the same data.

    Yields None when they differ in shape. Types count (1 is not True, list is not tuple).
    """
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if isinstance(a, list) != isinstance(b, list) or len(a) != len(b):
            yield None
            return
        for x, y in zip(a, b):
            yield from leaf_pairs(x, y)
    elif isinstance(a, Mapping) and isinstance(b, Mapping):
        if len(a) != len(b):
            yield None
            return
        ia, ib = list(a.items()), list(b.items())
        if all(type(k) is str for k, _ in ia + ib):  # entry order is no part of a mapping's value
            ia.sort(key=lambda kv: kv[0])
            ib.sort(key=lambda kv: kv[0])
        for (k1, v1), (k2, v2) in zip(ia, ib):
            yield from leaf_pairs(k1, k2)
            yield from leaf_pairs(v1, v2)
    elif hasattr(type(a), "model_fields") and hasattr(type(b), "model_fields"):
        if type(a) is not type(b):
            yield None
            return
        for n in type(a).model_fields:
            yield from leaf_pairs(getattr(a, n), getattr(b, n))
    elif isinstance(a, type) or isinstance(b, type) or a is None or b is None:
        if a is not b:
            yield None
    elif isinstance(a, bool) != isinstance(b, bool):
        yield None
    elif isinstance(a, str) != isinstance(b, str) or isinstance(a, int) != isinstance(b, int):
        yield None
    else:
        yield a, b
