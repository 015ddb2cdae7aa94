"""pandas with a DataFrame whose column names can be symbolic; series (of concrete values) are the real ones.

Every explored path is replayed on the real pandas, which checks this model.
"""

from __future__ import annotations

import sys
import types as _types

from .engine import Unsupported


def install():
    import pandas

    class DataFrame:
        def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
            if index is not None or columns is not None or dtype is not None:
                raise Unsupported("pandas.DataFrame(...)")
            items = [] if data is None else list(data.items())
            rows = {len(v) for _, v in items if hasattr(v, "__len__")}
            if items and not rows:
                raise ValueError("If using all scalar values, you must pass an index")
            if len(rows) > 1:
                raise Unsupported("columns of different lengths")
            self._items = []
            for k, v in items:
                if isinstance(v, DataFrame):
                    raise ValueError("Per-column arrays must each be 1-dimensional")
                self._items.append((k, v if isinstance(v, pandas.Series) else pandas.Series(v)))
            self._rows = rows.pop() if rows else 0

        @property
        def columns(self):
            return Columns([k for k, _ in self._items])

        @property
        def shape(self):
            return (self._rows, len(self._items))

        def __len__(self):
            return self._rows

        def __iter__(self):
            return iter([k for k, _ in self._items])

        def keys(self):
            return self.columns

        def items(self):
            return iter(list(self._items))

        def __contains__(self, key):
            return any([bool(k == key) for k, _ in self._items])

        def __getitem__(self, key):
            if isinstance(key, list):
                return DataFrame({k: self[k] for k in key})
            for k, v in self._items:
                if k == key:
                    return v
            raise KeyError(key)

        def get(self, key, default=None):
            return self[key] if key in self else default

        def __setitem__(self, key, value):
            for i, (k, _) in enumerate(self._items):
                if k == key:
                    self._items[i] = (k, value)
                    return
            self._items.append((key, value))

        @property
        def dtypes(self):
            return Columns([(k, v.dtype) for k, v in self._items], pairs=True)

        @property
        def empty(self):
            return not self._rows or not self._items

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise Unsupported(f"pandas.DataFrame.{name}")

    class Columns:
        def __init__(self, items, pairs=False):
            self._list, self._pairs = items, pairs

        def __iter__(self):
            return iter([v for _, v in self._list] if self._pairs else self._list)

        def items(self):
            return iter(self._list)

        def __len__(self):
            return len(self._list)

        def __getitem__(self, key):
            if self._pairs:
                for k, v in self._list:
                    if k == key:
                        return v
                raise KeyError(key)
            return self._list[key]

        def __contains__(self, key):
            return any([bool((k[0] if self._pairs else k) == key) for k in self._list])

        def tolist(self):
            return list(self)

        to_list = tolist

        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            raise Unsupported(f"columns.{name}")

    pd = _types.ModuleType("pandas")
    pd.DataFrame, pd.Series = DataFrame, pandas.Series
    pd.__getattr__ = lambda name: getattr(pandas, name)
    sys.modules["pandas"] = pd
