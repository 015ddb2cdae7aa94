"""google.cloud.bigquery is plain Python and used as it is, but for the one regular expression on names."""

from __future__ import annotations

from .hooks import is_sym


def install():
    from google.cloud.bigquery import _helpers

    split = _helpers._split_id

    def split_id(full_id):
        if is_sym(full_id):  # (names in the harness have no prefixed projects)
            return [part for part in full_id.split(".") if part]
        return split(full_id)

    _helpers._split_id = split_id
