"""Independent prediction of what the sampler delivers for given sampled rows.

Works on plain Python rows.  The order of steps is the documented one: compaction (by the
source), filters in order, multiplicity, merge shifting; then the rows meet what the
destination already holds.
"""

from __future__ import annotations

import datetime
import decimal
import fnmatch
from typing import Any, Dict, List, Optional, Sequence, Set, Tuple

import planoracle as po
from runner import Skip
from world import FK, Key, Table, World

Row = Dict[str, Any]


class Refused(Exception):
    """The configuration has to be refused before the destination is touched."""


class Fails(Skip):
    """The run has to fail (while running)."""


class Ambiguous(Skip):
    """A column belongs to several relations that would change it differently."""


def name(key: Key) -> str:
    return f"{key[0]}.{key[1]}"


# -- filters -----------------------------------------------------------------------------


def zero_of(value: Any) -> Any:
    if value is None:
        return None
    if isinstance(value, bool):
        return False
    if isinstance(value, str):
        return ""
    if isinstance(value, int):
        return 0
    if isinstance(value, float):
        return 0.0
    if isinstance(value, datetime.datetime):
        return datetime.datetime(1970, 1, 1, tzinfo=value.tzinfo)
    raise Fails(f"no zero for {value!r}")


def matches(cond: Dict[str, Any], value: Any) -> bool:
    op, ref = cond["op"], cond["value"]
    if op == "is":
        return value is None  # only generated with null
    if op == "is not":
        return value is not None
    if op == "in":
        return value in ref
    if op == "not in":
        return value not in ref
    if op == "=":
        return value == ref
    if op == "!=":
        return value != ref
    if op == "matches":
        return fnmatch.fnmatch(value, ref)
    if op == "<":
        return value < ref
    if op == ">":
        return value > ref
    if op == "<=":
        return value <= ref
    if op == ">=":
        return value >= ref
    raise AssertionError(op)


class Wild:
    """A freshly generated value."""

    def __repr__(self) -> str:
        return "<generated>"


WILD = Wild()


def generates(op: str) -> bool:
    return op.startswith(("random_", "fake_")) or op == "uuid"


def apply_filter(conf: Dict[str, Any], row: Row) -> Row:
    """One deterministic filter on one row; returns a new row (columns in order)."""
    out = dict(row)
    op = conf["op"]
    if op == "omit":
        for col in conf["columns"]:
            del out[col]
    elif op == "null":
        for col in conf["columns"]:
            out[col] = None
    elif op == "zero":
        for col in conf["columns"]:
            out[col] = zero_of(out[col])
    elif op == "constant":
        for col, value in zip(conf["columns"], conf["values"]):
            out[col] = value
    elif op == "plugin":
        values = plugin_result(conf, [row[c] for c in conf["columns"]])
        for col, value in zip(conf["columns"], values):
            out[col] = value
    elif generates(op):
        for col in conf["columns"]:
            out[col] = WILD
    elif op == "multiplex":
        for cond in conf["conditions"]:
            if matches(cond, row[conf["column"]]):
                return apply_filter(cond["apply"], row)
    else:
        raise AssertionError(op)
    return out


def plugin_result(conf: Dict[str, Any], values: List[Any]) -> List[Any]:
    """What the plugins in plug.py do, stated again."""
    kwargs = conf.get("kwargs", {})
    clazz = conf["class"]
    if clazz == "Suffix":
        return [None if v is None else f"{v}{kwargs['suffix']}" for v in values]
    if clazz == "Swap":
        return list(reversed(values))
    if clazz == "AddInt":
        return [None if v is None else v + kwargs["num"] for v in values]
    raise AssertionError(clazz)


# -- the whole pipeline ------------------------------------------------------------------


class SamplerModel:
    def __init__(
        self,
        world: World,
        samples: Dict[Key, List[Row]],
        passthrough: Set[Key],
        conf: Dict[str, Any],
        *,
        existing: Optional[Dict[Key, List[Row]]] = None,
        columns: Optional[Dict[Key, Sequence[str]]] = None,
        autoinc: Optional[Set[Key]] = None,
    ) -> None:
        self.world = world
        self.samples = samples
        self.passthrough = passthrough & set(samples)
        self.conf = conf
        self.existing = existing or {}
        self.columns = columns or {}
        self.autoinc = autoinc or set()
        self.order_hint: Dict[Key, Dict[int, int]] = {}
        self.tables = {key: world.tables[key] for key in samples}
        self.fks: Dict[Key, List[FK]] = {key: list(t.fks) for key, t in self.tables.items()}
        mode = conf.get("infer_foreign_keys", "none")
        if mode != "none":
            for key, extra in po.infer_fks(list(self.tables.values()), mode, self.fks).items():
                self.fks[key].extend(extra)

    # -- compaction
    def compact_cols(self) -> Dict[Key, Set[str]]:
        conf = self.conf.get("compact", {})
        result: Dict[Key, Set[str]] = {}
        for full, cols in conf.get("columns", {}).items():
            key = po.split(full)
            if cols and key in self.tables and key not in self.passthrough:
                result[key] = set(cols)
        for key, table in self.tables.items():
            if key in self.passthrough or len(table.pk) != 1:
                continue
            if table.col(table.pk[0]).kind == "text":
                continue
            if conf.get("primary_keys") or (conf.get("auto_increment_keys") and key in self.autoinc):
                result.setdefault(key, set()).add(table.pk[0])
        for key in self.tables:
            for fk in self.fks[key]:
                if set(fk.cols) & result.get(key, set()):
                    raise Refused(f"compacted column within foreign key of {key}")
        return result

    def compacted(self) -> Dict[Key, List[Row]]:
        cols = self.compact_cols()
        start = self.conf.get("compact", {}).get("start_key", 1)
        new_id: Dict[Key, Dict[int, int]] = {}
        for key, names in cols.items():
            table = self.tables[key]
            ordered = sorted(self.samples[key], key=lambda r, t=table: tuple(r[c] for c in t.pk))
            new_id[key] = self.order_hint.get(key) or {
                r["rid"]: start + i for i, r in enumerate(ordered)}
        # a reference takes the value its target has afterwards
        moved: Dict[Key, Dict[str, List[Tuple[FK, str]]]] = {key: {} for key in self.samples}
        changed = True
        while changed:
            changed = False
            for key in self.samples:
                for fk in self.fks[key]:
                    if fk.ref not in self.samples:
                        continue
                    for a, b in zip(fk.cols, fk.ref_cols):
                        if b not in cols.get(fk.ref, ()) and b not in moved[fk.ref]:
                            continue
                        known = moved[key].setdefault(a, [])
                        if (fk, b) not in known:
                            known.append((fk, b))
                            changed = True
        lookup: Dict[Any, Dict[Any, Row]] = {}

        def target(fk: FK, row: Row) -> Optional[Row]:
            key = (fk.ref, fk.ref_cols)
            if key not in lookup:
                lookup[key] = {po.fk_value(r, fk.ref_cols): r for r in self.samples[fk.ref]}
            val = po.fk_value(row, fk.cols)
            return None if val is None else lookup[key].get(val)

        def value(key: Key, row: Row, col: str, seen: Tuple = ()) -> Any:
            if col in cols.get(key, ()):
                return new_id[key][row["rid"]]
            if col not in moved[key] or row[col] is None:
                return row[col]
            if (key, col, row["rid"]) in seen:
                raise Ambiguous(f"cyclic reference {key}.{col}")
            found = set()
            for fk, b in moved[key][col]:
                ref = target(fk, row)
                if ref is None and (len(moved[key][col]) > 1 or b not in cols.get(fk.ref, ())):
                    raise Ambiguous(f"{key}.{col} refers to nothing")
                found.add(None if ref is None else value(fk.ref, ref, b, seen + ((key, col, row["rid"]),)))
            if len(found) > 1:
                raise Ambiguous(f"{key}.{col}")
            return found.pop()

        return {
            key: [{col: value(key, row, col) for col in row} for row in rows]
            for key, rows in self.samples.items()
        }

    # -- multiplicity
    def multiplied(self) -> Tuple[int, Dict[Key, Set[str]]]:
        conf = self.conf.get("multiplicity", {})
        m = conf.get("multiplier", 1)
        if m <= 1:
            return 1, {}
        off = self.passthrough | {po.split(t) for t in conf.get("ignore_tables", [])}
        result: Dict[Key, Set[str]] = {}
        for key, table in self.tables.items():
            if key in off:
                continue
            cols = set(conf.get("extra_columns", {}).get(name(key), []))
            cols |= set(table.pk) - set(conf.get("ignore_primary_key_columns", {}).get(name(key), []))
            result[key] = cols
        changed = True
        while changed:
            changed = False
            for key in self.tables:
                for fk in self.fks[key]:
                    hit = {a for a, b in zip(fk.cols, fk.ref_cols) if b in result.get(fk.ref, ())}
                    if hit and key in off:
                        raise Refused(f"unmultiplied {key} refers to multiplied column")
                    if hit - result.get(key, set()):
                        result[key] |= hit
                        changed = True
        for key, cols in result.items():
            for col in cols:
                if self.tables[key].col(col).kind not in ("int", "bigint"):
                    raise Refused(f"multiplied column {key}.{col} is no integer")
        return m, result

    # -- merging
    def offsets(self) -> Dict[Key, Dict[str, int]]:
        if not self.conf.get("output", {}).get("merge"):
            return {}
        memo: Dict[Tuple[Key, str], int] = {}

        def shift_of(key: Key, col: str, seen: Tuple = ()) -> int:
            """How far a column moves."""
            table = self.tables[key]
            if key in self.passthrough or (key, col) in seen:
                return 0
            if (key, col) not in memo:
                refs = [
                    (fk.ref, b) for fk in self.fks[key] if fk.ref in self.tables
                    for a, b in zip(fk.cols, fk.ref_cols) if a == col
                ]
                if refs:
                    # a column that refers to others follows them
                    moves = {shift_of(ref, b, seen + ((key, col),)) for ref, b in refs}
                    if len(moves) > 1:
                        raise Ambiguous(f"{key}.{col} refers to columns moved differently")
                    memo[key, col] = moves.pop()
                elif table.pk == (col,) and table.col(col).kind != "text":
                    ids = [r[col] for r in self.existing.get(key, [])]
                    memo[key, col] = max(ids) + 1 if ids else 0
                else:
                    memo[key, col] = 0
            return memo[key, col]

        return {
            key: {col: shift_of(key, col) for col in table.names()}
            for key, table in self.tables.items() if key not in self.passthrough
        }

    def delivered(self) -> Dict[Key, List[Row]]:
        """The rows handed to the destination, per source table."""
        m, mcols = self.multiplied()
        rows = self.compacted()
        offsets = self.offsets()
        result: Dict[Key, List[Row]] = {}
        for key, table_rows in rows.items():
            chain = self.conf.get("filters", {}).get(name(key), [])
            drop = set(self.columns.get(key, ()))
            out = []
            for row in table_rows:
                copies = m if key in mcols else 1
                for i in range(copies):
                    new = dict(row)
                    for conf in chain:
                        new = apply_filter(conf, new)
                    for col in drop:
                        new.pop(col, None)
                    for col in mcols.get(key, ()):
                        if copies > 1 and new.get(col) is not None:
                            new[col] = new[col] * m + i
                    for col, off in offsets.get(key, {}).items():
                        if off and new.get(col) is not None:
                            new[col] += off
                    out.append(new)
            result[key] = out
        return result


def land(
    table: Table,
    existing: List[Row],
    incoming: List[Row],
    strategy: str,
    *,
    uniques: Sequence[Tuple[str, ...]] = (),
    defaults: Optional[Dict[str, Any]] = None,
) -> List[Row]:
    """Contents of a destination table after inserting rows under a conflict strategy."""
    rows = [dict(r) for r in existing]
    names = table.names()
    index: Dict[tuple, Row] = {}
    if table.pk:
        for row in rows:
            index[tuple(row[c] for c in table.pk)] = row
    for new in incoming:
        filled = {n: new.get(n, (defaults or {}).get(n)) for n in names}
        if table.pk:
            val = tuple(filled[c] for c in table.pk)
            old = index.get(val)
            if old is not None:
                if strategy == "error":
                    raise Fails(f"duplicate key {val} in {table.key}")
                if strategy == "replace":
                    for col in new:
                        if col not in table.pk:
                            old[col] = new[col]
                continue
            index[val] = filled
        rows.append(filled)
    return rows
