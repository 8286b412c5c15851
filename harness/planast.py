"""Random plan documents and what they select (three-valued logic over plain rows)."""

from __future__ import annotations

import re
from typing import Any, Dict, List, Optional, Sequence, Tuple

WORDS = ["a", "b", "ab", "abc", "b1", "x", "x1y", "1", "", "zz"]


def and3(vals):
    vals = list(vals)
    if any(v is False for v in vals):
        return False
    return None if any(v is None for v in vals) else True


def or3(vals):
    vals = list(vals)
    if any(v is True for v in vals):
        return True
    return None if any(v is None for v in vals) else False


def not3(val):
    return None if val is None else not val


def eq3(a, b):
    return None if a is None or b is None else a == b


def like3(val, pattern):
    if val is None:
        return None
    regex = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in pattern)
    return re.fullmatch(regex, val, re.S) is not None


def in3(vals: Tuple, options: Sequence[Tuple]):
    return or3(and3(eq3(a, b) for a, b in zip(vals, option)) for option in options)


class Table:
    """What a statement may select from."""

    def __init__(self, key, cols, rows, pk) -> None:
        self.key = key
        self.cols: Dict[str, str] = cols  # name -> int | text
        self.rows: List[Dict[str, Any]] = rows
        self.pk = pk


class Gen:
    def __init__(self, rng, dialect: str, qualify) -> None:
        self.rng = rng
        self.dialect = dialect
        self.qualify = qualify  # (key, col) -> sql text
        self.avail: List[Tuple[Dict[str, Any], Table]] = []  # identifiers that may be referred to
        self.params = 0
        self.features: set = set()

    # -- conditions
    def value(self, kind: str) -> Any:
        if kind == "int":
            return self.rng.choice([-1, 0, 1, 2, 3, 4, 5, 2.5] if self.rng.random() < 0.9 else [10**12])
        return self.rng.choice(WORDS)

    def cond(self, table: Table, depth: int, sql_ok: bool) -> Dict[str, Any]:
        rng = self.rng
        roll = rng.random()
        if depth > 0 and roll < 0.42:
            kind = rng.choice(["and", "or"])
            num = rng.choice([0, 1, 2, 2, 3, 3])
            self.features.add(f"{kind}{num}")
            return {"type": kind, "conditions": [self.cond(table, depth - 1, sql_ok) for _ in range(num)]}
        if roll < 0.5:
            self.features.add("literal")
            return {"type": rng.choice(["true", "false"])}
        if roll < 0.56:
            self.features.add("random")
            return {"type": "random", "threshold": rng.choice([0, -0.5, 1, 1.0, 2.5, 0.0])}
        if roll < 0.68 and sql_ok:
            return self.sql(table)
        if roll < 0.84:
            return self.in_(table, depth)
        col = rng.choice(list(table.cols))
        kind = table.cols[col]
        op = rng.choice(["<", ">", "=", "<>", "!="] + (["like", "not like"] * 2 if kind == "text" else []))
        value = rng.choice(["a%", "%b%", "_", "%", "", "%1_", "x1y"]) if "like" in op else self.value(kind)
        self.features.add(f"op {op}")
        node = {"type": "operator", "operator": op, "column": col, "value": value}
        if op == "=" and rng.random() < 0.3:
            del node["operator"]
        return node

    def sql(self, table: Table) -> Dict[str, Any]:
        rng = self.rng
        col = rng.choice(list(table.cols))
        ref = self.qualify(table.key, col)
        kind = table.cols[col]
        value = self.value(kind)
        if isinstance(value, float):
            value = 2
        self.features.add("sql")
        roll = rng.random()
        name = rng.choice(["p", "p", "q", "val"])
        node: Dict[str, Any] = {"type": "sql"}
        if roll < 0.3:
            node["sql"] = f"{ref} = :{name}"
            node["sql_params"] = {name: value}
            node["#"] = ("=", col, value)
            self.features.add("sql params")
        elif roll < 0.5:
            lit = f"'{value}'" if kind == "text" else str(value)
            node["sql"] = f"{ref} <> {lit} OR {ref} IS NULL"
            node["#"] = ("ne or null", col, value)
        elif roll < 0.65:
            node["sql"] = f"{ref} IS NOT NULL"
            node["#"] = ("not null", col, None)
        elif kind == "text":
            node["sql"] = f"{ref} LIKE 'a%'"
            node["#"] = ("like", col, "a%")
        elif roll < 0.85:
            node["sql"] = f"{ref} > 0 AND {ref} % 2 = 1"
            node["#"] = ("odd", col, None)
        else:
            node["sql"] = f"{ref} BETWEEN :{name} AND :{name}2"
            node["sql_params"] = {name: value, f"{name}2": value + 2}
            node["#"] = ("between", col, value)
            self.features.add("sql params")
        return node

    def in_(self, table: Table, depth: int) -> Dict[str, Any]:
        rng = self.rng
        num = min(len(table.cols), rng.choice([1, 1, 1, 2]))
        cols = rng.sample(list(table.cols), num)
        kinds = [table.cols[c] for c in cols]
        node: Dict[str, Any] = {"type": "in", "columns": cols}
        if rng.random() < 0.4 or "negated" not in node and rng.random() < 0.1:
            node["negated"] = True
        if depth > 0 and rng.random() < 0.45:
            stmt = self.statement(depth - 1, kinds=kinds, limit=False)
            if stmt is not None:
                self.features.add(f"in subquery {bool(node.get('negated'))} {num}")
                node["values"] = stmt
                return node
        count = rng.choice([0, 1, 2, 3, 4]) if num == 1 else rng.choice([1, 2, 3, 5])
        node["values"] = [[self.value(k) for k in kinds] for _ in range(count)]
        if num > 1:
            # (mysql rounds fractions when it compares rows with integer columns)
            node["values"] = [[2 if v == 2.5 else v for v in vals] for vals in node["values"]]
        if table.rows and count and rng.random() < 0.6:
            row = rng.choice(table.rows)
            if all(row[c] is not None for c in cols):
                node["values"].append([row[c] for c in cols])
        self.features.add(f"in {num} {bool(node.get('negated'))} {min(count, 1)}")
        return node

    def plain_membership(self, table: Table) -> Optional[Dict[str, Any]]:
        """Membership in a union of simple selections that read one table, whose result depends on every part."""
        rng = self.rng
        kind = rng.choice(sorted(set(table.cols.values())))
        col = rng.choice([c for c, k in table.cols.items() if k == kind])
        fits = [(i, t) for i, t in self.avail if sum(k == kind for k in t.cols.values())]
        ident, other = rng.choice(fits)
        parts = []
        for _ in range(rng.choice([2, 2, 3])):
            part: Dict[str, Any] = {"type": "select", "from": dict(ident), "columns": self.columns(other, [kind])}
            if rng.random() < 0.5:
                part["where"] = self.cond(other, 0, sql_ok=False)
            parts.append(part)
        self.features.add("plain membership")
        return {"type": "in", "columns": [col], "negated": rng.random() < 0.3, "values": {"type": "union", "statements": parts}}

    # -- statements
    def select(self, ident, table: Table, depth: int, *, columns: Optional[List[str]], limit: bool = False) -> Dict[str, Any]:
        rng = self.rng
        node: Dict[str, Any] = {"type": "select", "from": ident}
        if columns is not None:
            node["columns"] = columns
        if rng.random() < 0.75:
            node["where"] = self.cond(table, depth, sql_ok=not ident.get("sampled"))
        if self.avail and depth > 0 and rng.random() < 0.5:
            joins = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                join = self.join(table)
                if join:
                    joins.append(join)
            if joins:
                node["joins"] = joins
                if rng.random() < 0.6:
                    node["joins_outer"] = rng.random() < 0.6
                self.features.add(f"joins {len(joins)} {node.get('joins_outer')}")
        if limit and rng.random() < 0.15:
            node["limit"] = rng.choice([0, 1, 2, 5, 100])
            self.features.add("limit")
        return node

    def join(self, table: Table) -> Optional[Dict[str, Any]]:
        rng = self.rng
        ident, right = rng.choice(self.avail)
        pairs = [(a, b) for a in table.cols for b in right.cols if table.cols[a] == right.cols[b]]
        if not pairs:
            return None
        chosen = [rng.choice(pairs)]
        if rng.random() < 0.3:
            other = rng.choice(pairs)
            if other[0] != chosen[0][0] and other[1] != chosen[0][1]:
                chosen.append(other)
        join: Dict[str, Any] = {
            "right": dict(ident), "left_columns": [a for a, _ in chosen], "right_columns": [b for _, b in chosen],
        }
        if rng.random() < 0.7:
            join["half_unique"] = rng.random() < 0.6
        self.features.add(f"join {bool(ident.get('sampled'))} {join.get('half_unique')} {bool(table.pk)}")
        return join

    def columns(self, table: Table, kinds: List[str]) -> List[str]:
        while True:
            cols = [self.rng.choice([c for c, k in table.cols.items() if k == kind]) for kind in kinds]
            if len(set(cols)) == len(cols):
                return cols

    def statement(self, depth: int, *, kinds: Optional[List[str]] = None, limit: bool = False):
        """A statement over any referable table (for subqueries)."""
        rng = self.rng
        fits = []
        for ident, table in self.avail:
            cols = []
            for kind in kinds or []:
                cand = [c for c, k in table.cols.items() if k == kind and c not in cols]
                if not cand:
                    break
                cols.append(rng.choice(cand))
            else:
                fits.append((ident, table, cols))
        if not fits:
            return None
        ident, table, cols = rng.choice(fits)
        if rng.random() < 0.3:
            self.features.add("subquery union")
            parts = [rng.choice(fits) for _ in range(rng.choice([1, 2, 2, 3]))]
            if rng.random() < 0.5:
                # the same table, but perhaps other columns of it
                parts = [(ident, table, self.columns(table, kinds or [])) for _ in parts]
                depth = 0
            return {"type": "union", "statements": [self.select(dict(i), t, depth, columns=c) for i, t, c in parts]}
        return self.select(dict(ident), table, depth, columns=cols)


class Eval:
    """Reference semantics."""

    def __init__(self, base: Dict[Tuple[str, str], Table], sampled: Dict[Tuple[str, str], List[Dict[str, Any]]]) -> None:
        self.base = base
        self.sampled = sampled

    def rows_of(self, ident) -> List[Dict[str, Any]]:
        key = (ident["schema"], ident["table"])
        return self.sampled[key] if ident.get("sampled") else self.base[key].rows

    def cond(self, node, row):
        kind = node["type"]
        if kind == "true":
            return True
        if kind == "false":
            return False
        if kind == "random":
            return node["threshold"] >= 1
        if kind == "and":
            return and3(self.cond(c, row) for c in node["conditions"])
        if kind == "or":
            return or3(self.cond(c, row) for c in node["conditions"])
        if kind == "operator":
            val, other = row[node["column"]], node["value"]
            op = node.get("operator", "=")
            if val is None:
                return None
            if op == "<":
                return val < other
            if op == ">":
                return val > other
            if op == "=":
                return val == other
            if op in ("<>", "!="):
                return val != other
            return like3(val, other) if op == "like" else not3(like3(val, other))
        if kind == "in":
            vals = tuple(row[c] for c in node["columns"])
            if isinstance(node["values"], list):
                options = [tuple(v) for v in node["values"]]
            else:
                options = self.statement_tuples(node["values"])
            result = in3(vals, options)
            return not3(result) if node.get("negated") else result
        if kind == "sql":
            what, col, value = node["#"]
            val = row[col]
            if what == "=":
                return eq3(val, value)
            if what == "ne or null":
                return val is None or val != value
            if what == "not null":
                return val is not None
            if what == "like":
                return like3(val, value)
            if val is None:
                return None
            if what == "odd":
                return val > 0 and val % 2 == 1
            if what == "between":
                return value <= val <= value + 2
        raise AssertionError(kind)

    def matches(self, stmt) -> List[Dict[str, Any]]:
        """Rows a select (without limit) qualifies, before projection."""
        out = []
        for row in self.rows_of(stmt["from"]):
            joins = stmt.get("joins") or []
            if joins:
                hits = []
                for join in joins:
                    right = self.rows_of(join["right"])
                    hits.append(any(
                        all(eq3(row[a], r[b]) for a, b in zip(join["left_columns"], join["right_columns"])) for r in right))
                if not (any(hits) if stmt.get("joins_outer") else all(hits)):
                    continue
            if stmt.get("where") is not None and self.cond(stmt["where"], row) is not True:
                continue
            out.append(row)
        return out

    def project(self, stmt, rows, all_cols):
        cols = stmt.get("columns") or all_cols
        return [tuple(r[c] for c in cols) for r in rows]

    def statement_tuples(self, stmt, all_cols=None):
        if stmt["type"] == "union":
            seen = []
            for part in stmt["statements"]:
                for tup in self.statement_tuples(part, all_cols):
                    if tup not in seen:
                        seen.append(tup)
            return seen
        return self.project(stmt, self.matches(stmt), all_cols)


def strip(node):
    """The document without the oracle's annotations."""
    if isinstance(node, dict):
        return {k: strip(v) for k, v in node.items() if k != "#"}
    if isinstance(node, (list, tuple)):
        return [strip(v) for v in node]
    return node
