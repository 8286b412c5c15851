"""Independent model of what a planner configuration means for a given world."""

from __future__ import annotations

import re
from typing import Any, Callable, Dict, Iterable, List, Optional, Set, Tuple

from world import FK, Key, Table, World


def glob_match(name: str, pattern: str) -> bool:
    """`*` wildcard only (the generators use no other metacharacter)."""
    return re.fullmatch(
        ".*".join(re.escape(part) for part in pattern.split("*")), name, re.S
    ) is not None


def like_match(value: Optional[str], pattern: str) -> bool:
    if value is None:
        return False
    regex = "".join(
        ".*" if ch == "%" else "." if ch == "_" else re.escape(ch) for ch in pattern
    )
    return re.fullmatch(regex, value, re.S) is not None


def split(name: str) -> Key:
    schema, table = name.split(".", 1)
    return (schema, table)


class Graph:
    """Tables in scope and the foreign keys the planner is told to use."""

    def __init__(self, world: World, cfg: Dict[str, Any]) -> None:
        self.world = world
        self.cfg = cfg
        self.errors: List[str] = []
        self.passthrough: Set[Key] = {split(t) for t in cfg.get("passthrough", [])}
        self.ignored: Set[Key] = {split(t) for t in cfg.get("ignore", [])}
        self.targets: Dict[Key, Dict[str, Any]] = {
            split(t): spec for t, spec in cfg["targets"].items()
        }
        self.scope = self._scope()
        self.fks: Dict[Key, List[FK]] = self._fks()
        self._validate()
        self.planned: Set[Key] = set()
        if not self.errors:
            self.planned = self._connected()
            self._cycles()

    def _scope(self) -> Set[Key]:
        cfg = self.cfg
        patterns = list(cfg["select"]) + list(cfg.get("passthrough", []))
        scope = {
            key for key in self.world.tables
            if any(glob_match(".".join(key), pat) for pat in patterns)
        }
        if cfg.get("include_dependencies", True):
            todo = list(scope)
            while todo:
                for fk in self.world.tables[todo.pop()].fks:
                    if fk.ref not in scope:
                        scope.add(fk.ref)
                        todo.append(fk.ref)
        return scope

    def _fks(self) -> Dict[Key, List[FK]]:
        cfg = self.cfg
        fks = {key: list(self.world.tables[key].fks) for key in self.scope}
        mode = cfg.get("infer_foreign_keys", "none")
        if mode != "none":
            for key, extra in infer_fks(
                [self.world.tables[k] for k in self.scope], mode, fks
            ).items():
                fks[key].extend(extra)
        for ign in cfg.get("ignore_fks", []):
            src, dst = split(ign["src_table"]), split(ign["dst_table"])
            if src in fks:
                fks[src] = [fk for fk in fks[src] if fk.ref != dst]
        for ext in cfg.get("extra_fks", []):
            src, dst = split(ext["src_table"]), split(ext["dst_table"])
            if src not in fks or dst not in fks:
                continue
            if set(ext["src_columns"]) - set(self.world.tables[src].names()):
                continue
            if set(ext["dst_columns"]) - set(self.world.tables[dst].names()):
                continue
            fks[src].append(FK(ext["src_columns"], dst, ext["dst_columns"]))
        return fks

    def mistyped(self) -> bool:
        """A configured / inferred relation compares columns of different types."""
        for key, fks in self.fks.items():
            for fk in fks:
                for a, b in zip(fk.cols, fk.ref_cols):
                    kinds = {self.world.tables[key].col(a).kind, self.world.tables[fk.ref].col(b).kind}
                    if "text" in kinds and len(kinds) > 1:
                        return True
        return False

    def _validate(self) -> None:
        if self.cfg.get("include_dependencies", True):
            for key in self.scope - self.ignored:
                for fk in self.fks[key]:
                    if fk.ref in self.ignored:
                        self.errors.append(f"fk into ignored table {fk.ref}")
        for key in self.passthrough & self.scope:
            for fk in self.fks[key]:
                if fk.ref not in self.passthrough:
                    self.errors.append(f"passthrough {key} has fk to {fk.ref}")
        self.passthrough &= self.scope
        for key in self.targets:
            if key not in self.nodes():
                self.errors.append(f"target {key} not selected")

    def nodes(self) -> Set[Key]:
        return self.scope - self.passthrough - self.ignored

    def edges(self) -> List[Tuple[Key, FK]]:
        nodes = self.nodes()
        return [
            (key, fk) for key in nodes for fk in self.fks[key] if fk.ref in nodes
        ]

    def _connected(self) -> Set[Key]:
        neigh: Dict[Key, Set[Key]] = {}
        for key, fk in self.edges():
            neigh.setdefault(key, set()).add(fk.ref)
            neigh.setdefault(fk.ref, set()).add(key)
        seen = set(self.targets)
        todo = list(seen)
        while todo:
            for other in neigh.get(todo.pop(), ()):
                if other not in seen:
                    seen.add(other)
                    todo.append(other)
        return seen

    def _cycles(self) -> None:
        out: Dict[Key, Set[Key]] = {key: set() for key in self.planned}
        for key, fk in self.edges():
            if key in out:
                out[key].add(fk.ref)
        left = dict(out)
        while True:
            free = [k for k, refs in left.items() if not refs & set(left)]
            if not free:
                break
            for k in free:
                del left[k]
        if left:
            self.errors.append(f"cycle among {sorted(left)}")

    def planned_fks(self) -> List[Tuple[Key, FK]]:
        """Distinct usable FKs between planned tables."""
        seen = set()
        result = []
        for key, fk in self.edges():
            if key in self.planned and (key, fk.ident()) not in seen:
                seen.add((key, fk.ident()))
                result.append((key, fk))
        return result


def infer_fks(tables: Iterable[Table], mode: str, existing: Dict[Key, List[FK]]):
    """FKs implied by a column that carries the name of exactly one table's primary key."""
    by_pk: Dict[Any, List[Table]] = {}
    for table in tables:
        if len(table.pk) == 1:
            scope = table.key[0] if mode == "schema" else None
            by_pk.setdefault((scope, table.pk[0]), []).append(table)
    result: Dict[Key, List[FK]] = {}
    for table in tables:
        have = {fk.ident() for fk in existing.get(table.key, [])}
        scope = table.key[0] if mode == "schema" else None
        for col in table.cols:
            owners = by_pk.get((scope, col.name), [])
            if len(owners) != 1 or owners[0] is table:
                continue
            fk = FK([col.name], owners[0].key, [col.name])
            if fk.ident() not in have:
                result.setdefault(table.key, []).append(fk)
    return result


# -- targets -----------------------------------------------------------------------------

SQL_CONDS: Dict[str, Callable[[Dict[str, Any]], bool]] = {}


def sql_cond(rng, endpoint, table: Table) -> Tuple[str, Callable[[Dict[str, Any]], bool]]:
    """A raw SQL condition together with its meaning on a Python row."""
    q = endpoint.q
    tab = endpoint.qt(*table.key)
    kind = rng.randrange(7)
    k = rng.randint(2, 4)
    r = rng.randrange(k)
    lo = rng.randint(1, 12)
    if kind == 0:
        return f"{tab}.{q('rid')} % {k} = {r}", lambda row: row["rid"] % k == r
    if kind == 1:
        return (
            f"{tab}.{q('val')} LIKE 'a%' OR {tab}.{q('rid')} < {lo}",
            lambda row: (row["val"] or "").startswith("a") or row["rid"] < lo,
        )
    if kind == 2:
        return f"{q('val')} IS NULL", lambda row: row["val"] is None
    if kind == 3:
        return (
            f"EXISTS (SELECT 1 FROM {tab} zz WHERE zz.{q('rid')} = {tab}.{q('rid')} + 1)",
            None,  # type: ignore  # bound by caller, needs all rows
        )
    if kind == 4:
        return f"{q('rid')} IN ({lo}, {lo + 1}, {lo + 3})", lambda row: row["rid"] in (lo, lo + 1, lo + 3)
    if kind == 5:
        return "1=0", lambda row: False
    return f"NOT ({q('rid')} > {lo})", lambda row: not row["rid"] > lo


def target_filter(table: Table, spec: Dict[str, Any], sql_fn) -> List[Dict[str, Any]]:
    """Rows of the table matching every filter except amount / percent."""
    if spec.get("all"):
        return list(table.rows)
    rows = []
    for row in table.rows:
        if any(
            not like_match(row[col], pat)
            for col, pats in spec.get("like", {}).items()
            for pat in pats
        ):
            continue
        if any(
            row[col] is None or row[col] not in vals
            for col, vals in spec.get("in", {}).items()
        ):
            continue
        if spec.get("sql") is not None and not sql_fn(row):
            continue
        rows.append(row)
    return rows


OPS: Dict[str, Callable[[Any, Any], bool]] = {
    "<": lambda a, b: a < b,
    ">": lambda a, b: a > b,
    "=": lambda a, b: a == b,
    "<>": lambda a, b: a != b,
    "!=": lambda a, b: a != b,
    "like": like_match,
    "not like": lambda a, b: not like_match(a, b),
}


def constrained(rows, constraints) -> List[Dict[str, Any]]:
    return [
        row for row in rows
        if all(
            row[c["column"]] is not None and OPS[c["operator"]](row[c["column"]], c["value"])
            for c in constraints
        )
    ]


# -- reading a plan document -------------------------------------------------------------


def sampled_refs(node: Any) -> Set[Key]:
    """Every table a query (in document form) reads in its already-sampled form."""
    found: Set[Key] = set()
    if isinstance(node, dict):
        if node.get("sampled") and "table" in node and "schema" in node:
            found.add((node["schema"], node["table"]))
        for value in node.values():
            found |= sampled_refs(value)
    elif isinstance(node, list):
        for value in node:
            found |= sampled_refs(value)
    return found


def plan_deps(doc: Dict[str, Any]) -> Dict[Key, Set[Key]]:
    return {split(name): sampled_refs(query) for name, query in doc["queries"].items()}


def topo(deps: Dict[Key, Set[Key]]) -> Optional[List[Key]]:
    order: List[Key] = []
    left = {key: set(refs) & set(deps) for key, refs in deps.items()}
    while left:
        free = sorted(key for key, refs in left.items() if not refs)
        if not free:
            return None
        for key in free:
            del left[key]
        for refs in left.values():
            refs.difference_update(free)
        order.extend(free)
    return order


# -- the sample --------------------------------------------------------------------------


def fk_value(row: Dict[str, Any], cols) -> Optional[tuple]:
    vals = tuple(row[c] for c in cols)
    return None if None in vals else vals


class SampleModel:
    """What each planned table's sample must be, given the samples it was derived from."""

    def __init__(self, graph: Graph, deps: Dict[Key, Set[Key]], sql_fns: Dict[Key, Any]) -> None:
        self.graph = graph
        self.deps = deps
        self.sql_fns = sql_fns
        self.problems: List[str] = []

    def directions(self, key: Key):
        """(forward FKs followed from already sampled parents, (child, FK) pairs followed back)."""
        forward = [fk for k, fk in self.graph.planned_fks() if k == key and fk.ref in self.deps[key]]
        backward = [
            (child, fk) for child, fk in self.graph.planned_fks()
            if fk.ref == key and child in self.deps[key]
        ]
        return forward, backward

    def required(self, key: Key, sampled: Dict[Key, List[Dict[str, Any]]]):
        """Rows demanded by relations: (rows, kind) where kind is 'fwd' | 'rev' | 'none'."""
        table = self.graph.world.tables[key]
        forward, backward = self.directions(key)
        if forward:
            keep = table.rows
            for fk in forward:
                have = {fk_value(r, fk.ref_cols) for r in sampled[fk.ref]} - {None}
                keep = [r for r in keep if fk_value(r, fk.cols) in have]
            return keep, "fwd"
        if backward:
            rids = set()
            for child, fk in backward:
                wanted = {fk_value(r, fk.cols) for r in sampled[child]} - {None}
                rids |= {r["rid"] for r in table.rows if fk_value(r, fk.ref_cols) in wanted}
            return [r for r in table.rows if r["rid"] in rids], "rev"
        return [], "none"

    def expected(self, key: Key, sampled) -> Optional[List[Dict[str, Any]]]:
        """Exact expectation, or None if the target is drawn at random."""
        graph = self.graph
        table = graph.world.tables[key]
        if key in graph.passthrough:
            return list(table.rows)
        rel, _ = self.required(key, sampled)
        cons = graph.cfg.get("table_constraints", {}).get(table.full, [])
        spec = graph.targets.get(key)
        if spec is None:
            return constrained(rel, cons) if cons else rel
        if spec.get("all"):
            return list(table.rows)
        if spec.get("amount") is not None or spec.get("percent") is not None:
            return None
        chosen = constrained(target_filter(table, spec, self.sql_fns.get(key)), cons)
        rids = {r["rid"] for r in chosen} | {r["rid"] for r in rel}
        return [r for r in table.rows if r["rid"] in rids]

    def closure(self) -> Dict[Key, List[Dict[str, Any]]]:
        """The full sample for deterministic targets."""
        order = topo(self.deps)
        assert order is not None
        sampled: Dict[Key, List[Dict[str, Any]]] = {}
        for key in order:
            rows = self.expected(key, sampled)
            assert rows is not None
            sampled[key] = rows
        return sampled
