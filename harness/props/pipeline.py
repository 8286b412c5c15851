"""Sampler scenarios: world, deterministic plan, destination with contents, predicted result."""

from __future__ import annotations

import copy
import json
import os
from typing import Any, Callable, Dict, List, Optional, Sequence, Set, Tuple

import planoracle as po
import predict
import scen
import subj
from props.common import Subset
from runner import Ctx, Skip, Violation
from world import Key, Shape, Table, refill

Row = Dict[str, Any]
TEXTUAL = ("text", "oddtext", "secret", "long")
INTEGRAL = ("int", "bigint", "small", "i64")
ZEROABLE = TEXTUAL + INTEGRAL + ("float", "bool", "ts")


class Pipe:
    """One source, one plan, one destination and what has to end up there."""

    role = "d"

    def __init__(self, ctx: Ctx, shape: Shape, *, cross: float = 0.0, dest_dialect: Optional[str] = None,
                 **planner_kw: Any) -> None:
        self.ctx = ctx
        self.rng = ctx.rng
        self.shape = shape
        planner_kw.setdefault("random_ok", False)
        planner_kw.setdefault("ignore", 0.05)
        planner_kw.setdefault("knobs", 0.0)
        planner_kw.setdefault("constraints", 0.1)
        self.sub = Subset(ctx, shape, **planner_kw)
        self.world = self.sub.world
        self.source = self.sub.source
        self.sub.plan()
        self.samples: Dict[Key, List[Row]] = self.sub.model.closure()
        self.keys: List[Key] = [k for k in self.world.tables if k in self.samples]
        self.passthrough: Set[Key] = set(self.sub.graph.passthrough)
        self.dialect = self.world.dialect
        if dest_dialect is None and self.rng.random() < cross:
            dest_dialect = self.rng.choice(ctx.bench.dialects())
        self.dest_dialect = dest_dialect or self.dialect
        self.conf: Dict[str, Any] = {}
        self.existing: Dict[Key, List[Row]] = {}
        self.gone: Dict[Key, Set[str]] = {}  # columns the destination lacks
        self.computed: Dict[Key, Dict[str, str]] = {}  # columns the destination computes

    def another(self, role: str, *, dest_dialect: Optional[str] = None, **planner_kw: Any) -> "Pipe":
        """Another plan over the same source, with a destination of its own."""
        twin = copy.copy(self)
        twin.role = role
        twin.sub = copy.copy(self.sub)
        for knob in ("ignore", "constraints"):
            planner_kw.setdefault(knob, 0.05)
        twin.sub.cfg, twin.sub.fns, twin.sub.graph = scen.gen_planner(self.ctx, self.world, self.source, **planner_kw)
        twin.sub.plan()
        twin.samples = twin.sub.model.closure()
        twin.keys = [k for k in self.world.tables if k in twin.samples]
        twin.passthrough = set(twin.sub.graph.passthrough)
        twin.dest_dialect = dest_dialect or self.dialect
        twin.conf, twin.existing, twin.gone, twin.computed = {}, {}, {}, {}
        return twin

    # -- knowledge about columns
    def protected(self, key: Key) -> Set[str]:
        table = self.world.tables[key]
        result = set(table.pk) | table.fk_cols() | {c for u in table.uniques for c in u}
        for other in self.world.ordered():
            for fk in other.fks:
                if fk.ref == key:
                    result |= set(fk.ref_cols)
        return result

    def free_cols(self, key: Key) -> List[str]:
        prot = self.protected(key)
        return [c for c in self.world.tables[key].names() if c not in prot]

    def autoinc_keys(self) -> Set[Key]:
        """Source tables whose key the source generates."""
        result = set()
        for key in self.keys:
            table = self.world.tables[key]
            if len(table.pk) != 1 or table.col(table.pk[0]).kind == "text":
                continue
            if self.dialect == "sqlite":
                # any integer primary key that is no foreign key
                if table.col(table.pk[0]).kind == "int" and table.pk[0] not in table.fk_cols():
                    result.add(key)
            elif table.autoinc:
                result.add(key)
        return result

    # -- configuration pieces
    def gen_filters(self, *, tables: float = 0.6, omit: bool = True, anything: bool = False,
                    max_chain: int = 3) -> None:
        filters: Dict[str, Any] = {}
        for key in self.keys:
            if self.rng.random() >= tables:
                continue
            chain = self._chain(key, omit, anything, max_chain)
            if chain:
                filters[scen.full(key)] = chain
        if filters:
            self.conf["filters"] = filters

    def _chain(self, key: Key, omit: bool, anything: bool, max_chain: int) -> List[Dict[str, Any]]:
        rng = self.rng
        table = self.world.tables[key]
        live = table.names()
        # without constraints at the output every column may be filtered
        able = list(live) if anything else self.free_cols(key)
        chain = []
        for _ in range(rng.randint(1, max_chain)):
            able = [c for c in able if c in live]
            if not able:
                break
            conf = self._simple(table, able, not anything)
            if conf is None:
                continue
            if rng.random() < 0.25:
                conf = self._multiplex(table, live, able, not anything) or conf
            elif omit and rng.random() < 0.2:
                cand = [c for c in able if table.col(c).nullable or anything]
                if cand:
                    if len(live) < 3:
                        continue
                    conf = {"op": "omit", "columns": rng.sample(cand, min(len(cand), len(live) - 2, rng.choice([1, 1, 1, 2, 3])))}
                    live = [c for c in live if c not in conf["columns"]]
            chain.append(conf)
        return chain

    def _value(self, kind: str) -> Any:
        if kind in TEXTUAL:
            return self.rng.choice(["", "konst", "it's", "ünï", "a%s:b", "1"])
        if kind == "float":
            return self.rng.choice([0.5, -2.25, 1e10])
        if kind == "small":
            return self.rng.choice([0, 1, -7])
        return self.rng.choice([0, 1, -7, 123456])

    def _simple(self, table: Table, able: List[str], typed: bool) -> Optional[Dict[str, Any]]:
        rng = self.rng
        cols = rng.sample(able, k=min(len(able), rng.choice([1, 1, 2])))
        op = rng.choice(["null", "zero", "constant", "plugin", "constant"])
        if op == "null":
            cols = [c for c in cols if table.col(c).nullable or not typed]
            return {"op": "null", "columns": cols} if cols else None
        if op == "zero":
            cols = [c for c in cols if table.col(c).kind in ZEROABLE]
            return {"op": "zero", "columns": cols} if cols else None
        if op == "constant":
            cols = [c for c in cols if table.col(c).kind in TEXTUAL + INTEGRAL + ("float",)]
            if not cols:
                return None
            vals = [
                None if table.col(c).nullable and rng.random() < 0.2 else self._value(table.col(c).kind)
                for c in cols
            ]
            return {"op": "constant", "columns": cols, "values": vals}
        clazz = rng.choice(["Suffix", "Swap", "AddInt"])
        if clazz == "Suffix":
            cols = [c for c in cols if table.col(c).kind in TEXTUAL]
            kwargs = {"suffix": rng.choice(["-x", "ü", ""])}
        elif clazz == "AddInt":
            cols = [c for c in cols if table.col(c).kind in ("int", "bigint")]
            kwargs = {"num": rng.choice([1, -1000])}
        else:
            if len(cols) != 2 or len({(table.col(c).kind, table.col(c).nullable) for c in cols}) != 1:
                return None
            kwargs = {}
        if not cols:
            return None
        return {"op": "plugin", "module": "plug", "class": clazz, "columns": cols, "kwargs": kwargs}

    def _multiplex(self, table: Table, live: List[str], able: List[str], typed: bool):
        rng = self.rng
        live = [c for c in live if table.col(c).kind in TEXTUAL + ("int", "bigint")]
        if not live:
            return None
        col = rng.choice(live)
        kind = table.col(col).kind
        seen = [r[col] for r in table.rows if r[col] is not None] or (["a"] if kind in TEXTUAL else [1])
        conds = []
        for _ in range(rng.randint(1, 3)):
            ops = ["is", "is not", "in", "not in", "=", "!="]
            if not table.col(col).nullable:
                ops += ["<", ">", "<=", ">="]
                if kind in TEXTUAL:
                    ops.append("matches")
            op = rng.choice(ops)
            if op in ("is", "is not"):
                value: Any = None
            elif op in ("in", "not in"):
                value = rng.sample(seen, k=min(len(seen), 3)) + ([None] if rng.random() < 0.2 else [])
            elif op == "matches":
                value = rng.choice(["a*", "*1*", "?1", "[ab]*"])
            else:
                value = rng.choice(seen)
            apply = None
            for _ in range(5):
                apply = self._simple(table, able, typed)
                if apply is not None:
                    break
            if apply is not None:
                conds.append({"op": op, "value": value, "apply": apply})
        return {"op": "multiplex", "column": col, "conditions": conds} if conds else None

    def gen_compact(self, *, starts: Sequence[int] = (1, 1, 0, 5, 1000, -3), columns: bool = True) -> None:
        rng = self.rng
        conf: Dict[str, Any] = {}
        roll = rng.random()
        if roll < 0.45:
            conf["primary_keys"] = True
        elif roll < 0.7:
            # (which keys sqlite generates is not a matter of the declared type alone)
            odd = self.dialect == "sqlite" and any(c.kind == "bigint" for t in self.world.ordered() for c in t.cols)
            conf["primary_keys" if odd else "auto_increment_keys"] = True
        if columns and (roll >= 0.7 or rng.random() < 0.3):
            for key in rng.sample(self.keys, k=min(len(self.keys), rng.choice([1, 1, 2, 3]))):
                table = self.world.tables[key]
                cols = [c.name for c in table.cols if c.kind in ("int", "bigint") and c.name not in table.fk_cols()
                        and c.name != "rid"]
                if cols:
                    conf.setdefault("columns", {})[scen.full(key)] = rng.sample(
                        cols, k=min(len(cols), rng.choice([1, 1, 2])))
        if rng.random() < 0.5:
            conf["start_key"] = rng.choice(list(starts))
        if conf:
            self.conf["compact"] = conf

    def gen_multiplicity(self, multipliers: Sequence[int] = (2, 2, 3, 4, 5)) -> None:
        rng = self.rng
        conf: Dict[str, Any] = {"multiplier": rng.choice(list(multipliers))}
        if rng.random() < 0.3:
            conf["ignore_tables"] = [scen.full(k) for k in rng.sample(self.keys, k=1)]
        if rng.random() < 0.3:
            key = rng.choice(self.keys)
            cols = [c.name for c in self.world.tables[key].cols if c.kind in ("int", "bigint")]
            conf["extra_columns"] = {scen.full(key): rng.sample(cols, k=min(len(cols), rng.choice([1, 2])))}
        if rng.random() < 0.4:
            # the rows' keys stay unique if another key column is multiplied
            comp = [k for k in self.keys if len(self.world.tables[k].pk) > 1]
            if comp:
                key = rng.choice([k for k in comp if any(f.ref == k for o in self.keys for f in self.world.tables[o].fks)] or comp)
                conf["ignore_primary_key_columns"] = {scen.full(key): [rng.choice(self.world.tables[key].pk)]}
        self.conf["multiplicity"] = conf

    # -- destination
    def make_dest(self, *, fks: str = "none", uniques: bool = True, autoinc: Optional[bool] = None,
                  prepared: Optional[Sequence[Key]] = None, lack: float = 0.0, computed: float = 0.0,
                  clauses: Optional[Dict[Key, List[str]]] = None,
                  suffix: str = "", route: Optional[Callable[[scen.Dest], None]] = None) -> scen.Dest:
        """Create the destination tables (all of the plan's unless `prepared` is given)."""
        self.dest = scen.Dest(self.ctx, self.world, self.dest_dialect, role=self.role)
        if suffix:
            self.dest.keys = {key: (schema, name + suffix) for key, (schema, name) in self.dest.keys.items()}
            self.dest.remap.append({"search": "$", "replace": suffix})
        if route is not None:
            route(self.dest)
        self.fk_mode = fks
        if lack:
            for key in self.keys:
                omitted = self.omitted(key) - self.protected(key)
                lost = {c for c in omitted if self.rng.random() < lack}
                if lost:
                    self.gone[key] = lost
        keys = list(self.keys if prepared is None else prepared)
        if computed:
            for key in keys:
                table = self.world.tables[key]
                if "num" in table.names() and "num" not in self.protected(key) and self.rng.random() < computed \
                        and not self.gone.get(key):
                    self.computed[key] = {"num": f"{self.dest.endpoint.q('rid')} * 2"}
        drop = self.sub.droppable_fks(keys) if fks == "all" else None
        if drop is not None and not uniques:
            drop |= {
                (k, fk.ident()) for k in keys for fk in self.world.tables[k].fks
                if fk.ref_cols != self.world.tables[fk.ref].pk
            }
        self.dest.install(
            keys, fks=fks, drop=drop,
            uniques=uniques, autoinc=autoinc, omit=self.gone, generated=self.computed,
            clauses=clauses,
        )
        return self.dest

    def omitted(self, key: Key) -> Set[str]:
        return {
            c for conf in self.conf.get("filters", {}).get(scen.full(key), [])
            if conf["op"] == "omit" for c in conf["columns"]
        }

    def fill_dest(self, keys: Optional[Sequence[Key]] = None, *, shape: Optional[Shape] = None,
                  prob: float = 1.0) -> None:
        """Rows the destination already holds."""
        other = refill(self.rng, self.world, shape or self.shape)
        for key in keys if keys is not None else self.keys:
            if self.rng.random() >= prob:
                continue
            self.existing[key] = other.tables[key].rows

    def put_existing(self) -> None:
        for key in self.world.tables:
            rows = self.existing.get(key)
            if not rows:
                continue
            names = [n for n in self.dest_names(key) if n not in self.computed.get(key, ())]
            self.dest.endpoint.insert(*self.dest.keys[key], names, [[r[n] for n in names] for r in rows])
            if self.dest_dialect == "sqlite":
                continue
            table = self.world.tables[key]
            if self.dest_dialect == "postgres" and table.pk:
                # generators are where ordinary inserts would have left them
                seq = self.dest.endpoint.rows(
                    "SELECT pg_get_serial_sequence("
                    f"{self.dest.endpoint.lit(self.dest.endpoint.qt(*self.dest.keys[key]))},"
                    f" {self.dest.endpoint.lit(table.pk[0])})"
                )[0][0]
                top = max((r[table.pk[0]] for r in rows if isinstance(r[table.pk[0]], int)), default=0)
                if seq and top > 0:
                    self.dest.endpoint.rows(
                        f"SELECT setval({self.dest.endpoint.lit(seq)}, {top})")

    def model(self, existing: Optional[Dict[Key, List[Row]]] = None, **kw) -> predict.SamplerModel:
        return predict.SamplerModel(
            self.world, self.samples, self.passthrough, self.conf,
            existing=self.existing if existing is None else existing,
            columns={k: set(v) for k, v in self.computed.items()},
            autoinc=self.autoinc_keys(), **kw,
        )

    def run(self, **kw) -> None:
        self.ctx.info["sampler"] = self.conf
        scen.run_sample(self.ctx, self.source, self.dest.endpoint, self.conf, self.sub.plan_obj, **kw)

    def run_expect_error(self, **kw) -> Exception:
        """The configuration must be refused or the run must fail."""
        ctx = self.ctx
        ctx.info["sampler"] = self.conf
        ctx.judging()
        self.source.close()
        self.dest.endpoint.close()
        try:
            subj.sample(self.source.config(), self.conf, self.sub.plan_obj, **kw)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            return exc
        finally:
            subj.close_all()
        raise Violation("a run that has to fail reported success", sampler=self.conf)

    def dest_names(self, key: Key) -> List[str]:
        return [n for n in self.world.tables[key].names() if n not in self.gone.get(key, ())]

    def read(self, key: Key) -> List[Row]:
        names = self.dest_names(key)
        return [dict(zip(names, row)) for row in self.dest.read(key, names)]

    def compare(self, key: Key, expected: List[Row], what: str = "wrong destination contents") -> None:
        names = self.dest_names(key)
        want = scen.ident_rows(expected, names)
        got = scen.ident_rows(self.read(key), names)
        if want != got:
            raise Violation(f"{what}: {scen.full(key)}", columns=names, **scen.diff(want, got))
        self.ctx.count("dest_rows_compared", sum(want.values()))

    def expect_all(self, delivered: Dict[Key, List[Row]], strategy: str = "error",
                   existing: Optional[Dict[Key, List[Row]]] = None) -> Dict[Key, List[Row]]:
        """Predicted destination contents (all tables of the plan)."""
        existing = self.existing if existing is None else existing
        merge = self.conf.get("output", {}).get("merge")
        result = {}
        for key in self.keys:
            how = "skip" if merge and key in self.passthrough else strategy
            result[key] = predict.land(self.world.tables[key], existing.get(key, []), delivered[key], how)
            if key in self.computed:
                for row in result[key]:
                    row["num"] = row["rid"] * 2
        return result

    def voided(self, delivered: Dict[Key, List[Row]]) -> bool:
        """Relations that were not followed leave required columns without a value."""
        if "infer_foreign_keys" not in self.conf and not self.sub.droppable_fks(self.keys):
            return False
        return any(
            r.get(c.name, 0) is None for k in self.keys for r in delivered[k]
            for c in self.world.tables[k].cols if not c.nullable
        )

    # -- references between delivered rows
    def kept_fks(self, existing: Dict[Key, List[Row]]) -> List[Tuple[Key, Any]]:
        """Relations that hold between all sampled rows and in what the destination held before."""
        merge = self.conf.get("output", {}).get("merge")
        extra = self.conf.get("multiplicity", {}).get("extra_columns", {})
        strategy = self.conf.get("output", {}).get("conflict_strategy", "error")
        mult = self.model().multiplied()[1]
        result = []
        for key in self.keys:
            if merge and key in self.passthrough:
                continue  # written as they are
            for fk in self.world.tables[key].fks:
                if fk.ref not in self.keys or set(fk.cols) & set(extra.get(scen.full(key), ())):
                    continue
                if any(set(fk.cols) & set(o.cols) for o in self.world.tables[key].fks if o is not fk):
                    continue  # following two relations at once may be impossible
                if any(a in mult.get(key, ()) and b not in mult.get(fk.ref, ()) for a, b in zip(fk.cols, fk.ref_cols)):
                    continue  # primary keys referring to tables that are not multiplied
                if fk.ref_cols != self.world.tables[fk.ref].pk and (
                    strategy != "error" or merge and fk.ref in self.passthrough
                ):
                    continue  # rows that are there already may have other values
                if all(_ref_holds(fk, rows.get(key, []), rows.get(fk.ref, [])) for rows in (self.samples, existing)):
                    result.append((key, fk))
        return result

    def check_refs(self, rows: Dict[Key, List[Row]], existing: Optional[Dict[Key, List[Row]]] = None) -> int:
        """Every relation that held between the sampled rows holds between the delivered ones."""
        count = 0
        for key, fk in self.kept_fks(existing or {}):
            have = {po.fk_value(r, fk.ref_cols) for r in rows[fk.ref]}
            for row in rows[key]:
                val = po.fk_value(row, fk.cols)
                if val is None:
                    continue
                count += 1
                if val not in have:
                    raise Violation(f"dangling reference {scen.full(key)}{fk.cols}={val} to {scen.full(fk.ref)}")
        self.ctx.count("references_kept", count)
        return count


def _ref_holds(fk, child: List[Row], parent: List[Row]) -> bool:
    have = {po.fk_value(r, fk.ref_cols) for r in parent} | {None}
    return all(po.fk_value(r, fk.cols) in have for r in child)


def avoid_conflicts(pipe: Pipe) -> None:
    """Drop existing rows that a delivered row would collide with (kept FK-free destinations)."""
    delivered = pipe.model().delivered()
    for key in pipe.keys:
        table = pipe.world.tables[key]
        if not table.pk or key not in pipe.existing:
            continue
        new = {tuple(r.get(c) for c in table.pk) for r in delivered[key]}
        pipe.existing[key] = [
            r for r in pipe.existing[key] if tuple(r[c] for c in table.pk) not in new
        ]


def small_shape(rng, *, over: Optional[Dict[str, Any]] = None, **kw) -> Shape:
    base = dict(rows=(0, 12), tables=(2, 6), allpk=0.0)
    base.update(kw)
    base.update(over or {})
    return Shape(**base)


def chains(rng, prob: float = 0.4) -> Dict[str, Any]:
    """Shapes in which foreign keys refer to columns that are foreign keys themselves."""
    if rng.random() >= prob:
        return {}
    return {"uniq_fk": 0.6, "uniq_ref": 0.5, "onetoone": 0.3, "comppk": 0.3, "tables": (3, 7), "null_fk": 0.15}
