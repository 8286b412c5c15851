"""The plan -> sample -> compare scenario used by the planning properties."""

from __future__ import annotations

import collections
from typing import Any, Dict, List, Optional, Set, Tuple

import planoracle as po
import scen
import subj
from runner import Ctx, Skip, Violation
from world import Key, Shape


def largest_join(world, doc) -> int:
    """Rows the plan's biggest query looks at (at most)."""
    largest = 0
    todo = [query.get("statement") for query in doc["queries"].values()]
    while todo:
        stmt = todo.pop()
        if not stmt:
            continue
        todo += stmt.get("statements", ())
        source = stmt.get("from")
        source = source and world.tables.get((source["schema"], source["table"]))
        if not source or not stmt.get("joins"):
            continue
        found = []
        for join in stmt["joins"]:
            right = world.tables.get((join["right"]["schema"], join["right"]["table"]))
            if right:
                found.append((join["left_columns"], collections.Counter(tuple(r[c] for c in join["right_columns"]) for r in right.rows)))
        total = 0
        for row in source.rows:
            num = 1
            for cols, counts in found:
                num *= max(1, counts[tuple(row[c] for c in cols)])
            total += num
        largest = max(largest, total)
    return largest


class Subset:
    """A world, a planner config, the subject's plan and the rows it delivered."""

    def __init__(self, ctx: Ctx, shape: Shape, **planner_kw: Any) -> None:
        self.ctx = ctx
        rng = ctx.rng
        dialect = scen.pick_dialect(ctx, planner_kw.pop("weights", None))
        self.world, self.source = scen.make_world(ctx, dialect, shape)
        ctx.info["world"] = self.world.describe()
        self.cfg, self.fns, self.graph = scen.gen_planner(ctx, self.world, self.source, **planner_kw)
        ctx.info["planner"] = self.cfg
        self._drop_illegal_constraints()

    def _drop_illegal_constraints(self) -> None:
        # decided after planning (needs the direction); see `plan`
        pass

    def plan(self):
        ctx = self.ctx
        try:
            self.plan_obj = scen.run_plan(ctx, self.source, self.cfg)
        except Violation as exc:
            if self.cfg.get("table_constraints") and "Cannot apply table constraints" in exc.what:
                # allowed exactly when a constrained table is demanded by another table;
                # plan again without them
                ctx.count("constraint_refused")
                self.refused = dict(self.cfg["table_constraints"])
                self.cfg = {k: v for k, v in self.cfg.items() if k != "table_constraints"}
                self.graph = po.Graph(self.world, self.cfg)
                ctx.info["planner"] = self.cfg
                self.plan_obj = scen.run_plan(ctx, self.source, self.cfg)
                self._check_refusal()
            else:
                raise
        self.doc = subj.dump_plan(self.plan_obj)
        ctx.info["plan"] = self.doc
        if largest_join(self.world, self.doc) > 4_000_000:
            raise Skip("a join of millions of rows")
        self.deps = po.plan_deps(self.doc)
        self.model = po.SampleModel(self.graph, self.deps, self.fns)
        return self.plan_obj

    def _check_refusal(self) -> None:
        doc = subj.dump_plan(self.plan_obj)
        deps = po.plan_deps(doc)
        model = po.SampleModel(self.graph, deps, self.fns)
        for name in self.refused:
            key = po.split(name)
            if key in self.graph.planned and key in deps:
                _, backward = model.directions(key)
                if backward:
                    return
        raise Violation(
            "table constraints refused although no constrained table is demanded by another",
            refused=self.refused,
        )

    def deliver(self, *, pre_fks: Optional[str] = None, sampler: Optional[Dict[str, Any]] = None,
                dialect: Optional[str] = None, **kw) -> "scen.Dest":
        """Sample into a fresh destination with hand made tables."""
        ctx = self.ctx
        dest = scen.Dest(ctx, self.world, dialect)
        planned = [po.split(name) for name in self.doc["queries"]]
        unknown = [k for k in planned if k not in self.world.tables]
        if unknown:
            raise Violation(f"plan contains unknown tables {unknown}")
        if pre_fks is None:
            pre_fks = "none"
        if pre_fks == "create":
            kw["create"] = True
        else:
            drop: Set[Tuple[Key, Any]] = set()
            if pre_fks == "all":
                drop = self.droppable_fks(planned)
            dest.install(planned, fks=pre_fks, drop=drop)
        conf = dict(sampler or {})
        conf["output"] = dest.output()
        ctx.info["sampler"] = conf
        scen.run_sample(ctx, self.source, dest.endpoint, conf, self.plan_obj, **kw)
        self.dest = dest
        self.planned_list = planned
        return dest

    def droppable_fks(self, planned) -> Set[Tuple[Key, Any]]:
        """World FKs the destination must not enforce: the planner was told not to follow them."""
        used = {(k, fk.ident()) for k in self.graph.scope for fk in self.graph.fks.get(k, [])}
        result = set()
        for key in planned:
            for fk in self.world.tables[key].fks:
                if (key, fk.ident()) not in used or fk.ref == key:
                    result.add((key, fk.ident()))
        return result

    def read(self) -> Dict[Key, List[Dict[str, Any]]]:
        self.delivered = {}
        for key in self.planned_list:
            self.delivered[key] = self.dest.read_dicts(key)
            self.ctx.count("rows_read", len(self.delivered[key]))
        return self.delivered


def check_target_random(sub, key, rows, sampled):
    """amount / percent targets: the exact conditions any outcome has to meet."""
    table = sub.world.tables[key]
    spec = sub.graph.targets[key]
    rel, _ = sub.model.required(key, sampled)
    cons = sub.cfg.get("table_constraints", {}).get(table.full, [])
    base = {r["rid"] for r in rel}
    match = {
        r["rid"] for r in po.constrained(
            po.target_filter(table, spec, sub.fns.get(key)), cons)
    }
    got = {r["rid"] for r in rows}
    percent = spec.get("percent")
    limit = len(match)
    if percent is not None and percent <= 0:
        limit = 0
    if spec.get("amount") is not None:
        limit = min(limit, spec["amount"])
    if not base <= got:
        raise Violation(f"target {key} lacks rows other tables need", missing=sorted(base - got))
    if not got - base <= match:
        raise Violation(f"target {key} contains rows that match no filter", extra=sorted(got - base - match))
    if len(got - base) > limit:
        raise Violation(f"target {key}: {len(got - base)} rows beyond the needed ones, at most {limit} allowed")
    exact = percent is None or percent <= 0 or percent >= 100
    if exact and len(got & match) < limit:
        raise Violation(f"target {key}: only {len(got & match)} matching rows, {limit} expected")


def judge_rows(sub, rows, only_targets=False):
    """Compare every delivered table with what the relations and targets demand."""
    ctx = sub.ctx
    graph = sub.graph
    if set(rows) != graph.planned | graph.passthrough:
        raise Violation("planned tables differ from the connected tables",
                        planned=sorted(rows), expected=sorted(graph.planned | graph.passthrough))
    if po.topo(sub.deps) is None:
        raise Violation("plan is cyclic", deps=sub.deps)
    kinds = set()
    for child, fk in graph.planned_fks():
        forward = fk.ref in sub.deps[child]
        backward = child in sub.deps[fk.ref]
        if forward and backward:
            raise Violation(f"relation {child} {fk!r} followed in both directions")
        if not forward and not backward and not graph.targets.get(fk.ref, {}).get("all"):
            raise Violation(f"relation {child} {fk!r} is not followed")
    for key in sorted(graph.planned):
        table = sub.world.tables[key]
        names = table.names()
        forward, backward = sub.model.directions(key)
        if forward and backward:
            raise Violation(f"{key} is both intersection and union", fwd=repr(forward), rev=repr(backward))
        extra_deps = sub.deps[key] - {fk.ref for fk in forward} - {c for c, _ in backward}
        if extra_deps:
            raise Violation(f"{key} depends on unrelated tables {sorted(extra_deps)}")
        counts = scen.ident_rows(rows[key], names)
        source = scen.ident_rows(table.rows, names)
        if counts - source:
            raise Violation(f"{key}: delivered rows that are not source rows or duplicated",
                            **scen.diff(source, counts))
        expected = sub.model.expected(key, rows)
        if expected is None:
            check_target_random(sub, key, rows[key], rows)
        else:
            exp = scen.ident_rows(expected, names)
            if exp != counts:
                raise Violation(f"{key}: wrong rows", kind="fwd" if forward else "rev" if backward else "target",
                                **scen.diff(exp, counts))
        if forward:
            kinds.add("fwd")
            ctx.count("fwd_tables")
            ctx.count("multi_fwd_tables", len(forward) > 1)
            ctx.count("rel_rows_dropped", len(table.rows) - len(rows[key]))
        elif backward:
            kinds.add("rev")
            ctx.count("rev_tables")
            ctx.count("multi_rev_tables", len(backward) > 1)
            ctx.count("union_targets", key in graph.targets)
            ctx.count("rel_rows_dropped", len(table.rows) - len(rows[key]))
        ctx.count("rows_judged", len(rows[key]))
    return kinds
