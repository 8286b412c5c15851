"""C06: passthrough tables arrive complete, ignored and unplanned tables not at all."""

import scen
from props.common import Subset, judge_rows
from runner import Violation
from world import Shape, refill

CONF = {
    "cases": {"quick": 600, "thorough": 12000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random schemas with passthrough and ignored tables; the destination has every table of the world and rows of its own in "
    "those that must not be touched; all destination tables are compared in full; non-trivial: a passthrough table with rows "
    "next to a sampled table",
    "need": {"passthrough_rows": 200, "untouched_tables": 100, "ignored_tables": 20},
}


def case(ctx):
    rng = ctx.rng
    shape = Shape(rows=(0, 14), tables=(3, 8))
    sub = Subset(ctx, shape, random_ok=False, knobs=0.1, ignore=0.35, passthrough=0.85, constraints=0.0)
    sub.plan()
    world = sub.world
    dest = scen.Dest(ctx, world)
    dest.install(list(world.tables), fks="none")
    planned = [k for k in world.tables if scen.full(k) in sub.doc["queries"]]
    other = refill(rng, world, shape)
    untouched = {}
    for key, table in other.tables.items():
        if key in planned or rng.random() < 0.2:
            continue
        names = table.names()
        untouched[key] = scen.ident_rows(table.rows, names)
        dest.endpoint.insert(*dest.keys[key], names, [[r[n] for n in names] for r in table.rows])
    conf = {"output": dest.output()}
    before = dest.tables()
    scen.run_sample(ctx, sub.source, dest.endpoint, conf, sub.plan_obj)
    if dest.tables() != before:
        raise Violation("tables appeared or vanished in the destination", extra=sorted(dest.tables() - before))
    sub.dest, sub.planned_list = dest, planned
    for key in world.tables:
        if key in planned:
            continue
        got = scen.ident_rows(dest.read_dicts(key), world.tables[key].names())
        want = untouched.get(key, scen.ident_rows([], []))
        if got != want:
            raise Violation(f"table {key} is not part of the plan but its rows changed", **scen.diff(want, got))
        ctx.count("untouched_tables")
    for key in sub.graph.ignored - sub.graph.passthrough:
        ctx.count("ignored_tables")
        if key in planned:
            raise Violation(f"ignored table {key} was planned")
    rows = sub.read()
    for key in sub.graph.passthrough:
        names = world.tables[key].names()
        if key not in rows:
            raise Violation(f"passthrough table {key} is not part of the plan")
        got = scen.ident_rows(rows[key], names)
        want = scen.ident_rows(world.tables[key].rows, names)
        if got != want:
            raise Violation(f"passthrough {key} is not complete", **scen.diff(want, got))
        ctx.count("passthrough_tables")
        ctx.count("passthrough_rows", sum(got.values()))
    judge_rows(sub, rows)
    ctx.nontrivial = bool(sub.graph.planned) and any(rows[k] for k in sub.graph.passthrough)
    ctx.sign(scen.signature_of(world, sub.cfg, len(untouched)))
    if ctx.index < 3:
        ctx.sample = {"planner": sub.cfg, "world": world.describe()}
