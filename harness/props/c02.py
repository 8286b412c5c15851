"""C02: every table is exactly the intersection or union its relations demand."""

import scen
from props.common import Subset, judge_rows
from world import Shape

CONF = {
    "cases": {"quick": 700, "thorough": 14000},
    "cap": {"quick": 35, "thorough": 900},
    "rule": "random schema graphs and planner configurations planned and sampled by the real code; every table's delivered "
    "rows are compared with the set computed from the delivered rows of the tables it was derived from; "
    "non-trivial: at least one followed relation kept and dropped or demanded rows",
    "need": {"fwd_tables": 50, "rev_tables": 50, "rel_rows_dropped": 200, "postgres.cases": 20, "mysql.cases": 10},
}


def case(ctx):
    groups = ctx.rng.choice([0, 0, 2, 3])
    shape = Shape(rows=(6, 20) if groups else (0, 14), tables=(2, 6) if groups else (2, 8), groups=groups)
    sub = Subset(ctx, shape, random_ok=True, knobs=0.2, ignore=0.1, dense=0.5 if shape.groups else 0.1)
    sub.plan()
    sub.deliver(pre_fks="none")
    rows = sub.read()
    kinds = judge_rows(sub, rows)
    graph = sub.graph
    ctx.count(f"{sub.world.dialect}.cases")
    ctx.nontrivial = bool(kinds) and any(rows[k] for k in graph.planned)
    ctx.sign(scen.signature_of(sub.world, sub.cfg))
    if ctx.index < 3:
        ctx.sample = {"planner": sub.cfg, "world": sub.world.describe(),
                      "delivered": {".".join(k): len(v) for k, v in rows.items()}}
