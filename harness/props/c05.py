"""C05: foreign key and scope settings are honoured."""

import planoracle as po
import scen
from props.common import Subset, judge_rows
from runner import Violation
from world import Shape

CONF = {
    "cases": {"quick": 700, "thorough": 14000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random schemas with many equally named columns; every configuration uses at least one of ignore_fks, extra_fks, "
    "infer_foreign_keys, include_dependencies=false or partial select patterns; plan coverage and delivered rows are compared "
    "with the model of usable relations; non-trivial: the settings change the usable relations or the scope",
    "need": {"with.ignore_fks": 30, "with.extra_fks": 30, "with.infer": 30, "with.no_deps": 20, "relations_added": 30,
             "relations_removed": 20},
}


def case(ctx):
    rng = ctx.rng
    shape = Shape(rows=(0, 12), tables=(2, 7), int_fk_named_pk=0.6, same_names=0.4, self_fk=0.15)
    sub = Subset(ctx, shape, random_ok=False, knobs=0.75, ignore=0.05, passthrough=0.15, constraints=0.0,
                 subset_select=0.6)
    graph = sub.graph
    declared = {(k, fk.ident()) for k in graph.scope for fk in sub.world.tables[k].fks}
    usable = {(k, fk.ident()) for k in graph.scope for fk in graph.fks[k]}
    sub.plan()
    sub.deliver(pre_fks="none")
    rows = sub.read()
    judge_rows(sub, rows)
    cfg = sub.cfg
    ctx.count("with.ignore_fks", bool(cfg.get("ignore_fks")))
    ctx.count("with.extra_fks", bool(cfg.get("extra_fks")))
    ctx.count("with.infer", cfg.get("infer_foreign_keys", "none") != "none")
    ctx.count("with.no_deps", cfg.get("include_dependencies") is False)
    planned_links = {(k, fk.ident()) for k, fk in graph.planned_fks()}
    ctx.count("relations_added", len((usable - declared) & planned_links))
    ctx.count("relations_removed", len(declared - usable))
    ctx.nontrivial = usable != declared or graph.scope != set(sub.world.tables)
    ctx.sign(scen.signature_of(sub.world, cfg, len(usable - declared), len(declared - usable)))
    if ctx.index < 3:
        ctx.sample = {"planner": cfg, "world": sub.world.describe()}
