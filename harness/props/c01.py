"""C01: no dangling reference in a sample."""

import planoracle as po
import scen
from props.common import Subset
from runner import Violation
from world import Shape

CONF = {
    "cases": {"quick": 700, "thorough": 12000},
    "cap": {"quick": 35, "thorough": 900},
    "rule": "random schema graphs (composite / shared / nullable / several FKs, several targets) planned and "
    "sampled by the real code into a fresh database; non-trivial: at least one non-null reference delivered",
    "need": {"references_checked": 200},
}


def case(ctx):
    groups = ctx.rng.choice([0, 0, 2, 3])
    shape = Shape(rows=(6, 20) if groups else (0, 14), tables=(2, 6) if groups else (2, 8), groups=groups)
    sub = Subset(ctx, shape, random_ok=True, knobs=0.2, ignore=0.1, dense=0.5 if shape.groups else 0.1)
    sub.plan()
    mode = ctx.rng.choice(["none", "none", "all", "create"])
    if mode == "create" and (sub.cfg.get("ignore_fks") or sub.cfg.get("include_dependencies") is False
                             or sub.cfg.get("ignore")):
        mode = "all"
    sub.deliver(pre_fks=mode)
    rows = sub.read()
    planned = set(rows)
    refs = 0
    for key in planned:
        for fk in sub.graph.fks.get(key, []):
            if fk.ref not in planned:
                if fk.ref in sub.graph.nodes():
                    raise Violation(f"{key} sampled but {fk.ref}, which it references, is not", fk=repr(fk))
                continue
            if fk.ref in sub.graph.passthrough and key not in sub.graph.passthrough:
                # relations into passthrough tables are not followed; they hold because
                # the passthrough table is complete -- only for real, enforced references
                if fk.ident() not in {f.ident() for f in sub.world.tables[key].fks}:
                    continue
            have = {po.fk_value(r, fk.ref_cols) for r in rows[fk.ref]}
            if key in sub.graph.passthrough and fk.ident() not in {
                f.ident() for f in sub.world.tables[key].fks
            }:
                continue
            for row in rows[key]:
                val = po.fk_value(row, fk.cols)
                if val is None:
                    continue
                refs += 1
                if val not in have:
                    if fk.ident() not in {f.ident() for f in sub.world.tables[key].fks} and not any(
                        po.fk_value(r, fk.ref_cols) == val for r in sub.world.tables[fk.ref].rows
                    ):
                        continue  # a declared-by-config relation that dangles in the source
                    raise Violation(f"dangling reference in sample: {key} {fk!r} value {val}", row=row)
    for name, query in sub.doc["queries"].items():
        joins = (query.get("statement") or {}).get("joins") or []
        mixed = {j.get("half_unique", True) for j in joins}
        ctx.count("mixed_joins", len(mixed) > 1)
        ctx.count("mixed_joins_rows", len(mixed) > 1 and not (query["statement"].get("joins_outer")) and bool(rows[tuple(name.split(".", 1))]))
        ctx.count("two_exists", len(mixed) > 1 and len([j for j in joins if not j.get("half_unique", True)]) > 1 and not query["statement"].get("joins_outer"))
    ctx.count("references_checked", refs)
    ctx.nontrivial = refs > 0
    ctx.sign(scen.signature_of(sub.world, sub.cfg, mode))
    if ctx.index < 3:
        ctx.sample = {"planner": sub.cfg, "world": sub.world.describe(), "destination": mode}
