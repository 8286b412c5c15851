"""C28: transformations compose in the documented order."""

import planoracle as po
import predict
import scen
from props.pipeline import Pipe, avoid_conflicts, chains, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 700, "thorough": 12000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "two to eight of compaction, filters, multiplicity, merging, conflict strategies, remapping, creation, truncation and inferred "
    "relations configured together over random sources and destination contents, one or two runs in a row; the complete contents of "
    "every destination table are predicted; non-trivial: at least two transformations took effect on delivered rows",
    "need": {"runs": 103, "three_or_more": 70, "created": 17, "merged": 17, "second_runs": 20},
}


def _holds(pipe, contents):
    """Every declared foreign key between the plan's tables holds in these contents."""
    for key in pipe.keys:
        for fk in pipe.world.tables[key].fks:
            if fk.ref not in pipe.keys:
                continue
            have = {po.fk_value(r, fk.ref_cols) for r in contents.get(fk.ref, [])} | {None}
            if any(po.fk_value(r, fk.cols) not in have for r in contents.get(key, [])):
                return False
    return True


def _unique(pipe, contents):
    for key in pipe.keys:
        table = pipe.world.tables[key]
        for cols in ([table.pk] if table.pk else []):
            vals = [tuple(r.get(c) for c in cols) for r in contents[key]]
            if len(set(vals)) != len(vals):
                return False
    return True


def case(ctx):
    rng = ctx.rng
    shape = small_shape(rng, rows=(0, 12), neg_ids=0.0, uniq=0.0 if rng.random() < 0.7 else 0.3, shared_cols=0.0,
                        textpk=0.08, comppk=0.12, over=chains(rng, 0.3), big=0.05 if ctx.index % 10 == 0 else 0.0)
    pipe = Pipe(ctx, shape, cross=0.25, passthrough=0.35, knobs=0.0)
    world = pipe.world
    kinds = set()
    if rng.random() < 0.5:
        pipe.gen_compact(starts=(1, 1, 1, 5, 1000))
        if pipe.dialect == "sqlite" and any(c.kind == "bigint" for t in world.ordered() for c in t.cols):
            pipe.conf.get("compact", {}).pop("auto_increment_keys", None)
        chosen = pipe.conf.get("compact", {}).get("columns", {})
        for key in pipe.keys:
            if not world.tables[key].pk:
                chosen.pop(scen.full(key), None)  # numbered in any order
        kinds |= {"compact"} & set(pipe.conf)
    if rng.random() < 0.65:
        pipe.gen_filters(tables=0.6)
        kinds |= {"filters"} & set(pipe.conf)
    if rng.random() < 0.5:
        pipe.gen_multiplicity()
        kinds.add("multiplicity")
    if rng.random() < 0.12:
        pipe.conf["infer_foreign_keys"] = rng.choice(["schema", "all"])
    merge = rng.random() < 0.4
    truncate = rng.random() < 0.3
    uniq = any(t.uniques for t in world.tables.values())
    create = rng.random() < 0.35 and pipe.dialect == pipe.dest_dialect  # types are dialect specific
    if "multiplicity" in kinds and uniq:
        create = False  # copies would have to differ
    strategy = rng.choice(["error", "error", "replace", "skip"])
    if merge:
        pipe.conf["output"] = {"merge": True}
        kinds.add("merge")
    prepared = [k for k in pipe.keys if not create or (rng.random() < 0.4 and not uniq)]
    if rng.random() < 0.75:
        pipe.fill_dest([k for k in pipe.keys if k in prepared], shape=small_shape(rng, rows=(1, 10), neg_ids=0.0), prob=0.8)
    base = {} if truncate else pipe.existing
    try:
        model = pipe.model(existing=base)
        delivered = model.delivered()
        if strategy == "error" and not truncate:
            keep = {k: v for k, v in pipe.existing.items() if merge and k in pipe.passthrough}
            avoid_conflicts(pipe)
            pipe.existing.update(keep)
            delivered = pipe.model(existing=base).delivered()
            for key in pipe.keys:
                if not (merge and key in pipe.passthrough) and _hits(pipe, key, delivered[key], pipe.existing.get(key, [])):
                    raise Skip("offsets move onto existing rows")
    except predict.Refused as exc:
        raise Skip("refused (C11, C12)") from exc
    if not _unique(pipe, delivered):
        raise Skip("settings duplicate primary keys")
    if pipe.voided(delivered):
        raise Skip("relations that are not followed leave required columns empty")
    expected = pipe.expect_all(delivered, strategy, existing=base)
    ok = "infer_foreign_keys" not in pipe.conf and _holds(pipe, expected) and _holds(pipe, pipe.existing)
    if create and not ok:
        # constraints are created too, they would not hold
        create = False
        prepared = list(pipe.keys)
    fks = "all" if ok and not uniq and rng.random() < 0.7 else "none"
    pipe.make_dest(fks=fks, uniques=False, prepared=prepared, autoinc=None if rng.random() < 0.5 else False,
                   lack=0.0 if create else 0.2)
    if pipe.gone:
        expected = {k: [{n: v for n, v in r.items() if n not in pipe.gone.get(k, ())} for r in rows]
                    for k, rows in expected.items()}
    pipe.put_existing()
    pipe.conf["output"] = pipe.dest.output(merge=True) if merge else pipe.dest.output()
    if strategy != "error" or rng.random() < 0.5:
        pipe.conf["output"]["conflict_strategy"] = strategy
    kinds |= {"truncate"} if truncate else set()
    kinds |= {"create"} if create else set()
    kinds |= {"strategy"} if strategy != "error" else set()
    kinds |= {"remap"} if pipe.dest.remap else set()
    pipe.run(truncate=truncate, create=create)
    ctx.count("runs")
    for key in pipe.keys:
        pipe.compare(key, expected[key])
    pipe.check_refs({k: pipe.read(k) for k in pipe.keys}, base)
    if rng.random() < 0.3 and (truncate or not (uniq and create)):
        base = {} if truncate else expected
        again = pipe.model(existing=base).delivered()
        fine = truncate or strategy != "error" or not any(
            _hits(pipe, k, again[k], base[k]) for k in pipe.keys if not (merge and k in pipe.passthrough))
        final = pipe.expect_all(again, strategy, existing=base) if fine else None
        if fine and (fks == "none" and not create or _holds(pipe, final)):
            pipe.run(truncate=truncate, create=create)
            for key in pipe.keys:
                pipe.compare(key, final[key], "wrong contents after the second run")
            ctx.count("second_runs")
    moved = sum(len(v) for v in delivered.values())
    ctx.count("created", bool(create and len(prepared) < len(pipe.keys)))
    ctx.count("merged", bool(merge and any(base.values())))
    ctx.count("three_or_more", len(kinds) >= 3)
    ctx.count("kinds_" + str(len(kinds)))
    ctx.nontrivial = moved > 0 and len(kinds) >= 2
    ctx.sign(scen.signature_of(world, pipe.sub.cfg, sorted(kinds), pipe.conf.get("compact"), pipe.conf.get("multiplicity"),
                               {k: [c["op"] for c in v] for k, v in pipe.conf.get("filters", {}).items()}, ok, fks))
    if ctx.index < 3:
        ctx.sample = {"kinds": sorted(kinds), "sampler": {k: v for k, v in pipe.conf.items() if k != "output"}}


def _hits(pipe, key, delivered, existing):
    table = pipe.world.tables[key]
    if not table.pk:
        return False
    have = {tuple(r[c] for c in table.pk) for r in existing}
    return any(tuple(r.get(c) for c in table.pk) in have for r in delivered)
