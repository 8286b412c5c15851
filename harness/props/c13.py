"""C13: merging never disturbs existing data and shifts consistently."""

import planoracle as po
import predict
import scen
from props import native
from props.pipeline import Pipe, avoid_conflicts, chains, small_shape
from runner import Skip, Violation
from world import install, refill

CONF = {
    "cases": {"quick": 450, "thorough": 9000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "histories of one to three merges of deterministic plans into destinations that are empty or hold rows, the source changing or "
    "not in between, on every dialect; the complete contents of every destination table (also tables outside the plan) are "
    "predicted after each merge; non-trivial: rows referring to shifted keys were added to tables that had rows",
    "need": {"merges": 147, "shifted_refs": 130, "existing_rows": 500, "second_merges": 50, "passthrough_skipped": 20, "native_keys": 4},
}


def _end_at_zero(pipe):
    """The largest key of a table that has rows is 0."""
    for key in pipe.keys:
        table = pipe.world.tables[key]
        rows = pipe.existing.get(key)
        if not rows or key in pipe.passthrough or len(table.pk) != 1 or table.col(table.pk[0]).kind == "text":
            continue
        if table.autoinc and pipe.dest_dialect == "mysql":
            continue  # 0 asks for a generated key
        col = table.pk[0]
        top = max(r[col] for r in rows)
        for row in rows:
            row[col] -= top
        pipe.ctx.count("ending_at_zero")


def _drop_conflicts(pipe):
    """Passthrough tables may collide, others must not; True if rows had to go."""
    keep = {k: v for k, v in pipe.existing.items() if k in pipe.passthrough}
    before = {k: len(v) for k, v in pipe.existing.items() if k not in keep}
    avoid_conflicts(pipe)
    pipe.existing.update(keep)
    return any(len(pipe.existing[k]) != n for k, n in before.items())


def case(ctx):
    if ctx.index % 30 == 7:
        return native.case(ctx, knob="merge")
    rng = ctx.rng
    uniq = 0.0 if rng.random() < 0.6 else 0.3
    shape = small_shape(rng, self_fk=0.3, rows=(0, 12), neg_ids=0.0, textpk=0.06, comppk=0.08, uniq=uniq, shared_cols=0.0,
                        onetoone=0.15, over=chains(rng), big=0.06 if ctx.index % 10 == 0 else 0.0)
    pipe = Pipe(ctx, shape, cross=0.2, passthrough=0.4, knobs=0.1 if rng.random() < 0.2 else 0.0)
    if rng.random() < 0.15:
        pipe.conf["infer_foreign_keys"] = rng.choice(["schema", "all"])
    pipe.conf["output"] = {"merge": True}
    empty = rng.random() < 0.15
    if not empty:
        pipe.fill_dest(shape=small_shape(rng, rows=(1, 10), neg_ids=0.0 if rng.random() < 0.7 else 0.5), prob=0.85)
    for key in list(pipe.existing):
        if pipe.existing[key] and key in pipe.passthrough and rng.random() < 0.7:
            # some of the passthrough rows are there already, possibly changed
            have = {tuple(r[c] for c in pipe.world.tables[key].pk) for r in pipe.existing[key]}
            for row in pipe.samples[key][::2]:
                new = dict(row)
                if tuple(new[c] for c in pipe.world.tables[key].pk) not in have:
                    new["rid"] += 500000
                    pipe.existing[key].append(new)
    if rng.random() < 0.15:
        _end_at_zero(pipe)
    try:
        dropped = _drop_conflicts(pipe)
        pipe.model().delivered()
    except predict.Ambiguous as exc:
        raise Skip("column refers to several shifted keys") from exc
    fks = "none"
    if uniq == 0.0 and not dropped and "infer_foreign_keys" not in pipe.conf and _refs_hold(pipe) and rng.random() < 0.7:
        fks = "all"
        ctx.count("enforced_destinations")
    pipe.make_dest(fks=fks, uniques=False)
    pipe.put_existing()
    extra = [k for k in pipe.world.tables if k not in pipe.keys]
    extra_rows = {}
    if extra and fks == "none":
        pipe.dest.install(extra, fks="none")
        other = refill(rng, pipe.world, shape)
        for key in extra:
            names = pipe.world.tables[key].names()
            extra_rows[key] = other.tables[key].rows
            pipe.dest.endpoint.insert(*pipe.dest.keys[key], names, [[r[n] for n in names] for r in extra_rows[key]])
    pipe.conf["output"] = pipe.dest.output(merge=True)
    if rng.random() < 0.2:
        pipe.conf["output"]["conflict_strategy"] = rng.choice(["error", "error", "replace", "skip"])
    rounds = rng.choice([1, 1, 2, 2, 3])
    nontrivial = False
    for num in range(rounds):
        if num:
            # the rows added before may collide only in tables whose keys do not move
            model = pipe.model()
            delivered = model.delivered()
            if _collides(pipe, delivered):
                ctx.count("stopped_before_collision")
                break
            if fks == "all" and not _refs_hold(pipe):
                break
            ctx.count("second_merges")
        model = pipe.model()
        offsets = model.offsets()
        delivered = model.delivered()
        expected = pipe.expect_all(delivered)
        pipe.run()
        ctx.count("merges")
        for key in pipe.keys:
            pipe.compare(key, expected[key], f"wrong contents after merge {num + 1}")
            ctx.count("existing_rows", len(pipe.existing.get(key, [])))
            if key in pipe.passthrough:
                ctx.count("passthrough_skipped", len(pipe.existing.get(key, [])) + len(delivered[key]) - len(expected[key]))
            for col, off in offsets.get(key, {}).items():
                if off and (col,) != pipe.world.tables[key].pk:
                    moved = sum(r[col] is not None for r in delivered[key])
                    ctx.count("shifted_refs", moved)
                    nontrivial |= bool(moved and pipe.existing.get(key))
        for key, rows in extra_rows.items():
            pipe.compare(key, rows, "table outside of the plan changed")
        # references that hold within the sample and within the old contents hold in the union
        pipe.check_refs({k: pipe.read(k) for k in pipe.keys}, pipe.existing)
        pipe.existing = expected
        if num + 1 < rounds and rng.random() < 0.6 and not any("sql" in s for s in pipe.sub.cfg["targets"].values()):
            fresh = refill(rng, pipe.world, shape, rid_shift=0)
            for key, table in pipe.world.tables.items():
                table.rows = fresh.tables[key].rows
            install(pipe.world, pipe.source)
            pipe.samples = pipe.sub.model.closure()
            ctx.count("source_changes")
    ctx.nontrivial = nontrivial
    ctx.sign(scen.signature_of(pipe.world, pipe.sub.cfg, rounds, {str(k): len(v) > 0 for k, v in pipe.existing.items()}))
    if ctx.index < 3:
        ctx.sample = {"planner": pipe.sub.cfg, "rounds": rounds, "existing": {scen.full(k): len(v) for k, v in pipe.existing.items()}}


def _collides(pipe, delivered):
    for key in pipe.keys:
        table = pipe.world.tables[key]
        if not table.pk or key in pipe.passthrough:
            continue
        have = {tuple(r[c] for c in table.pk) for r in pipe.existing.get(key, [])}
        if any(tuple(r[c] for c in table.pk) in have for r in delivered[key]):
            return True
    return False


def _refs_hold(pipe):
    """The predicted destination satisfies its own declared foreign keys."""
    delivered = pipe.model().delivered()
    drop = pipe.sub.droppable_fks(pipe.keys)
    conf, pipe.conf = pipe.conf, {**pipe.conf, "output": {"merge": True}}
    final = pipe.expect_all(delivered)
    pipe.conf = conf
    for stage in (pipe.existing, final):
        for key in pipe.keys:
            for fk in pipe.world.tables[key].fks:
                if fk.ref not in pipe.keys or (key, fk.ident()) in drop:
                    continue
                have = {po.fk_value(r, fk.ref_cols) for r in stage.get(fk.ref, [])}
                if any(po.fk_value(r, fk.cols) not in have | {None} for r in stage.get(key, [])):
                    return False
    return True
