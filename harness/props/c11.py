"""C11: compaction renumbers consistently."""

import collections

import predict
import scen
from props import native
from props.pipeline import Pipe, chains, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 600, "thorough": 12000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random schemas, deterministic plans and compaction settings (primary keys, generated keys, chosen columns, start keys) on every "
    "dialect, also across dialects; every delivered value is predicted; illegal settings must be refused with the destination "
    "untouched; non-trivial: a renumbered table with rows is referenced by delivered rows",
    "need": {"compacted_rows": 235, "renumbered_refs": 120, "refusals": 5, "native_keys": 4},
}


def case(ctx):
    if ctx.index % 30 == 7:
        return native.case(ctx, knob="compact")
    rng = ctx.rng
    shape = small_shape(rng, self_fk=0.3, rows=(0, 16), nopk=0.05, bigint=rng.random() < 0.5, shared_cols=0.03,
                        over=chains(rng),
                        big=0.05 if ctx.index % 10 == 0 else 0.0)
    pipe = Pipe(ctx, shape, cross=0.2, knobs=0.1 if rng.random() < 0.2 else 0.0)
    pipe.gen_compact()
    if "compact" not in pipe.conf:
        raise Skip("nothing to compact")
    if shape.bigint and pipe.dialect == "sqlite":
        pipe.conf["compact"].pop("auto_increment_keys", None)
    if rng.random() < 0.1:
        # illegal: a column that is (part of) a foreign key
        cand = [k for k in pipe.keys if pipe.world.tables[k].fks and k not in pipe.passthrough]
        if cand:
            key = rng.choice(cand)
            table = pipe.world.tables[key]
            col = rng.choice(sorted(table.fk_cols()))
            pipe.conf["compact"].setdefault("columns", {}).setdefault(scen.full(key), []).append(col)
    if rng.random() < 0.2 and all(pipe.world.tables[k].pk for k in pipe.keys):
        pipe.conf["infer_foreign_keys"] = rng.choice(["schema", "all"])
    if rng.random() < 0.1:
        pipe.conf["compact"].setdefault("columns", {})["nosuch.table"] = ["id"]
    direct = rng.random() < 0.15
    pipe.make_dest(fks="none", uniques=False, autoinc=False)
    pipe.conf["output"] = pipe.dest.output()
    model = pipe.model()
    try:
        cols = model.compact_cols()
    except predict.Refused as exc:
        before = pipe.dest.endpoint.full_dump()
        err = pipe.run_expect_error(truncate=rng.random() < 0.5)
        if pipe.dest.endpoint.full_dump() != before:
            raise Violation(f"destination changed although the configuration is refused ({exc})") from err
        ctx.count("refusals")
        ctx.nontrivial = True
        ctx.sign("refused", scen.signature_of(pipe.world, pipe.sub.cfg, pipe.conf.get("compact")))
        return
    try:
        expected = model.delivered() if not any(not pipe.world.tables[k].pk for k in cols) else None
    except predict.Ambiguous as exc:
        raise Skip("a column belongs to two relations with compacted targets") from exc
    if expected is not None and pipe.voided(expected):
        raise Skip("relations that are not followed leave required columns empty")
    out_dir = None
    if direct:
        rows = {k: [] for k in pipe.keys}
        got = scen.sample_to_dir(ctx, pipe.source, pipe.sub.plan_obj, {k: v for k, v in pipe.conf.items() if k != "output"})
        for key in pipe.keys:
            rows[key] = got.get(scen.full(key), [])
        out_dir = True
    else:
        pipe.run()
        rows = {k: pipe.read(k) for k in pipe.keys}
    if expected is None:
        # tables without primary key may be numbered in any order
        expected = _any_order(pipe, model, cols, rows)
    for key in pipe.keys:
        names = pipe.dest_names(key)
        want = scen.ident_rows(expected[key], names)
        have = scen.ident_rows(rows[key], names)
        if want != have:
            raise Violation(f"wrong rows after compaction: {scen.full(key)}", columns=names, directory=bool(out_dir),
                            **scen.diff(want, have))
        ctx.count("rows_compared", sum(want.values()))
    pipe.check_refs(rows)
    start = pipe.conf["compact"].get("start_key", 1)
    refs = 0
    for key, names in cols.items():
        count = len(rows[key])
        ctx.count("compacted_rows", count)
        for name in names:
            if sorted(r[name] for r in rows[key]) != list(range(start, start + count)):
                raise Violation(f"{scen.full(key)}.{name} is not numbered {start}..{start + count - 1}")
        for other in pipe.keys:
            for fk in model.fks[other]:
                if fk.ref == key and set(fk.ref_cols) & names:
                    refs += sum(all(r[c] is not None for c in fk.cols) for r in rows[other])
    ctx.count("renumbered_refs", refs)
    ctx.nontrivial = refs > 0
    ctx.sign(scen.signature_of(pipe.world, pipe.sub.cfg, pipe.conf.get("compact"), pipe.dest_dialect))
    if ctx.index < 3:
        ctx.sample = {"compact": pipe.conf["compact"], "planner": pipe.sub.cfg}


def _any_order(pipe, model, cols, rows):
    start = pipe.conf["compact"].get("start_key", 1)
    hints = {}
    for key, names in cols.items():
        if pipe.world.tables[key].pk:
            continue
        name = sorted(names)[0]
        hints[key] = {r["rid"]: r[name] for r in rows[key]}
        if collections.Counter(hints[key].values()) != collections.Counter(
            range(start, start + len(pipe.samples[key]))
        ):
            raise Violation(f"{scen.full(key)}.{name} is not numbered consecutively", got=sorted(hints[key].values(), key=repr))
        if set(hints[key]) != {r["rid"] for r in pipe.samples[key]}:
            raise Violation(f"{scen.full(key)} lost or duplicated rows")
    model.order_hint = hints
    try:
        return model.delivered()
    except predict.Ambiguous as exc:
        raise Skip("a column belongs to two relations with compacted targets") from exc
