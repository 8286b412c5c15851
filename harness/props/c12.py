"""C12: multiplicity makes isomorphic disjoint copies."""

import predict
import scen
from props.pipeline import Pipe, chains, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 600, "thorough": 12000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random schemas, deterministic plans and multiplicity settings (multiplier, ignored tables, extra columns, key columns left "
    "alone) with database output on every dialect and directory output; every delivered value is predicted; illegal settings must "
    "be refused with the destination untouched; non-trivial: multiplied rows refer to multiplied rows",
    "need": {"multiplied_rows": 500, "multiplied_refs": 200, "refusals": 10, "directory_runs": 19},
}


def case(ctx):
    rng = ctx.rng
    uniq = 0.0 if rng.random() < 0.5 else 0.35
    shape = small_shape(rng, self_fk=0.3, rows=(0, 14), textpk=0.04, uniq=uniq, shared_cols=0.04, comppk=0.4 if ctx.index % 3 == 1 else 0.15,
                        over=chains(rng),
                        big=0.05 if ctx.index % 10 == 0 else 0.0)
    pipe = Pipe(ctx, shape, cross=0.2, passthrough=0.25, knobs=0.1 if rng.random() < 0.2 else 0.0)
    pipe.gen_multiplicity()
    if rng.random() < 0.15:
        pipe.conf["infer_foreign_keys"] = rng.choice(["schema", "all"])
    if rng.random() < 0.05:
        pipe.conf["multiplicity"]["multiplier"] = rng.choice([1, 0])
    if rng.random() < 0.35:
        pipe.gen_filters(tables=0.5)
    pipe.make_dest(fks="none", uniques=False)
    pipe.conf["output"] = pipe.dest.output()
    model = pipe.model()
    try:
        mult, cols = model.multiplied()
    except predict.Refused as exc:
        before = pipe.dest.endpoint.full_dump()
        err = pipe.run_expect_error(truncate=rng.random() < 0.5)
        if pipe.dest.endpoint.full_dump() != before:
            raise Violation(f"destination changed although the configuration is refused ({exc})") from err
        ctx.count("refusals")
        ctx.nontrivial = True
        ctx.sign("refused", scen.signature_of(pipe.world, pipe.sub.cfg, pipe.conf["multiplicity"]))
        return
    expected = model.delivered()
    for key in pipe.keys:
        table = pipe.world.tables[key]
        vals = [tuple(r[c] for c in table.pk) for r in expected[key]]
        if table.pk and len(set(vals)) != len(vals):
            raise Skip("settings duplicate primary keys")
    if rng.random() < 0.3:
        got = scen.sample_to_dir(ctx, pipe.source, pipe.sub.plan_obj, {k: v for k, v in pipe.conf.items() if k != "output"})
        rows = {k: got.get(scen.full(k), []) for k in pipe.keys}
        ctx.count("directory_runs")
    else:
        pipe.run()
        rows = {k: pipe.read(k) for k in pipe.keys}
    refs = 0
    for key in pipe.keys:
        gone = pipe.omitted(key)
        names = [n for n in pipe.dest_names(key) if n not in gone]
        if any(r.get(n) is not None for n in gone for r in rows[key]):
            raise Violation(f"omitted columns of {scen.full(key)} have values")
        want = scen.ident_rows(expected[key], names)
        have = scen.ident_rows(rows[key], names)
        if want != have:
            raise Violation(f"wrong rows with multiplicity: {scen.full(key)}", columns=names, multiplied=sorted(cols.get(key, ())),
                            **scen.diff(want, have))
        ctx.count("rows_compared", sum(want.values()))
        if key in cols and mult > 1:
            ctx.count("multiplied_rows", len(rows[key]))
            for fk in model.fks[key]:
                if fk.ref in cols and set(fk.ref_cols) & cols[fk.ref]:
                    refs += sum(all(r[c] is not None for c in fk.cols) for r in rows[key])
        else:
            ctx.count("single_rows", len(rows[key]))
    pipe.check_refs(rows)
    ctx.count("multiplied_refs", refs)
    ctx.nontrivial = refs > 0
    ctx.sign(scen.signature_of(pipe.world, pipe.sub.cfg, pipe.conf["multiplicity"], pipe.dest_dialect))
    if ctx.index < 3:
        ctx.sample = {"multiplicity": pipe.conf["multiplicity"], "planner": pipe.sub.cfg}
