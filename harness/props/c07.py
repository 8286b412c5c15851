"""C07: a saved plan means the same as planning and sampling in one go; planning is deterministic."""

import json
import os

import yaml

import cli
import planoracle as po
import scen
import subj
from runner import Violation
from world import Shape, gen_world, install

SPECIAL = ["null", "yes", "no", "~", "1", "1.5", "0x10", "1e5", "true", "2020-01-01", "a: b", "- x", "#c", "x #y", "'q'", '"d"',
           "a\nb", " lead", "trail ", "{a}", "[b]", "!tag", "&anchor", "*alias", "%pct", "@at", "`tick", "ünï", "😀", "|", ">", "1_000",
           "0o7", "NaN", ".inf", "12:30:45", "a\tb", "=", "<<", "\\n", "on", "\u2028", "\x85"]
NAMES = ["null", "yes", "~tilde", "1", "true", "2020-01-01", "on", "a #b", "1e5", "- x", "no", "0x1", "a: b"]

CONF = {
    "cases": {"quick": 260, "thorough": 6000},
    "cap": {"quick": 40, "thorough": 800},
    "rule": "random schemas with YAML-special names and values, deterministic planner configurations and sampler settings; plan -o, "
    "plan on stdout, sample -p and subset through the real command line (in process and in child processes with other hash seeds), "
    "and planning of the same tables created in another order; compared are plans and all destination rows; non-trivial: rows were delivered",
    "need": {"equivalence_runs": 22, "orders_compared": 51, "hash_seeds": 10, "children": 3, "rows_compared": 316, "special_values": 7},
}


def special(ctx, world):
    rng = ctx.rng
    for table in world.ordered():
        if rng.random() < 0.6:
            for row in table.rows:
                if rng.random() < 0.4 and row.get("val") is not None:
                    row["val"] = rng.choice(SPECIAL)
    if world.dialect == "mysql" or rng.random() < 0.6:
        return
    mapping = {}
    used = {(s.lower(), t.lower()) for s, t in world.tables}
    names = rng.sample(NAMES, len(NAMES))
    for key in world.tables:
        if rng.random() < 0.5 and names:
            new = (key[0], names.pop())
            if (new[0].lower(), new[1].lower()) not in used:
                mapping[key] = new
    tables = {}
    for key, table in world.tables.items():
        table.key = mapping.get(key, key)
        for fk in table.fks:
            fk.ref = mapping.get(fk.ref, fk.ref)
        tables[table.key] = table
    world.tables = tables


def same_plan(first, second):
    first, second = dict(first), dict(second)
    a, b = first.pop("passthrough", []), second.pop("passthrough", [])
    return sorted(a) == sorted(b) and len(a) == len(b) and first == second and json.dumps(first, sort_keys=True) == json.dumps(second, sort_keys=True)


def case(ctx):
    rng = ctx.rng
    dialect = scen.pick_dialect(ctx, {"sqlite": 5, "postgres": 3, "mysql": 2})
    source = ctx.bench.get(dialect, "s")
    world = gen_world(rng, dialect, scen.schema_names(ctx, dialect),
                      Shape(tables=(2, 8), odd_names=0.4, rows=(3, 20), allpk=0.0))
    special(ctx, world)
    ctx.info["world"] = world.describe()
    install(world, source)
    cfg, _, _ = scen.gen_planner(ctx, world, source, random_ok=False)
    for name, spec in cfg["targets"].items():
        if rng.random() < 0.4 and not spec.get("in") and not spec.get("sql"):
            have = sorted({r["val"] for r in world.tables[po.split(name)].rows if r["val"] in SPECIAL})
            spec["in"] = {"val": sorted(set(rng.sample(SPECIAL, 3) + have[:6]))}
            spec.pop("like", None)
            ctx.count("special_values")
    ctx.info["planner"] = cfg
    ctx.judging()
    source.close()
    try:
        plan = subj.plan(source.config(), cfg)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        if "Cannot apply table constraints" not in str(exc):
            raise Violation(f"planning failed on a valid configuration: {exc}"[:500]) from exc
        # constraints on a demanded table
        subj.close_all()
        del cfg["table_constraints"]
        plan = scen.run_plan(ctx, source, cfg)
    doc = subj.dump_plan(plan)
    ctx.info["plan"] = doc
    subj.close_all()
    ctx.sign(scen.signature_of(world, cfg, sorted(world.tables)))

    if ctx.index % 2:
        order(ctx, world, source, cfg, doc)
    else:
        equivalence(ctx, world, source, cfg, doc)


def order(ctx, world, source, cfg, doc):
    """The same database created in other orders, planned in other processes."""
    rng = ctx.rng
    for table in world.ordered():
        for fk in table.fks:
            fk.late = True
    for _ in range(2):
        tables = world.ordered()
        rng.shuffle(tables)
        install(world, source, order=tables)
        source.close()
        again = subj.dump_plan(subj.plan(source.config(), cfg))
        subj.close_all()
        if not same_plan(doc, again):
            raise Violation("another order of creation gives another plan", first=doc, second=again,
                            order=[t.full for t in tables])
        ctx.count("orders_compared")
    ctx.nontrivial = len(doc["queries"]) > 1
    if ctx.index % 8 != 1 and ctx.tier == "quick":
        return
    path = scen.scratch_dir(ctx, "hs")
    with open(os.path.join(path, "subsetter.yaml"), "w", encoding="utf-8") as fh:
        yaml.safe_dump({"source": source.config(), "planner": cfg}, fh, sort_keys=False)
    for seed in rng.sample(range(1, 5000), 2):
        code, out, err = cli.child(["plan"], path, env={"PYTHONHASHSEED": str(seed)})
        if code != 0:
            raise Violation("the plan command failed on a valid configuration", stderr=err[-1500:])
        again = yaml.safe_load(out)
        if not same_plan(doc, again):
            raise Violation("another hash seed gives another plan", first=doc, second=again, seed=seed)
        ctx.count("hash_seeds")


def equivalence(ctx, world, source, cfg, doc):
    rng = ctx.rng
    dest_dialect = world.dialect if rng.random() < 0.7 else rng.choice(ctx.bench.dialects())
    keys = [po.split(name) for name in doc["queries"]]
    dests = [scen.Dest(ctx, world, dest_dialect, role) for role in ("d", "e")]
    create = dest_dialect == world.dialect and rng.random() < 0.3 and not cfg.get("ignore_fks") and not cfg.get("ignore") \
        and cfg.get("include_dependencies", True)
    truncate = rng.random() < 0.3
    sampler = {}
    if rng.random() < 0.3:
        sampler["compact"] = {"primary_keys": True}
    elif rng.random() < 0.3:
        sampler["multiplicity"] = {"multiplier": 2}
    if rng.random() < 0.3:
        sampler["filters"] = {scen.full(k): [{"op": "constant", "columns": ["val"], "values": [rng.choice(SPECIAL)]}] for k in keys[:2]}
    flags = ["--create"] * create + ["--truncate"] * truncate
    for dest in dests:
        if not create:
            dest.install(keys, fks="none", uniques=False)
            if truncate:
                for key in keys[:2]:
                    table = world.tables[key]
                    if table.rows:
                        dest.endpoint.insert(*dest.keys[key], table.names(), [[table.rows[0][n] for n in table.names()]])
        dest.endpoint.close()
    source.close()
    run = cli.inproc
    if ctx.index % 16 == 0 or (ctx.tier != "quick" and ctx.index % 4 == 0):
        ctx.count("children")

        def run(*args, **kw):  # noqa: F811
            return cli.child(*args, env={"PYTHONHASHSEED": str(rng.randint(1, 999))}, **kw)

    path = scen.scratch_dir(ctx, "cli")
    files = []
    for dest, name in zip(dests, ("one.yaml", "two.yaml")):
        conf = {"source": source.config(), "planner": cfg, "sampler": {**sampler, "output": dest.output()}}
        files.append(name)
        with open(os.path.join(path, name), "w", encoding="utf-8") as fh:
            yaml.safe_dump(conf, fh, sort_keys=False)
    ctx.info["sampler"] = sampler
    ctx.info["flags"] = flags
    # in two steps
    to_file = rng.random() < 0.6
    plan_name = rng.choice(["p.yaml", "Some Plan.yml"])
    code, out, err = run(["-c", files[0], "plan"] + (["-o", plan_name] if to_file else []), path)
    if code != 0:
        raise Violation("the plan command failed on a valid configuration", stderr=err[-1500:])
    if to_file:
        if out:
            raise Violation("plan -o wrote to standard output as well", stdout=out[:500])
        with open(os.path.join(path, plan_name), encoding="utf-8") as fh:
            out = fh.read()
    try:
        saved = yaml.safe_load(out)
    except yaml.YAMLError as exc:
        raise Violation("the plan is no YAML document", stdout=out[:2000]) from exc
    if not same_plan(doc, saved):
        raise Violation("the saved plan differs from the plan", plan=doc, saved=saved)
    if subj.dump_plan(subj.load_plan(saved)) != saved:
        raise Violation("reading the saved plan back changes it", saved=saved, read=subj.dump_plan(subj.load_plan(saved)))
    if not to_file:
        with open(os.path.join(path, plan_name), "w", encoding="utf-8") as fh:
            fh.write(out)
    code_two, _, err_two = run(["-c", files[0], "sample", "-p", plan_name, *flags], path)
    code_one, _, err_one = run(["-c", files[1], "subset", *flags], path)
    if code_one != code_two:
        raise Violation("subset and plan+sample end differently", subset=[code_one, err_one[-1500:]],
                        two_steps=[code_two, err_two[-1500:]])
    total = 0
    left = [dest.tables() for dest in dests]
    back = [{there: key for key, there in dest.keys.items()} for dest in dests]
    if {back[0].get(k, k) for k in left[0]} != {back[1].get(k, k) for k in left[1]}:
        raise Violation("subset and plan+sample leave different tables", subset=sorted(left[1]), two_steps=sorted(left[0]))
    for key in keys:
        if dests[0].keys[key] not in dests[0].tables():
            continue
        rows = [scen.multiset(d.read(key)) for d in dests]
        if rows[0] != rows[1]:
            raise Violation(f"{scen.full(key)}: subset and plan+sample deliver different rows", **scen.diff(rows[1], rows[0]))
        total += sum(rows[0].values())
    ctx.count("equivalence_runs", code_one == 0)
    ctx.count("failing_runs", code_one != 0)
    ctx.count("rows_compared", total)
    ctx.nontrivial = code_one == 0 and total > 0
    if ctx.index < 4:
        ctx.sample = {"planner": cfg, "flags": flags, "sampler": sampler, "saved_plan": out[:1500]}
