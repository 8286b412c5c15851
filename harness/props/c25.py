"""C25: memory use does not grow with table size."""

import os
import subprocess

import yaml

import cli
import scen
import subj
from flow import Flow
from runner import Violation

BOUND = 6000  # rows between source and destination (batches have about a thousand rows)
GROWTH = 32  # MiB, for contents of about 90 MiB
CONF = {
    "cases": {"quick": 90, "thorough": 1600},
    "cap": {"quick": 34, "thorough": 820},
    "case_limit": 240,
    "rule": f"tables of 9000 to 16000 rows on every dialect pair and with directory output, under materialisation, filters, multiplicity, compaction, "
    f"merging and conflict strategies; rows the source driver handed to this process minus rows the destination driver received (or a second "
    f"connection or the file shows) may never exceed {BOUND}, nor may one batch; in addition the command line is run as a child process with 9 and "
    f"90 MB of wide rows: its peak memory may differ by at most {GROWTH} MiB; non-trivial: more rows than the bound passed through",
    "need": {"observations": 500, "rows_through": 200000, "materialised": 8, "multiplied": 4, "filtered": 8, "flow.sqlite": 4, "flow.postgres": 4,
             "flow.mysql": 4, "to_directory": 3, "to_database": 10, "peaks": 1},
}
TEXT = {"sqlite": "TEXT", "postgres": "TEXT", "mysql": "MEDIUMTEXT"}


def series(ep, table, cols, num, exprs):
    """INSERT rows computed from i = 1..num."""
    into = f"INSERT INTO {table} ({', '.join(ep.q(c) for c in cols)})"
    if ep.dialect == "postgres":
        return [f"{into} SELECT {', '.join(exprs)} FROM generate_series(1, {num}) AS n(i)"]
    query = f"WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i + 1 FROM n WHERE i < {num}) SELECT {', '.join(exprs)} FROM n"
    return ([f"SET SESSION cte_max_recursion_depth = {num + 10}"] if ep.dialect == "mysql" else []) + [f"{into} {query}"]


def install(ep, schema, sizes, width, fks=True, empty=False):
    wide = {"sqlite": f"i || substr(hex(zeroblob({width})), 1, {width})", "postgres": f"i || repeat('w', {width})",
            "mysql": f"CONCAT(i, REPEAT('w', {width}))"}[ep.dialect]
    table = lambda name: ep.qt(schema, name)  # noqa: E731
    ref = (lambda c: f", FOREIGN KEY ({c}) REFERENCES {ep.q('base') if ep.dialect == 'sqlite' else table('base')} (id)") if fks else (lambda c: "")
    text = TEXT[ep.dialect]
    ep.run(
        f"CREATE TABLE {table('base')} (id INTEGER PRIMARY KEY, val {text}, num INTEGER)",
        f"CREATE TABLE {table('kid')} (id INTEGER PRIMARY KEY, base_id INTEGER, val {text}{ref('base_id')})",
        f"CREATE TABLE {table('tag')} (base_id INTEGER NOT NULL, pos INTEGER NOT NULL, val {text}, PRIMARY KEY (base_id, pos){ref('base_id')})",
    )
    if empty:
        return
    stmts = series(ep, table("base"), ["id", "val", "num"], sizes["base"], ["i", wide, f"i % 7"])
    stmts += series(ep, table("kid"), ["id", "base_id", "val"], sizes["kid"], ["i", f"1 + (i * 7) % {sizes['base']}", wide])
    half = max(1, sizes["base"])
    stmts += series(ep, table("tag"), ["base_id", "pos", "val"], sizes["tag"], [f"1 + i % {half}", "i", wide])
    ep.run(*stmts)


def planner(rng, schema):
    name = lambda t: f"{schema}.{t}"  # noqa: E731
    cfg = {"select": [f"{schema}.*"]}
    how = rng.choice(["down", "down", "up", "passthrough", "both", "amount", "alone"])
    if how == "down":  # the children of a materialised table
        cfg["targets"] = {name("base"): rng.choice([{"all": True}, {"sql": "num < 6"}])}
    elif how == "up":  # what the rows of a materialised table refer to
        cfg["targets"] = {name(rng.choice(["kid", "tag"])): {"all": True}}
    elif how == "passthrough":
        cfg["targets"] = {name("kid"): {"all": True}}
        cfg["passthrough"] = [name("base")]
    elif how == "both":
        cfg["targets"] = {name("base"): {"sql": "num = 1"}, name("kid"): {"all": True}}
    elif how == "amount":
        cfg["targets"] = {name("base"): {"amount": 8500}}
    else:
        cfg["targets"] = {name("kid"): {"all": True}}
        cfg["select"] = [name("kid")]
        cfg["include_dependencies"] = False
    return how, cfg


def sampler(rng, ctx, schema, how):
    conf = {}
    if rng.random() < 0.6:
        conf["filters"] = {f"{schema}.{t}": [rng.choice([
            {"op": "constant", "columns": ["val"], "values": ["k"]}, {"op": "uuid", "columns": ["val"]}, {"op": "null", "columns": ["val"]},
            {"op": "random_string", "columns": ["val"], "length": 9}, {"op": "omit", "columns": ["val"]},
            {"op": "multiplex", "column": "val", "conditions": [{"op": "matches", "value": "*5*", "apply": {"op": "zero", "columns": ["val"]}}]},
        ])] for t in rng.sample(["base", "kid", "tag"], k=rng.choice([1, 2, 3]))}
        ctx.count("filtered")
    if rng.random() < 0.4 and how != "passthrough":  # (so that all tables are multiplied)
        conf["multiplicity"] = {"multiplier": rng.choice([2, 3])}
    if rng.random() < 0.3:
        conf["compact"] = {"primary_keys": True, "start_key": rng.choice([1, 100])}
    return conf


def lines(path):
    total = 0
    for name in os.listdir(path) if os.path.isdir(path) else []:
        with open(os.path.join(path, name), "rb") as fh:
            while True:
                block = fh.read(1 << 20)
                if not block:
                    break
                total += block.count(b"\n")
    return total


def case(ctx):
    rng = ctx.rng
    have = ctx.bench.dialects()
    if ctx.index % 10 == 3:
        return memory(ctx, have[ctx.index // 10 % len(have)])
    dialect = have[ctx.index % len(have)]
    ep = ctx.bench.get(dialect, "s")
    schema = ctx.bench.schema(dialect, "s", "main" if dialect == "sqlite" else "alpha")
    ep.reset([schema])
    sizes = {t: rng.choice([9000, 10000, 12000, 16000]) if rng.random() < 0.8 else 50 for t in ("base", "kid", "tag")}
    sizes[rng.choice(["base", "kid", "tag"])] = 12000
    install(ep, schema, sizes, 8)
    how, cfg = planner(rng, schema)
    conf = sampler(rng, ctx, schema, how)
    plan = scen.run_plan(ctx, ep, cfg)
    mult = conf.get("multiplicity", {}).get("multiplier", 1)
    to_dir = ctx.index % 5 == 4
    ctx.info.update(planner=cfg, sizes=sizes)
    kw = {}
    dest = None
    if to_dir:
        path = scen.scratch_dir(ctx, "out")
        conf["output"] = {"mode": "directory", "directory": path}
        count = lambda: lines(path)  # noqa: E731
        already = 0
    else:
        other = rng.choice(have) if rng.random() < 0.4 else dialect
        dest = ctx.bench.get(other, "d")
        dschema = ctx.bench.schema(other, "d", "main" if other == "sqlite" else "alpha")
        dest.reset([dschema])
        install(dest, dschema, sizes, 8, fks=False, empty=True)
        conf["output"] = {"mode": "database", **dest.config()}
        if dschema != schema:
            conf["output"]["remap"] = [{"search": f"^{schema}\\.", "replace": f"{dschema}."}]
        roll = rng.random()
        if roll < 0.15:
            conf["output"]["merge"] = True
            dest.run(f"INSERT INTO {dest.qt(dschema, 'base')} (id) VALUES (3)")
        elif roll < 0.4:
            conf["output"]["conflict_strategy"] = rng.choice(["skip", "replace"])
        elif roll < 0.6:
            kw["truncate"] = True
        count = lambda: sum(dest.rows(f"SELECT COUNT(*) FROM {dest.qt(dschema, t)}")[0][0] for t in ("base", "kid", "tag"))  # noqa: E731
        already = count()
        ctx.count("to_database")
    ctx.info["sampler"] = conf
    peak = [0, None]

    def check(flow):
        ctx.count("observations")
        shown = count() - already
        gone = max(shown, flow.handed)
        held = flow.fetched - gone // mult
        if held > peak[0]:
            peak[:] = [held, (flow.fetched, shown, flow.handed)]
        if held > BOUND:
            raise Violation(f"{held} rows were held between source and destination", fetched=flow.fetched, handed=flow.handed, visible=shown)

    ctx.judging()
    ep.close()
    with Flow(ep.config(), check) as flow:
        try:
            subj.sample(ep.config(), conf, plan, **kw)
        finally:
            subj.close_all()
    total = count() - already
    if flow.largest > BOUND:
        raise Violation("one batch for the destination holds too many rows", rows=flow.largest)
    if not to_dir and flow.handed < total:
        raise Violation("rows arrived at the destination that its driver never received", handed=flow.handed, total=total)
    if flow.fetched * mult < total:
        raise Violation("more rows were delivered than fetched", fetched=flow.fetched, total=total)
    ctx.count("rows_through", total)
    ctx.count("materialised", how in ("down", "up", "both", "amount"))
    ctx.count("multiplied", mult > 1)
    ctx.count(f"flow.{dialect}")
    ctx.count("to_directory", to_dir)
    ctx.count(f"peak.{peak[0] // 500 * 500}")
    ctx.nontrivial = total > BOUND
    ctx.sign(dialect, how, sorted(conf), sorted(conf.get("filters", {})), mult, to_dir, sorted(sizes.items()), dest and dest.dialect)
    if ctx.index < 4:
        ctx.sample = {"plan": how, "sampler": {k: v for k, v in conf.items() if k != "output"}, "rows": total, "largest_gap": peak[0]}
    if dest is not None:
        dest.reset([])
    ep.reset([])


def memory(ctx, dialect):
    """Peak memory of the real process with few and with many wide rows."""
    rng = ctx.rng
    ep = ctx.bench.get(dialect, "s")
    schema = ctx.bench.schema(dialect, "s", "main" if dialect == "sqlite" else "alpha")
    to_dir = rng.random() < 0.3
    how, _ = planner(rng, schema)
    cfg = {"select": [f"{schema}.kid", f"{schema}.base"], "targets": {f"{schema}.{rng.choice(['kid', 'base'])}": {"all": True}}}
    conf = {}
    if rng.random() < 0.5:
        conf["filters"] = {f"{schema}.kid": [{"op": "plugin", "module": "plug", "class": "Suffix", "columns": ["val"], "kwargs": {"suffix": "x"}}]}
    if rng.random() < 0.3:
        conf["compact"] = {"primary_keys": True}
    peaks = []
    ctx.info.update(planner=cfg, sampler=conf)
    for num in (3000, 30000):
        ep.reset([schema])
        install(ep, schema, {"base": 40, "kid": num, "tag": 1}, 3000)
        path = scen.scratch_dir(ctx, "cli")
        if to_dir:
            conf["output"] = {"mode": "directory", "directory": os.path.join(path, "out")}
        else:
            dest = ctx.bench.get(dialect, "d")
            dschema = ctx.bench.schema(dialect, "d", "main" if dialect == "sqlite" else "alpha")
            dest.reset([dschema])
            install(dest, dschema, {}, 8, fks=False, empty=True)
            conf["output"] = {"mode": "database", **dest.config()}
            if dschema != schema:
                conf["output"]["remap"] = [{"search": f"^{schema}\\.", "replace": f"{dschema}."}]
            dest.close()
        with open(os.path.join(path, "c.yaml"), "w", encoding="utf-8") as fh:
            yaml.safe_dump({"source": ep.config(), "planner": cfg, "sampler": conf}, fh, sort_keys=False)
        ep.close()
        ctx.judging()
        env = {k: v for k, v in os.environ.items() if not k.startswith(("SUBSET_", "PYTHON"))}
        env.update(PYTHONPATH=f"{subj.REPO}:{os.path.dirname(os.path.abspath(cli.__file__))}", PYTHONDONTWRITEBYTECODE="1", MALLOC_ARENA_MAX="2")
        proc = subprocess.run(
            [cli.PYTHON, "-W", "ignore", os.path.join(os.path.dirname(os.path.abspath(cli.__file__)), "hwm.py"), "peak", "-c", "c.yaml", "subset"],
            cwd=path, env=env, capture_output=True, text=True, timeout=200, check=False)
        if proc.returncode:
            raise Violation("the command failed", error=proc.stderr[-600:])
        if to_dir:
            with open(os.path.join(path, "out", f"{schema}.kid.json"), "rb") as fh:
                got = sum(block.count(b"\n") for block in iter(lambda: fh.read(1 << 20), b""))
        else:
            got = dest.rows(f"SELECT COUNT(*) FROM {dest.qt(dschema, 'kid')}")[0][0]
        if got != num:
            raise Violation("wrong number of rows delivered", expected=num, got=got)
        with open(os.path.join(path, "peak"), encoding="ascii") as fh:
            peaks.append(int(fh.read()) / 1024)
    scen.scratch_dir(ctx, "cli")
    ep.reset([])
    if not to_dir:
        dest.reset([])
    if peaks[1] - peaks[0] > GROWTH:
        raise Violation("peak memory grows with the table", MiB=peaks, sampler=conf)
    ctx.count("peaks")
    ctx.count(f"growth.{int((peaks[1] - peaks[0]) // 4 * 4)}MiB")
    ctx.nontrivial = True
    ctx.sign("memory", dialect, to_dir, sorted(conf), sorted(cfg["targets"]))
    if ctx.index < 14:
        ctx.sample = {"dialect": dialect, "peak_MiB": peaks}
