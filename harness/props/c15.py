"""C15: truncation clears exactly the sampled tables and their dependents."""

import scen
from props.pipeline import Pipe, avoid_conflicts, small_shape
from runner import Violation
from world import refill

CONF = {
    "cases": {"quick": 600, "thorough": 10000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "destinations (foreign keys enforced or not) holding rows in every table of the world, in additional direct and indirect dependents "
    "of sampled tables (also in other schemas) and in unrelated tables; runs with and without truncation; all tables are compared "
    "in full; non-trivial: a dependent outside of the plan was emptied and another table outside of the plan kept rows",
    "need": {"dependents_emptied": 100, "unrelated_kept": 100, "enforced": 50, "untruncated": 16},
}


def case(ctx):
    rng = ctx.rng
    shape = small_shape(rng, rows=(1, 10), tables=(2, 8), uniq=0.0, neg_ids=0.0)
    pipe = Pipe(ctx, shape, cross=0.2, passthrough=0.3, ignore=0.2, knobs=0.2, subset_select=0.6)
    world = pipe.world
    truncate = rng.random() < 0.85
    dest = scen.Dest(ctx, world, pipe.dest_dialect)
    pipe.dest = dest
    ep = dest.endpoint
    fks = "all" if truncate else "none"
    everything = list(world.tables)
    if rng.random() < 0.3:
        # some tables of the source are not there
        needed = set(pipe.keys)
        everything = [k for k in everything if k in needed or rng.random() < 0.6]
    drop = pipe.sub.droppable_fks(pipe.keys) | {
        (key, fk.ident()) for key in pipe.keys for fk in world.tables[key].fks if fk.ref not in pipe.keys
    }
    dest.install(everything, fks=fks, drop=drop, uniques=False)
    links = {}  # dest key -> dest keys it refers to
    for key in everything:
        refs = set()
        if fks == "all":
            for fk in world.tables[key].fks:
                if fk.ref in everything and (key, fk.ident()) not in drop and (
                    ep.dialect != "sqlite" or dest.keys[key][0] == dest.keys[fk.ref][0]
                ):
                    refs.add(dest.keys[fk.ref])
        links[dest.keys[key]] = refs
    other = refill(rng, world, shape)
    contents = {}
    for key in everything:
        # a reference into a table the planner ignores may dangle in the refill's subset of tables
        pipe.existing[key] = other.tables[key].rows
    if not truncate:
        avoid_conflicts(pipe)
    for key in everything:
        names = world.tables[key].names()
        rows = pipe.existing[key]
        ep.insert(*dest.keys[key], names, [[r[n] for n in names] for r in rows])
        contents[dest.keys[key]] = scen.ident_rows(rows, names)
    # additional tables
    schemas = sorted({k[0] for k in dest.keys.values()})
    if ep.dialect != "sqlite" and rng.random() < 0.4:
        name = ctx.bench.schema(ep.dialect, "d", "gamma")
        ep.run(
            f"CREATE DATABASE {ep.q(name)} CHARACTER SET utf8mb4 COLLATE utf8mb4_bin" if ep.dialect == "mysql"
            else f"CREATE SCHEMA {ep.q(name)}")
        ep.schemas.append(name)
        schemas.append(name)
    added = {}
    pool = [
        (dest.keys[k], world.tables[k].pk[0], world.tables[k].cols[0], [r[world.tables[k].pk[0]] for r in pipe.existing[k]])
        for k in everything if len(world.tables[k].pk) == 1
    ]
    for num in range(rng.randint(1, 4)):
        kind = rng.random()
        name = rng.choice(["dep", "Audit", "x-log", "zz"]) + str(num)
        ref = None
        if pool and kind < 0.75:
            ref = rng.choice(pool)
            schema = ref[0][0] if ep.dialect == "sqlite" else rng.choice(schemas)
        else:
            schema = rng.choice(schemas)
        key = (schema, name)
        kindsql = "INTEGER"
        fk = ""
        if ref is not None:
            colkind = _type_of(ep, ref[0], ref[1])
            kindsql = colkind
            target = ep.q(ref[0][1]) if ep.dialect == "sqlite" else ep.qt(*ref[0])
            if fks == "all":
                fk = f", FOREIGN KEY ({ep.q('link')}) REFERENCES {target} ({ep.q(ref[1])})"
        ep.run(f"CREATE TABLE {ep.qt(*key)} ({ep.q('id')} INTEGER NOT NULL PRIMARY KEY, {ep.q('link')} {kindsql}{fk})")
        rows = []
        for i in range(rng.randint(1, 4)):
            val = rng.choice([None, *ref[3]]) if ref is not None else rng.choice([None, 5])
            rows.append((i + 1, val))
        ep.insert(*key, ["id", "link"], rows)
        links[key] = {ref[0]} if ref is not None and fks == "all" else set()
        added[key] = rows
        pool.append((key, "id", None, [r[0] for r in rows]))
    closed = {dest.keys[k] for k in pipe.keys}
    grew = True
    while grew:
        grew = False
        for key, refs in links.items():
            if key not in closed and refs & closed:
                closed.add(key)
                grew = True
    pipe.conf["output"] = dest.output()
    if ep.dialect == "sqlite":
        if fks == "all" and rng.random() < 0.7:
            pipe.conf["output"]["session_sqls"] = ["PRAGMA foreign_keys=ON"]
        ctx.count("enforced", "session_sqls" in pipe.conf["output"] and fks == "all")
    else:
        ctx.count("enforced", fks == "all")
    if rng.random() < 0.15:
        pipe.conf["output"]["merge"] = True
    if not truncate:
        pipe.conf["output"].pop("merge", None)
    base = {} if truncate else pipe.existing
    delivered = pipe.model(existing=base).delivered()
    expected = pipe.expect_all(delivered, existing=base)
    pipe.run(truncate=truncate)
    emptied = kept = 0
    for key in everything:
        names = world.tables[key].names()
        dkey = dest.keys[key]
        got = scen.ident_rows(dest.read_dicts(key), names)
        if key in pipe.keys:
            want = scen.ident_rows(expected[key], names)
        elif dkey in closed and truncate:
            want = scen.ident_rows([], names)
            emptied += sum(contents[dkey].values())
        else:
            want = contents[dkey]
            kept += sum(want.values())
        if got != want:
            raise Violation(f"{dkey}: wrong contents (truncate={truncate}, closure={dkey in closed})", **scen.diff(want, got))
    for key, rows in added.items():
        got = sorted(ep.table(*key))
        want = [] if key in closed and truncate else sorted(rows)
        if got != want:
            raise Violation(f"additional table {key}: wrong contents (truncate={truncate}, closure={key in closed})",
                            got=got, expected=want)
        if key in closed and truncate:
            emptied += len(rows)
        else:
            kept += len(rows)
    ctx.count("dependents_emptied", emptied)
    ctx.count("unrelated_kept", kept)
    ctx.count("untruncated", not truncate)
    ctx.count("truncated", truncate)
    ctx.nontrivial = bool(emptied and kept) if truncate else kept > 0
    ctx.sign(scen.signature_of(world, pipe.sub.cfg, truncate, len(added), len(closed), ep.dialect))
    if ctx.index < 3:
        ctx.sample = {"planned": [scen.full(k) for k in pipe.keys], "closure": sorted(map(scen.full, closed)),
                      "additional": sorted(map(scen.full, added))}


def _type_of(ep, key, col):
    """Declared type of a column of the destination."""
    if ep.dialect == "sqlite":
        return next(r[2] for r in ep.rows(f"PRAGMA {ep.q(key[0])}.table_xinfo({ep.q(key[1])})") if r[1] == col)
    if ep.dialect == "postgres":
        return ep.rows(
            "SELECT format_type(a.atttypid, a.atttypmod) FROM pg_attribute a WHERE a.attrelid ="
            f" {ep.lit(ep.qt(*key))}::regclass AND a.attname = {ep.lit(col)}"
        )[0][0]
    return ep.rows(
        "SELECT column_type FROM information_schema.columns WHERE"
        f" table_schema={ep.lit(key[0])} AND table_name={ep.lit(key[1])} AND column_name={ep.lit(col)}"
    )[0][0]
