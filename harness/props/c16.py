"""C16: created tables reproduce the source structure, existing ones stay untouched."""

import catalog
import scen
import typed
from props import native
from props.c28 import _holds
from props.pipeline import Pipe, avoid_conflicts, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 360, "thorough": 9000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random schemas (all column types, composite keys in any order, unique constraints and indexes, long and odd names) sampled with "
    "creation into destinations of the same dialect that hold none, some or all of the tables, with and without renaming; the catalogues of source "
    "and destination are compared table by table, the definitions of existing and unrelated tables before and after; missing tables without creation must be refused; "
    "non-trivial: a table with a foreign key, unique constraint or index was created",
    "need": {"created": 139, "columns": 1013, "fks": 128, "fks_to_unsampled": 4, "uniques": 60, "indexes": 60, "kept": 37, "refused": 5, "checks": 50, "partial_indexes": 30, "pk_flipped": 17, "wide_uniques": 60, "native_keys": 15},
}
LONG = "L" * 50


def decorate(ctx, pipe):
    """Indexes beyond those of the world."""
    rng = ctx.rng
    ep = pipe.source
    num = 0
    for key in pipe.keys:
        table = pipe.world.tables[key]
        if ep.dialect != "sqlite" and rng.random() < 0.3:
            text = rng.choice([f"{ep.q('rid')} <> -12345", f"{ep.q('val')} <> ':b'", f"{ep.q('val')} <> '50%'", f"{ep.q('val')} NOT LIKE '~%'"])
            ep.run(f"ALTER TABLE {ep.qt(*key)} ADD CHECK ({text})")
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            num += 1
            unique = rng.random() < 0.4
            cols = rng.sample([c.name for c in table.cols if c.kind in ("int", "bigint", "text", "small", "date", "dec", "float")],
                              k=rng.choice([1, 1, 2]))
            if unique:
                cols = [c for c in cols if c != "rid"] + ["rid"]
                rng.shuffle(cols)
            name = rng.choice(["ix", "Odd Index", "select", LONG]) + str(num)
            on = ep.q(key[1]) if ep.dialect == "sqlite" else ep.qt(*key)
            full = ep.qt(key[0], name) if ep.dialect == "sqlite" else ep.q(name)
            where = rng.choice([f" WHERE {ep.q('rid')} > 100003", f" WHERE {ep.q('rid')} > 0", f" WHERE {ep.q('val')} <> ':b'"]) if ep.dialect != "mysql" and rng.random() < 0.25 else ""
            ep.run(f"CREATE {'UNIQUE ' if unique else ''}INDEX {full} ON {on} ({', '.join(ep.q(c) for c in cols)}){where}")
            ctx.count("partial_indexes", bool(where))


def expected(pipe, key, source):
    """What the source's definition has to look like in the destination."""
    result = dict(source)
    fks = set()
    for ref, pairs in source["fks"]:
        if ref in pipe.keys:
            fks.add((pipe.dest.keys[ref], pairs))
    result["fks"] = fks
    return result


def compare(ctx, pipe, key, want, got):
    name = scen.full(key)
    for part in ("columns", "uniques", "fks", "partial", "checks"):
        if want[part] != got[part]:
            raise Violation(f"created table for {name}: wrong {part}", expected=repr(want[part]), got=repr(got[part]))
    if want["pk"] != got["pk"]:
        raise Violation(f"created table for {name}: wrong primary key", expected=want["pk"], got=got["pk"])
    # (a foreign key may bring an index of its own)
    own = {tuple(c for c, _ in sorted(pairs)) for _, pairs in want["fks"]} if pipe.dialect == "mysql" else set()
    lost = want["indexes"] - got["indexes"]
    extra = {i for i in got["indexes"] - want["indexes"] if tuple(sorted(i)) not in own}
    if lost or extra:
        raise Violation(f"created table for {name}: wrong indexes", expected=repr(want["indexes"]), got=repr(got["indexes"]))
    ctx.count("created")
    ctx.count("columns", len(want["columns"]))
    ctx.count("fks", len(want["fks"]))
    ctx.count("uniques", len(want["uniques"]))
    ctx.count("wide_uniques", sum(len(u) > 1 for u in want["uniques"]))
    ctx.count("checks", len(want["checks"]))
    ctx.count("pk_flipped", want["pk"] != [c[0] for c in want["columns"] if c[0] in want["pk"]])
    ctx.count("indexes", len(want["indexes"]))


def case(ctx):
    if ctx.index % 9 == 8:
        return native.case(ctx, structure=True)
    rng = ctx.rng
    ep_kinds = None
    dialect_kinds = {d: [k for k in typed.kinds_for(d) if k != "pgjson"] for d in ctx.bench.dialects()}
    # the dialect is only known once the world exists: choose kinds all have, or fix the dialect
    dialect = scen.pick_dialect(ctx, {"sqlite": 3, "postgres": 3, "mysql": 2})
    ep_kinds = dialect_kinds[dialect]
    shape = small_shape(rng, rows=(0, 6), typed=ep_kinds, typed_count=(0, 4), odd_names=0.4, uniq=0.4, autoinc=0.4, comppk=0.25, neg_ids=0.0, pk_flip=0.5, extra=0.4)
    pipe = Pipe(ctx, shape, passthrough=0.3, ignore=0.2, knobs=0.35, weights={dialect: 1})
    world = pipe.world
    decorate(ctx, pipe)
    pipe.dest_dialect = pipe.dialect
    delivered = pipe.model().delivered()
    if not _holds(pipe, delivered):
        raise Skip("foreign keys do not hold in the sample")
    roll = rng.random()
    prepared = [k for k in pipe.keys if roll < 0.4 and rng.random() < 0.5]
    suffix = rng.choice(["_out", " copy", "x" * 8]) if rng.random() < 0.3 else ""
    create = rng.random() >= 0.12 or len(prepared) == len(pipe.keys)
    dest = pipe.make_dest(fks="none", prepared=prepared, autoinc=False, suffix=suffix)
    ep = dest.endpoint
    for key in list(world.tables):
        if key not in pipe.keys and rng.random() < 0.3 and not any(dest.keys[key] == dest.keys[o] for o in pipe.keys):
            # a table of the source that is not sampled must not matter
            ep.run(f"CREATE TABLE {ep.qt(*dest.keys[key])} (x INTEGER)", f"INSERT INTO {ep.qt(*dest.keys[key])} VALUES (5)")
    free = [k for k in prepared if not world.tables[k].uniques and world.tables[k].pk]
    pipe.fill_dest(free, shape=small_shape(rng, rows=(1, 6), neg_ids=0.0, typed=ep_kinds))
    avoid_conflicts(pipe)
    for key in free:
        names = [c.name for c in world.tables[key].cols]
        kinds = {c.name: c.kind for c in world.tables[key].cols}
        ep.insert(*dest.keys[key], names, [
            [typed.to_sql(ep.dialect, kinds[n], r[n]) if kinds[n] in typed.KINDS else r[n] for n in names] for r in pipe.existing[key]])
    if not _holds(pipe, {k: delivered[k] + pipe.existing.get(k, []) for k in pipe.keys}):
        raise Skip("foreign keys do not hold with the existing rows")
    pipe.conf["output"] = dest.output()
    before = {key: catalog.describe(ep, key) for key in ep.tables()}
    dump = ep.full_dump()
    ctx.info["prepared"] = [scen.full(k) for k in prepared]
    missing = [k for k in pipe.keys if k not in prepared]
    if missing and not create:
        exc = pipe.run_expect_error(truncate=rng.random() < 0.5)
        if ep.full_dump() != dump:
            raise Violation("the destination changed although tables are missing", error=str(exc)[:300])
        ctx.count("refused")
        ctx.nontrivial = True
        ctx.sign("refused", scen.signature_of(world, pipe.sub.cfg), len(missing))
        return
    source = {key: catalog.describe(pipe.source, key) for key in pipe.keys}
    pipe.run(create=True, truncate=rng.random() < 0.2 and not pipe.existing)
    have = set(ep.tables())
    want = set(before) | {dest.keys[k] for k in pipe.keys}
    if have != want:
        raise Violation("wrong tables in the destination", expected=sorted(want), got=sorted(have))
    for key, old in before.items():
        if catalog.describe(ep, key) != old:
            raise Violation(f"the definition of existing table {scen.full(key)} changed", before=repr(old), after=repr(catalog.describe(ep, key)))
        ctx.count("kept")
    parts = 0
    for key in missing:
        exp = expected(pipe, key, source[key])
        compare(ctx, pipe, key, exp, catalog.describe(ep, dest.keys[key]))
        ctx.count("fks_to_unsampled", len(source[key]["fks"]) - len(exp["fks"]))
        parts += len(exp["fks"]) + len(exp["uniques"]) + len(exp["indexes"])
    for key in pipe.keys:
        got = [r[0] for r in ep.table(*dest.keys[key], ["rid"])]
        exp_rows = delivered[key] + pipe.existing.get(key, [])
        if sorted(got) != sorted(r["rid"] for r in exp_rows):
            raise Violation(f"wrong rows in {scen.full(dest.keys[key])}", got=got)
    if rng.random() < 0.25:
        # once more: now everything exists
        again = {key: catalog.describe(ep, key) for key in ep.tables()}
        pipe.run(create=True, truncate=True)
        for key, old in again.items():
            if catalog.describe(ep, key) != old:
                raise Violation(f"the definition of existing table {scen.full(key)} changed in a second run")
        ctx.count("second_runs")
    ctx.nontrivial = parts > 0
    ctx.sign(scen.signature_of(world, pipe.sub.cfg, [len(prepared), len(missing), bool(suffix)],
                               [[c.kind for c in world.tables[k].cols] for k in missing]))
    if ctx.index < 3:
        ctx.sample = {"created": {scen.full(k): repr(source[k]) for k in missing[:2]}}

