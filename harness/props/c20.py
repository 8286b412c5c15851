"""C20: auto-increment keeps working after a run."""

import predict
import scen
from props.c28 import _holds
from props.pipeline import Pipe, avoid_conflicts, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 380, "thorough": 9000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random runs (merge, compaction, multiplicity, conflict strategies, creation, truncation, one or two in a row) into destinations whose "
    "keys are generated (serial, identity, renamed sequences, composite keys, generators far ahead); the generators' states before and after are "
    "compared and a row is inserted without its key by a plain driver afterwards; non-trivial: a table with generated key received rows",
    "need": {"probes": 250, "probes_postgres": 120, "ahead": 30, "second_runs": 19, "created": 11, "odd_sequences": 20, "probes_composite": 1},
}


def generated_keys(pipe):
    """Tables of the destination whose (one) key column the destination generates."""
    result = {}
    for key in pipe.keys:
        table = pipe.world.tables[key]
        if table.autoinc and len(table.pk) == 1:
            result[key] = table.pk[0]
    return result


def sequence(pipe, key, col):
    ep = pipe.dest.endpoint
    return ep.rows(f"SELECT pg_get_serial_sequence({ep.lit(ep.qt(*pipe.dest.keys[key]))}, {ep.lit(col)})")[0][0]


def state(pipe, key, col):
    """A number that only ever may grow."""
    ep = pipe.dest.endpoint
    dkey = pipe.dest.keys[key]
    if ep.dialect == "postgres":
        seq = sequence(pipe, key, col)
        if seq is None:
            return None
        last, called = ep.rows(f"SELECT last_value, is_called FROM {seq}")[0]
        return last * 2 + int(called)
    if ep.dialect == "sqlite":
        try:
            rows = ep.rows(f"SELECT seq FROM {ep.q(dkey[0])}.sqlite_sequence WHERE name = {ep.lit(dkey[1])}")
        except Exception:  # pylint: disable=broad-exception-caught
            return None  # no table of this database has AUTOINCREMENT
        return rows[0][0] if rows else 0
    ep.run(f"ANALYZE TABLE {ep.qt(*dkey)}")
    rows = ep.rows(
        f"SELECT AUTO_INCREMENT FROM information_schema.tables WHERE table_schema = {ep.lit(dkey[0])} AND table_name = {ep.lit(dkey[1])}")
    return rows[0][0] or 0


def probe(ctx, pipe, key, col):
    ep = pipe.dest.endpoint
    dkey = pipe.dest.keys[key]
    table = pipe.world.tables[key]
    have = [r[0] for r in ep.table(*dkey, [col])]
    names = [n for n in pipe.dest_names(key) if n != col and n not in pipe.computed.get(key, ())]
    filler = {c.name: (None if c.nullable else "~probe" if c.kind == "text" else 2_000_000_000 + ctx.rng.randint(0, 10**6)) for c in table.cols}
    fk_cols = [c for c in names if c in table.fk_cols()]
    rows = ep.table(*dkey, fk_cols) if fk_cols else []
    if rows:
        filler.update(zip(fk_cols, ctx.rng.choice(rows)))
    elif any(not table.col(c).nullable for c in fk_cols):
        return  # nothing to refer to
    for num in range(2):
        row = dict(filler)
        row["rid"] = -5 - num
        try:
            if names:
                ep.insert(*dkey, names, [[row[n] for n in names]])
            else:
                ep.run(f"INSERT INTO {ep.qt(*dkey)} DEFAULT VALUES")
        except Exception as exc:
            raise Violation(f"a row cannot be inserted into {scen.full(key)} with a generated key: {exc}"[:500],
                            largest=max(have, default=None)) from exc
        new = {r[0] for r in ep.table(*dkey, [col])} - set(have)
        if len(new) != 1:
            raise Violation(f"the generated key of {scen.full(key)} is not new", new=sorted(new))
        got = new.pop()
        if have and got <= max(have):
            raise Violation(f"the generated key of {scen.full(key)} is not larger than all others", got=got, largest=max(have))
        have.append(got)
        ctx.count("probes")
        ctx.count(f"probes_{ep.dialect}")
        ctx.count("probes_composite", len(table.pk) > 1)


def embellish(ctx, pipe, keys):
    """Other ways of having keys generated, and generators that are ahead."""
    rng = ctx.rng
    ep = pipe.dest.endpoint
    for key, col in keys.items():
        dkey = pipe.dest.keys[key]
        if ep.dialect == "postgres":
            roll = rng.random()
            seq = sequence(pipe, key, col)
            if seq is None:
                raise RuntimeError(f"no sequence on {dkey}")
            if roll < 0.2:
                top = max([r[col] for r in pipe.existing.get(key, [])] + [0])
                ep.run(f"ALTER TABLE {ep.qt(*dkey)} ALTER COLUMN {ep.q(col)} DROP DEFAULT", f"DROP SEQUENCE {seq}",
                       f"ALTER TABLE {ep.qt(*dkey)} ALTER COLUMN {ep.q(col)} "
                       f"ADD GENERATED BY DEFAULT AS IDENTITY (START {top + 1})")
                ctx.count("odd_sequences")
            elif roll < 0.4:
                name = rng.choice(["Mixed Case", "it's:x", "seq.dot", "select"]) + str(len(key[1]))
                ep.run(f"ALTER SEQUENCE {seq} RENAME TO {ep.q(name + '_' + dkey[1][:20])}")
                ctx.count("odd_sequences")
        if rng.random() < 0.3:
            ahead = rng.choice([300, 5000, 1_000_000])
            if ep.dialect == "postgres":
                ep.rows(f"SELECT setval({ep.lit(sequence(pipe, key, col))}, {ahead}, {rng.choice(['true', 'false'])})")
            elif ep.dialect == "mysql":
                ep.run(f"ALTER TABLE {ep.qt(*dkey)} AUTO_INCREMENT = {ahead}")
            else:
                ep.run(f"INSERT INTO {ep.q(dkey[0])}.sqlite_sequence (name, seq) VALUES ({ep.lit(dkey[1])}, {ahead})")
            ctx.count("ahead")


def case(ctx):
    rng = ctx.rng
    shape = small_shape(rng, rows=(1, 12), autoinc=0.9, neg_ids=rng.choice([0, 0, 0.5]), nopk=0.03, textpk=0.05, comppk=0.05, uniq=0.0,
                        odd_names=0.6, shared_cols=0.0, onetoone=0.05)
    weights = {"sqlite": 1, "postgres": 3, "mysql": 1}
    pipe = Pipe(ctx, shape, passthrough=0.3, weights=weights, cross=0.15)
    world = pipe.world
    if rng.random() < 0.35:
        pipe.gen_compact(columns=False, starts=(1, 1, 5, 1000, -3))
    if rng.random() < 0.35:
        pipe.gen_multiplicity()
        for part in ("extra_columns", "ignore_primary_key_columns"):
            pipe.conf["multiplicity"].pop(part, None)
    create = rng.random() < 0.25 and pipe.dialect == pipe.dest_dialect
    truncate = rng.random() < 0.2
    merge = rng.random() < 0.35
    if merge:
        pipe.conf["output"] = {"merge": True}
    if not create:
        pipe.fill_dest(shape=small_shape(rng, rows=(1, 10), neg_ids=0.0), prob=0.6)
    base = {} if truncate else pipe.existing
    strategy = rng.choice(["error", "skip", "replace"])
    try:
        if strategy == "error" and not truncate:
            avoid_conflicts(pipe)
        delivered = pipe.model(existing=base).delivered()
        for key in pipe.keys:
            table = world.tables[key]
            if table.pk:
                new = [tuple(r[c] for c in table.pk) for r in delivered[key]]
                old = {tuple(r[c] for c in table.pk) for r in base.get(key, [])}
                if len(set(new)) != len(new) or (strategy == "error" and set(new) & old):
                    raise Skip("keys collide")
                if pipe.dest_dialect == "mysql" and table.autoinc and any(v == (0,) for v in new):
                    raise Skip("mysql takes 0 for a request to generate a key")
    except predict.Refused as exc:
        raise Skip("refused") from exc
    create = create and _holds(pipe, delivered)  # the created constraints would not hold otherwise
    pipe.make_dest(fks="none", uniques=False, prepared=[] if create else None,
                   suffix=rng.choice(["", "", "", "_2", " Out"]))
    pipe.put_existing()
    keys = generated_keys(pipe)
    if not create:
        embellish(ctx, pipe, keys)
        if rng.random() < 0.25:
            keys.update(composite(ctx, pipe))
    pipe.conf["output"] = pipe.dest.output(conflict_strategy=strategy, **({"merge": True} if merge else {}))
    ctx.info["create"] = [create, truncate]
    for num in range(2 if rng.random() < 0.35 else 1):
        if num and strategy == "error" and not merge and not truncate:
            break
        before = {} if create and not num else {key: state(pipe, key, col) for key, col in keys.items()}
        try:
            pipe.run(truncate=truncate or (num > 0 and strategy == "error" and not merge), create=create)
        except Violation as exc:
            if num and merge and "uplicate" in exc.what:
                raise Skip("a second merge moved keys onto existing ones") from exc
            if num and "UNIQUE constraint" in exc.what:
                raise Skip("a second merge moved keys onto existing ones") from exc
            raise
        for key, col in keys.items():
            after = state(pipe, key, col)
            old = before.get(key)
            if old is not None and (after is None or after < old):
                raise Violation(f"the key generator of {scen.full(key)} went backwards", before=old, after=after)
            ctx.count("states_compared")
        for key, col in keys.items():
            probe(ctx, pipe, key, col)
        if num:
            ctx.count("second_runs")
    ctx.count("created", create and bool(keys))
    ctx.nontrivial = any(delivered[k] for k in keys)
    ctx.sign(scen.signature_of(world, pipe.sub.cfg, pipe.dest_dialect, create, truncate, merge, strategy, sorted(pipe.conf), len(keys)))
    if ctx.index < 3:
        ctx.sample = {"tables": [scen.full(k) for k in keys], "destination": pipe.dest_dialect, "strategy": strategy, "merge": merge}


def composite(ctx, pipe):
    """A generated column within a composite key."""
    result = {}
    ep = pipe.dest.endpoint
    if ep.dialect != "postgres":
        return result
    for key in pipe.keys:
        table = pipe.world.tables[key]
        if len(table.pk) < 2:
            continue
        col = table.pk[0]
        if table.col(col).kind not in ("int", "bigint") or col in table.fk_cols():
            continue
        dkey = pipe.dest.keys[key]
        top = max([r[col] for r in pipe.existing.get(key, [])] + [0])
        ep.run(f"ALTER TABLE {ep.qt(*dkey)} ALTER COLUMN {ep.q(col)} ADD GENERATED BY DEFAULT AS IDENTITY (START {top + 1})")
        result[key] = col
    return result
