"""C14: conflict strategies do what they promise."""

import predict
import scen
from props.pipeline import Pipe, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 600, "thorough": 12000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "deterministic plans into destinations holding rows whose primary keys overlap with the sample in none, some or all places "
    "(first, last, around batch boundaries), with omitted, computed and additional destination columns, under each strategy and "
    "dialect; complete contents predicted; for the error strategy the run must fail and existing rows stay as they were; "
    "non-trivial: at least one conflicting row",
    "need": {"conflicts.replace": 100, "conflicts.skip": 100, "conflicts.error": 50, "batch_tables": 1},
}


def case(ctx):
    rng = ctx.rng
    big = ctx.index % 12 == 5
    shape = small_shape(rng, rows=(0, 12), tables=(1, 3) if big else (1, 5), uniq=0.0, big=0.6 if big else 0.0, allpk=0.2)
    pipe = Pipe(ctx, shape, cross=0.25, passthrough=0.3)
    if rng.random() < 0.4:
        pipe.gen_filters(tables=0.5)
    strategy = rng.choice(["error", "replace", "replace", "skip", "skip"])
    strict = _strict_table(pipe) if rng.random() < 0.2 else None
    pipe.make_dest(fks="none", uniques=False, lack=0.3, computed=0.0 if strict else 0.15,
                   clauses={strict[0]: [strict[2]]} if strict and strict[2] else None)
    ep = pipe.dest.endpoint
    delivered = pipe.model().delivered()
    conflicts = 0
    extra = set()
    for key in pipe.keys:
        table = pipe.world.tables[key]
        rows = pipe.existing.setdefault(key, [])
        pool = delivered[key]
        if table.pk and pool and rng.random() < (0.7 if strategy != "error" else 0.35):
            roll = rng.random()
            if roll < 0.25:
                chosen = list(pool)
            elif roll < 0.45:
                chosen = [pool[0]]
            elif roll < 0.6:
                chosen = [pool[-1]]
            else:
                chosen = rng.sample(pool, k=rng.randint(1, len(pool)))
            for row in chosen:
                if strict and key == strict[0] and row["rid"] == strict[1]:
                    continue  # the row the destination does not accept conflicts with nothing
                new = {n: None for n in table.names()}
                new.update(row)
                for col in table.cols:
                    if col.name in table.pk:
                        continue
                    if col.name == "rid":
                        new["rid"] = row.get("rid", 0) + 700000
                    elif rng.random() < 0.7 or new[col.name] is None:
                        new[col.name] = rng.choice(["old", "o2"]) if col.kind == "text" else rng.choice([-1, 77])
                rows.append(new)
        # rows that conflict with nothing
        used = {tuple(r[c] for c in table.pk) for r in pool} | {tuple(r[c] for c in table.pk) for r in rows} \
            if table.pk else set()
        for num in range(rng.choice([0, 1, 3])):
            new = {}
            for col in table.cols:
                new[col.name] = f"free{num}" if col.kind == "text" else 800000 + num
            if tuple(new[c] for c in table.pk) in used:
                continue
            rows.append(new)
        if key in pipe.computed:
            for row in rows:
                row["num"] = row["rid"] * 2
        if table.pk and rng.random() < 0.3:
            extra.add(key)
    pipe.put_existing()
    if strict and not strict[2]:
        ctx.count(f"refused_by.{_refuse(pipe, strict[0], strict[1])}")
    xcol = "added col"
    for key in extra:
        ep.run(f"ALTER TABLE {ep.qt(*pipe.dest.keys[key])} ADD COLUMN {ep.q(xcol)} VARCHAR(20) DEFAULT 'dflt'",
               f"UPDATE {ep.qt(*pipe.dest.keys[key])} SET {ep.q(xcol)} = 'keep'")
    for key in pipe.keys:
        table = pipe.world.tables[key]
        if table.pk:
            have = {tuple(r[c] for c in table.pk) for r in pipe.existing[key]}
            hits = sum(tuple(r[c] for c in table.pk) in have for r in delivered[key])
            conflicts += hits
            ctx.count("batch_tables", bool(hits and len(delivered[key]) > 1000))
    ctx.count(f"conflicts.{strategy}", conflicts)
    pipe.conf["output"] = pipe.dest.output(conflict_strategy=strategy)
    if strategy == "error" and rng.random() < 0.5:
        del pipe.conf["output"]["conflict_strategy"]
    existing_before = {key: [dict(r) for r in rows] for key, rows in pipe.existing.items()}
    try:
        expected = pipe.expect_all(delivered, strategy)
    except predict.Fails:
        expected = None
    if strict:
        expected = None
        ctx.count(f"unacceptable_rows.{strategy}")
    if expected is None:
        pipe.run_expect_error()
        everything = {
            key: pipe.expect_all({**{k: [] for k in pipe.keys}, key: _no_conflict(pipe, key, delivered[key])}, "error")[key]
            for key in pipe.keys
        }
        if strategy == "replace":
            # some of the existing rows may have been replaced before the failure
            replaced = pipe.expect_all(delivered, strategy)
            for key in pipe.keys:
                everything[key] += replaced[key]
        for key in pipe.keys:
            names = pipe.dest_names(key)
            got = scen.ident_rows(pipe.read(key), names)
            want = scen.ident_rows(existing_before[key], names)
            if strategy == "replace":
                pk = pipe.world.tables[key].pk
                if pk and {tuple(r[c] for c in pk) for r in existing_before[key]} - {tuple(r[c] for c in pk) for r in pipe.read(key)}:
                    raise Violation(f"existing rows of {scen.full(key)} disappeared in a failed run")
            elif want - got:
                raise Violation(f"existing rows of {scen.full(key)} changed in a failed run", **scen.diff(want, got))
            # rows of the sample may have arrived before the failure
            if got - scen.ident_rows(everything[key], names):
                raise Violation(f"unexpected rows in {scen.full(key)} after a failed run",
                                **scen.diff(scen.ident_rows(everything[key], names), got))
        ctx.count("failed_runs")
    else:
        pipe.run()
        for key in pipe.keys:
            pipe.compare(key, expected[key], f"wrong contents with strategy {strategy}")
            if key in extra:
                table = pipe.world.tables[key]
                old = {tuple(r[c] for c in table.pk) for r in existing_before[key]}
                for row in pipe.dest.read(key, [*table.pk, xcol]):
                    want = "keep" if tuple(row[:-1]) in old else "dflt"
                    if row[-1] != want:
                        raise Violation(f"column unknown to the source changed in {scen.full(key)}: {row}")
                    ctx.count("extra_column_values")
    ctx.count("key_only_tables", sum(len(pipe.world.tables[k].pk) == len(pipe.world.tables[k].cols) for k in pipe.keys))
    ctx.nontrivial = conflicts > 0
    ctx.sign(scen.signature_of(pipe.world, pipe.sub.cfg, strategy, min(conflicts, 20), pipe.dest_dialect, sorted(pipe.conf.get("filters", {}))))
    if ctx.index < 3:
        ctx.sample = {"strategy": strategy, "conflicts": conflicts, "filters": pipe.conf.get("filters")}


def _strict_table(pipe):
    """(table, rid, clause) of a delivered row that the destination is going to refuse."""
    rng = pipe.rng
    able = [
        k for k in pipe.keys if pipe.samples[k] and pipe.world.tables[k].pk
        and not any("rid" in repr(f) for f in pipe.conf.get("filters", {}).get(scen.full(k), []))
    ]
    if not able:
        return None
    key = rng.choice(able)
    rid = rng.choice(pipe.samples[key])["rid"]
    quote = pipe.ctx.bench.get(pipe.dest_dialect, pipe.role).q
    return key, rid, f"CHECK ({quote('rid')} <> {rid})" if rng.random() < 0.3 else None


def _refuse(pipe, key, rid):
    """Let the destination report one of various errors for the row."""
    ep, rng = pipe.dest.endpoint, pipe.rng
    schema, name = pipe.dest.keys[key]
    if ep.dialect == "sqlite":
        how = rng.choice(["ABORT", "ROLLBACK", "FAIL"])
        ep.run(f"CREATE TRIGGER {ep.qt(schema, 'refuse')} BEFORE INSERT ON {ep.q(name)} WHEN NEW.{ep.q('rid')} = {rid} "
               f"BEGIN SELECT RAISE({how}, 'refused'); END")
        return how
    if ep.dialect == "postgres":
        # out of range, too long, raised, not permitted, null, check, serialisation failure
        how = rng.choice(["22003", "22001", "P0001", "42501", "23502", "23514", "0A000"])
        ep.run(f"CREATE FUNCTION {ep.qt(schema, 'refuse')}() RETURNS trigger LANGUAGE plpgsql AS $$ BEGIN IF NEW.{ep.q('rid')} = {rid} THEN "
               f"RAISE EXCEPTION 'refused' USING ERRCODE = '{how}'; END IF; RETURN NEW; END $$",
               f"CREATE TRIGGER refuse BEFORE INSERT ON {ep.qt(schema, name)} FOR EACH ROW EXECUTE FUNCTION {ep.qt(schema, 'refuse')}()")
        return how
    how = rng.choice([1264, 1406, 1644, 1142, 1048, 3819, 1235])
    ep.run(f"CREATE TRIGGER {ep.qt(schema, 'refuse')} BEFORE INSERT ON {ep.qt(schema, name)} FOR EACH ROW "
           f"IF NEW.{ep.q('rid')} = {rid} THEN SIGNAL SQLSTATE '45000' SET MESSAGE_TEXT = 'refused', MYSQL_ERRNO = {how}; END IF")
    return how


def _no_conflict(pipe, key, rows):
    table = pipe.world.tables[key]
    if not table.pk:
        return rows
    have = {tuple(r[c] for c in table.pk) for r in pipe.existing[key]}
    return [r for r in rows if tuple(r[c] for c in table.pk) not in have]
