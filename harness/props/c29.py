"""C29: under snapshot isolation a sample is one consistent snapshot."""

import collections
import json
import threading
import time

import planoracle as po
import scen
from monitor import Monitor
from props.pipeline import Pipe, small_shape
from runner import Skip, Violation
from world import Col, refill

CONF = {
    "cases": {"quick": 280, "thorough": 4200},
    "cap": {"quick": 36, "thorough": 800},
    "case_limit": 120,
    "rule": "sampling runs (materialised and direct tables, filters, compaction, multiplicity, batches beyond 1024 rows, databases and directories) during which "
    "a second client commits new states of the whole source, each numbered in every row: at chosen statements of the run on either connection, between the "
    "batches of a streamed result, or continuously from another thread; under REPEATABLE READ and SERIALIZABLE on postgres the destination has to equal the "
    "predicted sample of one committed state, at the default level (all databases) every row has to be a row of one state; non-trivial: a state was committed "
    "after the first and before the last statement on the source that reads the tables",
    "need": {"snapshots": 33, "mid_run_commits": 120, "telling": 17, "rows_compared": 1200, "torn_checked_rows": 120, "threads": 5, "between_batches": 2,
             "interleavings": 30},
}


def states(ctx, pipe, count):
    """Contents the source goes through; every row says which one it belongs to."""
    rng = ctx.rng
    result = [pipe.world]
    for num in range(1, count):
        if rng.random() < 0.6:
            world = refill(rng, pipe.world, pipe.shape, rid_shift=0)
        else:
            world = refill(rng, pipe.world, pipe.shape, rid_shift=0)
            for key, table in world.tables.items():  # the same rows
                table.rows = [dict(r) for r in result[-1].tables[key].rows]
        for table in world.tables.values():
            for row in table.rows:
                row["ver"] = num
        result.append(world)
    return result


def mark(pipe):
    """Adds the column that holds the number of the state."""
    ep = pipe.source
    for table in pipe.world.ordered():
        table.cols.append(Col("ver", "int", False))
        for row in table.rows:
            row["ver"] = 0
        ep.run(f"ALTER TABLE {ep.qt(*table.key)} ADD COLUMN ver INTEGER NOT NULL DEFAULT 0")


class Writer:
    """Commits one state after the other."""

    def __init__(self, ctx, pipe, worlds):
        self.ctx = ctx
        self.ep = pipe.source
        self.scripts = [self._script(w) for w in worlds]
        self.left = list(range(1, len(worlds)))
        self.done = [0]
        self.busy = 0

    def _script(self, world):
        ep = self.ep
        out = []
        tables = list(world.ordered())
        for table in reversed(tables):
            out.append(f"DELETE FROM {ep.qt(*table.key)}")
        for table in tables:
            names = table.names()
            into = f"INSERT INTO {ep.qt(*table.key)} ({', '.join(map(ep.q, names))}) VALUES "
            for start in range(0, len(table.rows), 500):
                out.append(into + ",".join("(" + ",".join(ep.lit(r[n]) for n in names) + ")" for r in table.rows[start:start + 500]))
        return out

    def commit(self):
        if not self.left:
            return False
        num = self.left[0]
        ep = self.ep
        fresh = ep._conn is None  # pylint: disable=protected-access
        cur = ep.conn.cursor()
        try:
            if fresh and ep.dialect == "mysql":
                cur.execute("SET SESSION innodb_lock_wait_timeout = 1")
                cur.execute("SET SESSION foreign_key_checks = 0")
            elif fresh and ep.dialect == "postgres":
                cur.execute("SET lock_timeout = '2s'")
                cur.execute("SET session_replication_role = replica")
            elif fresh:
                cur.execute("PRAGMA busy_timeout = 50")
                cur.execute("PRAGMA foreign_keys = OFF")
            cur.execute("BEGIN IMMEDIATE" if ep.dialect == "sqlite" else "BEGIN")
            for stmt in self.scripts[num]:
                cur.execute(stmt)
            cur.execute("COMMIT")
        except Exception as exc:  # pylint: disable=broad-exception-caught
            if not any(word in str(exc).lower() for word in ("lock", "timeout", "busy")):
                raise
            cur.execute("ROLLBACK")
            self.busy += 1
            return False
        finally:
            cur.close()
        self.left.pop(0)
        self.done.append(num)
        return True


def reads_tables(pipe, sql):
    sql = sql.upper()
    return ("SELECT" in sql or "TABLE" in sql) and any(pipe.source.q(k[1]).upper() in sql or k[1].upper() in sql for k in pipe.keys)


def case(ctx):
    rng = ctx.rng
    snapshot = ctx.index % 4 != 3
    dialect = "postgres" if snapshot else scen.pick_dialect(ctx, {"sqlite": 3, "postgres": 4, "mysql": 4})
    if dialect not in ctx.bench.dialects():
        raise Skip("no postgres")
    big = ctx.index % 10 == 4
    shape = small_shape(rng, rows=(2, 14), tables=(3, 7), big=0.6 if big else 0.0, neg_ids=0.0, shared_cols=0.0, big_sizes=(1300, 2100, 3300))
    pipe = Pipe(ctx, shape, weights={dialect: 1}, cross=0.2, passthrough=0.35, knobs=0.05)
    if "EXISTS" in json.dumps(pipe.sub.cfg):
        raise Skip("a condition on other rows")
    mark(pipe)
    worlds = states(ctx, pipe, rng.choice([3, 3, 4] if big else [4, 6, 9, 14]))
    if snapshot:
        pipe.gen_filters(tables=0.3, omit=False)
        if rng.random() < 0.35:
            pipe.gen_compact(columns=False)
        if rng.random() < 0.2:
            pipe.conf["multiplicity"] = {"multiplier": 2}
    for conf in pipe.conf.get("filters", {}).values():
        conf[:] = [c for c in conf if c["op"] != "multiplex" and "ver" not in c["columns"]]
    expected = []
    for world in worlds:
        graph = po.Graph(world, pipe.sub.cfg)
        pipe.world, pipe.samples = world, po.SampleModel(graph, pipe.sub.deps, pipe.sub.fns).closure()
        try:
            model = pipe.model().delivered()
        except po_refused():
            pipe.conf.pop("multiplicity", None)
            pipe.conf.pop("compact", None)
            raise Skip("refused settings") from None
        for key, rows in model.items():
            table = world.tables[key]
            keys = [tuple(r[c] for c in table.pk) for r in rows] if table.pk else []
            if len(set(keys)) != len(keys):
                raise Skip("settings duplicate keys")
            if any(r[c.name] is None for r in rows for c in table.cols if not c.nullable):
                raise Skip("an ignored relation leaves nothing to number")
        expected.append(model)
    pipe.world = worlds[0]
    directory = None
    if rng.random() < 0.25:
        directory = scen.scratch_dir(ctx, "out")
        pipe.conf["output"] = {"mode": "directory", "directory": directory}
        dest_cfg = None
    else:
        pipe.make_dest(fks="none", uniques=False, autoinc=False)
        pipe.conf["output"] = pipe.dest.output()
        pipe.dest.endpoint.close()
        dest_cfg = pipe.dest.endpoint.config()
    level = rng.choice(["REPEATABLE READ", "SERIALIZABLE"]) if snapshot else None
    source_cfg = pipe.source.config(**({"isolation_level": level} if level else {}))
    pipe.source.close()
    ctx.info.update(isolation_level=level, sampler=pipe.conf, states=len(worlds))
    writer = Writer(ctx, pipe, worlds)
    log = run(ctx, pipe, writer, source_cfg, dest_cfg)
    pipe.source.close()
    rows = {}
    for key in pipe.keys:
        names = pipe.world.tables[key].names()
        if directory:
            with open(f"{directory}/{scen.full(key)}.json", encoding="utf-8") as fh:
                data = [json.loads(line) for line in fh.read().split("\n")[:-1]]
        else:
            data = [dict(zip(names, r)) for r in pipe.dest.read(key, names)]
        rows[key] = scen.ident_rows(data, names)
    if snapshot:
        judge_snapshot(ctx, pipe, worlds, expected, rows, writer, log)
    else:
        judge_torn(ctx, pipe, worlds, rows, writer)
    ctx.nontrivial = log["mid"] > 0
    ctx.count("writer_waits", writer.busy)
    if log["mid"]:
        ctx.count("interleavings")
    ctx.sign(scen.signature_of(worlds[0], pipe.sub.cfg), level, log["at"], log["thread"])
    if ctx.index < 6:
        ctx.sample = {"source": dialect, "isolation_level": level, "commits_at_event": log["at"], "events": log["events"], "states_committed": len(writer.done)}


def po_refused():
    import predict  # pylint: disable=import-outside-toplevel

    return (predict.Refused, TypeError)


def run(ctx, pipe, writer, source_cfg, dest_cfg):
    """The sampling run with commits in between."""
    rng = ctx.rng
    threaded = rng.random() < 0.2 and pipe.dialect != "sqlite"
    rate = rng.choice([0.2, 0.5, 1.0])
    log = {"events": 0, "at": [], "reads": [], "mid": 0, "thread": threaded, "batch": 0}
    stop = threading.Event()
    started = threading.Event()

    def event(kind, side, _conn, sql, params):
        log["events"] += 1
        if side == "source" and sql and kind == "execute" and reads_tables(pipe, sql):
            log["reads"].append(len(writer.done))
            started.set()
        if kind == "begin" or threaded:
            return
        chance = rate
        if side == "dest" and kind == "executed" and isinstance(params, (list, tuple)) and len(params) > 900:
            chance, log["batch"] = 1.0, log["batch"] + 1
        if not log["reads"]:
            chance /= 15  # the states have to last
        if rng.random() < chance and writer.commit():
            log["at"].append(log["events"])

    def loop():
        started.wait(20)
        while not stop.is_set() and writer.commit():
            time.sleep(0.002)

    thread = threading.Thread(target=loop, daemon=True)
    ctx.info["planned_rate"] = rate
    with Monitor(source_cfg, dest_cfg, event):
        if threaded:
            thread.start()
        try:
            scen.run_sample(ctx, pipe.source, None, pipe.conf, pipe.sub.plan_obj, src_cfg=source_cfg)
        finally:
            stop.set()
            started.set()
            if threaded:
                thread.join(60)
    reads = log["reads"]
    log["mid"] = (reads[-1] - reads[0]) if reads else 0
    ctx.count("mid_run_commits", log["mid"])
    ctx.count("threads", threaded and log["mid"] > 0)
    ctx.count("between_batches", log["batch"])
    ctx.count("monitored_events", log["events"])
    return log


def judge_snapshot(ctx, pipe, worlds, expected, rows, writer, log):
    wanted = []
    for num in writer.done:
        wanted.append({k: scen.ident_rows(expected[num][k], worlds[num].tables[k].names()) for k in pipe.keys})
    hits = [num for num, want in zip(writer.done, wanted) if want == rows]
    if not hits:
        carried = {scen.full(k): sorted({r[-1] for r in rows[k]}) for k in pipe.keys}
        raise Violation("the sample is not the sample of any one committed state", states_in_rows=carried, committed=writer.done, commits_at=log["at"],
                        level=ctx.info["isolation_level"])
    ctx.count("snapshots")
    # would a mix of states have been noticed?
    seen = writer.done.index(hits[0])
    ctx.count("telling", log["mid"] > 0 and any(w != wanted[seen] for i, w in enumerate(wanted) if i != seen))
    ctx.count("rows_compared", sum(sum(c.values()) for c in rows.values()))


def judge_torn(ctx, pipe, worlds, rows, writer):
    for key in pipe.keys:
        names = pipe.world.tables[key].names()
        whole = collections.Counter()
        for num in writer.done:
            whole |= scen.ident_rows(worlds[num].tables[key].rows, names)
        for row in rows[key]:
            if row not in whole:
                raise Violation(f"{scen.full(key)}: a row that no committed state holds", columns=names, row=row)
        ctx.count("torn_checked_rows", len(rows[key]))
