"""C10: the source database is never modified."""

import re
import sqlite3

import sqlalchemy as sa

import scen
import subj
from dbio import SqliteEndpoint
from monitor import Monitor
from props.pipeline import Pipe, small_shape
from runner import Violation

CONF = {
    "cases": {"quick": 330, "thorough": 9000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random worlds, plans and sampler settings run to success or to a failure (destination conflicts, missing tables, a failing statement "
    "at a random position on either side); complete dumps of the source before and after (sqlite: file bytes, postgres: with row versions), "
    "all statements sent to it, and runs under accounts / authorizers that refuse anything but reading and temporary tables; "
    "non-trivial: temporary tables were created or the run failed midway",
    "need": {"statements": 3000, "readonly_runs": 31, "failed_runs": 31, "temp_tables": 48, "dumps_compared": 66, "postgres": 14, "mysql": 12},
}
READING = re.compile(r"^\s*(select|show|pragma|begin|commit|rollback|set|savepoint|release|with|describe|explain)\b", re.I)
TEMP_OK = re.compile(r"^\s*(create\s+temporary\s+table|insert\s+into|create\s+(unique\s+)?index|drop\s+(temporary\s+)?table|analyze)\b", re.I)


class Injected(Exception):
    pass


def snapshot(endpoint):
    if isinstance(endpoint, SqliteEndpoint):
        return endpoint.file_bytes()
    result = endpoint.full_dump()
    if endpoint.dialect == "postgres":
        for schema, table in endpoint.tables():
            result[f"versions {schema}.{table}"] = sorted(
                endpoint.rows(f"SELECT ctid::text, xmin::text FROM {endpoint.qt(schema, table)}"))
        result["settings"] = endpoint.rows("SELECT setdatabase, setrole, setconfig FROM pg_db_role_setting")
        result["owners"] = endpoint.rows(
            "SELECT n.nspname, c.relname, c.reloptions::text, c.relacl::text FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace"
            " WHERE n.nspname NOT LIKE 'pg\\_%' AND n.nspname <> 'information_schema' ORDER BY 1, 2")
    return result


def authorizer(allowed_temp):
    """Refuses every change outside the temporary database."""
    deny = {getattr(sqlite3, name) for name in (
        "SQLITE_INSERT", "SQLITE_UPDATE", "SQLITE_DELETE", "SQLITE_CREATE_TABLE", "SQLITE_CREATE_INDEX", "SQLITE_DROP_TABLE",
        "SQLITE_DROP_INDEX", "SQLITE_CREATE_VIEW", "SQLITE_CREATE_TRIGGER", "SQLITE_DROP_VIEW", "SQLITE_DROP_TRIGGER",
        "SQLITE_ALTER_TABLE", "SQLITE_REINDEX")}

    def check(action, arg1, arg2, dbname, _trigger):
        if action == sqlite3.SQLITE_ALTER_TABLE:
            return sqlite3.SQLITE_OK if arg1 == "temp" else sqlite3.SQLITE_DENY
        if action in deny and dbname != "temp":
            return sqlite3.SQLITE_DENY
        if action == sqlite3.SQLITE_PRAGMA and arg2 is not None and arg1.lower() in (
                "user_version", "application_id", "journal_mode", "writable_schema", "auto_vacuum", "schema_version", "encoding"):
            return sqlite3.SQLITE_DENY
        return sqlite3.SQLITE_OK

    return check


def case(ctx):
    rng = ctx.rng
    pipe = Pipe(ctx, small_shape(rng), passthrough=0.3)
    source = pipe.source
    ctx.count(pipe.dialect)
    if rng.random() < 0.6:
        if rng.random() < 0.5:
            pipe.gen_compact(columns=False)
        if rng.random() < 0.4:
            pipe.gen_multiplicity()
        if rng.random() < 0.4:
            pipe.gen_filters(omit=False)
    mode = ctx.rng.choice(["ok", "ok", "ok", "conflict", "missing", "inject", "inject"])
    to_dir = mode in ("ok", "inject") and rng.random() < 0.2
    create = truncate = False
    if to_dir:
        pipe.make_dest(fks="none", uniques=False, autoinc=False)
        pipe.conf["output"] = {"mode": "directory", "directory": scen.scratch_dir(ctx, "out")}
    else:
        truncate = rng.random() < 0.3
        create = rng.random() < 0.3 and mode != "missing" and pipe.dest_dialect == pipe.dialect
        prepared = pipe.keys
        if mode == "missing" or create:
            prepared = rng.sample(pipe.keys, k=rng.randint(0, len(pipe.keys) - 1))
        pipe.make_dest(fks="none", uniques=False, autoinc=False, prepared=prepared)
        if mode == "conflict":
            for key in prepared:
                table = pipe.world.tables[key]
                if table.pk and table.rows:
                    names = table.names()
                    pipe.dest.endpoint.insert(*pipe.dest.keys[key], names, [[row[n] for n in names] for row in rng.sample(table.rows, 1)])
        pipe.conf["output"] = pipe.dest.output(**({"merge": True} if rng.random() < 0.2 else {}))
    readonly = rng.random() < 0.5
    cfg = source.config()
    hook = None
    if readonly:
        ctx.count("readonly_runs")
        if pipe.dialect == "sqlite":
            main_file = source.main_file

            def hook(dbapi_connection, _record):
                listed = dbapi_connection.execute("PRAGMA database_list").fetchall()
                if listed and listed[0][2] and listed[0][2].endswith(main_file.rsplit("/", 1)[1]) and main_file in listed[0][2]:
                    dbapi_connection.set_authorizer(authorizer(True))

            sa.event.listen(sa.pool.Pool, "connect", hook)
        else:
            cfg = source.readonly_config()
    before = snapshot(source)
    source.close()
    pipe.dest.endpoint.close()
    log = []
    state = {"n": 0, "temp": 0}
    inject_at = rng.randint(1, 60) if mode == "inject" else None
    inject_side = rng.choice(["source", "dest", "any"])

    def watch(kind, side, conn, statement, _params):
        if kind != "execute":
            return
        if side == "source":
            log.append(statement)
            if re.match(r"^\s*create\s+temporary", statement, re.I):
                state["temp"] += 1
        if inject_at is not None and side in (inject_side, "source" if inject_side == "any" else inject_side,
                                              "dest" if inject_side == "any" else inject_side):
            state["n"] += 1
            if state["n"] == inject_at:
                raise Injected("injected failure")

    ctx.info["sampler"] = pipe.conf
    ctx.info["mode"] = [mode, readonly, create, truncate]
    ctx.judging()
    error = None
    try:
        with Monitor(cfg, pipe.conf["output"] if not to_dir else None, watch):
            try:
                if rng.random() < 0.5 or readonly:
                    plan = subj.plan(cfg, pipe.sub.cfg)
                else:
                    plan = pipe.sub.plan_obj
                subj.sample(cfg, pipe.conf, plan, create=create, truncate=truncate)
            except Exception as exc:  # pylint: disable=broad-exception-caught
                error = exc
    finally:
        subj.close_all()
        if hook is not None:
            sa.event.remove(sa.pool.Pool, "connect", hook)
    after = snapshot(source)
    for statement in log:
        if not READING.match(statement) and not TEMP_OK.match(statement):
            raise Violation("a statement that is neither reading nor about temporary tables was sent to the source", statement=statement[:1000])
    if before != after:
        keys = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        raise Violation("the source changed", where=keys, before=[repr(before.get(k))[:600] for k in keys[:3]],
                        after=[repr(after.get(k))[:600] for k in keys[:3]], error=repr(error)[:500])
    ctx.count("dumps_compared")
    ctx.count("statements", len(log))
    ctx.count("temp_tables", state["temp"])
    if error is not None:
        ctx.count("failed_runs")
        if readonly and re.search(r"denied|permission|not authorized|read-only|readonly", str(error), re.I):
            raise Violation("an account that may read and create temporary tables is not sufficient", error=str(error)[:800])
    ctx.nontrivial = bool(state["temp"]) or error is not None
    ctx.sign(scen.signature_of(pipe.world, pipe.sub.cfg, mode, readonly, to_dir, sorted(pipe.conf), state["n"]))
    if ctx.index < 3:
        ctx.sample = {"dialect": pipe.dialect, "mode": mode, "readonly": readonly, "statements": [s[:120] for s in log[-6:]],
                      "error": str(error)[:200]}
