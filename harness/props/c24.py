"""C24: connection settings resolve and apply as documented."""

import contextlib
import os
import sqlite3

import scen
import subj
from monitor import Monitor
from props.pipeline import small_shape
from runner import Skip, Violation
from world import FK, Col, Table, install

CONF = {
    "cases": {"quick": 420, "thorough": 9000},
    "cap": {"quick": 35, "thorough": 800},
    "tls": True,
    "rule": "(a) every setting independently given explicitly, by this side's variable or not at all, with decoys in the variables of the other "
    "side and behind explicit values; the arguments of the driver's connect call are recorded by a stand-in and compared; (b) live TLS servers: "
    "which certificates, keys, host names and verification levels may connect and whether the connection is encrypted; (c) session statements, "
    "isolation level and attached databases are probed on the raw connection at every statement of real planning and sampling runs; "
    "non-trivial: a connect call was judged",
    "need": {"connects_recorded": 42, "settings_checked": 169, "from_env": 66, "by_default": 27, "tls_accepted": 7, "tls_refused": 9, "probes": 600,
             "connections_probed": 60, "attached": 7, "connections_lost": 20},
}
HOSTS = ["db.example.com", "10.1.2.3", "localhost", "h-1", "xn--bcher-kva.example"]
NAMES = ["bob", "a b", "o'neil", 'qu"ote', "per%cent", "at@sign", "col:on", "sla/sh", "ü", "q?x=1", "#hash", "back\\slash", "plus+", "a=b", "100%25"]
PREFIX = {"source": "SUBSET_SOURCE_", "dest": "SUBSET_DESTINATION_"}


class Stop(Exception):
    pass


@contextlib.contextmanager
def environment(values):
    saved = dict(os.environ)
    for name in list(os.environ):
        if name.startswith("SUBSET_") or name.startswith("PG"):
            del os.environ[name]
    os.environ.update(values)
    try:
        yield
    finally:
        os.environ.clear()
        os.environ.update(saved)


@contextlib.contextmanager
def stand_ins(calls):
    """Record connect calls; only sqlite really connects."""
    import psycopg2  # pylint: disable=import-outside-toplevel
    import pymysql  # pylint: disable=import-outside-toplevel

    def fake(kind):
        def connect(*args, **kwargs):
            calls.append((kind, args, kwargs))
            raise Stop(kind)
        return connect

    real = sqlite3.dbapi2.connect

    def lite(*args, **kwargs):
        calls.append(("sqlite", args, kwargs))
        return real(*args, **kwargs)

    spots = [(psycopg2, "connect", fake("postgres")), (pymysql, "connect", fake("mysql")), (pymysql, "Connect", fake("mysql")),
             (sqlite3.dbapi2, "connect", lite), (sqlite3, "connect", lite)]
    saved = [(mod, name, getattr(mod, name)) for mod, name, _ in spots]
    for mod, name, func in spots:
        setattr(mod, name, func)
    try:
        yield
    finally:
        for mod, name, func in saved:
            setattr(mod, name, func)


def simple(ctx, dialect, schemas=(), names=("parents", "children"), role="s"):
    world, source = scen.new_world(ctx, dialect, schemas, role)
    schema = world.schemas[-1]
    parent = Table((schema, names[0]))
    parent.cols = [Col("id", "int", False), Col("v", "text")]
    parent.pk = ("id",)
    parent.rows = [{"id": i, "v": f"v{i}"} for i in range(1, 6)]
    child = Table((schema, names[1]))
    child.cols = [Col("id", "int", False), Col("p", "int")]
    child.pk = ("id",)
    child.fks = [FK(("p",), parent.key, ("id",))]
    child.rows = [{"id": i, "p": i % 4 + 1} for i in range(1, 9)]
    for table in (parent, child):
        world.tables[table.key] = table
    install(world, source)
    return world, source


# -- (a) what reaches the driver -----------------------------------------------------------


def resolve(ctx):
    rng = ctx.rng
    side = "source" if ctx.index % 8 < 4 else "dest"
    world, lite = simple(ctx, "sqlite")
    plan = None
    lite_file = lite.main_file
    target = {"targets": {sorted(world.tables)[0][0] + ".children": {"all": True}}, "select": ["main.*"]}
    if side == "dest" or rng.random() < 0.4:
        plan = subj.plan(lite.config(), target)
        subj.close_all()
    lite.close()
    mine, other = PREFIX[side], PREFIX["dest" if side == "source" else "source"]
    env, conf, want = {}, {}, {}
    dialect = rng.choice(["postgres", "mysql", "sqlite"])
    how = {}
    values = {
        "dialect": lambda: dialect,
        "host": lambda: rng.choice(HOSTS),
        "port": lambda: rng.choice([1, 1234, 5433, 3307, 65535]),
        "database": lambda: rng.choice(NAMES + ["db"]) if dialect != "sqlite" else os.path.join(ctx.bench.base, rng.choice(["a b.db", "x.db", "per%cent.db", "q?x.db", "ü.db"])),
        "username": lambda: rng.choice(NAMES),
        "password": lambda: rng.choice(NAMES + ["p@ss:w/rd%21", " spaces "]),
    }
    decoys = {"dialect": lambda: rng.choice(["postgres", "mysql", "sqlite"]), "host": lambda: "decoy.example", "port": lambda: 4242,
              "database": lambda: os.path.join(ctx.bench.base, "decoy.db"), "username": lambda: "decoy", "password": lambda: "decoy"}
    for name, make in values.items():
        given = rng.choice(["explicit", "env", "env", "default"])
        if name == "dialect" and given == "default":
            if dialect != "mysql":
                given = rng.choice(["explicit", "env"])
        if name == "database" and dialect == "sqlite" and given == "default":
            given = "env"
        how[name] = given
        if given == "explicit":
            want[name] = conf[name] = make()
        elif given == "env":
            want[name] = make()
            env[mine + name.upper()] = str(want[name])
        else:
            want[name] = {"dialect": "mysql", "host": "localhost", "port": {"postgres": 5432, "mysql": 3306}.get(dialect)}.get(name)
        if given == "explicit" and rng.random() < 0.6:
            env[mine + name.upper()] = str(decoys[name]())
        if rng.random() < 0.6:
            env[other + name.upper()] = str(decoys[name]())
    tls = {}
    if dialect == "postgres" and rng.random() < 0.6:
        tls = pg_ssl(rng, mine, other, conf, env, how)
    source = lite.config(ssl={"require": False}) if side == "dest" else conf
    # what is explicit for the other side must not be taken from the variables
    ctx.info.update(side=side, conf=conf, env=env, want=want, tls=tls)
    calls = []
    ctx.judging()
    error = None
    with environment(env), stand_ins(calls):
        try:
            if plan is None:
                subj.plan(source, target)
            else:
                out = {"mode": "directory", "directory": scen.scratch_dir(ctx, "o")} if side == "source" else {"mode": "database", **conf}
                subj.sample(source, {"output": out}, plan, create=True)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            error = exc
        finally:
            subj.close_all()
    calls = [(kind, args, kwargs) for kind, args, kwargs in calls
             if not (kind == "sqlite" and side == "dest" and os.path.abspath(str(args[0] if args else kwargs.get("database"))) == lite_file)]
    if not calls:
        raise Violation(f"no connection was attempted to the {side}", error=repr(error)[:500])
    kind, args, kwargs = calls[0]
    if kind != dialect:
        raise Violation(f"the {kind} driver was used instead of {dialect}", how=how, error=repr(error)[:300])
    if any(c[0] != dialect for c in calls):
        raise Violation("different drivers were used for one side", calls=[c[0] for c in calls])
    if kind == "sqlite":
        got = {"database": os.path.abspath(str(args[0] if args else kwargs.get("database")))}
        names = ["database"]
    elif kind == "postgres":
        import psycopg2.extensions  # pylint: disable=import-outside-toplevel

        opts = {}
        dsn = kwargs.pop("dsn", None) or (args[0] if args else None)
        if dsn:
            opts.update(psycopg2.extensions.parse_dsn(dsn))
        opts.update(kwargs)
        got = {"host": opts.get("host"), "port": opts.get("port"), "database": opts.get("dbname", opts.get("database")), "username": opts.get("user"),
               "password": opts.get("password")}
        names = list(got)
        for opt in ("sslmode", "sslcert", "sslkey", "sslrootcert"):
            expected = tls.get(opt)
            if opt == "sslmode" and not tls and opts.get(opt) in (None, "prefer", "allow"):
                continue
            if (opts.get(opt) or None) != expected:
                raise Violation(f"the driver was given {opt}={opts.get(opt)!r} instead of {expected!r}", how=how)
            ctx.count("settings_checked")
    else:
        got = {"host": kwargs.get("host"), "port": kwargs.get("port"), "username": kwargs.get("user"), "password": kwargs.get("password", kwargs.get("passwd"))}
        names = list(got)
        if kwargs.get("charset") != "utf8mb4":
            raise Violation("mysql connections must use utf8mb4", got=kwargs.get("charset"))
        if want["username"] is None and got["username"] is not None:
            got["username"] = want["username"]
    for name in names:
        exp, val = want[name], got[name]
        if name == "port":
            exp, val = int(exp), int(val) if val else val
        if (val or None) != (exp or None):
            raise Violation(f"{name} is {val!r} instead of {exp!r}", how=how[name], side=side, dialect=dialect)
        ctx.count("settings_checked")
        ctx.count("from_env", how[name] == "env")
        ctx.count("by_default", how[name] == "default")
    ctx.count("connects_recorded")
    ctx.count(f"recorded.{dialect}")
    ctx.nontrivial = True
    ctx.sign("resolve", side, dialect, how, sorted(env), plan is None)
    if ctx.index < 2:
        ctx.sample = {"config": conf, "environment": env, "connect": {k: str(v) for k, v in got.items()}}


def pg_ssl(rng, mine, other, conf, env, how):
    """ssl settings and what they mean for postgres' driver."""
    spots = {"require": ("REQUIRE", None), "verify": ("SERVER_VERIFY", "none"), "rootcert": ("SERVER_ROOTCERT", None), "cert": ("CLIENT_CERT", None),
             "key": ("CLIENT_KEY", None)}
    ssl, want = {}, {}
    for name, (var, default) in spots.items():
        given = rng.choice(["explicit", "env", "default"])
        how["ssl." + name] = given
        def make():
            if name == "require":
                return rng.random() < 0.75
            if name == "verify":
                return rng.choice(["none", "cert", "identity"])
            return f"/certs/{rng.choice(NAMES).replace('/', '')}.{name}"
        value = make()
        if given == "explicit":
            where = ssl if name == "require" else ssl.setdefault("server" if name in ("verify", "rootcert") else "client", {})
            where[name] = want[name] = value
        elif given == "env":
            want[name] = value if name != "require" else True
            env[mine + "SSL_" + var] = "1" if name == "require" else str(value)
        else:
            want[name] = default
        if given == "explicit" and rng.random() < 0.6:
            env[mine + "SSL_" + var] = {"require": "true", "verify": "identity"}.get(name, "/decoy")
        if rng.random() < 0.6:
            env[other + "SSL_" + var] = {"require": "true", "verify": "identity"}.get(name, "/decoy")
    if ssl:
        conf["ssl"] = ssl
    if not want["require"]:
        return {}
    result = {"sslmode": {"identity": "verify-full", "cert": "verify-ca"}.get(want["verify"], "require"), "sslcert": want["cert"],
              "sslkey": want["key"], "sslrootcert": want["rootcert"]}
    return {k: v for k, v in result.items() if v}


# -- (b) live servers ------------------------------------------------------------------------


def raw(conn):
    return conn.connection.dbapi_connection


def probe(conn, sql):
    cur = raw(conn).cursor()
    try:
        cur.execute(sql)
        return cur.fetchall()
    finally:
        cur.close()


@contextlib.contextmanager
def lossy(rng, prob, idents, ctx):
    """Idle connections to the destination are lost now and then and have to be opened again."""
    import sqlalchemy as sa  # pylint: disable=import-outside-toplevel

    def checkin(dbapi_connection, _record):
        if id(dbapi_connection) in idents and rng.random() < prob:
            idents.discard(id(dbapi_connection))
            dbapi_connection.close()
            ctx.count("connections_lost")

    sa.event.listen(sa.pool.Pool, "checkin", checkin)
    try:
        yield
    finally:
        sa.event.remove(sa.pool.Pool, "checkin", checkin)


def tls_case(ctx):
    rng = ctx.rng
    able = [d for d in ("postgres", "mysql") if d in ctx.bench.servers]
    if not able:
        raise Skip("no server")
    dialect = able[ctx.index // 4 % len(able)]
    certs = ctx.bench.servers[dialect]["certs"]
    side = rng.choice(["source", "dest"])
    world, source = simple(ctx, dialect, ("alpha",))
    dest = scen.Dest(ctx, world, dialect)
    dest.install(list(world.tables), fks="none", autoinc=False)
    ep = source if side == "source" else dest.endpoint
    conf = ep.config()
    need_cert = rng.random() < 0.4
    conf.update(user_for(ep, dialect, need_cert))
    conf["host"] = host = rng.choice(["localhost", "127.0.0.1"])
    mine, other = PREFIX[side], PREFIX["dest" if side == "source" else "source"]
    env, ssl = {}, {}
    verify = rng.choice(["none", "cert", "cert", "identity", "identity", "identity"])
    root = rng.choice(["ca.crt", "ca.crt", "ca.crt", "other.crt", None])
    require = rng.random() < 0.9
    client = need_cert and rng.random() < 0.75
    if not require and (need_cert or client):
        require = True
    if dialect == "postgres" and verify == "none" and root == "other.crt":
        # libpq verifies whenever it has a root certificate
        root = rng.choice([None, "ca.crt"])
    settings = [("require", "REQUIRE", require), ("verify", "SERVER_VERIFY", verify), ("rootcert", "SERVER_ROOTCERT", root and os.path.join(certs, root)),
                ("cert", "CLIENT_CERT", os.path.join(certs, "client.crt") if client else None),
                ("key", "CLIENT_KEY", os.path.join(certs, "client.key") if client else None)]
    for name, var, value in settings:
        if name == "require" and not value:
            ssl["require"] = False
            if rng.random() < 0.7:
                env[mine + "SSL_REQUIRE"] = "1"
            continue
        if value is None or (name == "verify" and value == "none" and rng.random() < 0.5):
            continue
        if rng.random() < 0.5:
            where = ssl if name == "require" else ssl.setdefault("server" if name in ("verify", "rootcert") else "client", {})
            where[name] = value
            if rng.random() < 0.5:
                env[mine + "SSL_" + var] = {"require": "1", "verify": rng.choice(["none", "identity", "cert"])}.get(name, "/nonexistent/decoy")
        else:
            env[mine + "SSL_" + var] = "1" if name == "require" else value
    if ssl:
        conf["ssl"] = ssl
    # the other side's settings are explicit: its variables ask for the impossible
    if rng.random() < 0.5:
        env[other + "SSL_SERVER_ROOTCERT"] = "/nonexistent/decoy"
        env[other + "SSL_SERVER_VERIFY"] = "identity"
    if not require:
        works = dialect == "postgres" or "u_" in conf["username"]
        if not works:
            raise Skip("account needs encryption")
    else:
        works = verify == "none" or (root == "ca.crt" and (verify == "cert" or host == "localhost"))
        if need_cert and not client:
            works = False
    src_cfg = conf if side == "source" else source.config()
    out = {"mode": "database", **(conf if side == "dest" else dest.endpoint.config())}
    if dest.remap:
        out["remap"] = dest.remap
    target = {"targets": {f"{world.schemas[0]}.children": {"all": True}}, "select": [f"{world.schemas[0]}.*"]}
    ctx.info.update(side=side, conf=conf, env=env, works=works)
    seen = []

    def watch(kind, which, conn, _statement, _params):
        if kind != "execute" or which != side:
            return
        if dialect == "postgres":
            seen.append(bool(raw(conn).info.ssl_in_use))
        else:
            seen.append(bool(probe(conn, "SHOW SESSION STATUS LIKE 'Ssl_cipher'")[0][1]))

    source.close()
    dest.endpoint.close()
    ctx.judging()
    error = None
    with environment(env):
        try:
            with Monitor(src_cfg, out, watch):
                plan = subj.plan(src_cfg, target)
                subj.sample(src_cfg, {"output": out}, plan)
        except Exception as exc:  # pylint: disable=broad-exception-caught
            error = exc
        finally:
            subj.close_all()
    if works and error is not None:
        raise Violation(f"valid TLS settings were refused: {type(error).__name__}: {error}"[:500]) from error
    if not works and error is None:
        raise Violation("connected although the server or client cannot be verified", verify=verify, root=root, host=host, client=client)
    if works and require and not all(seen):
        raise Violation("the connection is not encrypted although ssl is required")
    if works and not seen:
        raise Violation("no statement was seen")
    if works:
        for key, table in world.tables.items():
            if len(dest.read(key)) != (4 if key[1] == "parents" else 8):
                raise Violation("wrong rows delivered")
            del table
    ctx.count("tls_accepted" if works else "tls_refused")
    ctx.count(f"tls.{dialect}.{verify}.{'ok' if works else 'refused'}")
    ctx.count("tls_statements", len(seen))
    ctx.nontrivial = True
    ctx.sign("tls", dialect, side, verify, root, host, client, need_cert, require, sorted(env))


def user_for(ep, dialect, need_cert):
    """An account that insists on TLS, or even on a client certificate."""
    if dialect == "postgres":
        name = "certuser" if need_cert else "tlsuser"
        ep.run(
            f"DO $$ BEGIN PERFORM pg_advisory_lock(77); IF NOT EXISTS (SELECT 1 FROM pg_roles WHERE rolname = '{name}')"
            f" THEN CREATE ROLE {name} LOGIN SUPERUSER; END IF; PERFORM pg_advisory_unlock(77);"
            " EXCEPTION WHEN duplicate_object OR unique_violation THEN NULL; END $$"
        )
        return {"username": name}
    name = f"x_{ep.tag}" if need_cert else f"y_{ep.tag}"
    pattern = f"{ep.tag}_".replace("_", "\\_") + "%"
    ep.run(
        f"DROP USER IF EXISTS '{name}'@'%'",
        f"CREATE USER '{name}'@'%' IDENTIFIED BY 'pw' REQUIRE {'X509' if need_cert else 'SSL'}",
        f"GRANT ALL ON `{pattern}`.* TO '{name}'@'%'",
        f"GRANT SELECT ON performance_schema.* TO '{name}'@'%'",
    )
    return {"username": name}


# -- (c) session state -------------------------------------------------------------------------

LEVELS = {
    "postgres": ["READ COMMITTED", "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE", None, None],
    "mysql": ["READ COMMITTED", "READ UNCOMMITTED", "REPEATABLE READ", "SERIALIZABLE", None, None],
    "sqlite": ["READ UNCOMMITTED", "SERIALIZABLE", None, None],
}


def session_settings(rng, dialect):
    """(settings, probes) where probes maps a query to the expected answer."""
    conf, probes = {}, {}
    level = rng.choice(LEVELS[dialect])
    if level:
        conf["isolation_level"] = level
    num = rng.randint(1000, 9000)
    if dialect == "postgres":
        conf["session_sqls"] = rng.choice([
            ["SET sbst.one = 'a%b:c'", f"SET statement_timeout = {num}00"],
            ["SET sbst.one = 'x'", "SET sbst.one = 'a%b:c'", f"SET statement_timeout TO '{num}00ms'"],
        ])
        probes["SELECT current_setting('sbst.one', true)"] = "a%b:c"
        probes["SELECT setting FROM pg_settings WHERE name = 'statement_timeout'"] = f"{num}00"
        probes["SHOW transaction_isolation"] = (level or "READ COMMITTED").lower()
    elif dialect == "mysql":
        conf["session_sqls"] = rng.choice([
            ["SET @sbst = 'x'", "SET @sbst = 'a%b:c'", f"SET SESSION wait_timeout={num}"],
            [f"SET @sbst = 'a%b:c', @@session.wait_timeout={num}"],
        ])
        probes["SELECT @sbst"] = "a%b:c"
        probes["SELECT @@session.wait_timeout"] = num
        probes["SELECT @@session.transaction_isolation"] = (level or "READ COMMITTED").replace(" ", "-")
    else:
        conf["session_sqls"] = rng.choice([
            [f"PRAGMA cache_size=-{num}", "PRAGMA recursive_triggers=ON"],
            ["PRAGMA cache_size=-77", f"PRAGMA cache_size=-{num}", "PRAGMA recursive_triggers=ON"],
        ])
        probes["PRAGMA cache_size"] = -num
        probes["PRAGMA recursive_triggers"] = 1
        probes["PRAGMA read_uncommitted"] = 1 if level == "READ UNCOMMITTED" else 0
    return conf, probes


def session_case(ctx):
    rng = ctx.rng
    odd = ctx.index % 12 == 3
    if odd:
        alias = rng.choice(["my db", "select", "1st", 'q"x', "it's", "\u00e4\u00f6", "UP", "a-b", "group", "semi;colon", "p%q", "x:y"])
        world, source = simple(ctx, "sqlite", ("main", alias), rng.choice([("parents", "children"), ("order", "my table")]))
        dialect = "sqlite"
        cfg = {"targets": {f"{alias}.{sorted(world.tables)[0][1]}": {"all": True}}, "select": [f"{alias}.*"]}
        ctx.count("attached")
    else:
        dialect = ctx.bench.dialects()[ctx.index // 4 % len(ctx.bench.dialects())]
        world, source = scen.make_world(ctx, dialect, small_shape(rng, tables=(2, 5)))
        cfg, _, _ = scen.gen_planner(ctx, world, source, random_ok=False, constraints=0.0)
    src_extra, src_probes = session_settings(rng, dialect)
    dst_extra, dst_probes = session_settings(rng, dialect)
    src_cfg = source.config(**src_extra)
    dest = scen.Dest(ctx, world, dialect)
    if not odd:
        dest.install(list(world.tables), fks="none", autoinc=False)
    out = dest.output(**dst_extra)
    probes = {"source": src_probes, "dest": dst_probes}
    ctx.info.update(source=src_extra, dest=dst_extra, planner=cfg)
    conns = set()
    dest_ids = set()
    bad = []
    counts = {"source": 0, "dest": 0}

    def watch(kind, side, conn, statement, _params):
        if kind != "execute" or side not in probes or counts[side] > 60:
            return
        counts[side] += 1
        conns.add(id(raw(conn)))
        if side == "dest":
            dest_ids.add(id(raw(conn)))
        for sql, want in probes[side].items():
            rows = probe(conn, sql)
            ctx.count("probes")
            got = rows[0][0] if rows else None
            if got != want:
                bad.append((side, statement[:120], sql, want, got))
        if dialect == "sqlite":
            have = {r[1].lower(): r[2] for r in probe(conn, "PRAGMA database_list")}
            for alias, path in (src_cfg if side == "source" else out)["sqlite_databases"].items():
                if not have.get(alias.lower()) or os.path.realpath(have[alias.lower()]) != os.path.realpath(path):
                    bad.append((side, statement[:120], "database_list", {alias: path}, have))

    drops = rng.choice([0, 0.3, 1])
    with Monitor(src_cfg, out, watch) as mon, lossy(rng, drops, dest_ids, ctx):
        plan = scen.run_plan(ctx, source, cfg, src_cfg)
        conf = {"output": out}
        if rng.random() < 0.3:
            conf["multiplicity"] = {"multiplier": 1}
        scen.run_sample(ctx, source, dest.endpoint, conf, plan, src_cfg, create=odd)
    if bad:
        raise Violation(f"settings were not in effect: {bad[0][2]} gave {bad[0][4]!r} instead of {bad[0][3]!r}", first=bad[0], how_many=len(bad))
    if mon.unknown:
        raise Violation("a connection to an unknown database was opened", which=repr(mon.unknown[:3]))
    if not counts["source"] or not counts["dest"]:
        raise Violation("no statement was seen on one side", counts=counts)
    for key in dest.keys:
        if odd and not dest.read(key):
            raise Violation(f"nothing arrived in {key}")
    ctx.count("connections_probed", len(conns))
    ctx.count(f"isolation.{dialect}.{src_extra.get('isolation_level')}")
    ctx.count("sessions")
    ctx.nontrivial = True
    ctx.sign("session", dialect, src_extra, dst_extra, scen.signature_of(world, cfg))


def case(ctx):
    kind = ctx.index % 4
    if kind in (0, 1):
        return resolve(ctx)
    return tls_case(ctx) if kind == 2 else session_case(ctx)
