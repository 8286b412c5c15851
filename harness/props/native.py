"""Key and data columns of types that only one database has (used by C09 and C16)."""

import collections

import catalog
import scen
from runner import Violation
from world import Col, Table

# declared type -> literal of the i-th distinct value
TYPES = {
    "postgres": {
        "inet": lambda i: f"'10.0.{i}.1/{24 + i % 8}'",
        "cidr": lambda i: f"'10.{i}.0.0/16'",
        "macaddr": lambda i: f"'08:00:2b:01:02:{i:02x}'",
        "macaddr8": lambda i: f"'08:00:2b:01:02:03:04:{i:02x}'",
        "bit(8)": lambda i: f"B'{i:08b}'",
        "bit varying(9)": lambda i: f"B'1{i:b}'",
        "oid": lambda i: f"{4294967295 - i}",
        "int4range": lambda i: f"'[{i},{i + 5})'",
        "daterange": lambda i: f"'[2020-01-{i + 1:02d},2021-01-01)'",
        "numrange": lambda i: f"'({i}.5,)'",
        "int8multirange": lambda i: f"'{{[{i},{i + 1}),[{i + 9},{i + 11})}}'",
        "money": lambda i: f"{i}.25",
        "tsvector": lambda i: f"'a{i} b'",
        '"char"': lambda i: f"'{chr(97 + i)}'",
        "name": lambda i: f"'n{i}'",
        "interval": lambda i: f"'{i} {('days', 'mons', 'years 2 mons')[i % 3]} 3 hours'",
        "date": lambda i: ("'infinity'", "'-infinity'", "'0044-03-15 BC'", "'12000-01-01'", "'9999-12-31'")[i] if i < 5 else f"'2020-01-{i:02d}'",
        "timestamp without time zone": lambda i: ("'infinity'", "'-infinity'", "'0044-03-15 10:00 BC'", "'9999-12-31 23:59:59.999999'")[i] if i < 4 else f"'2020-01-{i:02d}'",
        "time without time zone": lambda i: "'24:00'" if i == 11 else f"'{i}:00:00.5'",
        "numeric": lambda i: ("'NaN'", "'Infinity'", "'-Infinity'", "1e100", "0.10")[i] if i < 5 else f"{i}.{i:03d}",
        "date[]": lambda i: f"'{{2020-01-{i + 1:02d},NULL,infinity}}'",
        "tsrange": lambda i: f"'[2020-01-{i + 1:02d},{('infinity', '2021-01-01', '')[i % 3]})'",
        "real": lambda i: f"{16777200 + i}",
        "time with time zone": lambda i: f"'{i % 24:02d}:00:00+02'",
        "uuid": lambda i: f"'00000000-0000-0000-0000-0000000000{i:02x}'",
        "bytea": lambda i: f"'\\x00ff{i:02x}'",
        "numeric(10,2)": lambda i: f"{i}.50",
        "double precision": lambda i: f"{i}.125",
        "boolean": lambda i: ("true", "false")[i] if i < 2 else None,
        "character(5)": lambda i: f"'c{i}'",
        "jsonb": lambda i: f"'{{\"a\": {i}}}'",
        "text[]": lambda i: f"'{{a,\"b{i} ,\"}}'",
        "integer[]": lambda i: f"'{{1,NULL,{i}}}'",
        "timestamp with time zone": lambda i: f"'2020-01-{i + 1:02d} 10:00:00+02'" if i else "'-infinity'",
        "regclass": lambda i: ("'pg_class'", "'pg_type'", "'pg_attribute'")[i] if i < 3 else None,
    },
    "mysql": {
        "year": lambda i: f"{1950 + i}",
        "bit(8)": lambda i: f"b'{i:b}'",
        "binary(4)": lambda i: f"x'00ff{i:02x}00'",
        "varbinary(8)": lambda i: f"x'ff{i:02x}'",
        "enum('x','y z','w')": lambda i: ("'x'", "'y z'", "'w'")[i] if i < 3 else None,
        "set('a','b','c')": lambda i: ("'a'", "'b'", "'a,c'", "'a,b,c'")[i] if i < 4 else None,
        "decimal(10,2)": lambda i: f"{i}.50",
        "decimal(20,3) unsigned": lambda i: f"12345678901234567.{i:03d}",
        "date": lambda i: f"'2020-01-{i + 1:02d}'",
        "datetime(3)": lambda i: f"'2020-01-{i + 1:02d} 10:00:00.125'",
        "time(2)": lambda i: f"'{i * 70 - 200}:00:00.25'",
        "time": lambda i: f"'-00:{i:02d}:30'",
        "float": lambda i: f"{16777200 + i}",
        "float unsigned": lambda i: f"{i}.1234567",
        "double": lambda i: f"{i}.125",
        "char(4)": lambda i: f"'c{i}'",
        "varchar(9) character set latin1 collate latin1_bin": lambda i: f"'é{i}'",
    },
    "sqlite": {
        "": lambda i: ("'01'", "1", "1.5", "x'01ff'", "'é'", "''")[i] if i < 6 else None,
        "NVARCHAR(10)": lambda i: f"'v{i}'",
        "BLOB": lambda i: f"x'00ff{i:02x}'",
        "BOOLEAN": lambda i: f"{i}" if i < 2 else None,
        "DATE": lambda i: f"'2020-01-{i + 1:02d}'",
        "DATETIME": lambda i: f"'2020-01-{i + 1:02d} 10:00:00.125000'",
        "TIME": lambda i: f"'{i % 24:02d}:00:00.000000'",
        "DECIMAL(10,2)": lambda i: f"{i}.5",
        "CLOB": lambda i: f"'c{i}'",
        "DOUBLE": lambda i: f"{i}.125",
    },
}

# (reflected by SQLAlchemy as the ordinary text types)
RENAMED = ('"char"', "name", "CLOB")


def norm(value):
    return repr(bytes(value)) if isinstance(value, memoryview) else repr(value)


def read(end, key, cols):
    """All rows, with the values as exact as the database can tell them."""
    exprs = []
    for name, kind in cols:
        expr = end.q(name)
        if end.dialect == "postgres":
            expr += "::text"
        elif end.dialect == "mysql" and kind.startswith("float"):
            expr += " + 0e0"  # (rounded to six digits otherwise)
        exprs.append(expr)
    return [tuple(map(norm, row)) for row in end.rows(f"SELECT {', '.join(exprs)} FROM {end.qt(*key)}")]


def case(ctx, structure=False, knob=None):
    rng = ctx.rng
    dialect = scen.pick_dialect(ctx, {"sqlite": 2, "postgres": 4, "mysql": 3})
    types = {k: v for k, v in TYPES[dialect].items() if not structure or k not in RENAMED}
    decl = rng.choice(sorted(types))
    other = rng.choice(sorted(types))
    if knob and rng.random() < 0.5:
        decl = next((t for t in types if t.lower() == "boolean"), decl)
    world, ep = scen.new_world(ctx, dialect)
    ep.reset(world.schemas)
    schema = world.schemas[0]
    parent, child = Table((schema, "kinds")), Table((schema, "uses"))
    parent.cols = [Col("k", "native", False), Col("n", "int", False), Col("w", "native")]
    child.cols = [Col("id", "int", False), Col("p", "native"), Col("pn", "int")]
    wide = rng.random() < 0.3
    parent.pk = ("k", "n") if wide else ("k",)
    child.pk = ("id",)
    world.tables = {parent.key: parent, child.key: child}
    dest = scen.Dest(ctx, world, dialect)

    values = [v for v in map(types[decl], range(12)) if v is not None]
    rng.shuffle(values)
    values = values[: rng.randint(1, 9)]
    null_ok = "NULL" if dialect != "sqlite" or rng.random() < 0.5 else ""
    extras = [v for v in map(types[other], range(12)) if v is not None]
    foreign = f"FOREIGN KEY ({ep.q('p')}{', ' + ep.q('pn') if wide else ''}) REFERENCES "

    def ddl(end, where):
        target, own = where[parent.key], where[child.key]
        ref = end.q(target[1]) if dialect == "sqlite" else end.qt(*target)
        return [
            f"CREATE TABLE {end.qt(*target)} ({end.q('k')} {decl} NOT NULL, {end.q('n')} INTEGER NOT NULL, {end.q('w')} {other} {null_ok}, "
            f"PRIMARY KEY ({', '.join(end.q(c) for c in parent.pk)}))",
            f"CREATE TABLE {end.qt(*own)} ({end.q('id')} INTEGER NOT NULL PRIMARY KEY, {end.q('p')} {decl} {null_ok}, {end.q('pn')} INTEGER, "
            f"{foreign}{ref} ({', '.join(end.q(c) for c in parent.pk)}))",
        ]

    rows = [(v, i, rng.choice(extras + ["NULL"])) for i, v in enumerate(values)]
    uses = []
    for num in range(rng.randint(1, 14)):
        v, i, _ = rng.choice(rows)
        uses.append((num * 3 + 1, v, i) if rng.random() < 0.9 else (num * 3 + 1, "NULL", "NULL" if wide else i))
    ep.run(*ddl(ep, {k: k for k in world.tables}),
           *(f"INSERT INTO {ep.qt(*parent.key)} VALUES ({v}, {i}, {w})" for v, i, w in rows),
           *(f"INSERT INTO {ep.qt(*child.key)} VALUES ({c}, {v}, {i})" for c, v, i in uses))
    create = structure or rng.random() < 0.4
    if not create:
        dest.endpoint.run(*ddl(dest.endpoint, dest.keys))

    chosen = rng.choice(["child", "parent", "both"])
    amount = rng.choice([{"all": True}, {"all": True}, {"amount": rng.randint(1, 5)}])
    planner = {"select": [f"{schema}.*"], "targets": {}}
    if chosen in ("child", "both"):
        planner["targets"][child.full] = amount
    if chosen in ("parent", "both"):
        planner["targets"][parent.full] = {"all": True} if chosen == "both" else amount
    conf = {"output": dest.output()}
    knob = knob or rng.choice(["", "", "", "compact", "merge", "skip", "replace"])
    if knob == "compact":
        conf["compact"] = {"primary_keys": True}
    elif knob == "merge":
        conf["output"]["merge"] = True
    elif knob:
        conf["output"]["conflict_strategy"] = knob
    ctx.info.update(types=[decl, other], knob=knob, targets=planner["targets"], rows=rows, uses=uses)
    plan = scen.run_plan(ctx, ep, planner)
    scen.run_sample(ctx, ep, dest.endpoint, conf, plan, create=create)

    keys = plan_keys(plan)
    kinds = {parent.key: (("k", decl), ("n", ""), ("w", other)), child.key: (("id", ""), ("p", decl), ("pn", ""))}
    source = {k: read(ep, k, kinds[k]) for k in world.tables}
    got = {k: read(dest.endpoint, dest.keys[k], kinds[k]) if k in keys else [] for k in world.tables}
    for key, found in got.items():
        want = source[key]
        if key == child.key and knob in ("compact", "merge"):
            want, found = [r[1:] for r in want], [r[1:] for r in found]  # (its own key is renumbered)
        extra = collections.Counter(found) - collections.Counter(want)
        if extra:
            raise Violation(f"{scen.full(key)}: rows that are not in the source", types=[decl, other], rows=list(extra)[:5], source=want[:9])
    used = {r[1:] if wide else r[1:2] for r in got[child.key] if "None" not in r[1:3]} if wide else \
        {r[1:2] for r in got[child.key] if r[1] != "None"}
    have = {r[: len(parent.pk)] for r in got[parent.key]}
    if used - have:
        raise Violation("dangling references", types=[decl, other], rows=sorted(used - have)[:5])
    if chosen == "child":
        if have != used:
            raise Violation("wrong rows of the referenced table", types=[decl, other], expected=sorted(used), got=sorted(have))
        if len(got[child.key]) != min(amount.get("amount", len(uses)), len(uses)):
            raise Violation("wrong number of target rows", types=[decl, other], got=len(got[child.key]), want=amount)
    elif len(got[parent.key]) != (min(amount.get("amount", len(rows)), len(rows)) if chosen == "parent" else len(rows)):
        raise Violation("wrong number of target rows", types=[decl, other], got=len(got[parent.key]), want=amount)
    if knob == "compact" and child.key in keys:
        ids = sorted(r[0] for r in dest.endpoint.table(*dest.keys[child.key], ["id"]))
        if ids != list(range(1, len(ids) + 1)):
            raise Violation("compacted keys are not consecutive", types=[decl, other], got=ids[:20])
    if structure:
        for key in keys:
            want, built = catalog.describe(ep, key), catalog.describe(dest.endpoint, dest.keys[key])
            for part in ("columns", "pk"):
                if want[part] != built[part]:
                    raise Violation(f"created table for {scen.full(key)}: wrong {part}", types=[decl, other], expected=repr(want[part]), got=repr(built[part]))
    ctx.count("native_rows", sum(map(len, got.values())))
    ctx.count("native_keys", len(used))
    ctx.count(f"native.{dialect}")
    ctx.count("native_materialised", '"sampled":true' in plan.model_dump_json(by_alias=True))
    ctx.nontrivial = bool(used)
    ctx.sign("native", dialect, decl, other, wide, chosen, knob, create, len(rows))


def plan_keys(plan):
    return [tuple(name.split(".", 1)) for name in plan.queries]
