"""C08: plan documents are executed with SQL semantics and simplification keeps them."""

import collections

import planast
import scen
import subj
from runner import Violation
from world import Col, Table, install

CONF = {
    "cases": {"quick": 1300, "thorough": 30000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random plan documents (nested conditions, literal and subquery memberships, joins with sampled and unsampled tables, unions, "
    "column selections, raw sql with parameters, limits) over tables with nulls and repeated values, with and without primary keys; the "
    "document and its simplified form are executed by the sampler and compared with a three-valued reference interpreter; non-trivial: "
    "some query selected some but not all rows",
    "need": {"queries_judged": 627, "simplified_judged": 394, "partial": 234, "unions": 80, "raw_sql": 30, "joins": 200, "limits": 10,
             "materialised": 107, "subqueries": 71, "limited_unions": 10},
}
COLS = {"id": "int", "x": "int", "y": "int", "s": "text", "t": "text"}


def make_tables(ctx, world):
    rng = ctx.rng
    for index in range(rng.randint(1, 4)):
        table = Table((rng.choice(world.schemas), rng.choice(["data", "Order Items", "a'b", "t"]) + str(index)))
        pk = rng.choice([("id",), ("id",), ("x", "id"), ()])
        table.cols = [Col(n, k, n not in pk) for n, k in COLS.items()]
        table.pk = pk
        size = rng.choice([0, 1, 3, 6, 9, 14])
        for i in range(size):
            row = {
                "id": i if pk == ("id",) else i // 2 if pk else rng.randint(0, 3),
                "x": i % 2 if pk == ("x", "id") else rng.choice([None, 0, 1, 2, 3]),
                "y": rng.choice([None, None, 0, 1, 2, 4, 5, -1]),
                "s": rng.choice([None] + planast.WORDS),
                "t": rng.choice([None, "a", "b"]),
            }
            table.rows.append(row)
        world.tables[table.key] = table


def case(ctx):
    rng = ctx.rng
    dialect = scen.pick_dialect(ctx, {"sqlite": 6, "postgres": 3, "mysql": 3})
    names = (["main", "aux"] if dialect == "sqlite" else ["alpha", "beta"])[: rng.choice([1, 2])]
    world, source = scen.new_world(ctx, dialect, names)
    make_tables(ctx, world)
    install(world, source)
    ctx.info["world"] = world.describe()

    def qualify(key, col):
        if dialect == "sqlite" and rng.random() < 0.5:
            return f"{source.q(key[1])}.{source.q(col)}"
        return f"{source.qt(*key)}.{source.q(col)}"

    base = {k: planast.Table(k, dict(COLS), t.rows, t.pk) for k, t in world.tables.items()}
    gen = planast.Gen(rng, dialect, qualify)
    for key, table in base.items():
        gen.avail.append(({"schema": key[0], "table": key[1]}, table))
    order = list(base)
    rng.shuffle(order)
    queries = {}
    fixed = {}  # key -> columns of its sample
    for key in order:
        table = base[key]
        ident = {"schema": key[0], "table": key[1]}
        roll = rng.random()
        cols = None
        foreign = False
        if rng.random() < 0.25:
            # referable samples keep the primary key
            cols = [c for c in COLS if c in table.pk or rng.random() < 0.6] or ["id"]
            rng.shuffle(cols)
        if roll < 0.1:
            cond = gen.sql(table)
            listed = ", ".join(source.q(c) for c in (COLS))
            cols = None
            entry = {"sql": f"SELECT {listed} FROM {source.qt(*key)} WHERE {cond['sql']}", "#": cond}
            if "sql_params" in cond:
                entry["sql_params"] = cond["sql_params"]
        elif roll < 0.35:
            # parts read the table itself or its sample-compatible twin
            parts = [gen.select(dict(ident), table, 2, columns=cols) for _ in range(rng.choice([1, 2, 2, 3]))]
            if len(order) > 1 and rng.random() < 0.15:
                other = rng.choice([k for k in order if k != key])
                foreign = True
                parts.append(gen.select({"schema": other[0], "table": other[1]}, base[other], 2, columns=cols))
            if rng.random() < 0.2 and not foreign and table.pk:
                # some parts of the union have a limit
                plain = rng.random() < 0.6
                for num, part in enumerate(parts):
                    if plain:
                        part.pop("joins", None)
                        part.pop("joins_outer", None)
                    if num and plain or rng.random() < 0.4:
                        part["limit"] = rng.choice([0, 1, 1, 2, 5])
            entry = {"statement": {"type": "union", "statements": parts}}
        else:
            entry = {"statement": gen.select(dict(ident), table, 3, columns=cols, limit=True)}
            if rng.random() < 0.15:
                entry = {"statement": {"type": "select", "from": dict(ident), "where": gen.plain_membership(table),
                                       **({"columns": cols} if cols else {})}}
                ctx.count("memberships")
        queries[key] = entry
        fixed[key] = list(cols or COLS)
        if foreign:
            # rows of two tables need not have distinct keys: no table to refer to
            continue
        visible = {c: COLS[c] for c in fixed[key]}
        gen.avail.append(({"schema": key[0], "table": key[1], "sampled": True}, planast.Table(key, visible, table.rows, table.pk)))
    listed = list(queries)
    rng.shuffle(listed)
    doc = {"queries": {scen.full(k): planast.strip(queries[k]) for k in listed}}
    if rng.random() < 0.5:
        doc["passthrough"] = []
    ctx.info["plan"] = doc
    ctx.judging()
    plan = subj.load_plan(doc)
    delivered = scen.sample_to_dir(ctx, source, plan)
    partial = judge(ctx, base, queries, order, fixed, delivered, exact=True)
    ctx.count("materialised", sum(1 for k in order if f"'table': {k[1]!r}, 'sampled': True" in repr(doc)))
    ctx.count("subqueries", repr(doc).count("'values': {"))
    # the simplified document
    limited = any(q.get("statement", {}).get("limit") is not None for q in queries.values())
    simplified = subj.load_plan(doc)
    changed = False
    for query in simplified.queries.values():
        if query.statement is not None:
            before = query.statement.model_dump(exclude_unset=True, by_alias=True)
            query.statement = query.statement.simplify()
            changed |= query.statement.model_dump(exclude_unset=True, by_alias=True) != before
    if changed and not limited:
        again = subj.dump_plan(simplified)
        ctx.info["simplified"] = again
        # the simplified statements, used directly and read from a document
        use = simplified if rng.random() < 0.5 else subj.load_plan(again)
        delivered = scen.sample_to_dir(ctx, source, use)
        judge(ctx, base, queries, order, fixed, delivered, exact=False)
    ctx.nontrivial = partial
    ctx.sign(dialect, [[t.pk, len(t.rows) > 3] for t in world.ordered()], sorted(gen.features))
    if ctx.index < 3:
        ctx.sample = {"dialect": dialect, "plan": doc}


def limited_union(ctx, key, ev, stmt, got, all_cols, what):
    """Any rows may be chosen for the limited parts, but not more than their limits."""
    sure, maybe, extra = set(), set(), 0
    for part in stmt["statements"]:
        rows = ev.statement_tuples(part, all_cols)
        limit = part.get("limit")
        if limit is None or limit >= len(rows):
            sure |= set(rows)
            continue
        extra += limit
        maybe |= set(rows)
    have = set(got)
    if len(stmt["statements"]) > 1 and any(n > 1 for n in got.values()):
        raise Violation(f"{key}: the {what} repeats rows of a union", **scen.diff(collections.Counter(have), got))
    if sure - have or have - sure - maybe or len(have - sure) > extra:
        raise Violation(f"{key}: wrong rows for a union of limited selections", query=planast.strip(stmt), sure=len(sure), limits=extra,
                        missing=list(map(str, sure - have))[:5], surplus=list(map(str, have - sure))[:5])
    ctx.count("limited_unions")


def judge(ctx, base, queries, order, fixed, delivered, exact):
    sampled = {}
    partial = False
    ev = planast.Eval(base, sampled)
    all_cols = list(COLS)
    if set(delivered) != {scen.full(k) for k in order}:
        raise Violation("wrong set of tables", delivered=sorted(delivered))
    what = "document" if exact else "simplified document"
    for key in order:
        entry = queries[key]
        cols = fixed[key]
        rows = delivered[scen.full(key)]
        exact_here = exact
        for row in rows:
            if set(row) != set(cols):
                raise Violation(f"{key}: the {what} delivers columns {sorted(row)}, expected {sorted(cols)}")
        got = collections.Counter(tuple(r[c] for c in cols) for r in rows)
        if "sql" in entry:
            want = [tuple(r[c] for c in cols) for r in base[key].rows if ev.cond(entry["#"], r) is True]
            limit = None
            ctx.count("raw_sql")
        else:
            stmt = entry["statement"]
            limit = stmt.get("limit")
            want = ev.statement_tuples(stmt, all_cols)
            if any(s.get("limit") is not None for s in stmt.get("statements", ())):
                limited_union(ctx, key, ev, stmt, got, all_cols, what)
                sampled[key] = [dict(zip(cols, t)) for t in got.elements()]
                continue
            if len(stmt.get("statements", ())) == 1:
                # whether the union of a single selection removes repeated rows is left open
                exact_here = False
            ctx.count("unions", stmt["type"] == "union")
            ctx.count("joins", sum(len(s.get("joins") or []) for s in stmt.get("statements", [stmt])))
        want = collections.Counter(want)
        if limit is not None:
            ctx.count("limits")
            if got - want or sum(got.values()) != min(limit, sum(want.values())):
                raise Violation(f"{key}: wrong rows for a limited selection", limit=limit, **scen.diff(want, got))
        elif (want != got) if exact_here else (set(want) != set(got)):
            raise Violation(f"{key}: the {what} selects other rows", query=planast.strip(entry), **scen.diff(want, got))
        sampled[key] = [dict(zip(cols, t)) for t in got.elements()]
        ctx.count("queries_judged" if exact else "simplified_judged")
        ctx.count("rows_judged", sum(got.values()))
        if 0 < len(got) < len(base[key].rows):
            partial = True
            ctx.count("partial")
    return partial
