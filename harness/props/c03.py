"""C03: targets select exactly what their filters say."""

import math

import planoracle as po
import scen
import subj
from props.common import Subset, judge_rows
from runner import Violation
from world import Col, Shape, Table, install

CONF = {
    "cases": {"quick": 640, "thorough": 9000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "three kinds of case: random schema graphs with one to three targets carrying random filter combinations; single tables "
    "with odd texts and typed columns and exact filters; large single tables with percent or repeated amount targets decided by "
    "probability bounds (false alarm under 1e-10 per test); non-trivial: a filter kept and dropped rows",
    "need": {"percent_tests": 20, "amount_repeat_tests": 3, "odd_value_tests": 40, "union_targets": 19},
}

DELTA = 25.3 + 3  # -log of the false alarm probability per test


def kl(x, p):
    result = 0.0
    if x > 0:
        result += x * math.log(x / p)
    if x < 1:
        result += (1 - x) * math.log((1 - x) / (1 - p))
    return result


def binom_ok(k, n, p):
    if n == 0 or p <= 0 or p >= 1:
        return k == (n if p >= 1 else 0)
    return n * kl(k / n, p) <= DELTA


def graph_case(ctx):
    shape = Shape(rows=(0, 16), tables=(2, 6))
    sub = Subset(ctx, shape, random_ok=True, knobs=0.0, ignore=0.0, passthrough=0.1, constraints=0.5)
    sub.plan()
    sub.deliver(pre_fks="none")
    rows = sub.read()
    judge_rows(sub, rows)
    for key, spec in sub.graph.targets.items():
        ctx.count("targets_judged")
        for part in spec:
            ctx.count(f"filter.{part}")
        if 0 < len(rows[key]) < len(sub.world.tables[key].rows):
            ctx.nontrivial = True
    ctx.sign("graph", scen.signature_of(sub.world, sub.cfg))


TEXTS = ["plain", "it's", 'q"q', "100%", "a_b", "%", "_", "ünï", "日本", "", " lead", "trail ", "a:b", ":x", "a%(b)s", "%s",
         "x;y", "line\nbreak", "yes", "null", "1", "01", "1e3", "-- c", "/*", "{}", "?"]


def odd_case(ctx):
    rng = ctx.rng
    dialect = scen.pick_dialect(ctx)
    world, source = scen.new_world(ctx, dialect)
    table = Table((world.schemas[0], rng.choice(["t", "Order", "a b"])))
    table.cols = [Col("rid", "int", False), Col(rng.choice(["txt", "Group", "a b"]), "text"), Col("num", "int"),
                  Col("val", "text")]
    if rng.random() < 0.7:
        table.pk = ("rid",)
    txt = table.cols[1].name
    for rid in range(1, rng.choice([8, 20, 40])):
        table.rows.append({"rid": rid, txt: rng.choice(TEXTS + [None]), "num": rng.choice([None, -5, 0, 1, 2, 3, 10]),
                           "val": rng.choice([None, "x", "a%b", "a\\b"])})
    world.tables[table.key] = table
    install(world, source)
    spec = {}
    if rng.random() < 0.7:
        spec["in"] = {txt: rng.sample(TEXTS, rng.randint(1, 8))}
    if rng.random() < 0.4:
        spec.setdefault("in", {})["num"] = rng.sample([-5, 0, 1, 2, 3, 10, 77], rng.randint(1, 4))
    if rng.random() < 0.4:
        spec["like"] = {txt: [rng.choice(["%", "%'%", "a_b", "_", "%%", "1%", "%ï", "日_", "%\n%", "% ", ""])]}
        if rng.random() < 0.3:
            spec["like"][txt].append(rng.choice(["%a%", "%", "_%"]))
        if rng.random() < 0.2:
            spec["like"]["val"] = ["%"]
    fn = None
    if rng.random() < 0.4:
        q = source.q
        text, fn = rng.choice([
            (f"{q('num')} > 0 OR {q(txt)} = 'it''s'",
             lambda r: (r["num"] is not None and r["num"] > 0) or r[txt] == "it's"),
            (f"{q(txt)} LIKE '%\\%%' ESCAPE '\\'" if dialect != "mysql" else f"{q(txt)} LIKE '%\\%%'",
             lambda r: r[txt] is not None and "%" in r[txt]),
            (f"{q('num')} BETWEEN -5 AND 2", lambda r: r["num"] is not None and -5 <= r["num"] <= 2),
            (f"{q(txt)} = 'a\\:b' OR {q('num')} IS NULL", lambda r: r[txt] == "a:b" or r["num"] is None),
            (f"{q(txt)} <> '10\\:20' AND NOT {q('num')} = 3",
             lambda r: r[txt] is not None and r["num"] is not None and r["num"] != 3),
        ])
        spec["sql"] = text
    amount = None
    if rng.random() < 0.3:
        spec["amount"] = amount = rng.choice([0, 1, 3, 100])
    everything = rng.random() < 0.1
    if everything:
        spec["all"] = True
        amount = None
    cfg = {"select": [f"{world.schemas[0]}.*"], "targets": {table.full: spec}}
    cons = None
    if rng.random() < 0.3 and not everything:
        op = rng.choice(["<", ">", "=", "<>", "!=", "like", "not like"])
        if op in ("like", "not like"):
            cons = {"column": txt, "operator": op, "value": rng.choice(["%a%", "_", "%'%"])}
        elif rng.random() < 0.5:
            cons = {"column": "num", "operator": op, "value": rng.choice([0, 2, 10])}
        else:
            cons = {"column": txt, "operator": op if op in ("=", "<>", "!=") else "=", "value": rng.choice(TEXTS)}
        cfg["table_constraints"] = {table.full: [cons]}
    ctx.info["planner"] = cfg
    plan = scen.run_plan(ctx, source, cfg)
    ctx.info["plan"] = subj.dump_plan(plan)
    dest = scen.Dest(ctx, world)
    dest.install([table.key], autoinc=False)
    scen.run_sample(ctx, source, dest.endpoint, {"output": dest.output()}, plan)
    got = scen.ident_rows(dest.read_dicts(table.key), table.names())
    match = table.rows if everything else po.target_filter(table, spec, fn)
    if dialect == "sqlite" and "like" in spec and not everything:
        pass  # generated texts and patterns are caseless or lower case
    if cons:
        match = po.constrained(match, [cons])
    want = scen.ident_rows(match, table.names())
    if amount is None:
        if got != want:
            raise Violation("target selected the wrong rows", **scen.diff(want, got))
    else:
        if got - want:
            raise Violation("target selected rows not matching its filters", **scen.diff(want, got))
        if sum(got.values()) != min(amount, len(match)):
            raise Violation(f"amount {amount} of {len(match)} matching rows delivered {sum(got.values())}")
    ctx.count("odd_value_tests")
    ctx.count("targets_judged")
    ctx.nontrivial = 0 < sum(want.values()) < len(table.rows)
    ctx.sign("odd", dialect, sorted(spec.items(), key=repr), repr(cons))


def percent_case(ctx):
    rng = ctx.rng
    dialect = scen.pick_dialect(ctx, {"sqlite": 3, "postgres": 3, "mysql": 2})
    world, source = scen.new_world(ctx, dialect)
    table = Table((world.schemas[0], "big"))
    table.cols = [Col("rid", "int", False), Col("grp", "int"), Col("val", "text")]
    if rng.random() < 0.8:
        table.pk = ("rid",)
    percent = rng.choice([50.0, 50.0, 10.0, 25.0, 75.0, 90.0, 5, 33.3, 1.0, 0.5, 2.5, 1.5, 0.7, 12.5, 99.5, 0.1])
    fine = percent < 5 or percent > 95 or percent == 12.5
    n = 10000 if fine else rng.choice([2000, 3000, 5000])
    table.rows = [{"rid": i, "grp": i % 4, "val": None} for i in range(1, n + 1)]
    world.tables[table.key] = table
    install(world, source)
    p = percent / 100
    spec = {"percent": percent}
    eligible = set(range(1, n + 1))
    if rng.random() < 0.4:
        spec["in"] = {"grp": [0, 1, 2]}
        eligible = {i for i in eligible if i % 4 != 3}
    cfg = {"select": [f"{world.schemas[0]}.*"], "targets": {table.full: spec}}
    ctx.info["planner"] = cfg
    plan = scen.run_plan(ctx, source, cfg)
    draws = []
    for num in range(12 if fine else 2):
        rows = scen.sample_to_dir(ctx, source, plan)[table.full]
        ids = [r["rid"] for r in rows]
        got = set(ids)
        if len(ids) != len(got) or not got <= eligible:
            raise Violation("percent target delivered duplicated or non-matching rows")
        draws.append(got)
        tests = {
            "all": (len(got), len(eligible)),
            "even": (len([i for i in got if i % 2 == 0]), len([i for i in eligible if i % 2 == 0])),
            "first half": (len([i for i in got if i <= n // 2]), len([i for i in eligible if i <= n // 2])),
        }
        for what, (k, size) in tests.items():
            ctx.count("percent_tests")
            if not binom_ok(k, size, p):
                raise Violation(f"percent {percent}: {k} of {size} rows ({what})", run=num)
        pairs = [i for i in eligible if i % 2 == 1 and i + 1 in eligible]
        both = len([i for i in pairs if i in got and i + 1 in got])
        ctx.count("percent_tests")
        if not binom_ok(both, len(pairs), p * p):
            raise Violation(f"percent {percent}: rows are not kept independently ({both} of {len(pairs)} neighbour pairs)")
    kept = sum(len(d) for d in draws)
    if not binom_ok(kept, len(eligible) * len(draws), p):
        raise Violation(f"percent {percent}: {kept} of {len(eligible) * len(draws)} rows in {len(draws)} runs")
    ctx.count("percent_tests", 2)
    if not binom_ok(len(draws[0] & draws[1]), len(eligible), p * p):
        raise Violation(f"percent {percent}: two runs agree on {len(draws[0] & draws[1])} of {len(eligible)} rows")
    ctx.nontrivial = True
    ctx.sign("percent", dialect, percent, n, sorted(spec))


def amount_case(ctx):
    rng = ctx.rng
    dialect = scen.pick_dialect(ctx, {"sqlite": 4, "postgres": 1, "mysql": 1})
    world, source = scen.new_world(ctx, dialect)
    table = Table((world.schemas[0], "few"))
    table.cols = [Col("rid", "int", False), Col("val", "text")]
    if rng.random() < 0.8:
        table.pk = ("rid",)
    n = 5
    amount = rng.choice([1, 2])
    table.rows = [{"rid": i, "val": f"v{i}"} for i in range(1, n + 1)]
    world.tables[table.key] = table
    install(world, source)
    cfg = {"select": [f"{world.schemas[0]}.*"], "targets": {table.full: {"amount": amount, "in": {"rid": [1, 2, 3, 4, 9]}}}}
    plan = scen.run_plan(ctx, source, cfg)
    seen = set()
    rounds = 100 if amount == 1 else 45
    for _ in range(rounds):
        rows = scen.sample_to_dir(ctx, source, plan)[table.full]
        ids = {r["rid"] for r in rows}
        if len(rows) != amount or len(ids) != amount or not ids <= {1, 2, 3, 4}:
            raise Violation(f"amount {amount} delivered {rows}")
        seen |= ids
        if seen == {1, 2, 3, 4}:
            break
    if seen != {1, 2, 3, 4}:
        # (1 - amount/4) ** rounds * 4 < 2e-12
        raise Violation(f"amount {amount}: rows {sorted({1, 2, 3, 4} - seen)} were never selected in {rounds} runs")
    ctx.count("amount_repeat_tests")
    ctx.nontrivial = True
    ctx.sign("amount", dialect, amount, bool(table.pk))


def case(ctx):
    kind = ctx.index % 16
    if kind == 15:
        percent_case(ctx)
    elif kind == 7 and ctx.index % 32 == 7:
        amount_case(ctx)
    elif kind in (1, 4, 8, 10, 13):
        odd_case(ctx)
    else:
        graph_case(ctx)
    if ctx.index < 3:
        ctx.sample = ctx.info.get("planner")
