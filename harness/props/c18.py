"""C18: filters change only what they name and hide what they replace."""

import json
import os
import re

import predict
import scen
import subj
from monitor import Monitor
from predict import WILD
from props.c09 import canonical
from props.pipeline import INTEGRAL, TEXTUAL, ZEROABLE, Pipe, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 420, "thorough": 9000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random chains of all filters on random tables, to databases and directories, with multiplicity, compaction and materialisation; "
    "every delivered value is predicted (generated ones are only required to be generated) and every unique marker of a replaced column is "
    "searched for in all statements and parameters the destination received and in the complete destination; filters naming columns that "
    "do not exist must be refused with the destination unchanged; non-trivial: rows were filtered",
    "need": {"rows_compared": 1200, "markers_hidden": 500, "markers_kept": 200, "chains": 161, "multiplexed": 25, "refusals": 8, "to_directory": 29,
             "to_database": 26, "generated": 100, "omitted": 15, "omits_several": 7},
}
MARK = re.compile(r"S~[0-9a-f]+~S")
LONG_FAKES = ["fake_name", "fake_email", "fake_address", "fake_city", "fake_phone_number", "fake_street_address",
              "fake_vin", "fake_country", "fake_postal_code", "fake_latitude", "fake_state_abbr"]


def hide(ctx, pipe, key, live, anything):
    """A filter after which the original value is gone."""
    rng = ctx.rng
    table = pipe.world.tables[key]
    free = [c for c in (live if anything else pipe.free_cols(key)) if c in live]
    if not free:
        return None
    col = table.col("secret" if "secret" in free and rng.random() < 0.7 else rng.choice(free))
    cols = [col.name]
    ops = ["null"] if col.nullable or anything else []
    if col.kind in ZEROABLE:
        ops += ["zero"]
    if len(live) > 2 and (col.nullable or anything):
        ops.append("omit")
    if anything or col.kind == "secret":
        # (fake coordinates are numbers that not every driver takes for a text)
        ops += ["random_string", "uuid"] + rng.sample([f for f in LONG_FAKES if anything or f != "fake_latitude"], 2)
    if col.kind in TEXTUAL:
        ops += ["constant", "random_string", "uuid", "fake_first_name"]
    if col.kind in INTEGRAL or anything:
        ops += ["random_int", "constant"]
    if col.kind == "float" or anything:
        ops += ["random_float"]
    op = rng.choice(ops)
    if rng.random() < 0.3 and op in ("null", "zero", "random_int", "uuid"):
        more = [c for c in free if c != col.name and table.col(c).kind == col.kind and (table.col(c).nullable or op != "null")]
        cols += rng.sample(more, k=min(1, len(more)))
    if op == "omit" and rng.random() < 0.5:
        more = [c for c in free if c != col.name and (table.col(c).nullable or anything)]
        cols += rng.sample(more, k=min(len(more), len(live) - 3, rng.choice([1, 2, 3])) if len(live) > 3 else 0)
        rng.shuffle(cols)
    conf = {"op": op, "columns": cols}
    if op == "constant":
        conf["values"] = [pipe._value(col.kind)]  # pylint: disable=protected-access
    if op in ("random_int", "random_float"):
        conf.update(low=-5, high=rng.choice([-5, 5, 900]))
    if op == "random_string":
        conf["length"] = rng.choice([0, 1, 12])
        if rng.random() < 0.5:
            conf["alphabet"] = rng.choice(["hex", "alpha_upper", "digit"])
    if rng.random() < 0.2 and op != "omit":
        other = rng.choice([c for c in live if table.col(c).kind in TEXTUAL + ("int", "bigint")] or [None])
        if other:
            seen = [r[other] for r in table.rows if r[other] is not None]
            cond = rng.choice(["is", "is not", "in", "not in"])
            value = None if cond.startswith("is") else rng.sample(seen, k=min(3, len(seen)))
            return {"op": "multiplex", "column": other, "conditions": [{"op": cond, "value": value, "apply": conf}]}
    return conf


def gen(ctx, pipe, anything):
    pipe.gen_filters(tables=0.7, anything=anything, max_chain=4)
    filters = pipe.conf.setdefault("filters", {})
    for key in pipe.keys:
        if ctx.rng.random() < 0.25:
            continue
        chain = filters.setdefault(scen.full(key), [])
        live = [c for c in pipe.world.tables[key].names() if c not in pipe.omitted(key)]
        for _ in range(ctx.rng.choice([1, 1, 2])):
            # a generated value is not looked at or changed again
            used = {c for f in chain for c in touched(f) if any(predict.generates(o) for o in ops_of(f))}
            conf = hide(ctx, pipe, key, [c for c in live if c not in used], anything)
            if conf:
                chain.append(conf)
                if conf["op"] == "omit":
                    live = [c for c in live if c not in conf["columns"]]
        if not chain:
            del filters[scen.full(key)]


def ops_of(conf):
    return [c["apply"]["op"] for c in conf["conditions"]] if conf["op"] == "multiplex" else [conf["op"]]


def touched(conf):
    if conf["op"] == "multiplex":
        return [c for cond in conf["conditions"] for c in cond["apply"]["columns"]]
    return conf["columns"]


def markers(value):
    return set(MARK.findall(value if isinstance(value, str) else repr(value)))


def case(ctx):
    rng = ctx.rng
    to_dir = ctx.index % 2 == 0
    if ctx.index % 10 == 7:
        return refuse(ctx)
    kinds = None if to_dir else ["float", "bool", "ts", "small", "long"]
    pipe = Pipe(ctx, small_shape(rng, secret=True, typed=kinds, typed_count=(0, 3), big=0.04, uniq=0.1), passthrough=0.25)
    gen(ctx, pipe, to_dir)
    world = pipe.world
    filters = pipe.conf["filters"]
    if rng.random() < 0.3:
        pipe.gen_compact(columns=False)
    if rng.random() < 0.3:
        pipe.gen_multiplicity()
    model = pipe.model()
    try:
        _, mcols = model.multiplied()
        model.compact_cols()
        for key, cols in mcols.items():
            if any(c in cols for f in filters.get(scen.full(key), []) for c in touched(f)):
                raise Skip("a multiplied column is filtered")
        delivered = model.delivered()
    except predict.Refused as exc:
        raise Skip("refused (C11, C12)") from exc
    except TypeError as exc:
        raise Skip(f"the chain does not fit its values: {exc}") from exc
    if to_dir:
        got, blob = run_dir(ctx, pipe)
    else:
        ignored = pipe.conf.get("multiplicity", {}).get("ignore_primary_key_columns")
        if ignored and not all(unique_keys(world.tables[k], delivered[k]) for k in pipe.keys):
            raise Skip("settings duplicate keys")
        got, blob = run_db(ctx, pipe)
    total = 0
    predicted = set()
    originals = set()
    for key in pipe.keys:
        table = world.tables[key]
        rows = delivered[key]
        originals |= {m for row in pipe.samples[key] for m in markers(row.get("secret") or "")}
        for row in rows:
            for val in row.values():
                if isinstance(val, str):
                    predicted |= markers(val)
        names = [n for n in table.names() if not rows or n in rows[0]]
        check_table(ctx, table, names, rows, got[key], to_dir, pipe.dest_dialect)
        total += len(rows)
    leaked = (markers(blob) & originals) - predicted
    if leaked:
        raise Violation("replaced values reached the output", markers=sorted(leaked)[:5], filters=filters)
    ctx.count("markers_hidden", len(originals - predicted))
    ctx.count("markers_kept", len(originals & predicted))
    ctx.count("rows_compared", total)
    ctx.count("chains", len(filters))
    ctx.count("multiplexed", sum(f["op"] == "multiplex" for c in filters.values() for f in c))
    ctx.count("omitted", sum(f["op"] == "omit" for c in filters.values() for f in c))
    ctx.count("omits_several", sum(f["op"] == "omit" and len(f["columns"]) > 2 for c in filters.values() for f in c))
    ctx.count("generated", sum(predict.generates(o) for c in filters.values() for f in c for o in ops_of(f)))
    ctx.count("to_directory" if to_dir else "to_database")
    ctx.nontrivial = total > 0 and bool(filters)
    ctx.sign(scen.signature_of(world, pipe.sub.cfg, to_dir, {k: [[c["op"], len(touched(c))] for c in v] for k, v in filters.items()},
                               sorted(pipe.conf)))
    if ctx.index < 4:
        ctx.sample = {"filters": filters, "to_directory": to_dir}


def unique_keys(table, rows):
    vals = [tuple(r.get(c) for c in table.pk) for r in rows]
    return not table.pk or len(set(vals)) == len(vals)


def check_table(ctx, table, names, rows, got, to_dir, dialect):
    """Generated values match anything that was generated, the rest exactly."""
    if to_dir:
        for row in got:
            if list(row) != names and rows:
                raise Violation(f"{table.full}: wrong columns", expected=names, got=list(row))
    all_names = names if to_dir else table.names()
    # rows are told apart by everything that is predictable
    masks = {}
    for row in rows:
        masks.setdefault(tuple(isinstance(row.get(n), predict.Wild) for n in all_names), []).append(row)
    have = [tuple(r[n] for n in all_names) for r in got]
    if not to_dir:
        have = list(canonical(table, dialect, all_names, have).elements())
    want = [[row.get(n) for n in all_names] for row in rows]
    if not to_dir:
        wild = [[isinstance(v, predict.Wild) for v in row] for row in want]
        plain = [[None if w else v for v, w in zip(row, ws)] for row, ws in zip(want, wild)]
        want = []
        for row, ws in zip(plain, wild):
            (one,) = canonical(table, "text", all_names, [tuple(row)])
            want.append([WILD if w else v for v, w in zip(one, ws)])
    if len(masks) <= 1:
        mask = next(iter(masks), (False,) * len(all_names))
        strip = lambda row: tuple("<generated>" if m else v for v, m in zip(row, mask))  # noqa: E731
        exp, act = scen.multiset(map(strip, want)), scen.multiset(map(strip, have))
        if exp != act:
            raise Violation(f"{table.full}: wrong values after filters", columns=all_names, **scen.diff(exp, act))
        for index, generated in enumerate(mask):
            if generated and any(row[index] is None for row in have):
                raise Violation(f"{table.full}.{all_names[index]}: nothing was generated")
        return
    # mixed (multiplexed) rows: match one by one, the most predictable rows first
    rest = scen.multiset(have)
    for row in sorted(want, key=lambda r: sum(v is WILD for v in r)):
        for cand in rest:
            if all(w is WILD or (w == c and type(w) is type(c)) for w, c in zip(row, cand)):
                break
        else:
            raise Violation(f"{table.full}: a predicted row did not arrive", columns=all_names, row=repr(row), left=[list(r) for r in rest][:8])
        rest[cand] -= 1
        if not rest[cand]:
            del rest[cand]
    if rest:
        raise Violation(f"{table.full}: unexpected rows", rows=[list(r) for r in rest][:8])


def run_dir(ctx, pipe):
    out = scen.scratch_dir(ctx, "out")
    pipe.conf["output"] = {"mode": "directory", "directory": out}
    ctx.info["sampler"] = pipe.conf
    scen.run_sample(ctx, pipe.source, None, pipe.conf, pipe.sub.plan_obj)
    got, blob = {}, []
    for key in pipe.keys:
        with open(os.path.join(out, f"{scen.full(key)}.json"), encoding="utf-8") as fh:
            text = fh.read()
        blob.append(text)
        got[key] = [json.loads(line) for line in text.splitlines()]
    for name in os.listdir(out):
        if name[:-5] not in {scen.full(k) for k in pipe.keys}:
            with open(os.path.join(out, name), encoding="utf-8") as fh:
                blob.append(fh.read())
    return got, "\n".join(blob)


def run_db(ctx, pipe):
    pipe.make_dest(fks="none", uniques=False, autoinc=False, lack=0.6)
    pipe.conf["output"] = pipe.dest.output()
    sent = []

    def watch(kind, side, _conn, statement, params):
        if kind == "execute" and side == "dest":
            sent.append(statement)
            sent.append(repr(params))

    with Monitor(pipe.source.config(), pipe.conf["output"], watch):
        pipe.run()
    got = {}
    for key in pipe.keys:
        names = pipe.dest_names(key)
        lacking = pipe.gone.get(key, set())
        got[key] = [{**dict.fromkeys(lacking), **dict(zip(names, row))} for row in pipe.dest.read(key, names)]
    pipe.dest.endpoint.close()
    return got, "\n".join(sent) + repr(pipe.dest.endpoint.full_dump())


def refuse(ctx):
    """Filters that name columns which do not exist (any more)."""
    rng = ctx.rng
    pipe = Pipe(ctx, small_shape(rng, secret=True), passthrough=0.3)
    gen(ctx, pipe, False)
    key = rng.choice(pipe.keys)
    names = pipe.world.tables[key].names()
    chain = pipe.conf["filters"].setdefault(scen.full(key), [])
    gone = pipe.omitted(key)
    how = rng.choice(["unknown", "omitted", "omitted", "multiplex column", "applied"])
    bad = "nosuch" if rng.random() < 0.6 else rng.choice(names) + "x"
    at = rng.randint(0, len(chain))
    op = rng.choice([{"op": "null"}, {"op": "zero"}, {"op": "omit"}, {"op": "uuid"}, {"op": "random_int", "low": 0, "high": 1},
                     {"op": "fake_name"}, {"op": "plugin", "module": "plug", "class": "Swap"}, {"op": "random_string", "length": 2},
                     {"op": "constant", "values": [1]}])
    if how == "unknown":
        chain.insert(at, {**op, "columns": [bad]})
    elif how == "omitted":
        col = rng.choice([n for n in names if n not in gone])
        chain += [{"op": "omit", "columns": [col]}, {**op, "columns": [col]}]
    elif how == "multiplex column":
        chain.insert(at, {"op": "multiplex", "column": bad, "conditions": [
            {"op": "is", "value": None, "apply": {"op": "null", "columns": [names[0]]}}]})
    else:
        if op["op"] == "omit":
            op = {"op": "null"}
        chain.insert(at, {"op": "multiplex", "column": next(n for n in names if n not in gone), "conditions": [
            {"op": "is", "value": None, "apply": {**op, "columns": [bad]}}]})
    pipe.make_dest(fks="none", uniques=False, autoinc=False)
    pipe.fill_dest(prob=0.8)
    pipe.put_existing()
    pipe.conf["output"] = pipe.dest.output()
    before = pipe.dest.endpoint.full_dump()
    exc = pipe.run_expect_error(truncate=rng.random() < 0.7, create=rng.random() < 0.3)
    after = pipe.dest.endpoint.full_dump()
    if before != after:
        raise Violation("the destination changed although the filters were refused", error=str(exc)[:300])
    ctx.count("refusals")
    ctx.nontrivial = True
    ctx.sign("refuse", how, op["op"], scen.signature_of(pipe.world, pipe.sub.cfg))
