"""C27: directory output is faithful JSON lines."""

import collections
import datetime
import decimal
import json
import os

import yaml

import cli
import predict
import scen
import subj
import typed
from props.pipeline import Pipe, small_shape
from runner import Known, Skip, Violation
from world import Col, Table, install

NOT_A_NUMBER = "NaN and infinite floats are written as NaN and Infinity, which are no JSON"

CONF = {
    "cases": {"quick": 460, "thorough": 9000},
    "cap": {"quick": 34, "thorough": 800},
    "rule": "random plans over tables with columns of all types (odd text, extreme numbers, documents, arrays, binary), batches beyond 1024 rows, empty "
    "tables, filters (also omitting columns), compaction and multiplicity, sampled into new, nested, relative, default and reused directories with "
    "longer and shorter stale files, after completed and after failed runs; files are parsed line by line with a strict reader and every value is "
    "compared with the predicted one; non-trivial: rows were written",
    "need": {"files": 305, "rows_compared": 2500, "values_compared": 10000, "stale": 24, "after_failure": 8, "empty_files": 25, "second_runs": 18,
             "omitted": 10, "multiplied": 15, "compacted": 29, "default_directory": 4, "batch_tables": 1, "dialect.sqlite": 27, "dialect.postgres": 29,
             "dialect.mysql": 27},
}


class Strict(Exception):
    pass


def _pairs(items):
    names = [k for k, _v in items]
    if len(set(names)) != len(names):
        raise Strict("a name twice in one object")
    return dict(items)


def _constant(token):
    raise Strict(f"{token} is not JSON")


def parse(path):
    """Rows of one file, read strictly."""
    with open(path, "rb") as fh:
        raw = fh.read()
    try:
        content = raw.decode("utf-8")
    except UnicodeDecodeError as exc:
        raise Violation("the file is not UTF-8", path=os.path.basename(path)) from exc
    if content and not content.endswith("\n"):
        raise Violation("the last line is not terminated", path=os.path.basename(path), tail=content[-80:])
    rows = []
    for num, line in enumerate(content.split("\n")[:-1]):
        try:
            row = json.loads(line, object_pairs_hook=_pairs, parse_constant=_constant)
        except (ValueError, Strict) as exc:
            raise Violation(f"line {num + 1} is no JSON object: {exc}", path=os.path.basename(path), line=line[:300]) from exc
        if not isinstance(row, dict):
            raise Violation(f"line {num + 1} is no JSON object", path=os.path.basename(path), line=line[:300])
        rows.append(row)
    return rows


def freeze(val):
    if isinstance(val, dict):
        return ("{}",) + tuple(sorted((k, freeze(v)) for k, v in val.items()))
    if isinstance(val, (list, tuple)):
        return ("[]",) + tuple(freeze(v) for v in val)
    return (type(val).__name__, val)


def _time(text):
    """Times of day; mysql's driver has them as durations."""
    return datetime.time.fromisoformat(text.zfill(8) if text.index(":") == 2 or "." not in text else "0" + text)


def wanted(kind, val):
    """The value that has to be found."""
    if val is None:
        return None
    if isinstance(val, bool):
        return ("bool", val)
    if kind in ("json", "pgjson"):
        return ("doc", freeze(val))
    if isinstance(val, int):
        return ("int", val)
    if isinstance(val, float):
        return ("dec", typed.canon("dec", val)) if kind == "dec" else ("float", val)
    if kind in ("dec", "bigdec") or isinstance(val, decimal.Decimal):
        return ("dec", typed.canon(kind if kind in ("dec", "bigdec") else "dec", val))
    if kind in ("arr", "tarr"):
        return ("arr", freeze(list(val)))
    if isinstance(val, (bytes, datetime.date, datetime.time, datetime.timedelta)):
        return (kind, typed.canon(kind, val) if not isinstance(val, datetime.timedelta) else val)
    return ("text", str(val))


def found(kind, val, want):
    """What is there, read as the kind of thing that has to be there."""
    if val is None or want is None:
        return None if val is None else ("found", repr(val))
    name = want[0]
    if name == "bool":
        return ("bool", bool(val)) if val in (0, 1) else ("odd", repr(val))
    if name == "doc":
        # (drivers that do not parse documents deliver their text)
        if freeze(val) != want[1] and isinstance(val, str):
            try:
                return ("doc", freeze(json.loads(val)))
            except ValueError:
                pass
        return ("doc", freeze(val))
    if name == "int":
        return ("int", val) if type(val) is int else ("odd", repr(val))
    if name == "float":
        return ("float", float(val)) if type(val) in (int, float) else ("odd", repr(val))
    if name == "arr":
        return ("arr", freeze(val))
    if not isinstance(val, str):
        return ("odd", repr(val))
    try:
        if name == "dec":
            return ("dec", typed.canon(kind if kind in ("dec", "bigdec") else "dec", val))
        if name == "bytes":
            return ("bytes", want[1]) if val == str(want[1]) else ("odd", val)
        if name == "interval":
            return ("interval", want[1]) if val == str(want[1]) else ("odd", val)
        if name == "time":
            return ("time", _time(val))
        if name in ("date", "ts"):
            return (name, typed.canon(name, val))
        if name == "tstz":
            return ("tstz", typed.canon("tstz", datetime.datetime.fromisoformat(val)))
    except (ValueError, ArithmeticError):
        return ("odd", val)
    return ("text", val)


def compare(ctx, key, table, names, expected, rows):
    """Rows of one file against the predicted ones."""
    kinds = {n: table.col(n).kind for n in names}
    for num, row in enumerate(rows):
        if set(row) != set(names):
            raise Violation(f"{scen.full(key)}: line {num + 1} has other columns", got=sorted(row), want=sorted(names))
    want = collections.Counter(tuple(wanted(kinds[n], r[n]) for n in names) for r in expected)
    # which form a value has to take is known from the values the column may hold
    forms = {n: {} for n in names}
    for row in expected:
        for name in names:
            val = wanted(kinds[name], row[name])
            if val is not None:
                forms[name].setdefault(val[0], []).append(val)
    got = collections.Counter(tuple(_match(kinds[n], r[n], forms[n]) for n in names) for r in rows)
    if got != want:
        raise Violation(f"{scen.full(key)}: wrong rows in the file", columns=names, kinds=kinds, **scen.diff(want, got))
    ctx.count("rows_compared", len(rows))
    ctx.count("values_compared", len(rows) * len(names))


def _match(kind, val, forms):
    if val is None:
        return None
    last = ("odd", repr(val))
    for wants in forms.values():
        for want in wants:
            last = found(kind, val, want)
            if last == want:
                return last
    return last


def known_nan(ctx):
    """The listed finding on its own."""
    dialect = next((d for d in ctx.bench.dialects() if d != "mysql"), None)
    if "postgres" in ctx.bench.dialects():
        dialect = "postgres"
    if dialect is None:
        raise Skip("mysql has no such numbers")
    world, source = scen.new_world(ctx, dialect)
    table = Table((world.schemas[0], "floats"))
    table.cols = [Col("id", "int", False), Col("f", "float")]
    table.pk = ("id",)
    world.tables[table.key] = table
    install(world, source)
    nums = ["1.5"] + (["'NaN'", "'Infinity'"] if dialect == "postgres" else ["9e999", "-9e999"])
    source.run(*(f"INSERT INTO {source.qt(*table.key)} VALUES ({i}, {num})" for i, num in enumerate(nums)))
    stmt = {"type": "select", "from": {"schema": table.key[0], "table": table.key[1]}}
    plan = subj.load_plan({"queries": {table.full: {"statement": stmt}}, "passthrough": []})
    path = scen.scratch_dir(ctx, "out")
    scen.run_sample(ctx, source, None, {"output": {"mode": "directory", "directory": path}}, plan)
    fname = os.path.join(path, f"{table.full}.json")
    try:
        rows = parse(fname)
    except Violation as exc:
        if "is not JSON" in exc.what:
            with open(fname, encoding="utf-8") as fh:
                if len([json.loads(line) for line in fh]) == 3:
                    raise Known(NOT_A_NUMBER) from exc
        raise
    if sorted(r["id"] for r in rows) != [0, 1, 2] or rows[0]["f"] != 1.5:
        raise Violation("wrong rows", rows=rows)


def configure(ctx, pipe):
    rng = ctx.rng
    pipe.conf = {}
    if rng.random() < 0.6:
        pipe.gen_filters(tables=0.6, anything=rng.random() < 0.5)
    if rng.random() < 0.3:
        pipe.gen_compact()
        chosen = pipe.conf.get("compact", {}).get("columns", {})
        for key in pipe.keys:
            if not pipe.world.tables[key].pk:
                chosen.pop(scen.full(key), None)  # numbered in any order
    if rng.random() < 0.25:
        pipe.gen_multiplicity()


def stale(ctx, path, keys):
    """Files of an earlier run."""
    rng = ctx.rng
    for key in keys:
        if rng.random() < 0.5:
            with open(os.path.join(path, f"{scen.full(key)}.json"), "w", encoding="utf-8") as fh:
                for i in range(rng.choice([1, 3, 3000])):
                    fh.write(json.dumps({"rid": i, "stale": "row", "x": [1]}) + "\n")
                if rng.random() < 0.3:
                    fh.write('{"rid": 1, "half')
            ctx.count("stale")


def case(ctx):
    if ctx.index == 0:
        return known_nan(ctx)
    rng = ctx.rng
    src = scen.pick_dialect(ctx, {"sqlite": 3, "postgres": 3, "mysql": 3})
    shape = small_shape(rng, rows=(1, 24), tables=(1, 6), typed=typed.kinds_for(src, src) if ctx.index % 8 else [], typed_count=(0, 5), odd_text=0.6,
                        big=0.5 if ctx.index % 12 == 8 else 0.0, uniq=0.2)
    if src == "postgres":
        shape.typed = [k for k in shape.typed if k != "pgjson"]  # (see C09)
    pipe = Pipe(ctx, shape, passthrough=0.25, knobs=0.1, weights={src: 1})
    base = scen.scratch_dir(ctx, "files")
    how = rng.choice(["new", "there", "nested", "relative", "slash"]) if ctx.index % 24 != 5 else "default"
    path = os.path.join(base, {"nested": "a/ü b/c", "relative": "rel", "default": "output"}.get(how, "out"))
    ctx.info["directory"] = how
    if how == "there" or (how == "default" and rng.random() < 0.5):
        os.makedirs(path)
        stale(ctx, path, pipe.keys)
        with open(os.path.join(path, "notes.txt"), "w", encoding="ascii") as fh:
            fh.write("mine")
    runs = 2 if ctx.index % 5 == 0 else 1
    total = 0
    for num in range(runs):
        for _ in range(20):
            configure(ctx, pipe)
            try:
                delivered = pipe.model().delivered()
                break
            except (predict.Refused, TypeError):  # (see C11, C12; comparisons with null)
                continue
        else:
            raise Skip("no configuration found")
        if num == 0 and rng.random() < (0.5 if runs == 2 else 0.08):
            total += broken(ctx, pipe, path)
        ctx.info["sampler"] = pipe.conf
        run(ctx, pipe, how, path, base)
        total += judge(ctx, pipe, path, delivered)
        if num:
            ctx.count("second_runs")
    if how == "there":
        with open(os.path.join(path, "notes.txt"), encoding="ascii") as fh:
            if fh.read() != "mine":
                raise Violation("another file in the directory changed")
    ctx.count(f"dialect.{src}")
    ctx.nontrivial = total > 0
    ctx.sign(scen.signature_of(pipe.world, pipe.sub.cfg), pipe.conf, how, runs)
    if ctx.index < 8:
        ctx.sample = {"source": src, "sampler": pipe.conf, "files": sorted(os.listdir(path))}


def broken(ctx, pipe, path):
    """A run that stops in the middle."""
    keys = [k for k in pipe.keys if pipe.samples[k]]
    if not keys:
        return 0
    key = ctx.rng.choice(keys)
    conf = {"filters": {scen.full(key): [{"op": "plugin", "module": "plug", "class": "Fail", "columns": pipe.world.tables[key].names()[:1],
                                          "kwargs": {"after": ctx.rng.randrange(len(pipe.samples[key]))}}]},
            "output": {"mode": "directory", "directory": path}}
    pipe.source.close()
    ctx.judging()
    try:
        subj.sample(pipe.source.config(), conf, pipe.sub.plan_obj)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        if "plugin fails" not in str(exc):
            raise Violation("failed with something else", error=repr(exc)) from exc
    else:
        raise Violation("a failing plugin went unnoticed")
    finally:
        subj.close_all()
    ctx.count("after_failure")
    return 0


def run(ctx, pipe, how, path, base):
    rng = ctx.rng
    conf = dict(pipe.conf)
    if how == "default":
        pipe.source.close()
        with open(os.path.join(base, "c.yaml"), "w", encoding="utf-8") as fh:
            yaml.safe_dump({"source": pipe.source.config(), "sampler": conf}, fh)
        with open(os.path.join(base, "plan.yaml"), "w", encoding="utf-8") as fh:
            yaml.safe_dump(pipe.sub.doc, fh)
        ctx.judging()
        code, _out, err = cli.inproc(["-c", "c.yaml", "sample"], base)
        if code:
            raise Violation(f"exit status {code}", err=err[-600:])
        ctx.count("default_directory")
        return
    conf["output"] = {"mode": "directory", "directory": path + "/" if how == "slash" else path}
    cwd = os.getcwd()
    if how == "relative":
        conf["output"]["directory"] = rng.choice(["rel", "./rel", "x/../rel"])
        os.makedirs(os.path.join(base, "x"), exist_ok=True)
        os.chdir(base)
    try:
        # (there is nothing to create or truncate)
        scen.run_sample(ctx, pipe.source, None, conf, pipe.sub.plan_obj, truncate=rng.random() < 0.2)
    finally:
        os.chdir(cwd)


def judge(ctx, pipe, path, delivered):
    total = 0
    names = {f"{scen.full(k)}.json" for k in pipe.keys}
    have = {n for n in os.listdir(path) if n != "notes.txt"}
    if have != names:
        raise Violation("other files than one for each table", got=sorted(have), want=sorted(names))
    for key in pipe.keys:
        table = pipe.world.tables[key]
        cols = [n for n in table.names() if n not in pipe.omitted(key)]
        rows = parse(os.path.join(path, f"{scen.full(key)}.json"))
        compare(ctx, key, table, cols, delivered[key], rows)
        ctx.count("files")
        ctx.count("empty_files", not rows)
        ctx.count("batch_tables", len(rows) > 1024)
        ctx.count("omitted", len(cols) < len(table.names()))
        total += len(rows)
    ctx.count("multiplied", "multiplicity" in pipe.conf)
    ctx.count("compacted", "compact" in pipe.conf)
    return total
