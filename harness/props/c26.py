"""C26: the command line reports success truthfully and layers configuration."""

import copy
import json
import os
import random

import yaml

import cli
import predict
import scen
import subj
from props.pipeline import Pipe, avoid_conflicts, small_shape
from runner import Skip, Violation

CONF = {
    "cases": {"quick": 420, "thorough": 9000},
    "cap": {"quick": 36, "thorough": 800},
    "case_limit": 120,
    "rule": "the real command line in this and in child processes: plan (to files, stdout, verbose), sample (plan from default name, file, stdin), subset; "
    "configurations cut into up to four layers with decoy values that later layers override, one of them on stdin or under the default name; failures "
    "of every stage (arguments, files, documents, connections, data, full disks, unwritable outputs); exit status, streams and effects are compared "
    "with the prediction; non-trivial: the command did work or failed as it had to",
    "need": {"plans_stdout": 5, "plans_file": 4, "sampled": 10, "subsets": 10, "layered": 21, "decoys": 35, "failures": 20, "children": 29,
             "plan_stdin": 8, "config_stdin": 6, "verbose": 7, "data_failures": 4, "rows_compared": 139},
}
KINDS = ["plan", "sample", "subset", "layers", "failure", "layers", "data", "failure"]


def dump(path, name, data):
    with open(os.path.join(path, name), "w", encoding="utf-8") as fh:
        yaml.safe_dump(data, fh, sort_keys=False, allow_unicode=random.Random(name).random() < 0.5)


def text(data):
    return yaml.safe_dump(data, sort_keys=False)


class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        self.path = scen.scratch_dir(ctx, "cli")

    def __call__(self, argv, stdin="", env=None, child=None):
        ctx = self.ctx
        if child is None:
            child = ctx.rng.random() < 0.35
        ctx.count("children", child)
        self.argv = argv
        ctx.info["argv"] = argv
        ctx.judging()
        result = (cli.child if child else cli.inproc)(argv, self.path, stdin=stdin, env=env)
        self.code, self.out, self.err = result
        return result

    def failed(self, what, quiet=True):
        """Exit status, message and silence of a failure."""
        if self.code == 0:
            raise Violation(f"exit status 0 although {what}", argv=self.argv, err=self.err[-500:])
        if not self.err.strip():
            raise Violation(f"no error on stderr although {what}", argv=self.argv)
        if self.out.strip() and quiet:
            raise Violation(f"output on stdout although {what}", argv=self.argv, out=self.out[:300])
        verbose = any(a.startswith("-v") or a == "--verbose" for a in self.argv)
        if "Traceback" in self.err and not verbose:
            raise Violation(f"a traceback without asking for it ({what})", argv=self.argv, err=self.err[-800:])

    def worked(self):
        if self.code != 0:
            raise Violation(f"exit status {self.code}", argv=self.argv, err=self.err[-900:])


def setup(ctx, *, dest=True):
    rng = ctx.rng
    pipe = Pipe(ctx, small_shape(rng, rows=(0, 8), tables=(1, 4), big=0.0), cross=0.15, passthrough=0.25, knobs=0.1)
    pipe.gen_filters(tables=0.4, omit=False)
    if rng.random() < 0.3:
        pipe.gen_compact()
    if rng.random() < 0.25:
        pipe.gen_multiplicity()
        pipe.conf["multiplicity"].pop("ignore_primary_key_columns", None)
    try:
        delivered = pipe.model().delivered()
        for key in pipe.keys:
            vals = [tuple(r.get(c) for c in pipe.world.tables[key].pk) for r in delivered[key]]
            if vals and vals[0] and len(set(vals)) != len(vals):
                raise Skip("settings duplicate keys")
            table = pipe.world.tables[key]
            if any(row.get(col.name) is None for row in delivered[key] for col in table.cols if not col.nullable and col.name not in pipe.omitted(key)):
                raise Skip("an ignored relation leaves nothing to number")
    except predict.Refused:
        pipe.conf.pop("compact", None)
        pipe.conf.pop("multiplicity", None)
        delivered = pipe.model().delivered()
    if dest:
        pipe.make_dest(fks="none", uniques=False, autoinc=False)
        if rng.random() < 0.5:
            pipe.fill_dest(shape=small_shape(rng, rows=(1, 4)))
            pipe.put_existing()
        pipe.conf["output"] = pipe.dest.output()
        pipe.dest.endpoint.close()
    pipe.source.close()
    pipe.delivered = delivered
    return pipe


def unordered(item, name=""):
    if isinstance(item, dict):
        return {k: unordered(v, k) for k, v in item.items()}
    if isinstance(item, list):
        items = [unordered(v) for v in item]
        return sorted(items, key=lambda v: json.dumps(v, sort_keys=True, default=str)) if name in ("conditions", "statements", "joins") else items
    return item


def same_plan(doc, want):
    if not isinstance(doc, dict):
        return False
    # (the order of mappings decides that of conditions, and layering changes it)
    doc, want = unordered(doc), unordered(want)
    for item in (doc, want):
        item["passthrough"] = sorted(item.get("passthrough", []))
    return doc == want


def check_dest(ctx, pipe, delivered=None):
    delivered = pipe.delivered if delivered is None else delivered
    for key in pipe.keys:
        pipe.compare(key, delivered[key], "the command reported success, but the contents are wrong")
        ctx.count("rows_compared", len(delivered[key]))
    pipe.dest.endpoint.close()


def verbosity(ctx, argv):
    roll = ctx.rng.random()
    if roll < 0.25:
        ctx.count("verbose")
        return [ctx.rng.choice(["-v", "--verbose", "-vv", "-vvv"]), *argv]
    return argv


def case_plan(ctx, run):
    rng = ctx.rng
    pipe = setup(ctx, dest=rng.random() < 0.4)
    conf = {"source": pipe.source.config(), "planner": pipe.sub.cfg}
    if "output" in pipe.conf:
        conf["sampler"] = pipe.conf
    name = rng.choice(["subsetter.yaml", "other.yml", "dir/c.yaml"])
    os.makedirs(os.path.join(run.path, "dir"), exist_ok=True)
    dump(run.path, name, conf)
    argv = [] if name == "subsetter.yaml" and rng.random() < 0.7 else [rng.choice(["-c", "--config"]), name]
    argv = verbosity(ctx, argv) + ["plan"]
    if rng.random() < 0.5:
        target = rng.choice(["plan.yaml", "dir/p.yaml"])
        if rng.random() < 0.5:
            with open(os.path.join(run.path, target), "w", encoding="utf-8") as fh:
                fh.write("old: " + "stuff " * 4000)
        run(argv + [rng.choice(["-o", "--output"]), target])
        run.worked()
        if run.out.strip():
            raise Violation("output on stdout although the plan goes to a file", out=run.out[:300])
        with open(os.path.join(run.path, target), encoding="utf-8") as fh:
            got = fh.read()
        ctx.count("plans_file")
    else:
        run(argv)
        run.worked()
        got = run.out
        ctx.count("plans_stdout")
    try:
        doc = yaml.safe_load(got)
    except yaml.YAMLError as exc:
        raise Violation("the plan is no YAML document", text=got[:400]) from exc
    if not same_plan(doc, pipe.sub.doc):
        raise Violation("the plan written is not the plan", got=doc, want=pipe.sub.doc)
    # the sample command takes it as it is
    pipe.conf["output"] = {"mode": "directory", "directory": "out"}
    dump(run.path, "s.yaml", {"source": pipe.source.config(), "sampler": pipe.conf})
    if rng.random() < 0.5:
        run(["-c", "s.yaml", "sample", "--plan", "-"], stdin=got)
        ctx.count("plan_stdin")
    else:
        with open(os.path.join(run.path, "p2.yaml"), "w", encoding="utf-8") as fh:
            fh.write(got)
        run(["-c", "s.yaml", "sample", "-p", "p2.yaml"])
    run.worked()
    check_files(ctx, pipe, os.path.join(run.path, "out"))
    ctx.sign("plan", argv, scen.signature_of(pipe.world, pipe.sub.cfg))


def check_files(ctx, pipe, path):
    for key in pipe.keys:
        names = [n for n in pipe.world.tables[key].names() if n not in pipe.omitted(key)]
        with open(os.path.join(path, f"{scen.full(key)}.json"), encoding="utf-8") as fh:
            rows = [json.loads(line) for line in fh.read().split("\n")[:-1]]
        want = scen.ident_rows(pipe.delivered[key], names)
        got = scen.ident_rows(rows, names)
        if got != want:
            raise Violation(f"wrong rows in the output directory: {scen.full(key)}", **scen.diff(want, got))
        ctx.count("rows_compared", len(rows))


def case_sample(ctx, run):
    rng = ctx.rng
    pipe = setup(ctx)
    dump(run.path, "c.yaml", {"source": pipe.source.config(), "sampler": pipe.conf})
    argv = verbosity(ctx, ["-c", "c.yaml"]) + ["sample"]
    doc = pipe.sub.doc
    stdin = ""
    how = rng.choice(["default", "name", "stdin"])
    if how == "default":
        dump(run.path, "plan.yaml", doc)
    elif how == "name":
        dump(run.path, "p q.yml", doc)
        argv += [rng.choice(["-p", "--plan"]), "p q.yml"]
    else:
        argv += ["--plan", "-"]
        stdin = text(doc)
        ctx.count("plan_stdin")
    if any(pipe.existing.values()):
        argv.append("--truncate")
    if rng.random() < 0.2 and pipe.dest_dialect == pipe.dialect:
        argv.append("--create")
    run(argv, stdin=stdin)
    run.worked()
    quiet_stdout(run)
    ctx.count("sampled")
    check_dest(ctx, pipe)
    ctx.sign("sample", how, argv[2:], scen.signature_of(pipe.world, pipe.sub.cfg))


def quiet_stdout(run):
    if run.out.strip():
        raise Violation("output on stdout", argv=run.argv, out=run.out[:300])


def case_subset(ctx, run):
    rng = ctx.rng
    pipe = setup(ctx)
    dump(run.path, "c.yaml", {"source": pipe.source.config(), "planner": pipe.sub.cfg, "sampler": pipe.conf})
    argv = verbosity(ctx, ["-c", "c.yaml"]) + ["subset"]
    if any(pipe.existing.values()):
        argv.append("--truncate")
    run(argv)
    run.worked()
    quiet_stdout(run)
    ctx.count("subsets")
    check_dest(ctx, pipe)
    ctx.sign("subset", argv[2:], scen.signature_of(pipe.world, pipe.sub.cfg))


# -- layers ------------------------------------------------------------------------------

def decoy(rng, value):
    """Something a later layer has to replace."""
    if isinstance(value, dict):
        return rng.choice([None, 7, "x", ["a"]])
    return rng.choice([None, "decoy~", 99, ["decoy"], {"decoy": 1}, {"mode": "nothing", "x": [1]}, True])


def cut(ctx, conf, count):
    """Layers whose merge is `conf`."""
    rng = ctx.rng
    layers = [{} for _ in range(count)]

    def put(layer, path, value):
        node = layers[layer]
        for part in path[:-1]:
            nxt = node.get(part)
            if not isinstance(nxt, dict):
                nxt = node[part] = {}
            node = nxt
        node[path[-1]] = value

    def spread(path, value, first):
        if isinstance(value, dict) and value and rng.random() < 0.75:
            # all parts have to come after a decoy of the whole
            if path and rng.random() < 0.1 and first < count - 1:
                put(first, path, decoy(rng, value))
                ctx.count("decoys")
                first += 1
            for name, val in rng.sample(list(value.items()), k=len(value)):
                spread(path + [name], val, first)
            return
        layer = rng.randint(first, count - 1)
        if layer > first and rng.random() < 0.5:
            # (a mapping in an earlier layer would be merged, not replaced)
            fake = decoy(rng, value)
            if not (isinstance(fake, dict) and isinstance(value, dict)):
                put(rng.randint(first, layer - 1), path, fake)
                ctx.count("decoys")
        put(layer, path, copy.deepcopy(value))

    for name, val in conf.items():
        spread([name], val, 0)
    return layers


def merged(lhs, rhs):
    if isinstance(lhs, dict) and isinstance(rhs, dict):
        return {k: merged(lhs[k], rhs[k]) if k in lhs and k in rhs else (rhs if k in rhs else lhs)[k] for k in {**lhs, **rhs}}
    return rhs


def case_layers(ctx, run):
    rng = ctx.rng
    pipe = setup(ctx)
    conf = {"source": pipe.source.config(), "planner": pipe.sub.cfg, "sampler": pipe.conf}
    for _ in range(20):
        layers = cut(ctx, conf, rng.choice([2, 2, 3, 4]))
        total = layers[0]
        for layer in layers[1:]:
            total = merged(total, layer)
        if total == conf:
            break
    else:
        raise Skip("no layering found")
    argv, stdin = [], ""
    use_stdin = rng.randrange(len(layers)) if rng.random() < 0.4 else -1
    for num, layer in enumerate(layers):
        if num == use_stdin:
            stdin = text(layer)
            argv += ["-c", "-"]
            ctx.count("config_stdin")
            continue
        name = f"layer{num}.{rng.choice(['yaml', 'yml', 'json'])}"
        if name.endswith("json"):
            with open(os.path.join(run.path, name), "w", encoding="utf-8") as fh:
                json.dump(layer, fh)
        else:
            dump(run.path, name, layer)
        argv += [rng.choice(["-c", "--config"]), name]
    # (the default name is not read if others are given)
    if rng.random() < 0.5:
        dump(run.path, "subsetter.yaml", {"source": {"dialect": "nothing"}, "colour": 1})
    ctx.info["layers"] = layers
    if rng.random() < 0.6:
        run(argv + ["subset"] + ["--truncate"] * bool(any(pipe.existing.values())), stdin=stdin)
        run.worked()
        check_dest(ctx, pipe)
    else:
        run(argv + ["plan"], stdin=stdin)
        run.worked()
        if not same_plan(yaml.safe_load(run.out), pipe.sub.doc):
            raise Violation("layered configuration gives another plan", got=run.out[:600], want=pipe.sub.doc)
    ctx.count("layered")
    ctx.sign("layers", len(layers), use_stdin, scen.signature_of(pipe.world, pipe.sub.cfg), [sorted(map(str, layer)) for layer in layers])


# -- failures ----------------------------------------------------------------------------

def case_failure(ctx, run):
    rng = ctx.rng
    pipe = setup(ctx)
    conf = {"source": pipe.source.config(), "planner": pipe.sub.cfg, "sampler": pipe.conf}
    before = pipe.dest.endpoint.full_dump()
    pipe.dest.endpoint.close()
    dump(run.path, "plan.yaml", pipe.sub.doc)
    how = rng.choice(["arguments", "no config", "config dir", "config yaml", "config type", "config bytes", "config setting", "no plan", "plan dir", "plan yaml",
                      "plan type", "no planner", "connection", "dest connection", "full stdout", "full file", "no directory", "cycle", "second config", "empty stdin"])
    command = rng.choice(["plan", "sample", "subset"])
    argv, stdin, child = ["-c", "c.yaml"], "", None
    raw = None
    if how == "arguments":
        argv = rng.choice([["plan", "--nosuch"], ["-c", "c.yaml"], ["nosuch"], ["-c"], ["-c", "c.yaml", "plan", "extra"], ["-c", "c.yaml", "sample", "-o", "x"],
                           ["-c", "c.yaml", "subset", "--plan", "p"], ["-c", "c.yaml", "plan", "--truncate"]])
        command = None
    elif how == "no config":
        argv = rng.choice([["-c", "missing.yaml"], []])
    elif how == "config dir":
        os.makedirs(os.path.join(run.path, "d"))
        argv = ["-c", "d"]
    elif how == "config yaml":
        raw = rng.choice([b"a: [1, 2\n", b"\tx: 1", b"a: b: c\n", b"source: {dialect: sqlite"])
    elif how == "config type":
        raw = rng.choice([b"- a\n- b\n", b"just text\n", b"", b"# nothing\n", b"3\n"])
    elif how == "config bytes":
        raw = rng.choice([b"a: \xff\xfe\n", b"\x00\x01", b"a: \x07\n"])
    elif how == "config setting":
        conf = {**conf, "sampler": {**conf["sampler"], "colour": 1}}
    elif how == "no plan":
        os.unlink(os.path.join(run.path, "plan.yaml"))
        command = "sample"
    elif how == "plan dir":
        os.unlink(os.path.join(run.path, "plan.yaml"))
        os.makedirs(os.path.join(run.path, "plan.yaml"))
        command = "sample"
    elif how in ("plan yaml", "plan type"):
        with open(os.path.join(run.path, "plan.yaml"), "w", encoding="utf-8") as fh:
            fh.write(rng.choice(["a: [1\n", "\t"] if how == "plan yaml" else ["[]\n", "queries: 3\n", "", "quories: {}\n", "queries: {a.b: {}}\n", "text\n"]))
        command = "sample"
    elif how == "no planner":
        conf = {k: v for k, v in conf.items() if k != "planner"}
        command = rng.choice(["plan", "subset"])
    elif how == "connection":
        conf["source"] = rng.choice([{"dialect": "sqlite", "database": "/nonexistent/dir/x.db"}, {"dialect": "postgres", "host": "127.0.0.1", "port": 1, "database": "x", "username": "y"},
                                     {"dialect": "mysql", "host": "127.0.0.1", "port": 1, "username": "y", "password": "z"}])
    elif how == "dest connection":
        conf["sampler"] = {**conf["sampler"], "output": {"mode": "database", "dialect": rng.choice(["postgres", "mysql"]), "host": "127.0.0.1", "port": 1, "username": "x"}}
        command = rng.choice(["sample", "subset"])
    elif how == "full stdout":
        command = "plan"
    elif how == "full file":
        command = "plan"
    elif how == "no directory":
        command = "plan"
    elif how == "cycle":
        conf["planner"] = {**conf["planner"], "targets": {"no.such": {"all": True}}}
        command = rng.choice(["plan", "subset"])
    elif how == "second config":
        argv = ["-c", "c.yaml", "-c", "missing.yaml"]
    elif how == "empty stdin":
        argv = ["-c", "-"]
    if raw is not None:
        with open(os.path.join(run.path, "c.yaml"), "wb") as fh:
            fh.write(raw)
    else:
        dump(run.path, "c.yaml", conf)
    if rng.random() < 0.15:
        argv = [rng.choice(["-v", "-vv"]), *argv]
    argv = argv + ([command] if command else [])
    if command == "sample" and rng.random() < 0.3 and how not in ("no plan", "plan dir"):
        argv.append("--truncate")
    if how == "full file":
        argv += ["-o", "/dev/full"]
    elif how == "no directory":
        argv += ["-o", "missing/dir/plan.yaml"]
    elif how == "full stdout":
        return full_stdout(ctx, run, argv)
    ctx.info["failure"] = how
    run(argv, stdin=stdin, child=child)
    run.failed(how)
    if how in ("config yaml", "config type") and "onfig" not in run.err and "YAML" not in run.err and "rror" not in run.err:
        raise Violation("the message does not mention the problem", err=run.err[-300:])
    if pipe.dest.endpoint.full_dump() != before:
        raise Violation(f"the destination changed ({how})", argv=argv)
    ctx.count("failures")
    ctx.count(f"failure.{how}")
    ctx.sign("failure", how, command, argv, scen.signature_of(pipe.world, pipe.sub.cfg))


def full_stdout(ctx, run, argv):
    import subprocess  # pylint: disable=import-outside-toplevel

    env = {k: v for k, v in os.environ.items() if not k.startswith(("SUBSET_", "PYTHON"))}
    env.update(PYTHONPATH=subj.REPO, PYTHONDONTWRITEBYTECODE="1")
    ctx.judging()
    with open("/dev/full", "w", encoding="ascii") as full:
        proc = subprocess.run([cli.PYTHON, "-W", "ignore", "-m", "subsetter", *argv], cwd=run.path, env=env, stdout=full, stderr=subprocess.PIPE,
                              text=True, timeout=100, check=False)
    if proc.returncode == 0:
        raise Violation("exit status 0 although the plan could not be written to stdout", argv=argv)
    if not proc.stderr.strip():
        raise Violation("no error although the plan could not be written to stdout", argv=argv)
    ctx.count("failures")
    ctx.count("children")
    ctx.count("failure.full stdout")
    ctx.sign("failure", "full stdout", argv, ctx.index)


def case_data(ctx, run):
    """Failures in the middle of the work."""
    rng = ctx.rng
    pipe = setup(ctx)
    how = rng.choice(["conflict", "conflict", "full file", "file as directory", "type", "not null"])
    keys = [k for k in pipe.keys if pipe.delivered[k]]
    rng.shuffle(keys)
    conf = {"source": pipe.source.config(), "planner": pipe.sub.cfg, "sampler": pipe.conf}
    argv = ["-c", "c.yaml", rng.choice(["sample", "subset"])]
    dump(run.path, "plan.yaml", pipe.sub.doc)
    if how == "conflict":
        keys = [k for k in keys if pipe.world.tables[k].pk]
        if not keys:
            raise Skip("no key to collide with")
        pipe.existing = {keys[0]: [rng.choice(pipe.delivered[keys[0]])]}
        pipe.make_dest(fks="none", uniques=False, autoinc=False)
        pipe.put_existing()
        pipe.conf["output"] = pipe.dest.output()
    elif how == "not null":
        col = next(((k, c) for k in keys for c in pipe.free_cols(k) if any(r.get(c) is None for r in pipe.delivered[k])), None)
        if col is None:
            raise Skip("no null")
        table = pipe.world.tables[col[0]]
        table.col(col[1]).nullable = False
        pipe.existing = {}
        pipe.make_dest(fks="none", uniques=False, autoinc=False)
        table.col(col[1]).nullable = True
        pipe.conf["output"] = pipe.dest.output()
    elif how == "type":
        key = keys[0] if keys else None
        cols = [c for c in pipe.free_cols(key) if pipe.world.tables[key].col(c).kind in ("int", "bigint")] if key else []
        if not cols or pipe.dest_dialect == "sqlite":
            raise Skip("nothing to put a wrong type into")
        pipe.existing = {}
        pipe.make_dest(fks="none", uniques=False, autoinc=False)
        conf["sampler"] = {**pipe.conf, "output": pipe.dest.output(), "filters": {**pipe.conf.get("filters", {}), scen.full(key): [
            {"op": "constant", "columns": cols[:1], "values": ["no number"]}]}}
    elif how == "full file":
        os.makedirs(os.path.join(run.path, "out"))
        if not keys:
            raise Skip("no rows")
        os.symlink("/dev/full", os.path.join(run.path, "out", f"{scen.full(keys[0])}.json"))
        pipe.conf["output"] = {"mode": "directory", "directory": "out"}
    else:
        with open(os.path.join(run.path, "out"), "w", encoding="ascii"):
            pass
        pipe.conf["output"] = {"mode": "directory", "directory": rng.choice(["out", "out/below"])}
    pipe.dest.endpoint.close()
    dump(run.path, "c.yaml", conf)
    ctx.info.update(failure=how, sampler=conf["sampler"])
    run(argv)
    run.failed(how)
    ctx.count("data_failures")
    ctx.count(f"failure.{how}")
    ctx.sign("data", how, argv, scen.signature_of(pipe.world, pipe.sub.cfg))


CASES = {"plan": case_plan, "sample": case_sample, "subset": case_subset, "layers": case_layers, "failure": case_failure, "data": case_data}


def case(ctx):
    kind = KINDS[ctx.index % len(KINDS)]
    run = Run(ctx)
    CASES[kind](ctx, run)
    ctx.nontrivial = True
    if ctx.index < len(KINDS):
        ctx.sample = {"kind": kind, "argv": getattr(run, "argv", None), "exit_status": getattr(run, "code", None)}
