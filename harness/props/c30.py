"""C30: concurrent runs do not interfere and leave nothing behind."""

import copy
import json
import os
import subprocess
import time

import yaml

import cli
import predict
import scen
import subj
from props.pipeline import Pipe, small_shape
from runner import Skip, Violation
from threads import Interleaver

CONF = {
    "cases": {"quick": 200, "thorough": 4500},
    "cap": {"quick": 38, "thorough": 820},
    "case_limit": 150,
    "rule": "two to four plannings and samplings of one source at the same time with different plans, transformations and destinations of all kinds: in threads "
    "whose turns are decided at every statement, and as child processes of the command line; runs of the same planner, plan and sampler objects "
    "again and again, also after failed runs; every destination is compared with the predicted one, the source's catalogue, contents and temporary objects with "
    "those before; non-trivial: at least two runs overlapped or followed each other",
    "need": {"concurrent": 24, "switches": 1500, "processes": 8, "repeated": 27, "after_failure": 5, "rows_compared": 2090, "materialised": 60,
             "sources_compared": 40},
}


def settings(ctx, pipe):
    rng = ctx.rng
    for _ in range(10):
        pipe.conf = {}
        if rng.random() < 0.5:
            pipe.gen_filters(tables=0.4, omit=False)
        if rng.random() < 0.4:
            pipe.gen_compact(columns=False)
        if rng.random() < 0.3:
            pipe.gen_multiplicity()
            pipe.conf["multiplicity"].pop("ignore_primary_key_columns", None)
        try:
            delivered = pipe.model().delivered()
        except (predict.Refused, TypeError):
            continue
        bad = False
        for key in pipe.keys:
            table = pipe.world.tables[key]
            vals = [tuple(r[c] for c in table.pk) for r in delivered[key]] if table.pk else []
            bad = bad or len(set(vals)) != len(vals)
            bad = bad or any(r.get(c.name) is None for r in delivered[key] for c in table.cols if not c.nullable)
        if not bad:
            pipe.delivered = delivered
            return
    raise Skip("no settings found")


def destination(ctx, pipe, num):
    rng = ctx.rng
    if rng.random() < 0.35:
        pipe.directory = scen.scratch_dir(ctx, f"out{num}")
        pipe.conf["output"] = {"mode": "directory", "directory": pipe.directory}
    else:
        pipe.directory = None
        pipe.make_dest(fks="none", uniques=False, autoinc=False)
        pipe.conf["output"] = pipe.dest.output()
        pipe.dest.endpoint.close()


def judge(ctx, pipe, what, times=1):
    for key in pipe.keys:
        names = pipe.world.tables[key].names()
        want = scen.ident_rows(pipe.delivered[key] * times, names)
        if pipe.directory:
            with open(os.path.join(pipe.directory, f"{scen.full(key)}.json"), encoding="utf-8") as fh:
                got = scen.ident_rows([json.loads(line) for line in fh.read().split("\n")[:-1]], names)
        else:
            got = scen.ident_rows([dict(zip(names, r)) for r in pipe.dest.read(key, names)], names)
        if got != want:
            raise Violation(f"{what}: wrong contents of {scen.full(key)}", columns=names, sampler=pipe.conf, **scen.diff(want, got))
        ctx.count("rows_compared", sum(want.values()))
    if not pipe.directory:
        pipe.dest.endpoint.close()


def source_state(pipe):
    state = pipe.source.full_dump()
    pipe.source.close()
    return state


def check_source(ctx, pipe, before):
    """Nothing is left in the source."""
    if pipe.dialect == "postgres":
        query = "SELECT n.nspname, c.relname FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE c.relpersistence = 't' AND c.relkind = 'r'"
        end = time.monotonic() + 10
        while True:
            left = pipe.source.rows(query)
            if not left:
                break
            if time.monotonic() > end:
                raise Violation("temporary tables remain in the source", tables=left)
            time.sleep(0.05)
    after = source_state(pipe)
    if after != before:
        raise Violation("the source changed", keys=[k for k in {**before, **after} if before.get(k) != after.get(k)])
    if pipe.dialect == "sqlite":
        odd = [n for n in os.listdir(pipe.source.dir) if not n.endswith(".db")]
        if odd:
            raise Violation("files are left beside the source", files=odd)
    ctx.count("sources_compared")


def materialised(pipe):
    return json.dumps(pipe.sub.doc).count('"sampled": true')


def same(doc, want):
    doc, want = copy.deepcopy(doc), copy.deepcopy(want)
    for item in (doc, want):
        item["passthrough"] = sorted(item.get("passthrough", []))
    return doc == want


def start(ctx, **kw):
    rng = ctx.rng
    shape = small_shape(rng, rows=(1, 12), tables=(3, 7), neg_ids=0.0, shared_cols=0.0, big=0.15 if ctx.index % 9 == 4 else 0.0, **kw)
    return Pipe(ctx, shape, cross=0.3, passthrough=0.3, knobs=0.05)


def concurrent(ctx):
    rng = ctx.rng
    first = start(ctx)
    pipes = [first]
    for num in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.3:  # the same plan, other settings
            twin = copy.copy(first)
            twin.role, twin.conf, twin.gone, twin.computed = "efg"[num], {}, {}, {}
            pipes.append(twin)
        else:
            pipes.append(first.another("efg"[num], passthrough=0.3, knobs=0.05, dest_dialect=rng.choice(ctx.bench.dialects()) if rng.random() < 0.3 else None))
    for num, pipe in enumerate(pipes):
        settings(ctx, pipe)
        destination(ctx, pipe, num)
    before = source_state(first)
    source = first.source.config()
    shared = subj.load_plan(first.sub.doc)
    ctx.info["samplers"] = [p.conf for p in pipes]
    ctx.info["planners"] = [p.sub.cfg for p in pipes]

    failing = rng.randrange(len(pipes)) if rng.random() < 0.2 and len(pipes) > 2 else -1
    if failing >= 0:
        pipe = pipes[failing]
        keys = [k for k in pipe.keys if pipe.samples[k]]
        if keys:
            key = rng.choice(keys)
            pipe.conf.setdefault("filters", {})[scen.full(key)] = [{
                "op": "plugin", "module": "plug", "class": "Fail", "columns": pipe.world.tables[key].names()[:1], "kwargs": {"after": rng.randint(0, 2)}}]
            if not any(c["op"] == "plugin" for c in pipe.conf["filters"][scen.full(key)]):
                failing = -1
            pipe.expect_error = True
        else:
            failing = -1

    def job(pipe):
        plan_too = rng.random() < 0.5

        def body():
            if plan_too:
                plan = subj.plan(source, pipe.sub.cfg)
                if not same(subj.dump_plan(plan), pipe.sub.doc):
                    raise Violation("another plan than alone", planner=pipe.sub.cfg, got=subj.dump_plan(plan), want=pipe.sub.doc)
            else:
                plan = shared if pipe.sub is first.sub else subj.load_plan(pipe.sub.doc)
            subj.sample(source, pipe.conf, plan)
        return body

    sched = Interleaver(rng.random())
    ctx.judging()
    results = sched.run([job(p) for p in pipes])
    subj.close_all()
    ctx.info["schedule"] = sched.trace[:400]
    for num, (pipe, (how, exc)) in enumerate(zip(pipes, results)):
        if num == failing and how == "error" and "plugin fails" in str(exc):
            ctx.count("after_failure")
            continue
        if how == "hangs":
            raise Violation("a run does not end while others run", schedule=sched.trace[-50:])
        if how == "error":
            if isinstance(exc, Violation):
                raise exc
            raise Violation(f"a run fails while others run: {type(exc).__name__}: {exc}"[:600], sampler=pipe.conf) from exc
        if num != failing:
            judge(ctx, pipe, "while others ran")
    check_source(ctx, first, before)
    if not same(subj.dump_plan(shared), first.sub.doc):
        raise Violation("sampling changed the plan object")
    ctx.count("concurrent")
    ctx.count("switches", sched.switches())
    ctx.count("blocked", sched.stuck)
    ctx.count("materialised", sum(materialised(p) for p in pipes))
    ctx.nontrivial = sched.switches() > 1
    ctx.sign(scen.signature_of(first.world, first.sub.cfg), [p.sub.cfg for p in pipes], sched.trace)
    return {"kind": "threads", "runs": len(pipes), "switches": sched.switches(), "schedule": sched.trace[:60]}


def processes(ctx):
    rng = ctx.rng
    first = start(ctx)
    pipes = [first, first.another("e", passthrough=0.3)]
    if rng.random() < 0.5:
        pipes.append(first.another("f"))
    base = scen.scratch_dir(ctx, "procs")
    source = first.source.config()
    for num, pipe in enumerate(pipes):
        settings(ctx, pipe)
        destination(ctx, pipe, num)
        with open(os.path.join(base, f"{num}.yaml"), "w", encoding="utf-8") as fh:
            yaml.safe_dump({"source": source, "planner": pipe.sub.cfg, "sampler": pipe.conf}, fh)
    before = source_state(first)
    ctx.info["samplers"] = [p.conf for p in pipes]
    ctx.info["planners"] = [p.sub.cfg for p in pipes]
    env = {k: v for k, v in os.environ.items() if not k.startswith(("SUBSET_", "PYTHON"))}
    env.update(PYTHONPATH=f"{subj.REPO}:{os.path.dirname(os.path.abspath(cli.__file__))}", PYTHONDONTWRITEBYTECODE="1")
    ctx.judging()
    procs = [subprocess.Popen([cli.PYTHON, "-W", "ignore", "-m", "subsetter", "-c", f"{num}.yaml", "subset"], cwd=base, env=env, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True) for num in range(len(pipes))]
    try:
        for num, proc in enumerate(procs):
            _out, err = proc.communicate(timeout=100)
            if proc.returncode:
                raise Violation(f"exit status {proc.returncode} while others run", err=err[-800:], sampler=pipes[num].conf)
    finally:
        for proc in procs:
            if proc.poll() is None:
                proc.kill()
                proc.communicate()
    for pipe in pipes:
        judge(ctx, pipe, "while other processes ran")
    check_source(ctx, first, before)
    ctx.count("processes", len(procs))
    ctx.count("materialised", sum(materialised(p) for p in pipes))
    ctx.nontrivial = True
    ctx.sign(scen.signature_of(first.world, first.sub.cfg), [p.sub.cfg for p in pipes])
    return {"kind": "processes", "runs": len(procs)}


def repeated(ctx):
    """The same objects again."""
    rng = ctx.rng
    pipe = start(ctx)
    settings(ctx, pipe)
    destination(ctx, pipe, 0)
    if not pipe.directory:
        pipe.conf["output"].pop("conflict_strategy", None)
    before = source_state(pipe)
    source = pipe.source.config()
    ctx.info["sampler"] = pipe.conf
    doc = pipe.sub.doc
    ctx.judging()
    runs = rng.choice([2, 2, 3])
    try:
        planner = subj.Planner(subj.DatabaseConfig.model_validate(source), subj.PlannerConfig.model_validate(pipe.sub.cfg))
        for _ in range(runs):
            plan = planner.plan()
            if not same(subj.dump_plan(plan), doc):
                raise Violation("planning again gives another plan", got=subj.dump_plan(plan), want=doc)
        broken = rng.random() < 0.35
        sampler = subj.Sampler(subj.DatabaseConfig.model_validate(source), subj.SamplerConfig.model_validate(pipe.conf))
        if broken:
            interrupt(ctx, pipe, sampler, plan)
        for num in range(runs):
            how = f"run {num + 1} of the same sampler" + (" after a failed one" if broken else "")
            try:
                sampler.sample(plan, truncate=bool(num or broken))
            except Exception as exc:
                raise Violation(f"{how} fails: {type(exc).__name__}: {exc}"[:600], sampler=pipe.conf) from exc
            judge(ctx, pipe, how)
            ctx.count("repeated")
            if rng.random() < 0.5:
                check_shared(pipe)
        if not same(subj.dump_plan(plan), doc):
            raise Violation("sampling changed the plan object")
    finally:
        subj.close_all()
    check_source(ctx, pipe, before)
    ctx.count("materialised", materialised(pipe) * runs)
    ctx.nontrivial = True
    ctx.sign("again", scen.signature_of(pipe.world, pipe.sub.cfg), pipe.conf.get("compact"), broken, runs)
    return {"kind": "repeated", "runs": runs, "after_failure": broken}


def check_shared(pipe):
    """While the sampler object lives, other clients see nothing of it in the source."""
    have = set(pipe.source.tables())
    extra = have - set(pipe.world.tables)
    pipe.source.close()
    if extra:
        raise Violation("tables of the run are visible in the source", tables=sorted(extra))


def interrupt(ctx, pipe, sampler, plan):
    """Let a run of this sampler fail at a statement."""
    import sqlalchemy as sa  # pylint: disable=import-outside-toplevel

    left = [ctx.rng.randint(5, 60)]

    def before(*_args):
        left[0] -= 1
        if left[0] == 0:
            raise RuntimeError("injected failure")

    sa.event.listen(sa.engine.Engine, "before_cursor_execute", before)
    try:
        sampler.sample(plan)
    except RuntimeError as exc:
        if "injected" not in str(exc):
            raise Violation("failed with something else", error=repr(exc)) from exc
        ctx.count("after_failure")
    except Exception as exc:
        raise Violation(f"failed with something else: {exc!r}"[:500]) from exc
    finally:
        sa.event.remove(sa.engine.Engine, "before_cursor_execute", before)


def case(ctx):
    roll = ctx.index % 10
    sample = (processes if roll == 7 else repeated if roll % 3 == 2 else concurrent)(ctx)
    if ctx.index < 10:
        ctx.sample = sample
