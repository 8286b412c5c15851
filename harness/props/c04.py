"""C04: the planner plans exactly the connected tables or refuses."""

import random

import planoracle as po
import scen
import subj
from runner import Skip, Violation
from world import FK, Col, Shape, gen_world, install

CONF = {
    "cases": {"quick": 900, "thorough": 20000},
    "cap": {"quick": 38, "thorough": 800},
    "rule": "random schema graphs, a third of them with injected foreign key cycles or self references, and random (also invalid) "
    "planner configurations; every plan or refusal is compared with an independent graph model; plus direct runs of the "
    "ordering on random graphs; non-trivial: two or more tables planned, or a refusal",
    "need": {"plans_judged": 100, "refusals_judged": 50, "refused.cycle": 8, "refused.target": 3, "refused.fk": 10},
}


def add_cycle(rng, world):
    """Give an earlier table a foreign key to a later (or the same) one."""
    tables = [t for t in world.ordered() if t.pk]
    if not tables:
        return
    dst = rng.choice(tables)
    pool = [t for t in world.ordered() if world.dialect != "sqlite" or t.key[0] == dst.key[0]]
    src = rng.choice(pool) if rng.random() < 0.75 else dst
    names = {c.name.lower() for c in src.cols}
    cols = []
    for num, ref in enumerate(dst.pk):
        name = f"loop{len(src.fks)}_{num}"
        if name in names:
            return
        cols.append(name)
        src.cols.append(Col(name, dst.col(ref).kind, True))
        for row in src.rows:
            row[name] = None
    fk = FK(cols, dst.key, dst.pk)
    fk.late = True
    src.fks.append(fk)


def solver_cases(ctx):
    """The ordering itself, on graphs larger than databases comfortably allow."""
    try:
        from subsetter.solver import order_graph  # pylint: disable=import-outside-toplevel
    except ImportError:
        ctx.count("solver_not_available")
        return
    rng = ctx.rng
    for _ in range(60):
        n = rng.choice([2, 3, 4, 5, 6, 8, 12, 20])
        nodes = [f"t{i}" for i in range(n)]
        rng.shuffle(nodes)
        density = rng.choice([0.1, 0.2, 0.3, 0.5]) if n < 9 else rng.choice([0.05, 0.1, 0.15])
        graph = {u: set() for u in nodes}
        for i, u in enumerate(nodes):
            for v in nodes[:i]:
                if rng.random() < density:
                    graph[u].add(v)
        if rng.random() < 0.3:
            u, v = rng.choice(nodes), rng.choice(nodes)
            graph[u].add(v)
        targets = set(rng.sample(nodes, k=min(n, rng.choice([1, 1, 2, 3]))))
        graph[""] = set(targets)
        items = list(graph.items())
        rng.shuffle(items)
        graph = {u: set(v) for u, v in items}
        comp = set(targets)
        todo = list(targets)
        while todo:
            u = todo.pop()
            for v in list(graph[u]) + [w for w in nodes if u in graph[w]]:
                if v not in comp:
                    comp.add(v)
                    todo.append(v)
        left = set(comp)
        while True:
            free = {u for u in left if not graph[u] & left}
            if not free:
                break
            left -= free
        ctx.count("solver_graphs")
        ctx.judging()
        try:
            order = order_graph({u: set(v) for u, v in graph.items()}, "")
        except ValueError:
            if not left:
                raise Violation("an acyclic graph was refused", graph=graph)  # pylint: disable=raise-missing-from
            ctx.count("solver_cycles")
            continue
        if left:
            raise Violation("a cyclic graph was ordered", graph=graph, order=order)
        if order[0] != "" or sorted(order[1:]) != sorted(comp):
            raise Violation("ordering does not cover exactly the connected nodes", graph=graph, order=order)
        pos = {u: i for i, u in enumerate(order)}
        for u in order[1:]:
            fwd = [v for v in order if pos[v] < pos[u] and u in graph[v]]
            back = [v for v in graph[u] if pos[v] < pos[u]]
            if bool(fwd) == bool(back):
                raise Violation(f"node {u} is reached in {'both directions' if fwd else 'no direction'}",
                                graph=graph, order=order)


def case(ctx):
    rng = ctx.rng
    if ctx.index % 25 == 0:
        solver_cases(ctx)
    dialect = scen.pick_dialect(ctx, {"sqlite": 7, "postgres": 3, "mysql": 2})
    source = ctx.bench.get(dialect, "s")
    shape = Shape(rows=(0, 2), tables=(1, 9), null_fk=0.5)
    world = gen_world(rng, dialect, scen.schema_names(ctx, dialect), shape)
    if rng.random() < 0.4:
        for _ in range(rng.choice([1, 1, 2])):
            add_cycle(rng, world)
    install(world, source)
    ctx.info["world"] = world.describe()
    cfg, _ = scen._gen_planner_once(  # pylint: disable=protected-access
        rng, world, source, True, 0.35, 0.25, 0.25, 0.0, 3, 0.5)
    # break it now and then
    roll = rng.random()
    keys = list(world.tables)
    if roll < 0.06:
        cfg["targets"][rng.choice(["nosuch.table", keys[0][0] + ".missing"])] = {"all": True}
    elif roll < 0.12 and cfg.get("passthrough"):
        cfg["targets"][rng.choice(cfg["passthrough"])] = {"all": True}
    elif roll < 0.2:
        cfg["ignore"] = [scen.full(rng.choice(keys))]
    elif roll < 0.24:
        cfg["targets"] = {}
    elif roll < 0.27:
        cfg.setdefault("passthrough", []).append("nosuch.thing")
    elif roll < 0.33:
        cfg["select"] = [scen.full(rng.choice(keys))]
    graph = po.Graph(world, cfg)
    if "nosuch.thing" in cfg.get("passthrough", []):
        graph.passthrough.discard(("nosuch", "thing"))
    if graph.mistyped():
        raise Skip("relation between different types")
    ctx.info["planner"] = cfg
    ctx.judging()
    source.close()
    error = None
    plan = None
    try:
        plan = subj.plan(source.config(), cfg)
    except Exception as exc:  # pylint: disable=broad-exception-caught
        error = exc
    ctx.info["errors"] = graph.errors
    if graph.errors:
        if plan is not None:
            raise Violation(f"planned although: {graph.errors}", plan=subj.dump_plan(plan))
        if not str(error):
            raise Violation(f"refused with an empty message: {type(error).__name__}")
        ctx.count("refusals_judged")
        for err in graph.errors:
            ctx.count("refused." + ("cycle" if "cycle" in err else "target" if err.startswith("target") else "fk"))
        ctx.nontrivial = True
    else:
        if error is not None:
            raise Violation(f"valid configuration refused: {type(error).__name__}: {error}") from error
        doc = subj.dump_plan(plan)
        ctx.info["plan"] = doc
        got = {po.split(n) for n in doc["queries"]}
        want = graph.planned | graph.passthrough
        if got != want:
            raise Violation("planned tables differ from the connected ones",
                            missing=sorted(want - got), extra=sorted(got - want))
        if {po.split(t) for t in doc.get("passthrough", [])} != graph.passthrough:
            raise Violation("passthrough list of the plan differs", got=doc.get("passthrough"))
        deps = po.plan_deps(doc)
        for key, refs in deps.items():
            if refs - got:
                raise Violation(f"{key} depends on unplanned {sorted(refs - got)}")
            if key in graph.passthrough and refs:
                raise Violation(f"passthrough {key} depends on other tables")
        if po.topo(deps) is None:
            raise Violation("cyclic plan", deps=deps)
        linked = graph.planned_fks()
        for key in graph.planned:
            if not deps[key] and key not in graph.targets:
                raise Violation(f"{key} is neither a target nor derived from another table")
            for ref in deps[key]:
                if not any((k, fk.ref) in ((key, ref), (ref, key)) for k, fk in linked):
                    raise Violation(f"{key} depends on unrelated {ref}")
        for k, fk in linked:
            if fk.ref in deps[k] and k in deps[fk.ref]:
                raise Violation(f"{k} and {fk.ref} depend on each other")
        ctx.count("plans_judged")
        ctx.count("tables_planned", len(got))
        ctx.count("multi_target_plans", len(graph.targets) > 1)
        ctx.nontrivial = len(got) > 1
    ctx.sign(scen.signature_of(world, cfg, len(graph.errors)))
    if ctx.index < 3:
        ctx.sample = {"planner": cfg, "world": world.describe(), "expected": graph.errors or sorted(graph.planned)}
