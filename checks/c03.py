"""C03: estimands of CausalModel.id / backdoor / front-door evaluated on exact discrete structural models."""
import copy

import numpy as np

from vm.core import Group, Skip
from vm.graphs import Ref, rand_graph, to_lib
from vm.scm import DiscreteSCM, Text, evaluate, identifiable

PROPERTY = "C03"
RULE = ("one evaluation = an estimand returned by the library evaluated on the observational table of a random positive "
        "discrete model and compared with the truncated factorisation, or an identifiability verdict compared with Tian's "
        "criterion; distinct = distinct (graph, treatments, outcomes)")
REQUIRE = {"identifiable": 300, "text": 1000, "not_identifiable": 150, "nested_quotient": 10, "step7": 30}
ASSUMPTIONS = ["observational tables are strictly positive"]


def snapshot(g):
    return (sorted((k, tuple(v)) for k, v in g.causation.items()), sorted(map(str, g.dag.edges(keys=True))), sorted(g.dag.nodes))


def walk(p):
    yield p
    for q in list(p.product) + list(p.divisor):
        yield from walk(q)


def pick_query(rng, nodes, order):
    k = len(nodes)
    perm = [nodes[i] for i in rng.permutation(k)]
    ny = 1 if rng.random() < .65 or k < 3 else 2
    nx_ = 1 if rng.random() < .65 or k - ny < 2 else 2
    y, x = perm[:ny], perm[ny:ny + nx_]
    if ny == nx_ == 1 and rng.random() < .7 and order.index(x[0]) > order.index(y[0]):
        x, y = y, x
    return y, x


def check_estimand(rec, rng, prob, ref, y, x, key, **info):
    text = Text(prob.parse()).prob
    for _ in range(2):
        m = DiscreteSCM(rng, ref, max_card=3 if len(ref.nodes) <= 4 else 2)
        joint = m.joint()
        got = evaluate(prob, joint, m.names)
        truth = m.do(y, x)
        shape = np.broadcast_shapes(got.shape, truth.shape)
        rec.event("text")
        read = evaluate(text, joint, m.names)
        sh = np.broadcast_shapes(read.shape, truth.shape)
        rec.close(np.broadcast_to(read, sh), np.broadcast_to(truth, sh), key + "_text",
                  "the printed expression, read as it stands, is not the post-intervention distribution", rtol=1e-8, atol=1e-10, printed=prob.parse(), **info)
        rec.close(np.broadcast_to(got, shape), np.broadcast_to(truth, shape), key,
                  "estimand differs from the post-intervention distribution", rtol=1e-8, atol=1e-10, **info)


def one(rec, rng, nodes, edges, arcs, y, x, how=None):
    from ylearn.causal_model import CausalModel
    from ylearn.causal_model.utils import IdentificationError
    g, _ = to_lib(rng, nodes, edges, arcs)
    ref = Ref(nodes, edges, arcs)
    cm = CausalModel(causal_graph=g)
    before = snapshot(g)
    can = identifiable(ref, y, x)
    rec.event("identifiable" if can else "not_identifiable")
    rec.seen(ref.key(), sorted(y), sorted(x))
    form = int(rng.integers(3)) if how is None else how
    ya, xa = set(y), set(x)
    if len(y) == len(x) == 1 and form == 0:
        ya, xa = y[0], x[0]
    elif form == 1:
        ya, xa = list(y), list(x)
    ya0, xa0 = copy.copy(ya), copy.copy(xa)
    info = dict(graph=ref.key(), y=sorted(y), x=sorted(x), call=form)
    try:
        if rng.random() < .5:
            prob = cm.id(ya, xa)
        else:
            prob = cm.identify(treatment=xa, outcome=ya, identify_method="general")["ID"]
    except IdentificationError:
        rec.ok(not can, "identifiable_effect_refused", "IdentificationError for an identifiable effect", **info)
        return
    rec.ok(snapshot(g) == before, "graph_changed", "identification changed the graph", **info)
    rec.ok((ya, xa) == (ya0, xa0), "arguments_changed", "identification changed its arguments", **info)
    if not rec.ok(can, "unidentifiable_effect_answered", "an estimand was returned for an unidentifiable effect", **info):
        return
    parts = list(walk(prob))
    if any(p.divisor for p in parts):
        rec.event("nested_quotient")
    rec.event("step7", int(any(p.product and any(q.product for q in p.product) for p in parts)))
    text = prob.parse()
    rec.ok(isinstance(text, str) and text, "parse", "parse() gave no text", **info)
    check_estimand(rec, rng, prob, ref, y, x, "estimand_value", expr=text, query=info)
    rec.sample(expr=text, **info)


def random_graphs(rec, rng, tier):
    n = int(rng.integers(2, 7 if tier == "quick" else 8))
    nodes, edges, arcs = rand_graph(rng, n, p_edge=rng.choice([.3, .5, .7]), p_arc=rng.choice([0.1, .2, .3, .45]))
    arcs = arcs[:7]
    y, x = pick_query(rng, nodes, nodes)
    one(rec, rng, nodes, edges, arcs, y, x)


CLASSIC = [
    ("X>Z Z>Y W>X W>Z", "X-Y", "Y", "X"), ("X>Z Z>Y", "X-Y", "Y", "X"), ("X>Y", "X-Y", "Y", "X"),
    ("X>Z2 Z1>X Z2>Y", "X-Z1 Z1-Z2 Z1-Y X-Y", "Y", "X"), ("Z2>X X>Z1 Z2>Z1 Z2>Z3 Z1>Y Z3>Y", "X-Z2 X-Y X-Z3 Z2-Y", "Y", "X"),
    ("W1>X X>Y1 W2>Y2", "W1-Y1 W1-W2 W1-Y2", "Y1 Y2", "X"), ("W>X X>Y", "W-X W-Y", "Y", "X"),
    ("A>B B>X X>Y", "A-B A-X B-Y A-Y", "Y", "X"), ("W1>W2 W2>X X>Y", "W1-X W1-Y", "Y", "X"),
    ("W1>W2 W2>X X>Y", "W1-X W1-Y W2-Y", "Y", "X"), ("X1>Z1 Z1>X2 X2>Y Z1>Y", "X1-Z1 Z1-Y", "Y", "X1 X2"),
    ("R>W W>X X>Y", "R-X R-Y W-Y", "Y", "X"), ("X>M M>Y", "X-M M-Y", "Y", "X"), ("X>M M>Y", "X-Y M-Y", "Y", "X"),
    ("W>R R>X X>Y", "W-X W-Y R-Y", "Y", "X"), ("Z>X X>Y", "Z-Y", "Y", "X"), ("Z>X X>Y", "X-Y", "Y", "X"),
]


def classic(rec, rng, tier):
    i = int(rng.integers(len(CLASSIC)))
    e, a, y, x = CLASSIC[i]
    edges = [tuple(s.split(">")) for s in e.split()]
    arcs = [tuple(s.split("-")) for s in a.split()]
    nodes = sorted({n for t in edges + arcs for n in t})
    ren = {n: n for n in nodes}
    if rng.random() < .5:
        ren = {n: f"{n.lower()}_{i}" for n in nodes}
    f = lambda t: tuple(ren[v] for v in t)
    rec.event("classic")
    one(rec, rng, [ren[n] for n in nodes], [f(t) for t in edges], [f(t) for t in arcs],
        [ren[v] for v in y.split()], [ren[v] for v in x.split()])


def nested(rec, rng, tier):
    """Graphs biased towards one confounded component holding treatment and outcome, so that the subproblem is itself
    decomposed again."""
    n = int(rng.integers(4, 7))
    nodes, edges, _ = rand_graph(rng, n, p_edge=.45, p_arc=0)
    order = nodes
    chain = [order[i] for i in rng.permutation(n)]
    arcs = [(chain[i], chain[i + 1]) for i in range(n - 1) if rng.random() < .75]
    y, x = [order[-1]], [order[int(rng.integers(0, n - 1))]]
    if rng.random() < .3:
        x = list({x[0], order[int(rng.integers(0, n - 1))]})
    one(rec, rng, nodes, edges, arcs, y, x)


def adjustment_estimands(rec, rng, tier):
    from ylearn.causal_model import CausalModel
    from ylearn.causal_model.utils import IdentificationError
    n = int(rng.integers(3, 7))
    nodes, edges, arcs = rand_graph(rng, n, p_edge=rng.choice([.3, .5, .7]), p_arc=rng.choice([0, 0.1, .2]))
    fd = rng.random() < .4
    if fd:
        edges = [e for e in edges if e != (nodes[0], nodes[-1])] + [(nodes[0], nodes[1]), (nodes[1], nodes[-1])]
        edges = sorted(set(edges))
        arcs = [(nodes[0], nodes[-1])]
        y, x = [nodes[-1]], [nodes[0]]
    else:
        y, x = pick_query(rng, nodes, nodes)
    ref = Ref(nodes, edges, arcs)
    g, _ = to_lib(rng, nodes, edges, arcs)
    cm = CausalModel(causal_graph=g)
    for kind, style in [("backdoor", s) for s in ("simple", "minimal", "all")] + [("frontdoor", s) for s in ("simple", "minimal", "all")]:
        if kind == "frontdoor" and len(x) + len(y) > 2:
            continue
        args = (x[0], y[0]) if len(x) == len(y) == 1 and (rng.random() < .5 or kind == "frontdoor") else (set(x), set(y))
        try:
            res = (cm.get_backdoor_set if kind == "backdoor" else cm.get_frontdoor_set)(*args, adjust=style)
        except IdentificationError:
            continue
        if res is None:
            continue
        rec.event(f"{kind}_estimand")
        rec.seen(ref.key(), sorted(y), sorted(x), kind, style)
        check_estimand(rec, rng, res[1], ref, y, x, f"{kind}_{style}_estimand", graph=ref.key(), outcome=y, treatment=x, sets=str(res[0]))


GROUPS = [Group("random_graphs", random_graphs, 1500, 20000), Group("classic", classic, 200, 1000),
          Group("nested", nested, 700, 10000), Group("adjustment_estimands", adjustment_estimands, 500, 6000)]
