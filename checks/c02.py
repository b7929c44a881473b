"""C02: adjustment, front-door and instrument sets judged by brute-force criteria on plain-set graphs."""
import copy

from vm.core import Group
from vm.graphs import Ref, dsep, powerset, rand_graph, to_lib

PROPERTY = "C02"
RULE = ("one evaluation = one answer of the library (set returned, listing, yes/no question, path list) compared with the "
        "graphical criterion decided by exhaustive d-separation; distinct = distinct (graph, treatment, outcome)")
REQUIRE = {"backdoor_returned": 300, "frontdoor_returned": 80, "iv_returned": 60, "listing": 100, "question_yes": 200,
           "question_no": 200, "multi": 100}


def snapshot(g):
    return (sorted((k, tuple(v)) for k, v in g.causation.items()), sorted(map(str, g.dag.edges(keys=True))), sorted(g.dag.nodes))


def backdoor_ok(ref, z, x, y):
    return not (set(z) & ref.de(x)) and not (set(z) & set(y)) and ref.no_out(x).dsep(x, y, z)


def frontdoor_ok(ref, z, x, y):
    """Pearl's three conditions for single x and y; z holds neither."""
    z = set(z)
    cut = ref.sub(ref.nodes - z) if x not in z and y not in z else None
    if y in cut.de([x]):
        return False
    if z and not ref.no_out([x]).dsep([x], z, set()):
        return False
    return (not z) or ref.no_out(z).dsep(z, [y], [x])


def iv_ok(ref, z, x, y):
    """z -> x and z independent of y once every arrow into x is cut."""
    pa = ref.explicit()
    pa[x] = set()
    return dsep(pa, {z}, {y}, set())


def sets(res):
    return [frozenset(s) for s in res]


def one(rec, rng, nodes, edges, arcs, y, x):
    from ylearn.causal_model import CausalModel
    from ylearn.causal_model.utils import IdentificationError
    g, _ = to_lib(rng, nodes, edges, arcs)
    ref = Ref(nodes, edges, arcs)
    cm = CausalModel(causal_graph=g)
    before = snapshot(g)
    info = dict(graph=ref.key(), y=y, x=x)
    rec.seen(ref.key(), sorted(y), sorted(x))
    X, Y = set(x), set(y)
    if len(x) + len(y) > 2:
        rec.event("multi")

    def ask(fn, *args, **kw):
        args0 = copy.deepcopy(args)
        try:
            res = fn(*args, **kw)
        except IdentificationError:
            rec.event("refused")
            res = None
        rec.ok(args == args0, f"{fn.__name__}:arguments_changed", f"{args0} became {args}", **info)
        return res

    def form(s, allow_list=True):
        if len(s) == 1 and rng.random() < .5:
            return s[0]
        return list(s) if allow_list and rng.random() < .5 else set(s)

    # ---- back-door
    cands = [z for z in powerset(ref.nodes - X - Y)]
    valid = {frozenset(z) for z in cands if backdoor_ok(ref, z, X, Y)}
    for style in ("simple", "minimal", "all"):
        via = rng.random() < .3
        if via:
            r = ask(cm.identify, form(x), form(y), identify_method=("backdoor", style))
            r = None if r is None else r["backdoor"]
        else:
            r = ask(cm.get_backdoor_set, form(x), form(y), adjust=style)
        if r is None:
            if style != "simple":
                rec.ok(not valid, f"backdoor_{style}:refused_but_exists", "no set reported although one exists", valid=list(valid), **info)
            elif frozenset(set().union(*[ref.parents(t) for t in x])) in valid:
                rec.ok(False, "backdoor_simple:refused_but_valid", "parents are a valid set yet none is returned", **info)
            continue
        rec.event("backdoor_returned")
        got = r[0]
        if style == "simple":
            rec.ok(frozenset(got) in valid, "backdoor_simple:invalid", f"{got} violates the criterion", **info)
            rec.ok(len(set(got)) == len(list(got)), "backdoor_simple:duplicates", f"{got} repeats a name", **info)
        elif style == "minimal":
            for z in sets(got):
                rec.ok(z in valid, "backdoor_minimal:invalid", f"{set(z)} violates the criterion", **info)
                rec.ok(not any(v < z for v in valid), "backdoor_minimal:not_minimal", f"{set(z)} has a valid proper subset", **info)
            rec.ok(len(got) >= 1, "backdoor_minimal:empty", "empty answer", **info)
        else:
            rec.event("listing")
            rec.ok(set(sets(got)) == valid, "backdoor_all:listing", f"{len(set(sets(got)))} sets listed, {len(valid)} valid",
                   missing=list(valid - set(sets(got)))[:3], extra=list(set(sets(got)) - valid)[:3], **info)
            rec.ok(len(got) == len(set(sets(got))), "backdoor_all:duplicates", "a set is listed twice", **info)
    for z in [cands[i] for i in rng.permutation(len(cands))[:6]]:
        a = ask(cm.is_valid_backdoor_set, z if rng.random() < .5 else list(z), form(x), form(y))
        w = frozenset(z) in valid
        rec.event("question_yes" if w else "question_no")
        rec.ok(bool(a) == w, "is_valid_backdoor_set", f"{z}: answered {a}, criterion says {w}", **info)

    if len(x) == len(y) == 1:
        x1, y1 = x[0], y[0]
        # ---- front-door; the library's kind: subsets of the nodes lying on directed paths
        onpath = (ref.de([x1]) & ref.an([y1])) - {x1, y1}
        fvalid = {frozenset(z) for z in powerset(onpath) if frontdoor_ok(ref, z, x1, y1)}
        for style in ("simple", "minimal", "all"):
            args = ({x1}, {y1}) if rng.random() < .4 else (x1, y1)
            if rng.random() < .3:
                r = ask(cm.identify, *args, identify_method=("frontdoor", style))
                r = None if r is None else r["frontdoor"]
            else:
                r = ask(cm.get_frontdoor_set, *args, adjust=style)
            if r is None:
                rec.ok(not any(fvalid), f"frontdoor_{style}:refused_but_exists", "no set reported although one exists", **info)
                continue
            rec.event("frontdoor_returned")
            if style == "all":
                rec.event("listing")
                rec.ok(set(sets(r[0])) == fvalid, "frontdoor_all:listing", "wrong listing", got=sets(r[0]), want=list(fvalid), **info)
            else:
                z = frozenset(r[0])
                rec.ok(z in fvalid, f"frontdoor_{style}:invalid", f"{set(z)} violates the criterion", **info)
                rec.ok(not any(v < z for v in fvalid), f"frontdoor_{style}:not_minimal", f"{set(z)} has a valid proper subset", **info)
        fc = powerset(ref.nodes - {x1, y1})
        for z in [fc[i] for i in rng.permutation(len(fc))[:6]] + [set(v) for v in list(fvalid)[:2]]:
            a = ask(cm.is_frontdoor_set, z, x1, y1)
            w = frontdoor_ok(ref, z, x1, y1)
            rec.event("question_yes" if w else "question_no")
            rec.ok(bool(a) == w, "is_frontdoor_set", f"{z}: answered {a}, criterion says {w}", **info)
        # ---- instruments
        ivs = {z for z in ref.parents(x1) - {y1} if iv_ok(ref, z, x1, y1)}
        if y1 not in ref.parents(x1):
            r = ask(cm.get_iv, x1, y1)
            rec.event("iv_returned", int(bool(r)))
            rec.ok(set(r or ()) == ivs, "get_iv", f"{r} instead of {ivs}", **info)
            if ivs:
                for z in [set(c) for c in [list(cands[i]) for i in rng.permutation(len(cands))[:4]] if c] + [set(list(ivs)[:1]), set(ivs)]:
                    z = z - {x1, y1}
                    if not z:
                        continue
                    a = ask(cm.is_valid_iv, x1, y1, next(iter(z)) if len(z) == 1 and rng.random() < .5 else z)
                    w = z <= ivs
                    rec.event("question_yes" if w else "question_no")
                    rec.ok(bool(a) == w, "is_valid_iv", f"{z}: answered {a}, criterion says {w}", **info)
        # ---- back-door paths and colliders
        if y1 not in ref.parents(x1):
            ed = g.explicit_unob_var_dag
            hid = {u: ("U", tuple(sorted(ed.successors(u)))) for u in ed.nodes if u not in ref.nodes}
            pa = {n: set(ref.parents(n)) for n in ref.nodes}
            for a in ref.arcs:
                u = ("U", tuple(sorted(a)))
                pa[u] = set()
                for n in a:
                    pa[n].add(u)
            ch = {n: {m for m in pa if n in pa[m]} for n in pa}
            want = []

            def grow(p):
                if len(want) > 400:
                    return
                if p[-1] == y1:
                    want.append(tuple(p))
                    return
                for n in pa[p[-1]] | ch[p[-1]]:
                    if n not in p:
                        grow(p + [n])
            for n in pa[x1]:
                grow([x1, n])
            if len(want) <= 400:
                paths = cm.get_backdoor_path(x1, y1)
                got = {tuple(hid.get(n, n) for n in p) for p in paths}
                rec.event("paths", len(want))
                rec.ok(got == set(want), "get_backdoor_path", f"{len(got)} paths instead of {len(want)}", **info)
                for p in paths[:12]:
                    q = [hid.get(n, n) for n in p]
                    col = any(q[i - 1] in pa[q[i]] and q[i + 1] in pa[q[i]] for i in range(1, len(q) - 1))
                    rec.ok(bool(cm.has_collider(list(p))) == col, "has_collider", f"path {q}: collider is {col}", **info)
                    rec.ok(bool(cm.is_connected_backdoor_path(list(p))) == (not col), "is_connected_backdoor_path", f"path {q}", **info)
    rec.ok(snapshot(g) == before, "graph_changed", "a question changed the graph", **info)
    rec.sample(valid_backdoor=len(valid), **info)


def random_graphs(rec, rng, tier):
    n = int(rng.integers(2, 7 if tier == "quick" else 8))
    nodes, edges, arcs = rand_graph(rng, n, p_edge=rng.choice([.2, .35, .5, .7]), p_arc=rng.choice([0, .1, .2, .35]))
    perm = [nodes[i] for i in rng.permutation(n)]
    ny = 1 if rng.random() < .75 or n < 3 else 2
    nx_ = 1 if rng.random() < .7 or n - ny < 2 else 2
    y, x = perm[:ny], perm[ny:ny + nx_]
    if ny == nx_ == 1 and rng.random() < .75 and nodes.index(x[0]) > nodes.index(y[0]):
        x, y = y, x
    one(rec, rng, nodes, edges, arcs, y, x)


def mediated(rec, rng, tier):
    """Graphs where front-door sets and instruments are common."""
    n = int(rng.integers(4, 8))
    nodes, edges, arcs = rand_graph(rng, n, p_edge=rng.choice([.25, .4]), p_arc=rng.choice([0, .08]))
    xi = int(rng.integers(0, n - 2))
    x, y = nodes[xi], nodes[-1]
    edges = {e for e in edges if e != (x, y)}
    mids = nodes[xi + 1:-1]
    m = mids[int(rng.integers(len(mids)))]
    edges |= {(x, m), (m, y)}
    if rng.random() < .7:
        arcs = [a for a in arcs if set(a) != {x, y}] + [(x, y)]
    one(rec, rng, nodes, sorted(edges), arcs, [y], [x])


def instruments(rec, rng, tier):
    """Treatments with parents of every kind: before and after the outcome, tied to it through confounders, and clean ones."""
    n = int(rng.integers(3, 6))
    nodes, edges, arcs = rand_graph(rng, n, p_edge=rng.choice([.15, .3]), p_arc=rng.choice([0, .15]))
    xi = int(rng.integers(1, n))
    x = nodes[xi]
    yi = int(rng.choice([i for i in range(n) if i != xi]))
    edges = set(edges) | {(nodes[i], x) for i in range(xi) if i != yi and rng.random() < .6}
    if yi > xi and rng.random() < .6:
        edges |= {(x, nodes[yi])}
    if rng.random() < .4:
        arcs = sorted(set(arcs) | {(x, nodes[yi])})
    rec.event("instrument_graphs")
    one(rec, rng, nodes, sorted(edges), arcs, [nodes[yi]], [x])


GROUPS = [Group("random_graphs", random_graphs, 900, 9000), Group("mediated", mediated, 500, 5000), Group("instruments", instruments, 600, 6000)]
