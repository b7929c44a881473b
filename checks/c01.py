"""C01: model-based differential monitor of CausalGraph against plain-set graphs."""
import copy

import numpy as np

from vm.core import Group
from vm.graphs import Ref, rand_graph, to_lib

PROPERTY = "C01"
RULE = ("one evaluation = one structural query of the real graph object compared with the plain-set reference graph; "
        "distinct = distinct (nodes, edges, arcs) states queried with at least one edge or arc")
REQUIRE = {"query": 3000, "edit": 1000, "dsep_true": 200, "dsep_false": 200, "new_graph_edit": 200}


def snapshot(g):
    return (sorted((k, tuple(v)) for k, v in g.causation.items()), sorted(map(str, g.dag.edges(keys=True))), sorted(g.dag.nodes))


def subset(rng, s, lo=0, hi=None):
    s = sorted(s)
    hi = len(s) if hi is None else min(hi, len(s))
    k = int(rng.integers(min(lo, hi), hi + 1))
    return [s[i] for i in rng.permutation(len(s))[:k]]


def coll(rng, xs):
    """The argument as a set, list or tuple."""
    return [set, list, tuple][int(rng.integers(3))](xs)


def query_all(rec, rng, g, ref, tag):
    rec.event("state")
    if ref.edges or ref.arcs:
        rec.seen(ref.key())
    before = snapshot(g)

    def q(name, got, want):
        rec.event("query")
        rec.ok(got == want, f"{tag}:{name}", f"{name}: {got} instead of {want}", state=ref.key())

    q("nodes", set(g.causation.keys()), ref.nodes)
    q("ava_nodes", set(g.ava_nodes), ref.nodes)
    q("dag_nodes", set(g.dag.nodes), ref.nodes)
    q("prob_variables", set(g.prob.variables), ref.nodes)
    od = g.observed_dag
    q("observed_nodes", set(od.nodes), ref.nodes)
    q("observed_edges", sorted(od.edges()), sorted(ref.edges))
    arcs = list(g.latent_confounding_arcs)
    q("latent_arcs", {frozenset(a) for a in arcs}, ref.arcs)
    q("latent_arcs_once", len(arcs), len(ref.arcs))
    q("is_dag", bool(g.is_dag), True)
    order = list(g.topo_order)
    rec.ok(ref.topo(order), f"{tag}:topo_order", f"{order} is not a topological order", state=ref.key())
    cc = [frozenset(c) for c in g.c_components]
    q("c_components", set(cc), ref.ccomps())
    q("c_components_once", len(cc), len(ref.ccomps()))
    # adjacency matrix: observed edges one way, arcs both ways
    W = np.asarray(g.to_adj_matrix())
    names = list(g.dag.nodes)
    want = np.zeros((len(names), len(names)))
    for a, b in ref.edges:
        want[names.index(a), names.index(b)] += 1
    for a, b in map(tuple, ref.arcs):
        want[names.index(a), names.index(b)] += 1
        want[names.index(b), names.index(a)] += 1
    rec.ok(W.shape == want.shape and (W == want).all(), f"{tag}:adj_matrix", "adjacency matrix", W=W, want=want)
    for x in ref.nodes:
        ps = list(g.parents(x))
        q("parents", sorted(ps), sorted(ref.parents(x)))
        pu = list(g.parents(x, only_observed=False))
        hidden = [p for p in pu if p not in ref.nodes]
        q("parents_all", sorted(p for p in pu if p in ref.nodes), sorted(ref.parents(x)))
        q("parents_hidden", len(set(hidden)), sum(x in a for a in ref.arcs))
    ed = g.explicit_unob_var_dag
    hidden = [n for n in ed.nodes if n not in ref.nodes]
    q("explicit_hidden", sorted(sorted(ed.successors(u)) for u in hidden), sorted(sorted(a) for a in ref.arcs))
    q("explicit_observed", sorted(e for e in set(ed.edges()) if e[0] not in hidden), sorted(ref.edges))
    for _ in range(3):
        xs = subset(rng, ref.nodes, 1, 3)
        arg = xs[0] if len(xs) == 1 and rng.random() < .7 else coll(rng, xs)
        q("ancestors", set(g.ancestors(arg)), ref.an(xs))
        q("descendents", set(g.descendents(arg)), ref.de(xs))
    if len(ref.nodes) >= 2:
        for _ in range(6):
            perm = subset(rng, ref.nodes, 2)
            i = int(rng.integers(1, min(3, len(perm) - 1) + 1)) if len(perm) > 1 else 1
            j = int(rng.integers(i + 1, min(i + 2, len(perm)) + 1))
            x, y, z = set(perm[:i]), set(perm[i:j]), set(perm[j:])
            w = ref.dsep(x, y, z)
            rec.event("dsep_true" if w else "dsep_false")
            q("d_separated", bool(g.is_d_separated(x, y, z)), w)
    rec.ok(snapshot(g) == before, f"{tag}:query_mutates", "a query changed the graph", state=ref.key())


def edit(rec, rng, g, ref):
    """One random edit: returns (result graph or None when in place, edited reference, name)."""
    new = bool(rng.random() < .5)
    ops = ["add_nodes", "add_edges", "add_edge", "add_arcs", "add_arc", "remove_nodes", "remove_edge", "remove_edges",
           "remove_arcs", "remove_arc", "sub", "no_in", "no_out"]
    op = ops[int(rng.integers(len(ops)))]
    r = ref.copy()
    order = list(g.topo_order)
    pairs = [(order[i], order[j]) for i in range(len(order)) for j in range(i + 1, len(order))]

    def pick(s, hi=3):
        return [tuple(e) for e in subset(rng, s, 1, hi)]

    if op == "add_nodes":
        cand = ["new1", "new2", "U0", "U1", "q"]
        ns = [cand[i] for i in rng.permutation(5)[:int(rng.integers(1, 3))]]
        if rng.random() < .3 and ref.nodes:
            ns.append(sorted(ref.nodes)[0])
        r.nodes |= set(ns)
        if len(r.nodes) > 9:
            return None
        out = g.add_nodes(coll(rng, ns), new=new)
    elif op in ("add_edges", "add_edge"):
        if not pairs:
            return None
        es = pick(pairs)
        if op == "add_edge":
            es, new = es[:1], False
            out = g.add_edge(*es[0])
        else:
            out = g.add_edges_from(es, new=new)
        r.edges |= set(es)
    elif op in ("add_arcs", "add_arc"):
        if not pairs:
            return None
        es = [e if rng.random() < .5 else e[::-1] for e in pick(pairs)]
        if op == "add_arc":
            es, new = es[:1], False
            out = g.add_edge(*es[0], observed=False)
        else:
            out = g.add_edges_from(es, new=new, observed=False)
        r.arcs |= {frozenset(e) for e in es}
    elif op == "remove_nodes":
        if len(ref.nodes) < 3:
            return None
        ns = subset(rng, ref.nodes, 1, 2)
        out = g.remove_nodes(coll(rng, ns), new=new)
        r = r.sub(r.nodes - set(ns))
    elif op in ("remove_edge", "remove_edges"):
        if not ref.edges:
            return None
        es = pick(ref.edges)
        if op == "remove_edge":
            es, new = es[:1], False
            out = g.remove_edge(es[0])
        else:
            out = g.remove_edges_from(es, new=new)
        r.edges -= set(es)
    elif op in ("remove_arcs", "remove_arc"):
        if not ref.arcs:
            return None
        es = [e if rng.random() < .5 else e[::-1] for e in pick([tuple(sorted(a)) for a in ref.arcs])]
        if op == "remove_arc":
            es, new = es[:1], False
            out = g.remove_edge(es[0], observed=False)
        else:
            out = g.remove_edges_from(es, new=new, observed=False)
        r.arcs -= {frozenset(e) for e in es}
    elif op == "sub":
        ns, new = subset(rng, ref.nodes, 2), True
        out = g.build_sub_graph(set(ns))
        r = r.sub(ns)
    else:
        ns = subset(rng, ref.nodes, 1, 3)
        arg = ns[0] if len(ns) == 1 and rng.random() < .5 else set(ns)
        out = (g.remove_incoming_edges if op == "no_in" else g.remove_outgoing_edges)(arg, new=new)
        r = (r.no_in if op == "no_in" else r.no_out)(ns)
    return out, r, op, new


def history(rec, rng, tier):
    n = int(rng.integers(1, 9))
    nodes, edges, arcs = rand_graph(rng, n)
    g, caus = to_lib(rng, nodes, edges, arcs)
    caus0 = copy.deepcopy(caus)
    ref = Ref(nodes, edges, arcs)
    query_all(rec, rng, g, ref, "built")
    trail = []
    for _ in range(int(rng.integers(3, 13))):
        before = snapshot(g)
        res = edit(rec, rng, g, ref)
        if res is None:
            continue
        out, r, op, new = res
        rec.event("edit")
        rec.event("op_" + op)
        trail.append(op + ("+new" if new else ""))
        if new:
            rec.event("new_graph_edit")
            rec.ok(snapshot(g) == before, f"{op}:original_changed", "edit with new=True changed the original", trail=trail)
            if not rec.ok(out is not None and out is not g, f"{op}:no_new_graph", "no new graph returned", trail=trail):
                continue
            query_all(rec, rng, out, r, op + "+new")
            # editing the copy must not reach the original either
            if rng.random() < .4:
                res2 = edit(rec, rng, out, r)
                if res2 is not None:
                    rec.ok(snapshot(g) == before, f"{op}:copy_aliases_original", f"after {res2[2]} on the copy", trail=trail)
                    r2 = r if res2[3] else res2[1]
                    query_all(rec, rng, out, r2, op + "+new;" + res2[2])
                    r = r2
            if rng.random() < .7:
                g, ref = out, r
        else:
            ref = r
            query_all(rec, rng, g, ref, op)
    rec.ok(caus == caus0, "caller_dict_changed", "editing the graph changed the dict it was built from", trail=trail)
    rec.sample(nodes=nodes, edges=edges, arcs=arcs, trail=trail)


GROUPS = [Group("history", history, quick=900, thorough=9000)]
