"""Mathematical reference for acyclic directed mixed graphs: plain sets, no networkx."""
import itertools

NAMES = [list("abcdefghi"), [f"X{i}" for i in range(9)], ["U0", "U1", "w", "U2", "y", "x", "U5", "z", "n"],
         ["x", "y", "xy", "z", "w1", "w2", "w", "yy", "v 1"], ["treatment", "outcome", "age", "t", "o", "a", "e", "m", "r"]]


class Ref:
    def __init__(self, nodes, edges=(), arcs=()):
        self.nodes = set(nodes)
        self.edges = set(tuple(e) for e in edges)
        self.arcs = set(frozenset(a) for a in arcs)

    def copy(self):
        return Ref(self.nodes, self.edges, self.arcs)

    def parents(self, x):
        return {a for a, b in self.edges if b == x}

    def children(self, x):
        return {b for a, b in self.edges if a == x}

    def closure(self, xs, step):
        out, todo = set(xs), list(xs)
        while todo:
            for p in step(todo.pop()):
                if p not in out:
                    out.add(p)
                    todo.append(p)
        return out

    def an(self, xs):
        return self.closure(xs, self.parents)

    def de(self, xs):
        return self.closure(xs, self.children)

    def ccomps(self):
        left, out = set(self.nodes), []
        while left:
            c = self.closure([next(iter(left))], lambda n: {m for a in self.arcs if n in a for m in a if m != n})
            out.append(frozenset(c))
            left -= c
        return set(out)

    def explicit(self):
        """Parents dict of the DAG with one latent per arc."""
        pa = {n: set(self.parents(n)) for n in self.nodes}
        for i, a in enumerate(sorted(map(sorted, self.arcs))):
            u = ("latent", i)
            pa[u] = set()
            for n in a:
                pa[n].add(u)
        return pa

    def sub(self, keep):
        keep = set(keep)
        return Ref(keep, [e for e in self.edges if set(e) <= keep], [a for a in self.arcs if a <= keep])

    def no_in(self, xs):
        xs = set(xs)
        return Ref(self.nodes, [e for e in self.edges if e[1] not in xs], [a for a in self.arcs if not (a & xs)])

    def no_out(self, xs):
        xs = set(xs)
        return Ref(self.nodes, [e for e in self.edges if e[0] not in xs], self.arcs)

    def dsep(self, x, y, z):
        return dsep(self.explicit(), set(x), set(y), set(z))

    def topo(self, order):
        return set(order) == self.nodes and len(order) == len(self.nodes) and all(
            order.index(a) < order.index(b) for a, b in self.edges)

    def key(self):
        return (tuple(sorted(self.nodes)), tuple(sorted(self.edges)), tuple(sorted(tuple(sorted(a)) for a in self.arcs)))


def dsep(pa, x, y, z):
    """Bayes-ball reachability on a DAG given as {node: parents}."""
    ch = {n: set() for n in pa}
    for n, ps in pa.items():
        for p in ps:
            ch[p].add(n)
    anz, todo = set(z), list(z)
    while todo:
        for p in pa[todo.pop()]:
            if p not in anz:
                anz.add(p)
                todo.append(p)
    seen, todo = set(), [(n, "up") for n in x]
    while todo:
        n, d = todo.pop()
        if (n, d) in seen:
            continue
        seen.add((n, d))
        if n in y and n not in z:
            return False
        if d == "up":
            if n not in z:
                todo += [(p, "up") for p in pa[n]] + [(c, "down") for c in ch[n]]
        else:
            if n not in z:
                todo += [(c, "down") for c in ch[n]]
            if n in anz:
                todo += [(p, "up") for p in pa[n]]
    return True


def rand_graph(rng, n, p_edge=None, p_arc=None, names=None):
    names = list(names if names is not None else NAMES[int(rng.integers(len(NAMES)))])
    nodes = [names[i] for i in rng.permutation(len(names))[:n]]
    p_edge = rng.choice([0.15, 0.3, 0.5, 0.8]) if p_edge is None else p_edge
    p_arc = rng.choice([0, 0.1, 0.25, 0.5]) if p_arc is None else p_arc
    edges = [(nodes[i], nodes[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < p_edge]
    arcs = [(nodes[i], nodes[j]) for i in range(n) for j in range(i + 1, n) if rng.random() < p_arc]
    arcs = [a if rng.random() < .5 else a[::-1] for a in arcs]
    return nodes, edges, arcs


def to_lib(rng, nodes, edges, arcs):
    """The library's graph for (nodes, edges, arcs) with a shuffled insertion order."""
    from ylearn.causal_model import CausalGraph
    order = [nodes[i] for i in rng.permutation(len(nodes))]
    caus = {}
    for n in order:
        ps = [a for a, b in edges if b == n]
        caus[n] = [ps[i] for i in rng.permutation(len(ps))]
    return CausalGraph(caus, latent_confounding_arcs=arcs if arcs or rng.random() < .5 else None), caus


def powerset(s):
    s = sorted(s)
    return [set(c) for k in range(len(s) + 1) for c in itertools.combinations(s, k)]
