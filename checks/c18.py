"""C18: Bayesian networks — domains, interventions, copies, repeatability, the process-wide parameter store and graph queries."""
import copy

import networkx as nx
import numpy as np
import pandas as pd
import pyro
import torch

from vm.core import Group, Skip

from ylearn.bayesian import DAG, DiGraph, SviBayesianNetwork
from ylearn.causal_model import CausalGraph

PROPERTY = "C18"
RULE = ("one evaluation = one sampled or predicted column, one graph query, or one piece of state (parameters, frame, parameter store, other network) compared with "
        "its definition or with the same question asked before; distinct = distinct (graph, kinds of variables, interventions, sequence of calls)")
REQUIRE = {"graph_queries": 3000, "networks": 60, "sampled": 120, "predicted": 150, "proba": 60, "intervened_columns": 200, "intervened_numeric": 60, "intervened_classes": 60,
           "untouched": 50, "copies": 40, "histories": 30, "seed_zero": 20, "effects": 30, "store": 200, "failing_calls": 15, "frequencies": 20, "isolated_node": 20, "refits": 8}

NAMES = [list("abcdefg"), list("xytzuvw"), ["my x", "a_b", "a_b_c", "T", "out_come", "1", "é"], ["x", "x1", "x_1", "xx", "x__y", "y", "t"], ["weight", "mean", "scale", "bias", "t", "y", "z"]]


def random_dag(rng, k, names):
    while True:
        o = rng.permutation(k)
        p = float(rng.choice([.3, .5, .8]))
        e = [(names[o[i]], names[o[j]]) for i in range(k) for j in range(i + 1, k) if rng.random() < p]
        g = nx.DiGraph()
        g.add_nodes_from(names[:k])
        g.add_edges_from(e)
        if nx.is_weakly_connected(g):
            return g


def spelled(rng, g):
    """The graph in one of the forms accepted by DAG."""
    r = int(rng.integers(5))
    nodes = list(g)
    if r == 0:
        return {v: list(g.successors(v)) for v in nodes}
    if r == 1:
        return g
    if r == 2:
        return pd.DataFrame([[int(g.has_edge(u, v)) for v in nodes] for u in nodes], index=nodes, columns=nodes)
    if r == 3:
        return CausalGraph({v: list(g.predecessors(v)) for v in nodes})
    return list(g.edges) if g.number_of_edges() else g


class Problem:
    def __init__(self, rng, k=None, n=None):
        self.k = k = k or int(rng.integers(2, 7))
        names = NAMES[int(rng.integers(len(NAMES)))]
        names = [names[i] for i in rng.permutation(len(names))]
        self.g = g = random_dag(rng, k, names)
        self.n = n = n or int(rng.integers(24, 60))
        d, self.kind = {}, {}
        num = {}
        for v in nx.topological_sort(g):
            s = sum((num[p] for p in g.predecessors(v)), np.zeros(n)) * rng.normal() + rng.normal(size=n)
            num[v] = s
            kind = str(rng.choice(["float", "float", "float32", "str", "int", "bool", "category", "int8"]))
            if kind == "float":
                d[v] = s * float(rng.choice([1, 1, 5, .2])) + float(rng.choice([0, 0, 3, -20]))
            elif kind == "float32":
                d[v] = s.astype(np.float32)
            elif kind == "bool":
                d[v] = s > np.median(s)
            else:
                m = int(rng.integers(2, 4))
                q = np.searchsorted(np.quantile(s, np.linspace(0, 1, m + 1)[1:-1]), s)
                labels = [["b", "a", "c"], ["no", "yes", "maybe"], ["10", "9", "1"]][int(rng.integers(3))][:m] if kind in ("str", "category") else \
                    [[0, 1, 2], [1, 2, 3], [5, -1, 30]][int(rng.integers(3))][:m]
                c = np.array(labels, dtype=object if kind in ("str", "category") else np.int64)[q]
                d[v] = pd.Categorical(c) if kind == "category" else c.astype(np.int8) if kind == "int8" else c
            self.kind[v] = kind
        cols = [list(d)[i] for i in rng.permutation(k)]
        self.df = pd.DataFrame({c: d[c] for c in cols})
        if rng.random() < .3:
            self.df["extra column"] = rng.normal(size=n)
        if rng.random() < .5:
            self.df.index = rng.permutation(n) * 3 - 7
        self.num = [v for v in g if self.kind[v].startswith("float")]
        self.cat = [v for v in g if v not in self.num]
        self.classes = {v: sorted(set(np.asarray(self.df[v]).tolist())) for v in self.cat}

    def value(self, rng, v):
        """A value to set v to, in the domain."""
        if v in self.cat:
            return self.classes[v][int(rng.integers(len(self.classes[v])))]
        c = int(rng.integers(5))
        x = float(rng.normal() * 3)
        return [x, round(x, 1), .1, int(round(x)), float(self.df[v].iloc[0])][c]

    def intervention(self, rng, k=None):
        nodes = list(self.g)
        k = k or int(rng.choice([1, 1, 2]))
        return {nodes[i]: self.value(rng, nodes[i]) for i in rng.permutation(len(nodes))[:k]}

    def descendants(self, nodes):
        r = set()
        for v in nodes:
            r |= nx.descendants(self.g, v)
        return r - set(nodes)

    def describe(self):
        return (tuple(sorted(self.g.edges)), tuple(sorted(self.kind.items())))


def fit(rec, rng, p, seed=None, **kw):
    b = SviBayesianNetwork(DAG(spelled(rng, p.g)))
    b.fit(p.df, epochs=int(rng.integers(1, 8)), random_state=int(rng.integers(1, 1000)) if seed is None else seed, **kw)
    rec.event("networks")
    return b


def state(b):
    """Everything a network knows, in a comparable form."""
    out = {"params": {k: v.detach().numpy().copy() for k, v in (b.params_ or {}).items()}, "interventions": copy.deepcopy(b.interventions),
           "edges": sorted(map(str, b.graph.edges)), "fitted": b._is_fitted}
    s = b.pyro_param_state
    out["state"] = None if s is None else {k: v.detach().numpy().copy() for k, v in s["params"].items()}
    return out


def store():
    s = pyro.get_param_store()
    return {k: (v.detach().numpy().copy()) for k, v in s.items()}, {k: str(v) for k, v in s.get_state()["constraints"].items()}


def user_params(rng):
    pyro.clear_param_store()
    pyro.param("mine", torch.tensor(rng.normal(size=3)))
    pyro.param("AutoGuideList.0.locs.x__mean", torch.tensor(4.5))
    pyro.param("positive", torch.tensor(2.), constraint=torch.distributions.constraints.positive)
    return store()


def same(a, b):
    if type(a) is not type(b) and not (np.isscalar(a) and np.isscalar(b)):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, pd.DataFrame):
        return list(a.columns) == list(b.columns) and a.index.equals(b.index) and all(same(a[c].to_numpy(), b[c].to_numpy()) for c in a.columns)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and (bool(np.array_equal(a, b, equal_nan=True)) if a.dtype.kind == "f" and b.dtype.kind == "f" else a.tolist() == b.tolist())
    return a == b


def in_domain(rec, p, frame, where, fixed):
    for v in frame.columns:
        if v not in p.g:
            continue
        if v in p.cat:
            rec.ok(set(np.asarray(frame[v]).tolist()) <= set(p.classes[v]), f"{where}_domain", "a value that never occurred in the data",
                   column=v, values=frame[v].tolist()[:10], classes=p.classes[v])
        else:
            x = pd.to_numeric(frame[v], errors="coerce").to_numpy(dtype=float)
            rec.ok(bool(np.isfinite(x).all()), f"{where}_domain", "not a finite number", column=v, values=frame[v].tolist()[:10])
        if v in fixed:
            rec.event("intervened_columns")
            rec.event("intervened_classes" if v in p.cat else "intervened_numeric")
            rec.ok(all(x == fixed[v] or v in p.num and not where.startswith('sample') and abs(x - fixed[v]) <= 1e-9 * abs(fixed[v]) for x in np.asarray(frame[v]).tolist()), f"{where}_intervened", "an intervened variable has another value than asked", column=v, expected=fixed[v],
                   values=np.asarray(frame[v]).tolist()[:10])


class Asker:
    """Questions put to a network; each is a function of the network only, so that it can be repeated."""

    def __init__(self, rec, rng, p):
        self.rec, self.rng, self.p = rec, rng, p

    def question(self):
        rng, p = self.rng, self.p
        seed = int(rng.choice([0, 1, 7, 1234]))
        kind = str(rng.choice(["sample", "sample_data", "sample_nodes", "predict", "predict", "proba", "raw", "effect", "effect_old"]))
        nodes = list(p.g)
        part = p.df.iloc[rng.permutation(p.n)[:int(rng.integers(1, 9))]]
        if kind == "sample":
            return kind, dict(n_samples=int(rng.choice([1, 2, 7])), random_state=seed)
        if kind in ("sample_data", "sample_nodes"):
            cols = [c for c in part.columns if rng.random() < .5] or [part.columns[0]]
            kw = dict(data=part[cols], random_state=seed)
            if kind == "sample_nodes":
                kw["nodes"] = [nodes[i] for i in rng.permutation(len(nodes))[:int(rng.integers(1, len(nodes) + 1))]]
            return kind, kw
        m = int(rng.integers(2, 7))
        out = [nodes[i] for i in rng.permutation(len(nodes))[:int(rng.choice([1, 1, 2]))]]
        if kind in ("predict", "proba", "raw"):
            cols = [c for c in part.columns if rng.random() < .7]
            cols = cols or [part.columns[0]]
            return kind, dict(data=part[cols], outcome=out if len(out) > 1 or rng.random() < .5 else out[0], num_samples=m, random_state=seed, proba=kind == "proba" or bool(rng.random() < .3))
        t = [nodes[i] for i in rng.permutation(len(nodes)) if nodes[i] not in out][:1]
        if not t:
            return "sample", dict(n_samples=3, random_state=seed)
        kw = dict(data=part, treatment=t[0], outcome=out, num_samples=m, random_state=seed)
        if rng.random() < .6:
            kw.update(treat=p.value(rng, t[0]), control=p.value(rng, t[0]))
        return kind, kw

    def ask(self, b, q):
        kind, kw = q
        fn = {"sample": b.sample, "sample_data": b.sample, "sample_nodes": b.sample, "predict": b.predict, "proba": b.predict, "raw": b.predict_raw,
              "effect": b.estimate, "effect_old": b.estimate_old}[kind]
        kw = dict(kw)
        before = None
        if "data" in kw:
            before = kw["data"].copy(deep=True)
        if kw.get("random_state") == 0:
            self.rec.event("seed_zero")
        r = fn(**kw)
        if before is not None:
            self.rec.ok(same(before, kw["data"]) and list(before.dtypes) == list(kw["data"].dtypes), f"{kind}_caller_data", "the caller's data was changed", question=kind)
        return r

    def check(self, b, q, r, fixed):
        rec, p = self.rec, self.p
        kind, kw = q
        n = len(kw["data"]) if "data" in kw else kw["n_samples"]
        rec.ok(len(r) == n, f"{kind}_rows", "another number of rows than asked", expected=n, got=len(r))
        if kind.startswith("sample"):
            rec.event("sampled")
            rec.ok(set(r.columns) == set(kw.get("nodes", p.g)), "sample_columns", "other columns than the variables asked", got=list(r.columns), nodes=list(p.g))
            in_domain(rec, p, r, "sample", fixed)
            if "data" in kw:
                rec.ok(r.index.equals(kw["data"].index), "sample_index", "another index than the data")
                for c in kw["data"].columns:
                    if c in r.columns and c not in fixed:
                        rec.ok(same(np.asarray(r[c]), np.asarray(kw["data"][c])), "sample_observed", "a given column was not kept", column=c,
                               got=r[c].tolist()[:6], expected=kw["data"][c].tolist()[:6])
        elif kind in ("predict", "proba", "raw"):
            rec.event("predicted")
            out = kw["outcome"] if isinstance(kw["outcome"], list) else [kw["outcome"]]
            want = []
            for v in out:
                want += [f"{v}_{c}" for c in p.classes[v]] if kw["proba"] and v in p.cat else [v]
            rec.ok(list(map(str, r.columns)) == want, f"{kind}_columns", "other columns than asked", got=list(map(str, r.columns)), expected=want)
            if list(map(str, r.columns)) != want:
                return
            plain = r[[v for v in out if v in r.columns]]
            in_domain(rec, p, plain, kind, fixed)
            for v in out:
                if kw["proba"] and v in p.cat:
                    rec.event("proba")
                    m = r[[f"{v}_{c}" for c in p.classes[v]]].to_numpy(dtype=float)
                    rec.ok(bool((m >= 0).all() and np.allclose(m.sum(1), 1)), "proba_sum", "probabilities do not sum to one", column=v)
                    steps = m * kw["num_samples"]
                    rec.ok(np.allclose(steps, np.round(steps), atol=1e-4), "proba_frequency", "probabilities are not frequencies of the drawn samples", column=v, num_samples=kw["num_samples"])
                    if v in fixed:
                        rec.event("intervened_columns")
                        i = p.classes[v].index(fixed[v])
                        rec.ok(bool((m[:, i] == 1).all()), "proba_intervened", "an intervened variable has not probability one for its value", column=v, value=fixed[v])
                elif v in p.cat:
                    pass
        else:
            rec.event("effects")
            x = r.to_numpy(dtype=float)
            rec.ok(bool(np.isfinite(x).all()), "effect_finite", "not a finite effect")
            for v in kw["outcome"]:
                if v in p.cat:
                    m = r[[f"{v}_{c}" for c in p.classes[v]]].to_numpy(dtype=float)
                    rec.ok(np.allclose(m.sum(1), 0, atol=1e-6) and bool((np.abs(m) <= 1 + 1e-9).all()), "effect_classes", "effects on the probabilities of all classes do not sum to zero", column=v)


def closed(rec, rng, p, b, fixed, mine, n=4):
    """Random questions: domains, and nothing left behind."""
    a = Asker(rec, rng, p)
    s = state(b)
    for _ in range(n):
        q = a.question()
        r = a.ask(b, q)
        a.check(b, q, r, fixed)
        rec.ok(same(state(b), s), f"{q[0]}_changed_network", "asking a question changed the fitted network", question=q[0], fixed=fixed)
        rec.event("store")
        rec.ok(same(store(), mine), f"{q[0]}_store", "the process-wide parameter store was changed", question=q[0])
        rec.seen(p.describe(), tuple(sorted(map(str, fixed.items()))), q[0])


def case_domain(rec, rng, tier):
    p = Problem(rng)
    mine = user_params(rng)
    before = p.df.copy(deep=True)
    b = fit(rec, rng, p)
    rec.ok(same(p.df, before), "fit_caller_data", "fit changed the caller's data")
    rec.event("store")
    rec.ok(same(store(), mine), "fit_store", "fit changed the process-wide parameter store")
    closed(rec, rng, p, b, {}, mine, 6)
    for b2, q in ((b, 0),):
        a = Asker(rec, rng, p)
        for _ in range(3):
            q = a.question()
            rec.ok(same(a.ask(b2, q), a.ask(b2, q)), f"{q[0]}_repeat", "the same question with the same seed has two answers", question=q[0], seed=q[1]["random_state"])
    kw = dict(epochs=3, random_state=int(rng.choice([0, 5])))
    g = DAG(p.g)
    b1, b2 = SviBayesianNetwork(g).fit(p.df, **kw), SviBayesianNetwork(g).fit(p.df, **kw)
    rec.ok(same(state(b1), state(b2)), "fit_repeat", "two fits with the same seed differ", seed=kw["random_state"])
    if rng.random() < .5:
        b1.fit(p.df.sample(frac=1., random_state=3), epochs=2, random_state=9)
    rec.event("refits")
    b1.fit(p.df, **kw)
    rec.ok(same(state(b1), state(b2)), "refit", "a refitted network differs from one fitted alone with the same seed", seed=kw["random_state"])
    if p.cat:
        v = p.cat[int(rng.integers(len(p.cat)))]
        d = p.df[np.asarray(p.df[v]) != p.classes[v][0]] if len(p.classes[v]) > 2 else p.df
        d = d if all(d[c].nunique() > 1 for c in p.cat) else p.df
        b1.fit(d, epochs=2, random_state=1)
        b3 = SviBayesianNetwork(g).fit(d, epochs=2, random_state=1)
        rec.ok(same(state(b1), state(b3)), "refit", "a network refitted to other classes differs from one fitted alone")


def case_do(rec, rng, tier):
    p = Problem(rng)
    mine = user_params(rng)
    b = fit(rec, rng, p)
    fixed, chain = {}, [b]
    cur = b
    for step in range(int(rng.choice([1, 2, 3]))):
        iv = p.intervention(rng)
        kw = dict(epochs=int(rng.integers(0, 4)), verbose=0, random_state=int(rng.choice([0, 3, 11])), blanket=str(rng.choice(["markov", "downstream", "upstream"])))
        if rng.random() < .6:
            kw["data"] = p.df
        elif rng.random() < .5:
            kw["n_samples"] = int(rng.integers(5, 30))
        inplace = bool(rng.random() < .3)
        before, old, given = state(cur), p.df.copy(deep=True), dict(iv)
        reference = copy.deepcopy(cur) if inplace else cur
        new = cur.do(iv, inplace=inplace, **kw)
        fixed = {**fixed, **iv}
        rec.ok(iv == given and same(p.df, old), "do_caller_data", "do changed the caller's data or intervention")
        rec.event("store")
        rec.ok(same(store(), mine), "do_store", "do changed the process-wide parameter store")
        if inplace:
            rec.ok(new is cur, "do_inplace", "do(inplace=True) returned another network")
        else:
            rec.event("copies")
            rec.ok(new is not cur and same(state(cur), before), "do_copy", "do(inplace=False) changed the original network", intervention=iv, fixed=fixed)
            again = cur.do(iv, inplace=False, **kw)
            rec.ok(same(state(again), state(new)), "do_repeat", "the same intervention with the same seed has two results", seed=kw["random_state"])
        rec.ok(same(dict(new.interventions), fixed), "do_interventions", "other interventions than asked", got=new.interventions, expected=fixed)
        new.interventions["nobody"] = 1
        rec.ok(same(dict(new.interventions), fixed), "do_interventions_alias", "the interventions were changed through what the network returned")
        # variables which are neither intervened nor after an intervention
        free = [v for v in p.g if v not in fixed and v not in p.descendants(fixed)]
        changed_now = p.descendants(iv)
        if free:
            rec.event("untouched")
            seed = int(rng.choice([0, 2]))
            x, y = (n_.sample(n_samples=9, nodes=free, random_state=seed) for n_ in (reference, new))
            rec.ok(same(x, y[list(x.columns)]), "do_untouched", "variables which do not descend from the intervention are sampled otherwise", intervention=iv, fixed=fixed, free=free,
                   edges=list(p.g.edges), before=x.iloc[0].to_dict(), after=y.iloc[0].to_dict())
            for v in free:
                given = list(p.g.predecessors(v))
                if given:
                    x, y = (n_.sample(p.df[given].head(6), nodes=[v], random_state=seed) for n_ in (reference, new))
                else:
                    x, y = (n_.sample(n_samples=6, nodes=[v], random_state=seed) for n_ in (reference, new))
                rec.ok(same(x, y), "do_untouched", "a variable which does not descend from the intervention is sampled otherwise", intervention=iv, variable=v, edges=list(p.g.edges))
        # a variable after an earlier intervention only keeps its mechanism
        rest = [v for v in p.g if v not in fixed and v not in changed_now and v not in free and not set(p.g.predecessors(v)) & set(fixed)]
        for v in rest[:2]:
            x, y = (n_.sample(p.df[list(p.g.predecessors(v))].head(6), nodes=[v], random_state=1) for n_ in (reference, new))
            rec.ok(same(x, y), "do_untouched", "a variable which does not descend from the last intervention is sampled otherwise", intervention=iv, variable=v)
        # the whole joint sample has the value everywhere
        x = new.sample(n_samples=5, random_state=1)
        in_domain(rec, p, x, "sample", fixed)
        x = new.sample(p.df.head(4), random_state=1)
        in_domain(rec, p, x, "sample_data", fixed)
        out = list(fixed)
        x = new.predict(p.df.head(4), outcome=out, num_samples=3, random_state=1)
        in_domain(rec, p, x, "predict", fixed)
        x = new.predict_raw(p.df.head(4), outcome=out, num_samples=3, random_state=1)
        in_domain(rec, p, x, "raw", fixed)
        closed(rec, rng, p, new, fixed, mine, 2)
        cur = new
    if cur is not b:
        # the copy and the original live apart
        s = state(cur)
        b.do(p.intervention(rng), epochs=1, verbose=0)
        rec.ok(same(state(cur), s), "copy_apart", "changing the original changed its copy")
    g = b.graph
    b.fit(p.df, epochs=1, random_state=4)
    rec.event("refits")
    rec.ok(same(state(b), state(SviBayesianNetwork(g).fit(p.df, epochs=1, random_state=4))), "refit_after_do", "a network refitted after an intervention differs from a new one")
    s = state(b)
    d = b.fit(p.df.head(20) if all(p.df[c].head(20).nunique() > 1 for c in p.cat) else p.df, epochs=2, random_state=8, inplace=False)
    rec.ok(d is not b and same(state(b), s), "fit_copy", "fit(inplace=False) changed the original network")


def case_history(rec, rng, tier):
    """Any sequence of questions: every answer equals the answer of a fresh copy asked alone."""
    p = Problem(rng, int(rng.integers(2, 5)))
    mine = user_params(rng)
    b = fit(rec, rng, p)
    fixed = {}
    if rng.random() < .6:
        fixed = p.intervention(rng)
        b.do(fixed, data=p.df, epochs=1, verbose=0, random_state=1)
    a = Asker(rec, rng, p)
    pure = copy.deepcopy(b)
    log = []
    for _ in range(int(rng.integers(4, 9))):
        op = int(rng.integers(10))
        if op == 0:
            b.do(p.intervention(rng), inplace=False, epochs=1, verbose=0)
            log.append("do_copy")
        elif op == 1 and p.cat:
            v = p.cat[0]
            rec.event("failing_calls")
            bad = {**p.intervention(rng), v: "never seen" if isinstance(p.classes[v][0], str) else 977}
            for i, call in enumerate((lambda: b.do(bad, epochs=1, verbose=0), lambda: b.sample(p.df.head(3).assign(**{v: bad[v]})),
                         lambda: b.predict(p.df.head(3), outcome="no such column"), lambda: b.estimate(p.df.head(3), v, "no such column"))):
                try:
                    call()
                except Exception:
                    pass
                else:
                    rec.ok(i == 1 and v in fixed, "unknown_accepted", "a class or variable that never occurred was accepted", value=bad[v], column=v, classes=p.classes[v], call=i)
            log.append("fail")
        elif op == 2:
            torch.manual_seed(int(rng.integers(99)))
            b.sample(n_samples=2)
            log.append("unseeded")
        q = a.question()
        log.append(q[0])
        r = a.ask(b, q)
        fresh = copy.deepcopy(pure)
        rec.ok(same(r, a.ask(fresh, q)), f"{q[0]}_history", "the answer depends on the questions asked before", history=log, fixed=fixed, edges=list(p.g.edges))
        # what was returned belongs to the caller
        for c in r.columns:
            if r[c].dtype.kind == "f":
                r[c] = -1e6
                try:
                    r[c].to_numpy()[:] = -1e6
                except ValueError:
                    pass
        rec.ok(same(state(b), state(pure)), "history_changed_network", "questions changed the fitted network", history=log)
        rec.event("store")
        rec.ok(same(store(), mine), "history_store", "the process-wide parameter store was changed", history=log)
    rec.event("histories")
    rec.seen(p.describe(), tuple(log))


def z(d):
    d = np.asarray(d, float)
    s = d.std(ddof=1) / np.sqrt(len(d))
    return abs(d.mean()) / s if s > 0 else (0. if abs(d.mean()) < 1e-6 else np.inf)


def case_frequencies(rec, rng, tier):
    """Samples, predictions and effects agree with each other as averages."""
    p = Problem(rng, int(rng.integers(2, 5)), 120)
    user_params(rng)
    b = fit(rec, rng, p)
    if rng.random() < .4:
        b.do(p.intervention(rng, 1), data=p.df, epochs=1, verbose=0)
    nodes = list(p.g)
    v = nodes[int(rng.integers(len(nodes)))]
    cols = [c for c in nodes if c != v and c not in nx.descendants(p.g, v) and rng.random() < .8]
    if cols:
        data = p.df[cols]
        m = 25
        pr = b.predict(data, outcome=v, proba=True, num_samples=m, random_state=3)
        draws = [b.sample(data, random_state=100 + i)[v] for i in range(m)]
        rec.event("frequencies")
        if v in p.cat:
            for c in p.classes[v]:
                f = np.mean([np.asarray(d) == c for d in draws], axis=0)
                rec.ok(z(pr[f"{v}_{c}"].to_numpy() - f) < 6, "sample_predict_frequency", "probabilities differ from the frequencies of samples", z=z(pr[f"{v}_{c}"].to_numpy() - f), column=v)
        else:
            f = np.mean([np.asarray(d, float) for d in draws], axis=0)
            rec.ok(z(pr[v].to_numpy(float) - f) < 6, "sample_predict_mean", "the prediction differs from the mean of samples", z=z(pr[v].to_numpy(float) - f), column=v)
    # effects: the outcome predicted with the treatment set, all other variables before it as given
    t = nodes[int(rng.integers(len(nodes)))]
    if t == v or t in b.interventions or v in b.interventions:
        return
    desc = nx.descendants(p.g, t)
    if v not in desc:
        return
    base = [c for c in nodes if c not in desc and c != t]
    data = p.df[nodes]
    tv, cv = p.value(rng, t), p.value(rng, t)
    m = 25
    e = b.estimate(data, t, v, treat=tv, control=cv, num_samples=m, random_state=5)
    one, zero = (b.predict(data[base].assign(**{t: pd.Series([x] * len(data), index=data.index).astype(object if isinstance(x, str) else None)}), outcome=v, proba=True, num_samples=m, random_state=6 + i)
                 for i, x in enumerate((tv, cv)))
    rec.event("effects")
    for c in e.columns:
        d = e[c].to_numpy(float) - (one[c].to_numpy(float) - zero[c].to_numpy(float))
        rec.ok(z(d) < 6, "effect_mean", "the effect differs from the outcomes predicted under the two treatments", z=z(d), treatment=t, outcome=v, edges=list(p.g.edges),
               treat=tv, control=cv, mean=float(e[c].mean()), expected=float((one[c] - zero[c]).mean()), interventions=b.interventions)


def case_graph(rec, rng, tier):
    k = int(rng.integers(1, 8))
    names = NAMES[int(rng.integers(len(NAMES)))]
    names = [names[i] for i in rng.permutation(7)]
    if k > 1:
        g = random_dag(rng, k, names)
    else:
        g = nx.DiGraph()
        g.add_node(names[0])
    connected = True
    if rng.random() < .25 and k < 7:
        g.add_node(names[k])
        connected = False
        rec.event("isolated_node")
    cyc = rng.random() < .2 and k > 1
    if cyc:
        u, v = list(g.edges)[0]
        g.add_edge(v, u)
    s = spelled(rng, g)
    if isinstance(s, CausalGraph) and cyc or isinstance(s, list) and not connected:
        s = g
    if not connected or cyc:
        try:
            DAG(s)
        except ValueError:
            rec.event("rejected")
        else:
            rec.ok(False, "dag_accepted", "a graph with a cycle or of several parts was accepted", edges=list(g.edges), nodes=list(g))
    d = DiGraph(s) if not connected or cyc or rng.random() < .3 else DAG(s)
    rec.ok(set(d.nodes) == set(g.nodes) and set(d.edges) == set(g.edges), "graph_form", "another graph than given", form=type(s).__name__, edges=list(g.edges), got=list(d.edges),
           nodes=list(g.nodes), got_nodes=list(d.nodes))
    if set(d.nodes) != set(g.nodes) or set(d.edges) != set(g.edges):
        return
    E, V = set(g.edges), list(g.nodes)
    par = {v: {a for a, b in E if b == v} for v in V}
    ch = {v: {b for a, b in E if a == v} for v in V}
    topo = connected and not cyc
    rec.ok(d.is_dag is topo or d.is_dag == topo, "is_dag", "is_dag is wrong", edges=sorted(E))
    rec.ok(sorted(d.get_nodes()) == sorted(V) and sorted(d.get_edges()) == sorted(E), "nodes_edges", "nodes or edges are wrong")

    def query(name, want, fn, *a, **kw):
        for ts in ((False, True) if topo else (False,)):
            r = fn(*a, topo_sorted=ts, **kw)
            rec.event("graph_queries")
            rec.ok(len(r) == len(set(r)) and set(r) == set(want), name, "another set of variables than the definition", args=str(a), options=str(kw), edges=sorted(E), got=list(r), expected=sorted(want))
            if ts:
                i = {v: x for x, v in enumerate(r)}
                anc = [(u, v) for u in r for v in r if u in nx.ancestors(g, v)]
                rec.ok(all(i[u] < i[v] for u, v in anc), name + "_order", "not in topological order", got=list(r), edges=sorted(E))
            else:
                rec.ok(list(r) == sorted(r), name + "_order", "not sorted", got=list(r))

    query("get_nodes", V, d.get_nodes)
    for v in V:
        query("get_parents", par[v], d.get_parents, v)
        query("get_children", ch[v], d.get_children, v)
    for _ in range(4):
        m = int(rng.integers(1, min(3, len(V)) + 1))
        X = [V[i] for i in rng.permutation(len(V))[:m]]
        arg = X[0] if m == 1 and rng.random() < .6 else X
        P = set().union(*(par[v] for v in X))
        C = set().union(*(ch[v] for v in X))
        M = P | C | set().union(set(), *(par[c] for c in C))
        for kind, S, fn in (("markov", M, d.get_markov_blanket), ("downstream", C, d.get_downstream_blanket), ("upstream", P, d.get_upstream_blanket)):
            query(f"blanket_{kind}", S | set(X), d.get_blanket, arg, kind=kind)
            query(f"blanket_{kind}", S - set(X), d.get_blanket, arg, kind=kind, return_self=False)
            query(f"{kind}_blanket", S | set(X), fn, arg)
            if m == 1 or kind == "markov":
                query(f"{kind}_blanket", S - set(X), fn, arg, return_self=False)
        rec.ok(not isinstance(arg, list) or arg == X, "blanket_argument", "the caller's list was changed")
        query("sort_nodes", set(X), d.sort_nodes, X)
    rec.ok(set(d.edges) == E and set(d.nodes) == set(V), "graph_changed", "queries changed the graph")
    rec.seen(tuple(sorted(E)), type(s).__name__)


GROUPS = [
    Group("graph", case_graph, quick=150, thorough=3000, timeout=60, chunk=15),
    Group("domain", case_domain, quick=80, thorough=600, timeout=200, chunk=3),
    Group("do", case_do, quick=100, thorough=800, timeout=240, chunk=3),
    Group("history", case_history, quick=100, thorough=800, timeout=240, chunk=3),
    Group("frequencies", case_frequencies, quick=64, thorough=800, timeout=240, chunk=3),
]
