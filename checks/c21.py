"""C21: the compiled tree code under AddressSanitizer, UndefinedBehaviorSanitizer and bounds checks; and, uninstrumented, under filled memory and leak counting."""
import copy
import ctypes
import json
import os
import pickle
import subprocess
import sys
import threading

import numpy as np
import pandas as pd
import scipy.sparse as sp

from vm.core import Group, Skip
from vm import sanitize

CUSTOM_NATIVE = True
PROPERTY = "C21"
RULE = ("one evaluation = one operation of the compiled code after which the sanitizers' reports, the unraisable exceptions and (for malformed input) the Python "
        "error were examined, or one comparison of results under differently filled memory, or one leak measurement; distinct = distinct (kind of tree, settings, shape of data) operated on")
REQUIRE = {"canary": 5, "op:fit": 400, "op:apply": 300, "op:predict": 300, "op:path": 200, "op:pickle": 60, "nodes": 5000, "malformed": 100, "rejected": 60, "tiny_leaves": 100,
           "best_first": 80, "weighted": 40, "threads": 20, "constant": 50, "extreme": 50, "deep": 10, "filled": 60, "leak_runs": 8, "sparse": 30}
ASSUMPTIONS = ["uninitialised reads are observed through their effect on results when fresh memory is filled with three different values"]

_unraisable = []
sys.unraisablehook = lambda u: _unraisable.append(f"{type(u.exc_value).__name__}: {u.exc_value} in {u.object}")


class Guard:
    """Runs an operation and examines what the sanitizers say afterwards."""

    def __init__(self, rec, **info):
        self.rec, self.info = rec, info

    def look(self, op, key=""):
        for kind, where, text in sanitize.news():
            self.rec.ok(False, f"{kind}@{where}", f"{kind} during {op}", report=text, **self.info)
        while _unraisable:
            t = _unraisable.pop()
            self.rec.ok(False, "unraisable:" + t[:40], f"exception inside compiled code during {op}: {t}", **self.info)

    def __call__(self, op, f, *a, **kw):
        self.rec.event("op:" + op)
        try:
            return f(*a, **kw)
        finally:
            self.rec.evals += 1
            self.look(op)

    def refused(self, op, f, *a, must=True, **kw):
        """Malformed input: a Python error (when must) and never a report."""
        self.rec.event("malformed")
        try:
            r = f(*a, **kw)
        except Exception as e:
            self.rec.event("rejected")
            self.look(op)
            self.rec.evals += 1
            return None
        self.look(op)
        if must:
            self.rec.ok(False, "accepted:" + op.split(":")[0], f"malformed input was accepted: {op}", **self.info)
        return r


# ---------------------------------------------------------------- data

def matrix(rng, rec, n, d):
    """Features in hostile forms."""
    V = rng.normal(size=(n, d))
    for j in range(d):
        k = int(rng.integers(12))
        if k == 0:
            V[:, j] = float(rng.normal())
            rec.event("constant")
        elif k == 1:
            V[:, j] = rng.integers(0, 2, n)
        elif k == 2:
            V[:, j] = np.arange(n)
        elif k == 3:
            V[:, j] *= 10. ** int(rng.choice([-30, -10, 10, 30]))
            rec.event("extreme")
        elif k == 4:
            V[:, j] = np.where(rng.random(n) < .9, 0., V[:, j])
        elif k == 5 and j:
            V[:, j] = V[:, 0]
        elif k == 6:
            V[:, j] = 1 + rng.integers(0, 3, n) * 1e-8      # equal after rounding to single precision
        elif k == 7:
            V[:, j] = np.sort(V[:, j])
        elif k == 8:
            V[:, j] = rng.choice([-3.4e38, 3.4e38, 0, 1], n)
            rec.event("extreme")
    return V


def sizes(rng):
    n = int(rng.choice([1, 2, 3, 4, 5, 8, 15, 40, 120, 300]))
    return n, int(rng.choice([1, 1, 2, 3, 7]))


def frame(rng, V, **cols):
    d = {f"v{j}": V[:, j] for j in range(V.shape[1])}
    d.update(cols)
    f = pd.DataFrame(d)
    if rng.random() < .2:
        f = f.iloc[rng.permutation(len(f))]
    return f


def limits(rng, rec, n, d, best_first=True):
    kw = {}
    if rng.random() < .5:
        kw["max_depth"] = int(rng.choice([1, 2, 3, 30]))
    if rng.random() < .6:
        kw["min_samples_leaf"] = [1, 2, 5, .1, .3][int(rng.integers(5))]
    else:
        rec.event("tiny_leaves")
    if rng.random() < .5:
        kw["min_samples_split"] = [2, 3, 10, .2][int(rng.integers(4))]
    if best_first and rng.random() < .4:
        kw["max_leaf_nodes"] = int(rng.choice([2, 3, 5, 50, 1000]))
        rec.event("best_first")
    if rng.random() < .5:
        kw["max_features"] = [1, d, .5, "sqrt", "log2", None][int(rng.integers(6))]
    if rng.random() < .3:
        kw["min_impurity_decrease"] = float(rng.choice([0., 1e-3, 1.]))
    kw["random_state"] = int(rng.integers(1000))
    return kw


def use_tree(rec, g, rng, m, tree, V, data, by_array):
    """Everything a fitted tree offers, on several forms of rows."""
    rec.event("nodes", tree.node_count)
    rec.event("deep", int(tree.max_depth > 12))
    X = V.astype(np.float32)
    g("predict", tree.predict, X)
    a = g("apply", tree.apply, X)
    rec.ok(len(a) == len(X) and ((a >= 0) & (a < tree.node_count)).all(), "leaf_range", "a row ends in a node which does not exist")
    rec.ok((tree.children_left[a] == -1).all(), "leaf_inner", "a row ends in an inner node")
    P = g("path", tree.decision_path, X)
    rec.ok(P.shape == (len(X), tree.node_count) and P.indptr[-1] == len(P.indices), "path_shape", "decision paths have another shape")
    for form in rng.permutation(5)[:2]:
        if form == 0:
            g("apply", tree.apply, np.asfortranarray(X))
        elif form == 1:
            g("predict", tree.predict, X[::-1][::2])
        elif form == 2 and len(X):
            Z = X.copy()
            Z[rng.random(Z.shape) < .3] = rng.choice([np.nan, np.inf, -np.inf, 3e38])
            g("apply", tree.apply, Z)
            g("path", tree.decision_path, Z)
        elif form == 3:
            g("apply", tree.apply, X[:0])
            g("predict", tree.predict, X[:0])
            g("path", tree.decision_path, X[:0])
        else:
            S = sp.csr_matrix(X)
            rec.event("sparse")
            if len(X):
                rec.ok(np.array_equal(g("apply", tree.apply, S), a), "sparse_leaves", "sparse rows end in other leaves")
                g("path", tree.decision_path, S)
    g("importances", tree.compute_feature_importances)
    for q in ("value", "threshold", "feature", "impurity", "n_node_samples", "weighted_n_node_samples", "children_left", "children_right", "n_classes"):
        np.array(getattr(tree, q), copy=True)
    g.look("attributes")


def outlive(rec, g, tree, X):
    """Arrays taken from a tree stay readable after the tree is gone."""
    import gc
    t = pickle.loads(pickle.dumps(tree))
    v, f = t.value, t.threshold
    was = v.copy()
    del t
    gc.collect()
    rec.ok(np.array_equal(np.array(v), was, equal_nan=True), "outlive", "values of a tree change when the tree is gone")
    g.look("arrays of a deleted tree")


def grow(rng, rec, kind, n, d):
    """A fitted tree of the kind with its feature matrix; (estimator, tree, V, data)."""
    V = matrix(rng, rec, n, d)
    names = [f"v{j}" for j in range(d)]
    if kind == "causal":
        from ylearn.estimator_model import CausalTree
        n = max(n, 2)
        V = matrix(rng, rec, n, d)
        x = rng.integers(0, int(rng.integers(2, 4)), n)
        x[:2] = [0, 1]
        y = rng.normal(size=n) * 10. ** int(rng.choice([-12, 0, 0, 0, 12]))
        kw = limits(rng, rec, n, d, best_first=False)
        if rng.random() < .3:
            kw["splitter"] = "random"
        if rng.random() < .25 and n >= 15:
            kw["honest_subsample_num"] = .5
        data = frame(rng, V, y=y, x=x)
        V = data[names].to_numpy()
        m = CausalTree(**kw)
        fit = lambda: m.fit(data, "y", "x", covariate=names, treat=1, control=0)
    elif kind == "policy":
        from ylearn.policy.policy_model import PolicyTree
        kw = limits(rng, rec, n, d)
        if rng.random() < .3:
            kw["splitter"] = "random"
        if rng.random() < .3:
            kw["criterion"] = str(rng.choice(["policy_test", "policy_test1"]))
        if rng.random() < .3:
            kw["min_weight_fraction_leaf"] = float(rng.choice([0., .1, .5]))
        E = rng.normal(size=(n, int(rng.integers(1, 6)))) * 10. ** int(rng.choice([-12, 0, 0, 0, 12]))
        data = frame(rng, V)
        V = data[names].to_numpy()
        m = PolicyTree(**kw)
        f = {}
        if rng.random() < .4:
            rec.event("weighted")
            f["sample_weight"] = rng.uniform(.01, 2, n)
        fit = lambda: m.fit(data, names, effect_array=E, **f)
    else:
        from ylearn.estimator_model._generalized_forest.tree._grf_tree import GrfTree
        kw = limits(rng, rec, n, d)
        kw.setdefault("min_samples_leaf", 1)
        kx = int(rng.integers(1, 5))
        x = rng.normal(size=(n, kx)) if rng.random() < .6 else np.eye(kx)[rng.integers(0, kx, n)]
        y = rng.normal(size=(n, 1)) * 10. ** int(rng.choice([-12, 0, 0, 0, 12]))
        m = GrfTree(**kw)
        data = None
        if kx > 1 and kw["min_samples_leaf"] in (1, 2):
            rec.event("fewer_rows_than_treatments")
        fit = lambda: m._fit_with_array(x, y, None, V)
    rec.seen(kind, str(sorted(kw.items())), n, d)
    return m, fit, V, data, kw


def case_tree(rec, rng, tier):
    kind = str(rng.choice(["causal", "policy", "grf"]))
    n, d = sizes(rng)
    m, fit, V, data, kw = grow(rng, rec, kind, n, d)
    g = Guard(rec, kind=kind, n=n, features=d, settings={k: str(v) for k, v in kw.items()})
    rec.sample(kind=kind, n=n, features=d, settings={k: str(v) for k, v in kw.items()})
    try:
        g("fit", fit)
    except (ValueError, AssertionError) as e:
        rec.event("refused_small")      # too few rows for the settings
        if n > 8 and kind != "causal":
            raise
        return
    use_tree(rec, g, rng, m, m.tree_, V, data, kind == "grf")
    if rng.random() < .3:
        outlive(rec, g, m.tree_, V)
    # refit the same object on other rows
    if rng.random() < .2:
        g("fit", fit)
    if kind == "grf":
        g("apply", m.apply, None, V)
        g("path", m.decision_path, None, V)
        g.refused("fewer columns", m.apply, None, np.zeros((3, d - 1)) if d > 1 else np.zeros((3, 2)))
    elif kind == "policy":
        g("apply", m.apply, v=V.astype(np.float32))
        g("apply", m.apply, data=data)
        if "criterion" not in kw:
            g("predict", m.predict_ind, data)
        g.refused("fewer columns", m.apply, v=np.zeros((3, d + 1), dtype=np.float32))
        g.refused("fewer columns", m.decision_path, v=np.zeros((3, d - 1), dtype=np.float32))
    else:
        g("apply", m.apply, wv=V.astype(np.float32))
        g("apply", m.apply, data=data)
        g("path", m.decision_path, data=data)
        g("predict", m.estimate, data)
        g.refused("fewer columns", m.apply, wv=np.zeros((3, d + 1), dtype=np.float32))
        g.refused("fewer columns", m.decision_path, wv=np.zeros((3, d - 1), dtype=np.float32))


# ---------------------------------------------------------------- forests and threads

def case_forest(rec, rng, tier):
    from ylearn.estimator_model import CausalForest, CTCausalForest, GRForest
    from sklearn.linear_model import LinearRegression, LogisticRegression
    kind = str(rng.choice(["GRF", "CTF", "CF"]))
    n, d = int(rng.choice([12, 30, 80, 200])), int(rng.integers(1, 5))
    V = matrix(rng, rec, n, d)
    V[np.abs(V) > 1e20] = 0
    names = [f"v{j}" for j in range(d)]
    jobs = [None, 1, 2, 4, 8][int(rng.integers(5))]
    kw = dict(n_estimators=int(rng.choice([1, 2, 4, 8])), n_jobs=jobs, random_state=int(rng.integers(1000)), max_depth=int(rng.choice([1, 3, 20])), min_samples_leaf=int(rng.choice([1, 2, 5])))
    if kind != "CTF" and rng.random() < .4:
        kw["max_leaf_nodes"] = int(rng.choice([2, 4, 40]))
    if rng.random() < .5:
        kw["sub_sample_num"] = [.5, .9][int(rng.integers(2))]
    rec.event("threads", int(jobs not in (None, 1)))
    y = rng.normal(size=n)
    if kind == "GRF":
        x = rng.normal(size=n)
        m = GRForest(**kw, is_discrete_treatment=False)
        data = frame(rng, V, y=y, x=x)
        fit = lambda: m.fit(data, "y", "x", covariate=names)
    elif kind == "CTF":
        x = np.arange(n) % 2
        m = CTCausalForest(**kw)
        data = frame(rng, V, y=y, x=x)
        fit = lambda: m.fit(data, "y", "x", covariate=names, treat=1, control=0)
    else:
        x = np.arange(n) % int(rng.integers(2, 4))
        m = CausalForest(LogisticRegression(), LinearRegression(), is_discrete_treatment=True, cf_fold=1, **kw)
        data = frame(rng, V, y=y, x=x)
        fit = lambda: m.fit(data, "y", "x", covariate=names)
    g = Guard(rec, kind=kind, n=n, features=d, settings={k: str(v) for k, v in kw.items()})
    rec.seen(kind, n, d, str(kw))
    try:
        g("fit", fit)
    except ValueError:
        if n > 30:
            raise
        rec.event("refused_small")
        return
    f = m.yx_model if kind == "CF" else m
    for t in f.estimators_:
        rec.event("nodes", t.tree_.node_count)
    g("predict", m.estimate, data)
    g("predict", m.estimate, data.iloc[: int(rng.integers(1, 5))])
    if kind == "GRF" and jobs not in (None, 1):
        # several callers at once
        out = []
        ts = [threading.Thread(target=lambda: out.append(m.estimate(data))) for _ in range(3)]
        [t.start() for t in ts]
        [t.join() for t in ts]
        g.look("concurrent callers")
        rec.ok(len(out) == 3 and all(np.array_equal(out[0], o, equal_nan=True) for o in out), "callers", "concurrent callers get other answers")
    g("pickle", lambda: pickle.loads(pickle.dumps(m)).estimate(data))


# ---------------------------------------------------------------- malformed input

def corrupt(rng, state, n_features):
    """A state with one thing wrong; (what, whether it has to be refused)."""
    k = int(rng.integers(16))
    nodes = state["nodes"]
    inner = np.flatnonzero(nodes["left_child"] >= 0)
    i = int(rng.choice(inner)) if len(inner) else 0
    side = "left_child" if rng.random() < .5 else "right_child"
    if k == 0:
        del state["nodes"]
    elif k == 1:
        state["nodes"] = nodes[:-1].copy()
        if len(nodes) < 2:
            raise Skip
    elif k == 2:
        state["values"] = state["values"][:-1].copy()
    elif k == 3:
        state["values"] = state["values"].astype(np.float32)
    elif k == 4:
        state["values"] = np.concatenate([state["values"]] * 2, axis=1)
    elif k == 5:
        state["nodes"] = nodes.view(np.uint8).copy()
    elif k == 6:
        state["nodes"] = np.zeros(len(nodes), dtype=[(q, nodes.dtype[q]) for q in list(nodes.dtype.names)[:-1]])
    elif k == 7:
        state["nodes"] = nodes.reshape(-1, 1).copy()
    elif k == 8:
        state["nodes"] = np.repeat(nodes, 2)[::2] if len(nodes) > 1 else nodes.reshape(1, -1)
    elif k == 9 and len(inner):
        nodes[side][i] = int(rng.choice([len(nodes), len(nodes) + 7, 10 ** 6, 10 ** 12]))
    elif k == 10 and len(inner):
        nodes["feature"][i] = int(rng.choice([n_features, n_features + 5, 10 ** 7, -3]))
    elif k == 11 and len(inner):
        nodes[side][i] = int(rng.choice([-5, -1000000]))
    elif k == 12 and len(inner):
        nodes[side][i] = 0       # a cycle
        if i:
            nodes[side][i] = int(rng.integers(0, i + 1))
    elif k == 13 and len(inner):
        state["max_depth"] = int(rng.choice([state["max_depth"] - 1, 0, -1, -100]))
    elif k == 14:
        state["node_count"] = len(nodes) + int(rng.choice([1, 50]))
        return "node_count", True
    elif k == 15:
        state["node_count"] = int(rng.choice([-1, -50]))
        return "node_count", True
    else:
        raise Skip
    what = ["nodes missing", "nodes short", "values short", "values dtype", "values shape", "nodes bytes", "nodes fields", "nodes 2d", "nodes strided", "child beyond", "feature beyond",
            "child negative", "child cycle", "depth", "", ""][k]
    return what, k != 8


def case_pickle(rec, rng, tier):
    kind = str(rng.choice(["causal", "policy", "grf"]))
    n, d = int(rng.choice([8, 40, 120])), int(rng.integers(1, 4))
    m, fit, V, data, kw = grow(rng, rec, kind, n, d)
    g = Guard(rec, kind=kind, n=n, features=d)
    try:
        fit()
    except (ValueError, AssertionError):
        raise Skip
    t = m.tree_
    X = V.astype(np.float32)
    for proto in (2, 5):
        u = g("pickle", pickle.loads, pickle.dumps(t, protocol=proto))
        rec.ok(np.array_equal(u.apply(X), t.apply(X)) and np.array_equal(u.predict(X), t.predict(X), equal_nan=True), "pickle_equal", "an unpickled tree answers otherwise")
    w = g("pickle", copy.deepcopy, m)
    rec.ok(np.array_equal(w.tree_.apply(X), t.apply(X)), "pickle_equal", "a copied tree answers otherwise")
    cls, args, state = t.__reduce__()
    for _ in range(3):
        s = copy.deepcopy(state)
        try:
            what, must = corrupt(rng, s, d)
        except Skip:
            continue
        u = cls(*args)
        g.info["corrupted"] = what
        rec.event("corrupted")

        def load():
            u.__setstate__(s)
            if not must:
                # tolerated: then it has to be usable
                u.apply(X)
                u.decision_path(X)
                u.predict(X)
                u.compute_feature_importances()
        if what == "child cycle":
            # refused before anything follows the cycle
            g.refused("corrupted pickle: " + what, lambda: u.__setstate__(s))
        else:
            g.refused("corrupted pickle: " + what, load, must=must)
    # constructed with other sizes than the state has
    if args[0] > 1:
        used = state["nodes"]["feature"][: state["node_count"]][state["nodes"]["left_child"][: state["node_count"]] >= 0]
        if len(used) and used.max() == args[0] - 1:
            g.refused("corrupted pickle: fewer features", lambda: cls(args[0] - 1, args[1], args[2]).__setstate__(state))
    g.refused("corrupted pickle: more outputs", lambda: cls(args[0], np.concatenate([args[1], args[1]]), args[2] + len(args[1])).__setstate__(state))
    g.refused("corrupted pickle: no nodes", lambda: cls(*args).__setstate__({**state, "nodes": state["nodes"][:0], "values": state["values"][:0]}))


def case_malformed(rec, rng, tier):
    """Arguments of public methods which do not fit together."""
    from ylearn.policy.policy_model import PolicyTree
    from ylearn.estimator_model import CausalTree, GRForest
    from ylearn.estimator_model._generalized_forest.tree._grf_tree import GrfTree
    n, d = int(rng.choice([5, 20, 60])), int(rng.integers(1, 4))
    V = rng.normal(size=(n, d))
    names = [f"v{j}" for j in range(d)]
    data = frame(rng, V, y=rng.normal(size=n), x=np.arange(n) % 2)
    g = Guard(rec, n=n, features=d)
    E = rng.normal(size=(n, 2))
    m = PolicyTree(random_state=0)
    short = rng.uniform(.1, 1, max(1, n - int(rng.integers(1, 4))))
    g.refused("weights: fewer than rows", m.fit, data, names, effect_array=E, sample_weight=short)
    g.refused("weights: more than rows", m.fit, data, names, effect_array=E, sample_weight=np.ones(n + 2))
    g.refused("weights: two columns", m.fit, data, names, effect_array=E, sample_weight=np.ones((n, 2)))
    g.refused("effects: fewer than rows", m.fit, data, names, effect_array=E[:-1])
    g.refused("effects: text", m.fit, data, names, effect_array=np.array([["a", "b"]] * n))
    g.refused("effects: three dimensions", m.fit, data, names, effect_array=E.reshape(n, 2, 1), must=False)
    g.refused("weights: zero", m.fit, data, names, effect_array=E, sample_weight=np.zeros(n), must=False)
    g.refused("effects: missing values", m.fit, data, names, effect_array=np.where(rng.random(E.shape) < .3, np.nan, E), must=False)
    g.refused("effects: infinite", m.fit, data, names, effect_array=np.where(rng.random(E.shape) < .3, np.inf, E), must=False)
    for key, bad in [("max_depth", -1), ("max_depth", 0), ("min_samples_leaf", 0), ("min_samples_leaf", -3), ("min_samples_split", 0), ("max_leaf_nodes", 1), ("max_leaf_nodes", -5), ("max_features", 0),
                     ("max_features", 99), ("max_features", -1), ("max_features", 2.), ("min_impurity_decrease", -1.), ("min_weight_fraction_leaf", .9), ("min_weight_fraction_leaf", -1.)]:
        if rng.random() < .4:
            C = [lambda: PolicyTree(random_state=0, **{key: bad}).fit(data, names, effect_array=E), lambda: CausalTree(random_state=0, **{key: bad}).fit(data, "y", "x", covariate=names, treat=1, control=0),
                 lambda: GrfTree(random_state=0, **{key: bad})._fit_with_array(data[["x"]].to_numpy(float), data[["y"]].to_numpy(), None, V)][int(rng.integers(3))]
            g.refused(f"setting: {key}={bad}", C, must=False)
            g.refused(f"setting: forest {key}={bad}", lambda: GRForest(n_estimators=2, random_state=0, is_discrete_treatment=False, **{key: bad}).fit(data, "y", "x", covariate=names), must=False)
    Z = data.copy()
    q = names[int(rng.integers(d))]
    Z.loc[Z.index[rng.random(n) < .4], q] = rng.choice([np.nan, np.inf, -np.inf, 1e300])
    for f in (lambda: CausalTree(random_state=0).fit(Z, "y", "x", covariate=names, treat=1, control=0), lambda: PolicyTree(random_state=0).fit(Z, names, effect_array=E),
              lambda: GRForest(n_estimators=2, random_state=0, is_discrete_treatment=False).fit(Z, "y", "x", covariate=names)):
        g.refused("features: missing or infinite", f, must=False)
    Z = data.copy()
    Z.loc[Z.index[rng.random(n) < .4], "y"] = rng.choice([np.nan, np.inf, -np.inf, 1e300])
    for f in (lambda: CausalTree(random_state=0).fit(Z, "y", "x", covariate=names, treat=1, control=0), lambda: GRForest(n_estimators=2, random_state=0, is_discrete_treatment=False).fit(Z, "y", "x", covariate=names)):
        g.refused("outcomes: missing or infinite", f, must=False)
    # fitted trees asked malformed questions
    m.fit(data, names, effect_array=E)
    t = m.tree_
    X = V.astype(np.float32)
    g.refused("rows: double precision", t.apply, V)
    g.refused("rows: list", t.apply, X.tolist())
    g.refused("rows: one dimension", t.predict, X[0])
    g.refused("rows: three dimensions", t.decision_path, X.reshape(1, n, d))
    g.refused("rows: sparse by column", t.apply, sp.csc_matrix(X))
    for a in ({"v": np.zeros((2, d + 2))}, {"v": np.zeros((2, d)), "data": None}, {"data": data.drop(columns=[q])}, {"v": np.zeros(d)}):
        g.refused("rows: other columns", m.apply, **a, must=False)
    w = rng.uniform(.1, 1, n - 2) if n > 2 else np.ones(1)
    g.refused("weights: forest", lambda: GRForest(n_estimators=2, random_state=0, is_discrete_treatment=False).fit(data, "y", "x", covariate=names, sample_weight=w))
    A = g.refused
    gt = GrfTree(random_state=0)
    A("treatments: fewer than rows", gt._fit_with_array, np.zeros((n - 1, 1)), data[["y"]].to_numpy(), None, V)
    A("outcomes: fewer than rows", gt._fit_with_array, np.zeros((n, 1)), data[["y"]].to_numpy()[:-1], None, V)


# ---------------------------------------------------------------- helpers compiled for the trees

def case_helpers(rec, rng, tier):
    from ylearn.estimator_model._generalized_forest.tree import _util
    from ylearn.sklearn_ex.cloned.utils import _random
    from ylearn.sklearn_ex.cloned.tree import _utils
    g = Guard(rec)
    n, k, r = int(rng.integers(1, 30)), int(rng.integers(1, 6)), int(rng.integers(1, 4))
    A, B = rng.normal(size=(n, k)), rng.normal(size=(n, r))
    if rng.random() < .3:
        A[:, -1] = A[:, 0]
    if rng.random() < .1:
        A[:] = 0
    S = g("solve", _util.solve, A, B)
    if r == 1 or k == 1:
        rec.close(S, np.linalg.lstsq(A, B, rcond=None)[0], "solve", "least squares solution", rtol=1e-6, atol=1e-9)
    rec.ok(S.shape == (k, r), "solve_shape", "shape of a solution")
    q = rng.normal(size=(k, k))
    rec.close(g("pinv", _util.pinv, q), np.linalg.pinv(q), "pinv", "inverse", rtol=1e-5, atol=1e-7)
    g.refused("rows do not fit", _util.solve, A, rng.normal(size=(n + 1, r)))
    g.refused("no rows", _util.solve, A[:0], B[:0])
    g.refused("one dimension", _util.solve, A[:, 0], B)
    g.refused("single precision", _util.pinv, q.astype(np.float32))
    pop = int(rng.choice([0, 1, 5, 100, 5000]))
    m = int(rng.integers(0, pop + 1))
    for method in ("auto", "tracking_selection", "reservoir_sampling", "pool"):
        s = g("sample", _random.sample_without_replacement, pop, m, method=method, random_state=int(rng.integers(99)))
        rec.ok(len(s) == m == len(set(s)) and all(0 <= v < pop for v in s), "sample", "a sample without replacement has repeated or foreign members", method=method)
        g.refused("sample too large", _random.sample_without_replacement, pop, pop + 1, method=method)
        g.refused("negative sample", _random.sample_without_replacement, pop, -1, method=method)
    g.refused("allocation too large", _utils._realloc_test, must=False)
    rec.seen("helpers", n, k, r, pop, m)


# ---------------------------------------------------------------- the sanitizers themselves

def case_canary(rec, rng, tier):
    lib = ctypes.CDLL(os.environ["VM_SAN_DEST"] + "/canary.so")
    lib.canary_cast.argtypes = [ctypes.c_double]
    for name, arg, kind in [("canary_heap", 24, "heap-buffer-overflow"), ("canary_free", 16, "heap-use-after-free"), ("canary_shift", 77, "shift exponent"), ("canary_overflow", 2 ** 31 - 1, "signed integer overflow"),
                            ("canary_cast", 1e300, "outside the range")]:
        sanitize.news()
        getattr(lib, name)(arg)
        seen = sanitize.news()
        if not any(kind in k or kind in t for k, _, t in seen):
            raise AssertionError(f"the sanitizers do not see {name}: {seen}")
        rec.event("canary")


# ---------------------------------------------------------------- uninstrumented: filled memory, leaks

def case_plain(rec, rng, tier):
    spec = dict(seed=int(rng.integers(10 ** 6)), cases=12, leaks=int(rng.random() < .5))
    dest = os.environ["VM_SAN_DEST"]
    env = {k: v for k, v in os.environ.items() if k not in ("LD_PRELOAD", "ASAN_OPTIONS", "UBSAN_OPTIONS", "PYTHONMALLOC")}
    env["VM_PLAIN"] = json.dumps(spec)
    p = subprocess.run([sys.executable, "-m", "vm.plain"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=280)
    if p.returncode < 0:
        rec.ok(False, f"plain_crash:{p.returncode}", "the uninstrumented interpreter was killed", tail=p.stderr[-1500:])
        return
    lines = [q for q in p.stdout.splitlines() if q.startswith("RESULT ")]
    if not lines:
        raise AssertionError("plain driver: " + p.stderr[-3000:])
    r = json.loads(lines[-1][7:])
    for q in r["filled"]:
        rec.event("filled")
        rec.ok(q["same"], "uninitialised:" + q["kind"], "results depend on what fresh memory happens to contain", **q)
        rec.seen("filled", q["kind"], q["settings"])
    for q in r["leaks"]:
        rec.event("leak_runs")
        rec.ok(q["per_call"] < q["allowed"], "leak:" + q["kind"], f"memory grows by {q['per_call']:.0f} bytes with every call", **q)


GROUPS = [
    Group("canary", case_canary, quick=1, thorough=1),
    Group("tree", case_tree, quick=700, thorough=14000, timeout=120),
    Group("forest", case_forest, quick=80, thorough=1500, timeout=200),
    Group("pickle", case_pickle, quick=120, thorough=3000, timeout=120),
    Group("malformed", case_malformed, quick=40, thorough=800, timeout=120),
    Group("helpers", case_helpers, quick=60, thorough=1200, timeout=120),
    Group("plain", case_plain, quick=10, thorough=80, timeout=300, chunk=1),
]


def finish(ctx):
    for kind, where, text in sanitize.news():
        ctx.viol.setdefault(f"{kind}@{where}", []).append(("import", 0, "report outside the cases", dict(report=text)))
