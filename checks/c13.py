"""C13: forest effects recomputed from the routed rows of their own trees; schedules perturbed line by line; constants added."""
import threading

import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.preprocessing import PolynomialFeatures, StandardScaler

from vm.core import Group, Skip
from vm import est
from vm.sched import Perturb

PROPERTY = "C13"
RULE = ("one evaluation = one tree's node counts, one weight row, one effect array or one pair of effect arrays from two schedules compared; "
        "distinct = distinct (forest kind, settings, size, data spelling)")
REQUIRE = {"forests": 150, "trees": 800, "weight_rows": 3000, "regressions": 1500, "tree_forests": 60, "local_centred": 40, "honest": 50, "shifted": 60,
           "schedules": 60, "thread_switches": 5000, "distinct_interleavings": 30, "concurrent_calls": 60, "empty_leaves": 5, "warm": 10}


def route(t, X):
    X = X.astype(np.float32)
    sets = {0: np.arange(len(X))}
    for i in range(t.node_count):
        if t.children_left[i] >= 0:
            go = X[sets[i], t.feature[i]].astype(float) <= t.threshold[i]
            sets[int(t.children_left[i])], sets[int(t.children_right[i])] = sets[i][go], sets[i][~go]
    leaf = np.empty(len(X), dtype=int)
    for i, s in sets.items():
        if t.children_left[i] < 0:
            leaf[s] = i
    return sets, leaf


def depth_of(t):
    d = np.zeros(t.node_count, dtype=int)
    for i in range(t.node_count):
        if t.children_left[i] >= 0:
            d[t.children_left[i]] = d[t.children_right[i]] = d[i] + 1
    return d.max()


def settings(rng, n, honest=None, max_leaf=True):
    kw = dict(n_estimators=int(rng.integers(2, 9)), random_state=int(rng.integers(0, 10 ** 6)))
    r = rng.random()
    if r < .3:
        kw["sub_sample_num"] = float(rng.choice([.3, .5, .66, .9, 1.]))
    elif r < .55:
        kw["sub_sample_num"] = int(rng.integers(int(n * .3), n + 1))
    if rng.random() < .5:
        kw["max_depth"] = int(rng.integers(1, 7))
    if rng.random() < .6:
        kw["min_samples_leaf"] = int(rng.integers(1, 10))
    if rng.random() < .4:
        kw["min_samples_split"] = int(rng.integers(2, 30))
    if rng.random() < .3:
        kw["max_features"] = [1, .5, "sqrt", None][int(rng.integers(4))]
    if max_leaf and rng.random() < .2:
        kw["max_leaf_nodes"] = int(rng.integers(2, 12))
    if rng.random() < .5 if honest is None else honest:
        kw["honest_subsample_num"] = float(rng.choice([.3, .45, .5, .7])) if rng.random() < .6 else int(sub_count(kw, n) * rng.uniform(.2, .8))
    if rng.random() < .6:
        kw["n_jobs"] = [1, 2, 4, -1][int(rng.integers(4))]
    return kw


def sub_count(kw, n):
    s = kw.get("sub_sample_num")
    return round(n * .85) if s is None else s if isinstance(s, int) else round(n * s)


def frame(rng, discrete, n_treat=1, nv=None, nw=None, n=None):
    c = est.make(rng, n=int(rng.integers(60, 200)) if n is None else n, n_treat=n_treat, nv=int(rng.integers(1, 4)) if nv is None else nv,
                 nw=0 if nw is None else nw, k=2 if discrete == "01" else None, labels=(lambda k: list(range(k))) if discrete == "01" else None)
    if not discrete:
        for j, q in enumerate(c.treatment):
            c.data[q] = c.codes[:, j] + rng.normal(size=c.n)
    for q in c.covariate:
        r = rng.random()
        if r < .15:
            c.data[q] = rng.integers(0, 4, c.n)
        elif r < .2:
            c.data[q] = 1.5
    return c


def check_trees(rec, forest, V, kw, name, fresh=True):
    """The subsamples and node counts of a generalised forest. Returns [(leaf ids of V's rows, tree, labelling rows)]."""
    n = len(V)
    subs = [np.asarray(s) for s in forest.sub_sample_idx]
    trees = list(forest.estimators_)
    rec.ok(len(trees) == kw["n_estimators"], f"{name}:n_trees", "the forest has another number of trees than requested", trees=len(trees))
    if not rec.ok(len(subs) == len(trees), f"{name}:n_subsamples", "not every tree has a subsample"):
        raise Skip("no subsamples")
    h = kw.get("honest_subsample_num")
    m = sub_count(kw, n)
    out = []
    for t, s in zip(trees, subs):
        rec.event("trees")
        rec.ok(len(np.unique(s)) == len(s) and s.min() >= 0 and s.max() < n, f"{name}:subsample_rows", "a subsample repeats rows or leaves the data")
        rec.ok(abs(len(s) - m) <= 1, f"{name}:subsample_size", "a subsample has another size than requested", size=len(s), want=m)
        k = 0 if h is None else h if isinstance(h, int) else round(h * len(s))
        a, b = s[:k], s[k:]   # the first part labels, the second grows
        label, grow = (s, s) if h is None else (a, b)
        sets, _ = route(t.tree_, V[grow])
        cnt = np.array([len(sets[i]) for i in range(t.tree_.node_count)])
        rec.ok(np.array_equal(cnt, np.asarray(t.tree_.n_node_samples)), f"{name}:grown_on", "the tree was not grown on its own part of its subsample",
               tree=np.asarray(t.tree_.n_node_samples)[:9], real=cnt[:9], honest=h)
        leafs = np.asarray(t.tree_.children_left) < 0
        rec.ok(cnt[leafs].min() >= min(kw.get("min_samples_leaf", 1), len(grow)), f"{name}:leaf_size", "a leaf is smaller than requested", size=int(cnt[leafs].min()))
        rec.ok((cnt[~leafs] >= kw.get("min_samples_split", 2)).all(), f"{name}:split_size", "a node smaller than min_samples_split was split")
        rec.ok(depth_of(t.tree_) <= kw.get("max_depth") or 10 ** 9, f"{name}:depth", "a tree is deeper than requested") if "max_depth" in kw else None
        if "max_leaf_nodes" in kw:
            rec.ok(leafs.sum() <= kw["max_leaf_nodes"], f"{name}:leaves", "a tree has more leaves than requested", leaves=int(leafs.sum()))
        out.append((t, label))
    return out


def weights(rec, parts, V, test):
    """alpha[r, i]: averaged shared-leaf membership, over the trees whose leaf holds labelling rows."""
    alpha = np.zeros((len(test), len(V)))
    used = np.zeros(len(test))
    leaf_ids = []
    for t, label in parts:
        _, lab = route(t.tree_, V[label])
        _, mine = route(t.tree_, test)
        leaf_ids.append(mine)
        for r in range(len(test)):
            mem = label[lab == mine[r]]
            if len(mem):
                alpha[r, mem] += 1 / len(mem)
                used[r] += 1
            else:
                rec.event("empty_leaves")
    with np.errstate(all="ignore"):
        return alpha / used[:, None], used, np.array(leaf_ids).T


def local(rec, got, alpha, T, Y, key, msg, **info):
    """Weighted residual regression, compared where the weighted treatment variation is not degenerate."""
    Tc = T - T.mean(axis=0)
    Yc = Y - Y.mean()
    for r in range(len(alpha)):
        a = alpha[r]
        if not np.isfinite(a).all():
            continue
        rec.event("weight_rows")
        dx = Tc - a @ Tc
        dy = Yc - a @ Yc
        A = np.einsum("i,ij,ik->jk", a, dx, dx)
        b = (a * dy) @ dx
        ev = np.linalg.eigvalsh(A)
        if ev[0] < 1e-2:
            continue
        rec.event("regressions")
        exact = np.linalg.solve(A, b)
        ridge = np.linalg.solve(A + 1e-5 * np.eye(len(A)), b)
        slack = 2 * np.abs(exact - ridge) + 1e-6 * (np.abs(exact).max() + np.ptp(Yc) * 1e-3)
        if not rec.ok(np.all(np.abs(got[r] - exact) <= slack), key, msg, got=got[r], want=exact, row=r, **info):
            return


def grf(rec, rng, tier):
    from ylearn.estimator_model import GRForest
    discrete = "01" if rng.random() < .5 else ""
    n_treat = 1 if discrete or rng.random() < .5 else 2
    c = frame(rng, discrete, n_treat)
    kw = settings(rng, c.n)
    V, T, Y = (est.arr(c.data, q).astype(float) for q in (c.covariate, c.treatment, c.outcome))
    f = GRForest(is_discrete_treatment=bool(discrete), **kw)
    before = est.snap(c.data)
    ret = f.fit(c.data, est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment), covariate=est.maybe_str(rng, c.covariate))
    rec.ok(ret is f, "fit_return", "fit does not return the forest")
    rec.ok(est.snap(c.data) == before, "data_changed", "fit changed the caller's frame")
    info = dict(kw=kw, roles=[c.covariate, c.treatment], n=c.n)
    rec.event("forests")
    rec.event("honest", int("honest_subsample_num" in kw))
    rec.seen("grf", c.n, str(kw), n_treat, str(c.covariate))
    rec.sample(**info)
    parts = check_trees(rec, f, V, kw, "grf")
    for data in (None, c.data, est.test_rows(rng, c)):
        got = np.asarray(f.estimate() if data is None else f.estimate(data))
        src = c.data if data is None else data
        X = est.arr(src, c.covariate).astype(float)
        if not rec.ok(got.shape == (len(src), n_treat), "grf:shape", "the effects do not match rows and treatments", shape=got.shape):
            continue
        alpha, used, leaf = weights(rec, parts, V, X)
        local(rec, got, alpha, T, Y[:, 0], "grf:effect", "an effect is not the locally weighted regression of the forest", **info)
        rec.close(np.asarray(f.apply(X)), leaf, "grf:apply", "apply does not return the leaves", rtol=0, atol=0)
        # one row's effect does not depend on the other rows
        i = int(rng.integers(len(src)))
        rec.close(np.asarray(f.estimate(src.iloc[[i]])), got[[i]], "grf:one_row", "a row's effect depends on the other rows", rtol=1e-9, atol=1e-12 * (1 + np.abs(got).max()))


def diff(y, g):
    return y[g].mean() - y[~g].mean()


def tree_forest(rec, rng, tier):
    from ylearn.estimator_model.causal_tree import CTCausalForest
    n_treat = 2 if rng.random() < .2 else 1
    c = est.make(rng, n=int(rng.integers(60, 200)), n_treat=n_treat, min_cell=12)
    kw = settings(rng, c.n, max_leaf=False)
    h = kw.get("honest_subsample_num")
    X, Y = est.wv(c, c.data), est.arr(c.data, c.outcome).astype(float)[:, 0]
    fit = {k: est.maybe_str(rng, v) for k, v in (("adjustment", c.adjustment), ("covariate", c.covariate)) if v}
    combos = [tuple(q) for q in np.array(np.meshgrid(*[np.arange(c.k)] * n_treat, indexing="ij")).reshape(n_treat, -1).T]
    t0, c0 = combos.index((1,) * n_treat), 0
    if rng.random() < .6:
        t0, c0 = [int(q) for q in rng.permutation(len(combos))[:2]]
        lab = lambda g: [c.levels[j][combos[g][j]] for j in range(n_treat)]
        fit.update(treat=est.label_form(rng, lab(t0)), control=est.label_form(rng, lab(c0)))
    cell = np.array([combos.index(tuple(q)) for q in c.codes])
    gt, gc = cell == t0, cell == c0
    if isinstance(h, int):
        kw["honest_subsample_num"] = h = max(4, int(.4 * (gt | gc).sum() * sub_count(kw, c.n) / c.n))
    f = CTCausalForest(**kw)
    if min(gt.sum(), gc.sum()) * sub_count(kw, c.n) / c.n < 8:
        raise Skip("few rows of a compared level")
    before = est.snap(c.data)
    ret = f.fit(c.data, est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment), **fit)
    rec.ok(ret is f, "fit_return", "fit does not return the forest")
    rec.ok(est.snap(c.data) == before, "data_changed", "fit changed the caller's frame")
    info = dict(kw=kw, levels=c.levels, n=c.n, fit={k: str(v) for k, v in fit.items()})
    rec.event("tree_forests")
    rec.event("forests")
    rec.event("honest", int(h is not None))
    rec.seen("ct", c.n, str(kw), str(c.levels), str(fit))
    rec.sample(**info)
    trees, subs = list(f.estimators_), [np.asarray(s) for s in f.sub_sample_idx]
    rec.ok(len(trees) == kw["n_estimators"] == len(subs), "ct:n_trees", "the forest has another number of trees than requested", trees=len(trees))
    for t, s in zip(trees, subs):
        rec.event("trees")
        rec.ok(len(np.unique(s)) == len(s) and abs(len(s) - sub_count(kw, c.n)) <= 1, "ct:subsample", "a subsample repeats rows or has another size", size=len(s))
        use = s[gt[s] | gc[s]]
        tr = t.tree_
        if h is None:
            sets, leaf = route(tr, X[use])
            cnt = np.array([len(sets[i]) for i in range(tr.node_count)])
            if not rec.ok(np.array_equal(cnt, np.asarray(tr.n_node_samples)), "ct:grown_on", "a tree was not grown on the compared rows of its subsample",
                          tree=np.asarray(tr.n_node_samples)[:9], real=cnt[:9], **info):
                continue
            for i in np.unique(leaf):
                rows = use[leaf == i]
                if gt[rows].any() and gc[rows].any():
                    rec.close(tr.value[i].ravel(), [diff(Y[rows] - Y[rows[0]], gt[rows])], "ct:leaf", "a leaf value is not the difference of its subsample rows", rtol=1e-7,
                              atol=1e-8 * max(1e-9, np.ptp(Y)), **info)
        else:
            held = int(np.ceil(h * len(use))) if not isinstance(h, int) else h
            rec.ok(abs(int(tr.n_node_samples[0]) - (len(use) - held)) <= 1, "ct:honest_count", "an honest tree was grown on another number of rows",
                   rows=int(tr.n_node_samples[0]), of=len(use), honest=h)
    for data in (None, c.data, est.test_rows(rng, c)):
        got = np.asarray(f.estimate() if data is None else f.estimate(data))
        src = c.data if data is None else data
        Z = est.wv(c, src)
        want = np.zeros(len(src))
        ids = []
        for t in trees:
            _, leaf = route(t.tree_, Z)
            ids.append(leaf)
            want += t.tree_.value[leaf].ravel()
        if not rec.ok(got.size == len(src) == len(got), "ct:shape", "the effects do not match the rows", shape=got.shape):
            continue
        rec.event("regressions", len(src))
        rec.close(got.ravel(), want / len(trees), "ct:effect", "an effect is not the mean of the trees' leaf values", rtol=1e-9, atol=1e-10 * max(1e-9, np.ptp(Y)), **info)
        rec.close(np.asarray(f.apply(Z)), np.array(ids).T, "ct:apply", "apply does not return the leaves", rtol=0, atol=0)
    imp = [t.tree_.compute_feature_importances() for t in trees if t.tree_.node_count > 1]
    got = np.asarray(f.feature_importance)
    want = np.mean(imp, axis=0) if imp else np.zeros(X.shape[1])
    rec.close(got, want / want.sum() if imp and want.sum() else want, "ct:importance", "importances are not the normalised mean of the trees", rtol=1e-7, atol=1e-10)


def centred(rec, rng, tier):
    """CausalForest: the forest runs on cross-fitted residuals, which are recomputed here from the same base learners."""
    from ylearn.estimator_model import CausalForest
    discrete = bool(rng.random() < .6)
    n_treat = 2 if rng.random() < .25 else 1
    folds = int(rng.choice([1, 2, 3]))
    c = est.make(rng, n=int(rng.integers(70, 150)), n_treat=n_treat, nv=int(rng.integers(1, 3)), nw=int(rng.integers(0, 2)), min_cell=8,
                 k=2 if n_treat == 2 else None)
    cells = c.k ** n_treat
    cell = c.codes[:, 0] if n_treat == 1 else c.codes[:, 0] * c.k + c.codes[:, 1]
    if not discrete:
        for j, q in enumerate(c.treatment):
            c.data[q] = c.codes[:, j] + rng.normal(size=c.n)
    if discrete and not est.covers(cell, folds):
        raise Skip("a training fold misses a class")
    ct = [PolynomialFeatures(2, include_bias=False), StandardScaler()][int(rng.integers(2))] if rng.random() < .35 else None
    xm = LogisticRegression() if discrete else LinearRegression()
    ym = [LinearRegression(), Ridge(alpha=2.)][int(rng.integers(2))]
    if not discrete and n_treat == 1:
        xm = est.smooth(rng)
    kw = settings(rng, c.n)
    W, V = (est.arr(c.data, q).astype(float) if q else None for q in (c.adjustment, c.covariate))
    Vt = (VT := clone(ct).fit(V)).transform(V) if ct is not None else V
    N = np.concatenate([q for q in (W, Vt) if q is not None], axis=1)
    if not est.distinct(N):
        raise Skip("duplicate rows")
    est.LOG.clear()
    e = CausalForest(est.Logged(xm, "x"), est.Logged(ym, "y"), cf_fold=folds, is_discrete_treatment=discrete,
                     covariate_transformer=clone(ct) if ct is not None else None, **kw)
    fit = {k: est.maybe_str(rng, v) for k, v in (("adjustment", c.adjustment), ("covariate", c.covariate)) if v}
    combos = [(i,) for i in range(c.k)] if n_treat == 1 else [(i, j) for i in range(c.k) for j in range(c.k)]
    ctrl = 0
    if discrete and rng.random() < .5:
        ctrl = int(rng.integers(cells))
        fit["control"] = est.label_form(rng, [c.levels[j][combos[ctrl][j]] for j in range(n_treat)])
    before = est.snap(c.data)
    ret = e.fit(c.data, est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment), **fit)
    rec.ok(ret is e, "fit_return", "fit does not return the forest")
    rec.ok(est.snap(c.data) == before, "data_changed", "fit changed the caller's frame")
    info = dict(kw=kw, discrete=discrete, folds=folds, levels=c.levels if discrete else None, control=str(fit.get("control")), transformer=str(ct), n=c.n)
    rec.event("local_centred")
    rec.event("forests")
    rec.event("honest", int("honest_subsample_num" in kw))
    rec.seen("cf", c.n, str(kw), discrete, folds, n_treat, str(ct), ctrl)
    rec.sample(**info)
    log = list(est.LOG)
    xf = est.folds_of(rec, log, "x", N, folds, "x_model")
    yf = est.folds_of(rec, log, "y", N, folds, "y_model")
    Y = est.arr(c.data, c.outcome).astype(float)[:, 0]
    T = np.eye(cells)[cell] if discrete else est.arr(c.data, c.treatment).astype(float)
    tt = cell.astype(float) if discrete else T[:, 0] if n_treat == 1 else T
    xh, yh = np.empty(T.shape), np.empty(c.n)
    for tr, te in xf:
        m = clone(xm).fit(N[tr], tt[tr])
        xh[te] = (m.predict_proba(N[te]) if discrete else m.predict(N[te])).reshape(len(te), -1)
    for tr, te in yf:
        yh[te] = clone(ym).fit(N[tr], Y[tr]).predict(N[te])
    R, S = T - xh, Y - yh
    if discrete:
        R = np.delete(R, ctrl, axis=1)
    parts = check_trees(rec, e.yx_model, Vt, kw, "cf")
    for data in (None, est.test_rows(rng, c)):
        got = np.asarray(e.estimate() if data is None else e.estimate(data))
        src = c.data if data is None else data
        X = est.arr(src, c.covariate).astype(float)
        X = VT.transform(X) if ct is not None else X
        if not rec.ok(got.shape == (len(src), R.shape[1]), "cf:shape", "the effects do not match rows and treatment levels", shape=got.shape):
            continue
        alpha, used, leaf = weights(rec, parts, Vt, X)
        local(rec, got, alpha, R, S, "cf:effect", "an effect is not the locally weighted regression of the residuals", **info)
        rec.close(np.asarray(e.apply(X)), leaf, "cf:apply", "apply does not return the leaves", rtol=0, atol=0)
        nji = np.asarray(e.effect_nji(data))
        want = np.insert(got, ctrl, 0, axis=1) if discrete else got
        rec.close(nji, want[:, None, :], "cf:effect_nji", "effect_nji is not the effect of every level over the control", rtol=1e-12, atol=0)


def build(rng, kind, c, kw):
    """Returns fit() -> forest for one kind on frame c."""
    if kind == "grf":
        from ylearn.estimator_model import GRForest
        return lambda **o: GRForest(**{**kw, **o}).fit(c.data, c.outcome, c.treatment, covariate=c.covariate)
    if kind == "ct":
        from ylearn.estimator_model.causal_tree import CTCausalForest
        q = {k: v for k, v in kw.items() if k != "max_leaf_nodes"}
        return lambda **o: CTCausalForest(**{**q, **o}).fit(c.data, c.outcome, c.treatment, covariate=c.covariate)
    from ylearn.estimator_model import CausalForest
    return lambda **o: CausalForest(LogisticRegression(), LinearRegression(), cf_fold=2, **{**kw, **o}).fit(
        c.data, c.outcome, c.treatment, covariate=c.covariate)


def binary(rng, nv, n=None):
    c = est.make(rng, n=n or int(rng.integers(90, 220)), n_treat=1, k=2, labels=lambda k: [0, 1], nv=nv, nw=0, min_cell=30)
    for q in c.covariate:
        c.data[q] = rng.normal(size=c.n)
    return c


def shift(rec, rng, tier):
    """Adding a constant to every outcome. With one covariate (or large leaves) no two splits tie exactly."""
    kind = ["grf", "ct", "cf"][int(rng.integers(3))]
    one = rng.random() < .5
    c = binary(rng, 1 if one else 3)
    kw = settings(rng, c.n)
    kw.update(n_estimators=3)
    kw["min_samples_leaf"] = 5 if one else 15
    if isinstance(kw.get("sub_sample_num"), float):
        kw["sub_sample_num"] = max(.6, kw["sub_sample_num"])
    elif "sub_sample_num" in kw:
        kw["sub_sample_num"] = max(int(.6 * c.n), kw["sub_sample_num"])
    if isinstance(kw.get("honest_subsample_num"), int):
        kw["honest_subsample_num"] = .5
    kw.pop("max_features", None)
    make = build(rng, kind, c, kw)
    test = est.test_rows(rng, c)
    y = c.outcome[0]
    Y = c.data[y].to_numpy().astype(float)
    base = np.asarray(make().estimate(test))
    for k in (float(rng.choice([3., -17.5, 250.])), float(rng.choice([1e4, -3e5]))):
        c.data[y] = Y + k
        got = np.asarray(make().estimate(test))
        c.data[y] = Y
        rec.event("shifted")
        rec.close(got, base, f"shift:{kind}", "adding a constant to all outcomes changes the effects", rtol=1e-4, atol=1e-5 * np.ptp(Y), constant=k, kw=kw, n=c.n)
    rec.seen("shift", kind, c.n, str(kw))


def schedule(rec, rng, tier):
    """One fixed random state, many worker counts, pauses at random lines, concurrent callers: always the same numbers."""
    kind = ["grf", "ct", "cf"][int(rng.integers(3))]
    c = binary(rng, int(rng.integers(1, 4)), n=int(rng.integers(90, 160)))
    kw = settings(rng, c.n)
    kw.pop("n_jobs", None)
    kw["n_estimators"] = int(rng.integers(6, 16))
    if kind == "ct":
        kw["min_samples_leaf"] = 5
        if isinstance(kw.get("honest_subsample_num"), int):
            kw["honest_subsample_num"] = .5
        if isinstance(kw.get("sub_sample_num"), float):
            kw["sub_sample_num"] = max(.6, kw["sub_sample_num"])
        elif "sub_sample_num" in kw:
            kw["sub_sample_num"] = max(int(.6 * c.n), kw["sub_sample_num"])
    make = build(rng, kind, c, kw)
    m = int(rng.choice([40, 250])) if kind != "ct" else int(rng.choice([200, 20000]))
    test = c.data.iloc[rng.integers(0, c.n, m)].copy()
    for q in c.covariate:
        test[q] = test[q].to_numpy() + rng.normal(size=m) * .2
    f0 = make(n_jobs=1)
    base, base_train = np.asarray(f0.estimate(test)), np.asarray(f0.estimate())
    rec.ok(np.isfinite(base).all(), f"finite:{kind}", "an effect is not finite", kw=kw)
    rec.ok(np.array_equal(np.asarray(make(n_jobs=1).estimate(test)), base), f"repeat:{kind}", "two forests with one random state differ", kw=kw)
    other = np.asarray(make(n_jobs=1, random_state=kw["random_state"] + 1).estimate(test))
    rec.ok(not np.array_equal(other, base) or np.ptp(base) == 0 or sub_count(kw, c.n) == c.n, f"seed:{kind}", "the random state has no influence", kw=kw)
    rec.seen("sched", kind, c.n, str(kw), m)
    rec.sample(kind=kind, kw=kw, rows=m, n=c.n)
    for jobs in (2, 8, -1):
        with Perturb(int(rng.integers(2 ** 31)), p=.03, pause=.001) as pt:
            f = make(n_jobs=jobs)
            got = np.asarray(f.estimate(test))
        rec.event("schedules")
        rec.event("thread_switches", pt.switches)
        rec.event("lines_traced", pt.lines)
        if pt.switches > 5:
            rec.event("distinct_interleavings")
        same = got.shape == base.shape and np.array_equal(got, base)
        rec.ok(same, f"n_jobs:{kind}", "effects depend on the number of workers or their schedule", n_jobs=jobs, kw=kw, threads=len(pt.threads),
               off=float(np.nanmax(np.abs(got - base))) if got.shape == base.shape else str(got.shape))
    # concurrent callers of one fitted forest, each with its own data
    cuts = [test.iloc[np.sort(rng.permutation(m)[: int(rng.integers(1, m + 1))])] for _ in range(4)] + [test, None]
    want = [np.asarray(f0.estimate(q)) if q is not None else base_train for q in cuts]
    f = make(n_jobs=int(rng.choice([1, 2, 4])))
    got = [None] * len(cuts)

    def call(i):
        try:
            got[i] = np.asarray(f.estimate(cuts[i]) if cuts[i] is not None else f.estimate())
        except Exception as e:
            got[i] = e
    with Perturb(int(rng.integers(2 ** 31)), p=.05, pause=.001) as pt:
        ts = [threading.Thread(target=call, args=(i,)) for i in range(len(cuts))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    rec.event("thread_switches", pt.switches)
    for i, (g, w) in enumerate(zip(got, want)):
        rec.event("concurrent_calls")
        if isinstance(g, Exception):
            raise g
        rec.ok(g.shape == w.shape and np.array_equal(g, w), f"concurrent:{kind}", "concurrent estimate calls disturb each other", call=i, kw=kw)
    rec.ok(np.array_equal(np.asarray(f.estimate(test)), base), f"after:{kind}", "the forest changed while it estimated", kw=kw)
    # two forests grown at the same time
    res = [None, None]

    def grow(i):
        try:
            res[i] = np.asarray(make(n_jobs=2, random_state=kw["random_state"] + i).estimate(test))
        except Exception as e:
            res[i] = e
    with Perturb(int(rng.integers(2 ** 31)), p=.03, pause=.001) as pt:
        ts = [threading.Thread(target=grow, args=(i,)) for i in range(2)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for g, w in zip(res, (base, other)):
        if isinstance(g, Exception):
            raise g
        rec.ok(np.array_equal(g, w), f"two_fits:{kind}", "forests grown at the same time disturb each other", kw=kw)


def warm(rec, rng, tier):
    """A forest grown in two steps is the forest grown at once."""
    kind = ["grf", "ct"][int(rng.integers(2))]
    c = binary(rng, 2)
    kw = settings(rng, c.n)
    if kind == "ct":
        kw["min_samples_leaf"] = 5
        kw.pop("honest_subsample_num", None)
        kw.pop("sub_sample_num", None)
    a, b = int(rng.integers(1, 5)), int(rng.integers(5, 9))
    make = build(rng, kind, c, kw)
    cold = np.asarray(make(n_estimators=b).estimate(c.data))
    f = make(n_estimators=a, warm_start=True)
    small = np.asarray(make(n_estimators=a).estimate(c.data))
    rec.close(np.asarray(f.estimate(c.data)), small, f"warm:{kind}:first", "warm_start changes the first forest", rtol=1e-12, atol=1e-14)
    f.n_estimators = b
    f.fit(c.data, c.outcome, c.treatment, covariate=c.covariate)
    rec.event("warm")
    rec.ok(len(f.estimators_) == b, f"warm:{kind}:count", "warm_start does not add the missing trees", trees=len(f.estimators_), want=b)
    rec.close(np.asarray(f.estimate(c.data)), cold, f"warm:{kind}", "a forest grown in two steps is not the forest grown at once", rtol=1e-9, atol=1e-12, kw=kw)
    rec.seen("warm", kind, c.n, str(kw))


GROUPS = [Group("grf", grf, 150, 1500, chunk=10), Group("tree_forest", tree_forest, 120, 1200, chunk=10), Group("centred", centred, 110, 1000, chunk=8),
          Group("shift", shift, 60, 500, chunk=6), Group("schedule", schedule, 36, 300, chunk=2, timeout=240), Group("warm", warm, 24, 150, chunk=6)]
