"""C14: policy trees dissected node by node; leaf averages, recommendations, splits and textual interpretations recomputed from the effects."""
import re

import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.preprocessing import PolynomialFeatures, StandardScaler

from vm.core import Group, Skip
from vm import est, zoo

PROPERTY = "C14"
RULE = ("one evaluation = one node, limit, leaf average, recommendation, interpretation or effect table of one policy or interpreter tree; "
        "distinct = distinct (size, effects source, limits, covariates)")
REQUIRE = {"trees": 150, "inner_nodes": 600, "optimal_splits": 500, "leaf_means": 800, "recommendations": 3000, "texts": 300, "text_steps": 600,
           "estimator_effects": 60, "transformer": 4, "ce_trees": 50, "ce_nodes": 300, "one_level": 8, "tiny_or_huge": 30, "weighted": 15, "best_first": 30, "refits": 20, "on_threshold": 300}
THR = np.float32(1e-7)
EST = ["S", "T", "X", "PS", "PT", "DML", "DR", "IV", "CT", "SS", "TS", "XS", "CF", "PDR", "DMLc"]


def route(t, X):
    X = np.asarray(X).astype(np.float32)
    sets, depth, leaf = {0: np.arange(len(X))}, {0: 0}, np.zeros(len(X), dtype=int)
    for i in range(t.node_count):
        if t.children_left[i] >= 0:
            go = X[sets[i], t.feature[i]].astype(float) <= t.threshold[i]
            a, b = int(t.children_left[i]), int(t.children_right[i])
            sets[a], sets[b] = sets[i][go], sets[i][~go]
            depth[a] = depth[b] = depth[i] + 1
        else:
            leaf[sets[i]] = i
    return sets, depth, leaf


def gain(X32, E, w, rows, min_leaf, min_weight):
    """Best total effect of the recommendations after one admissible split of these rows, and without splitting."""
    base = (E[rows] * w[rows, None]).sum(axis=0).max()
    best = -np.inf
    per = {}
    for f in range(X32.shape[1]):
        x = X32[rows, f]
        o = np.argsort(x, kind="stable")
        xs = x[o]
        c = np.cumsum(E[rows][o] * w[rows][o, None], axis=0)
        cw = np.cumsum(w[rows][o])
        k = np.arange(1, len(rows))
        ok = (xs[1:] > xs[:-1] + THR) & (k >= min_leaf) & (len(rows) - k >= min_leaf)
        ok &= (cw[:-1] >= min_weight) & (cw[-1] - cw[:-1] >= min_weight)
        if ok.any():
            tot = c[:-1].max(axis=1) + (c[-1] - c[:-1]).max(axis=1)
            per[f] = (xs[:-1][ok], tot[ok])
            best = max(best, tot[ok].max())
    return base, best, per


def whole(v, n):
    return v if isinstance(v, int) else int(np.ceil(v * n))


def dissect(rec, tree, X, E, w, kw, info, greedy=True):
    """The grown tree against the effects it was given. Returns rows per leaf."""
    t = tree.tree_
    n = len(X)
    X32 = np.asarray(X).astype(np.float32)
    sets, depth, leaf = route(t, X)
    leaves = [i for i in sets if t.children_left[i] < 0]
    scale = max(np.abs(E).max(), 1e-300)
    ml = whole(kw.get("min_samples_leaf", 1), n)
    ms = max(2, 2 * ml, max(2, whole(kw.get("min_samples_split", 2), n)))
    md = kw.get("max_depth") or 10 ** 9
    mln = kw.get("max_leaf_nodes")
    mw = kw.get("min_weight_fraction_leaf", 0.) * w.sum()
    mid = kw.get("min_impurity_decrease", 0.)
    rec.event("trees")
    rec.ok(max(depth.values()) <= md, "limit:depth", "the policy tree is deeper than requested", depth=max(depth.values()), **info)
    rec.ok(tree.get_depth() == max(depth.values()) and tree.get_n_leaves() == len(leaves), "limit:reported", "reported depth or number of leaves is wrong", **info)
    rec.ok(mln is None or len(leaves) <= mln, "limit:leaves", "more leaves than requested", leaves=len(leaves), **info)
    for i in leaves:
        if i:
            rec.ok(len(sets[i]) >= ml, "limit:leaf_size", "a leaf is smaller than requested", rows=len(sets[i]), limit=ml, **info)
            rec.ok(w[sets[i]].sum() >= mw * (1 - 1e-9), "limit:leaf_weight", "a leaf weighs less than requested", **info)
        m = np.average(E[sets[i]], axis=0, weights=w[sets[i]])
        rec.event("leaf_means")
        rec.close(np.ravel(t.value[i]), m, "leaf_mean", "a leaf's values are not the averages of the effects of its rows", rtol=1e-9, atol=1e-12 * scale, **info)
    imp = {}
    for i in sets:
        rec.ok(t.n_node_samples[i] == (w[sets[i]] > 0).sum(), "node_rows", "a node's sample count differs from the rows routed to it", **info)
        rows = sets[i]
        inner = t.children_left[i] >= 0
        if inner:
            rec.event("inner_nodes")
            rec.ok(len(rows) >= ms, "limit:split", "a node smaller than requested was split", rows=len(rows), limit=ms, **info)
        if not greedy:
            continue
        base, best, per = gain(X32, E, w, rows, ml, mw)
        slack = 1e-9 * scale * w.sum()
        if inner:
            a = sets[int(t.children_left[i])]
            b = sets[int(t.children_right[i])]
            got = (E[a] * w[a, None]).sum(axis=0).max() + (E[b] * w[b, None]).sum(axis=0).max()
            rec.event("optimal_splits")
            rec.ok(got >= best - slack, "best_split", "a split with a larger total effect of the recommendations was available", got=got, best=best, node=i, **info)
            imp[i] = (got - base) / w.sum()
            rec.ok(imp[i] >= mid - 1e-9 * scale, "limit:decrease", "a split gains less than requested", gain=imp[i], **info)
        elif depth[i] < md and len(rows) >= ms and best > -np.inf and w[rows].sum() >= 2 * mw:
            g = (best - base) / w.sum()
            imp[i] = -g
            if mln is None:
                rec.event("unsplit")
                rec.ok(g <= max(mid, 0) + 1e-9 * scale, "unsplit", "a node was left unsplit although a split gains total effect", gain=g, node=i, **info)
    if greedy and mln is not None:
        rec.event("best_first")
        parent = {int(c): i for i in sets for c in (t.children_left[i], t.children_right[i]) if c >= 0}
        when = {i: min(t.children_left[i], t.children_right[i]) for i in sets if t.children_left[i] >= 0}
        for i in leaves:
            if i in imp and len(leaves) < mln:
                rec.ok(-imp[i] <= max(mid, 0) + 1e-9 * scale, "unsplit", "a node was left unsplit although a split gains total effect and leaves remain", gain=-imp[i], **info)
            elif i in imp and -imp[i] > mid + 1e-9 * scale:
                born = when[parent[i]] if i in parent else -1
                late = [imp[j] for j in when if when[j] > born]
                rec.ok(not late or min(late) >= -imp[i] - 1e-8 * scale, "best_first", "a split with a smaller gain was preferred over an open leaf's", open_gain=-imp[i],
                       preferred=min(late) if late else None, **info)
    if greedy and imp:
        f = np.zeros(X32.shape[1])
        for i, g in imp.items():
            if t.children_left[i] >= 0:
                f[t.feature[i]] += g
        if f.sum() > 1e-6 * scale:
            rec.close(tree.feature_importance, f / f.sum(), "importance", "feature importances are not the normalised gains", rtol=1e-5, atol=1e-6, **info)
    return sets, leaf


def limits(rng, n):
    kw = {}
    if rng.random() < .6:
        kw["max_depth"] = int(rng.integers(1, 6))
    r = rng.random()
    if r < .45:
        kw["min_samples_leaf"] = int(rng.integers(1, 12))
    elif r < .6:
        kw["min_samples_leaf"] = float(rng.choice([.02, .05, .1]))
    r = rng.random()
    if r < .25:
        kw["min_samples_split"] = int(rng.integers(2, 40))
    elif r < .4:
        kw["min_samples_split"] = float(rng.choice([.05, .2, .5]))
    if rng.random() < .3:
        kw["max_leaf_nodes"] = int(rng.integers(2, 12))
    if rng.random() < .15:
        kw["min_weight_fraction_leaf"] = float(rng.choice([.02, .05, .1]))
    if rng.random() < .7:
        kw["random_state"] = int(rng.integers(0, 1000))
    return kw


def world(rng):
    n, p, k = int(rng.integers(12, 160)), int(rng.integers(1, 5)), int(rng.choice([1, 2, 2, 3, 4, 5]))
    X = rng.normal(size=(n, p))
    r = rng.random()
    if r < .35:
        X[:, rng.integers(p)] = rng.integers(0, 4, n)
    elif r < .45:
        X[:, rng.integers(p)] = 1.5
    elif r < .6:
        X = np.round(X, 1)
    E = rng.normal(size=(n, k)) * rng.choice([.1, 1.]) + rng.normal(size=k)
    for j in range(k):
        E[:, j] += X[:, rng.integers(p)] * rng.normal() + (X[:, rng.integers(p)] > rng.normal() * .5) * rng.normal()
    if rng.random() < .5:
        E -= E[:, [0]]
    if rng.random() < .1:
        E = np.round(E)
    return X, E


def recommend(rec, tree, data, X, E, w, sets, info, decide=None, names=None):
    """Predictions, recommendations, leaves and paths for evaluation rows."""
    t = tree.tree_
    ev, _, leaf = route(t, X)
    scale = max(np.abs(E).max(), 1e-300)
    want = np.array([np.average(E[sets[i]], axis=0, weights=w[sets[i]]) for i in leaf])
    got = tree.predict_opt_effect(data)
    rec.close(np.asarray(got).reshape(len(X), -1), want, "predicted_effect", "a row's predicted effects are not the averages over the training rows of its leaf",
              rtol=1e-9, atol=1e-12 * scale, **info)
    ind = np.asarray(tree.predict_ind(data))
    rec.event("recommendations", len(X))
    if rec.ok(ind.shape == (len(X),), "recommend:shape", "not one recommendation per row", shape=ind.shape, **info):
        rec.ok((want[np.arange(len(X)), ind] >= want.max(axis=1) - 1e-9 * scale).all(), "recommend", "a recommended level is not the one with the largest average effect in the leaf", **info)
    rec.ok(np.array_equal(tree.apply(data=data), leaf), "apply", "apply does not return the leaf of each row", **info)
    P = np.asarray(tree.decision_path(data=data).todense()).astype(bool)
    mine = np.zeros_like(P)
    for i, s in ev.items():
        mine[s, i] = True
    rec.ok(np.array_equal(P, mine), "decision_path", "the decision path is not the one taken", **info)
    return want, ind, ev


STEP = re.compile(r"decision node (\d+): \(covariate \[(\d+), (\d+)\] = (\S+)\) (<=|>) (\S+)")


def texts(rec, out, t, X, info, name):
    """Every line of an interpretation against the path really taken. Returns the remaining lines of each sample."""
    X = np.asarray(X).astype(np.float32)
    rest = []
    if not rec.ok(list(out) == [f"sample_{i}" for i in range(len(X))], f"{name}:samples", "not one interpretation per row, in order", keys=list(out)[:5], **info):
        return None
    for i in range(len(X)):
        lines = [q.strip() for q in out[f"sample_{i}"].split("\n") if q.strip()]
        steps = [STEP.match(q) for q in lines]
        node, k, good = 0, 0, True
        while t.children_left[node] >= 0:
            m = steps[k] if k < len(steps) else None
            f, th = t.feature[node], t.threshold[node]
            left = float(X[i, f]) <= th
            good = m is not None and int(m[1]) == node and int(m[2]) == i and int(m[3]) == f and m[5] == ("<=" if left else ">") \
                and np.isclose(float(m[4]), float(X[i, f]), rtol=1e-6, atol=1e-12) and np.isclose(float(m[6]), th, rtol=1e-9)
            if not good:
                break
            node = t.children_left[node] if left else t.children_right[node]
            k += 1
        good = good and all(q is None for q in steps[k:])
        rec.event("text_steps", k)
        if not rec.ok(good, f"{name}:path", "the interpretation is not the decision path taken", text=out[f"sample_{i}"], **info):
            return None
        rest.append(lines[k:])
    rec.event("texts", len(X))
    return rest


def frame(rng, X):
    n, p = X.shape
    names = [str(q) for q in rng.permutation(["age", "x1", "income", "b c", "v", "w"])[:p]]
    df = pd.DataFrame({q: X[:, j] for j, q in enumerate(names)}, index=est.index_of(rng, n))
    df["other"] = rng.normal(size=n)
    return df[list(rng.permutation(df.columns))], names


def fresh_rows(rng, df, names):
    m = int(rng.choice([1, 3, 30]))
    d = df.iloc[rng.integers(0, len(df), m)].copy()
    for q in names:
        d[q] = d[q].to_numpy() + rng.normal(size=m) * .4 * (rng.random() < .7)
    return d[list(rng.permutation(d.columns))]


def on_thresholds(rec, rng, d, names, t):
    """The same rows with some values moved exactly onto a threshold of the tree (where that value is one the tree can tell apart)."""
    inner = [i for i in range(t.node_count) if t.children_left[i] >= 0 and float(np.float32(t.threshold[i])) == float(t.threshold[i])]
    if not inner:
        return d
    d = d.copy()
    for q in names:
        d[q] = d[q].astype(float)
    for r in range(len(d)):
        for _ in range(int(rng.integers(0, 3))):
            i = inner[int(rng.integers(len(inner)))]
            d.iloc[r, d.columns.get_loc(names[t.feature[i]])] = float(t.threshold[i])
            rec.event("on_threshold")
    return d


def level_names(rng, k):
    pool = [["none", "email", "call", "ad", "visit", "b", "a"], ["10", "9", "2", "33", "1", "8", "05"], [30, 20, 5, 40, 3, 8, 1]][int(rng.integers(3))]
    pool = [str(q) for q in pool] if rng.random() < .5 else pool
    out = [pool[i] for i in rng.permutation(len(pool))[:k]] if k <= len(pool) else [f"L{k - j}" for j in range(k)]
    return out if rng.random() < .8 else tuple(out)


def tree(rec, rng, tier):
    from ylearn.policy.policy_model import PolicyTree
    X, E = world(rng)
    n, k = E.shape
    s = 1.
    if rng.random() < .35:
        s = float(rng.choice([1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e11]))
        rec.event("tiny_or_huge")
    E = E * s
    df, names = frame(rng, X)
    kw = limits(rng, n)
    if rng.random() < .15:
        kw["min_impurity_decrease"] = float(abs(rng.normal()) * .1 * s)
    greedy = True
    if rng.random() < .15:
        kw["splitter"] = "random"
        greedy = False
    elif rng.random() < .15 and X.shape[1] > 1:
        kw["max_features"] = [1, .5, "sqrt", "log2"][int(rng.integers(4))]
        greedy = False
    w, fit = np.ones(n), {}
    if rng.random() < .2:
        w = rng.integers(1, 4, n).astype(float) if rng.random() < .5 else rng.uniform(.2, 2, n)
        fit["sample_weight"] = w.copy() if rng.random() < .7 else w.astype(int) if (w == w.astype(int)).all() else w.copy()
        rec.event("weighted")
    e = PolicyTree(**kw)
    src = ["effect_array", "effect", "both"][int(rng.integers(3))]
    if src == "effect_array":
        a = E.copy()
        fit["effect_array"] = np.asfortranarray(a) if rng.random() < .2 else a[:, 0] if k == 1 and rng.random() < .5 else a
    else:
        cols = [f"te{j}" for j in range(k)]
        for j in range(k):
            df[cols[j]] = E[:, j] if src == "effect" else rng.normal(size=n)
        fit["effect"] = est.maybe_str(rng, cols)
        if src == "both":
            fit["effect_array"] = E.copy()
    rec.event("one_level", int(k == 1))
    before, abefore = est.snap(df), E.copy()
    info = dict(kw=kw, source=src, n=n, levels=k, covariate=names, scale=s, weighted=bool("sample_weight" in fit))
    ret = e.fit(df, est.maybe_str(rng, names), **fit)
    rec.ok(ret is e, "fit_return", "fit does not return the tree", **info)
    rec.ok(est.snap(df) == before and (src == "effect" or np.array_equal(np.asarray(fit["effect_array"]).reshape(n, -1), abefore)), "data_changed", "fit changed the caller's data", **info)
    rec.seen(n, k, src, str(kw), len(names), s)
    rec.sample(**info)
    Xf = df[names].to_numpy(dtype=float)
    sets, leaf = dissect(rec, e, Xf, E, w, kw, info, greedy)
    for data in (None, df, on_thresholds(rec, rng, fresh_rows(rng, df, names), names, e.tree_)):
        Xe = Xf if data is None else data[names].to_numpy(dtype=float)
        want, _, _ = recommend(rec, e, data, Xe, E, w, sets, info)
        if data is None and greedy:
            one = (E * w[:, None]).sum(axis=0).max()
            tot = (want.max(axis=1) * w).sum()
            rec.ok(tot >= one - 1e-9 * max(np.abs(E).max(), 1e-300) * w.sum(), "total", "the recommendations are worth less than one level for everybody", total=tot, single=one, **info)
    # the same tree again; and after having been fitted on other data
    if rng.random() < .4 and "random_state" in kw:
        rec.event("refits")
        o = PolicyTree(**kw)
        other, onames = frame(rng, rng.normal(size=(40, X.shape[1] + 1)))
        o.fit(other, onames, effect_array=rng.normal(size=(40, k + 1)))
        o.fit(df, names, **fit)
        same = o.tree_.node_count == e.tree_.node_count and np.array_equal(o.tree_.value, e.tree_.value) and np.array_equal(o.predict_ind(df), e.predict_ind(df))
        rec.ok(same, "refit", "a refitted tree differs from a fresh one", **info)


def estimator(rec, rng, tier):
    """Effects taken from a fitted estimator, covariate transformation included; interpreter text."""
    from ylearn.policy.policy_model import PolicyTree
    from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter
    kind = EST[int(rng.integers(len(EST)))]
    S = zoo.Subject(rng, kind, n_out=1, proba=False, nv=int(rng.integers(1, 3)))
    pair = S.cell_pairs(rng)[0]
    m = S.fit(pair=pair)
    df = S.data
    T = S.table(m, df)[:, 0, :]
    ct = getattr(m, "covariate_transformer", None)
    V = est.arr(df, S.c.covariate).astype(float)
    tr = ct.transform if ct is not None else (lambda a: a)
    X = tr(V)
    kw = limits(rng, len(df))
    kw.setdefault("max_depth", 3)
    info = dict(S.info(), kw=kw)
    rec.event("estimator_effects")
    rec.event("transformer", int(ct is not None))
    rec.seen(kind, S.c.n, str(kw), str(ct))
    rec.sample(**info)
    if kind in zoo.PERM or kind == "DML":
        # the table column of a level is that level's effect over the first one
        for g in range(1, S.cells):
            rec.close(T[:, g], S.ask(m, df, (g, 0)).reshape(-1), "level_order", "the effects given to the tree are not those of the level in that position", rtol=1e-6, atol=1e-8, **info)
    before = est.snap(df)
    names = None
    if rng.random() < .5:
        tree_ = PolicyTree(**kw)
        tree_.fit(df, est.maybe_str(rng, S.c.covariate), est_model=m)
        pi = None
    else:
        pi = PolicyInterpreter(**kw)
        f = {}
        if rng.random() < .6:
            names = level_names(rng, T.shape[1])
            f["treatment_names"] = names
        if rng.random() < .4:
            f["covariate"] = S.c.covariate
        ret = pi.fit(df, m, **f)
        rec.ok(ret is pi, "pi:fit_return", "fit does not return the interpreter")
        tree_ = pi._tree_model
    rec.ok(est.snap(df) == before, "data_changed", "fit changed the caller's frame", **info)
    sets, _ = dissect(rec, tree_, X, T, np.ones(len(df)), kw, info)
    for data in (None, df, S.rows(rng) if ct is not None else on_thresholds(rec, rng, S.rows(rng), S.c.covariate, tree_.tree_)):
        src = df if data is None else data
        Xe = tr(est.arr(src, S.c.covariate).astype(float))
        want, ind, ev = recommend(rec, tree_, data, Xe, T, np.ones(len(df)), sets, info)
        if pi is None:
            continue
        rec.close(np.asarray(pi.predict(data)).reshape(len(src), -1), want, "pi:predict", "the interpreter's effects are not the tree's", rtol=1e-9, atol=1e-12, **info)
        dec = list(pi.decide(data))
        lab = [names[i] for i in ind] if names else list(ind)
        rec.ok(dec == lab, "pi:decide", "the interpreter does not name the recommended level", got=dec[:5], want=lab[:5], **info)
        rest = texts(rec, pi.interpret(data), tree_.tree_, Xe, info, "pi")
        for i, r in enumerate(rest or []):
            g = re.match(r"The recommended policy is treatment (.+) with value (\S+)$", r[0]) if len(r) == 1 else None
            if not rec.ok(g is not None and g[1] == str(lab[i]) and np.isclose(float(g[2]), want[i].max(), rtol=1e-6, atol=1e-9), "pi:recommended",
                          "the interpretation does not report the recommended level and its value", text=r, want=[str(lab[i]), want[i].max()], **info):
                break
    # the estimator may then be dropped for given effects, without its transformer
    if rng.random() < .4:
        rec.event("refits")
        E2 = rng.normal(size=(len(df), 3))
        o = PolicyTree(**kw)
        o.fit(df, S.c.covariate, est_model=m)
        o.fit(df, S.c.covariate, effect_array=E2)
        s2, _ = dissect(rec, o, V, E2, np.ones(len(df)), kw, info)
        recommend(rec, o, df, V, E2, np.ones(len(df)), s2, info)


def given(rec, rng, tier):
    """An interpreter of effects computed elsewhere, without estimator."""
    from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter
    X, E = world(rng)
    df, names = frame(rng, X)
    kw = limits(rng, len(X))
    pi = PolicyInterpreter(**kw)
    k = E.shape[1]
    f = dict(treatment_names=level_names(rng, k)) if rng.random() < .5 else {}
    if rng.random() < .5:
        f["effect_array"] = E if k > 1 or rng.random() < .5 else E[:, 0]
    else:
        for j in range(k):
            df[f"te{j}"] = E[:, j]
        f["effect"] = [f"te{j}" for j in range(k)]
    pi.fit(df, None, covariate=names, **f)
    info = dict(kw=kw, n=len(X), levels=k)
    rec.event("one_level", int(k == 1))
    rec.seen("given", len(X), k, str(kw))
    Xf = df[names].to_numpy(dtype=float)
    sets, _ = dissect(rec, pi._tree_model, Xf, E, np.ones(len(X)), kw, info)
    d = on_thresholds(rec, rng, fresh_rows(rng, df, names), names, pi._tree_model.tree_)
    Xe = d[names].to_numpy(dtype=float)
    want, ind, _ = recommend(rec, pi._tree_model, d, Xe, E, np.ones(len(X)), sets, info)
    lab = [f["treatment_names"][i] for i in ind] if "treatment_names" in f else ind.tolist()
    rec.ok(list(pi.decide(d)) == lab, "pi:decide", "the interpreter does not name the recommended level", **info)
    rest = texts(rec, pi.interpret(d), pi._tree_model.tree_, Xe, info, "pi")
    for i, r in enumerate(rest or []):
        g = re.match(r"The recommended policy is treatment (.+) with value (\S+)$", r[0]) if len(r) == 1 else None
        rec.ok(g is not None and g[1] == str(lab[i]) and np.isclose(float(g[2]), want[i].max(), rtol=1e-6, atol=1e-9), "pi:recommended",
               "the interpretation does not report the recommended level and its value", text=r, **info)
    if rng.random() < .3:
        labels_of_plot(rec, pi, pi._tree_model.tree_, names, f.get("treatment_names"), info)


def annotations(fn):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots(figsize=(4, 3))
    try:
        fn(ax)
        from matplotlib.text import Annotation
        return [a.get_text() for a in ax.get_children() if isinstance(a, Annotation)]
    finally:
        plt.close(fig)


def preorder(t, i=0):
    yield i
    if t.children_left[i] >= 0:
        yield from preorder(t, int(t.children_left[i]))
        yield from preorder(t, int(t.children_right[i]))


def labels_of_plot(rec, pi, t, names, treats, info):
    if t.node_count > 25:
        return
    got = annotations(lambda ax: pi.plot(ax=ax, precision=4))
    nodes = list(preorder(t))
    rec.event("plots")
    if not rec.ok(len(got) == len(nodes), "plot:nodes", "the plot does not show every node once", got=len(got), want=len(nodes), **info):
        return
    for s, i in zip(got, nodes):
        v = np.ravel(t.value[i])
        if t.children_left[i] >= 0:
            rec.ok(s.startswith(f"{names[t.feature[i]]} <= "), "plot:feature", "a plotted node names another covariate", text=s, want=names[t.feature[i]], **info)
        rec.ok(re.search(rf"samples = {t.n_node_samples[i]}\b", s) is not None, "plot:samples", "a plotted node shows another number of rows", text=s, **info)
        lab = treats or [f"T[{j}]" for j in range(len(v))]
        for j, q in enumerate(lab):
            g = re.search(rf"^{re.escape(str(q))}=(\S+)$", s, re.M)
            rec.ok(g is not None and abs(float(g[1]) - v[j]) <= 1e-4 * max(1, abs(v[j])), "plot:value", "a plotted node shows other average effects", text=s, want=v, **info)


def effects(rec, rng, tier):
    """CEInterpreter: a regression tree over the estimator's own effects."""
    from ylearn.effect_interpreter.ce_interpreter import CEInterpreter
    kind = ["S", "T", "X", "PS", "PT", "DML", "DMLc", "DR", "IV", "IVc", "CT", "PDR"][int(rng.integers(12))]
    S = zoo.Subject(rng, kind, proba=False, nv=int(rng.integers(1, 3)), n_out=1 if rng.random() < .8 else None)
    pair = S.cell_pairs(rng)[0]
    m = S.fit(pair=pair)
    df = S.data
    V = est.arr(df, S.c.covariate).astype(float)
    ct = getattr(m, "covariate_transformer", None)
    tr = ct.transform if ct is not None else (lambda a: a)
    X = tr(V)
    kw = dict(max_depth=int(rng.integers(1, 5)), random_state=int(rng.integers(100)))
    if rng.random() < .5:
        kw["min_samples_leaf"] = int(rng.integers(2, 15))
    ask = {}
    if S.how == "pair" and rng.random() < .7:
        f = lambda v: v[0] if len(v) == 1 else np.array(v) if S.continuous else v
        ask = dict(treat=f(S.lab(pair[0])), control=f(S.lab(pair[1])))
    eff = zoo.num(m.estimate(data=df, **ask))
    n = len(df)
    E = eff.reshape(n, -1)
    ce = CEInterpreter(**kw)
    before = est.snap(df)
    ret = ce.fit(df, m, **ask)
    info = dict(S.info(), kw=kw, asked=str(ask))
    rec.ok(ret is ce, "ce:fit_return", "fit does not return the interpreter")
    rec.ok(est.snap(df) == before, "ce:data_changed", "fit changed the caller's frame", **info)
    rec.event("ce_trees")
    rec.event("transformer", int(ct is not None))
    rec.seen("ce", kind, n, str(kw), str(ct))
    rec.sample(**info)
    t = ce._tree_model.tree_
    sets, depth, leaf = route(t, X)
    sc = np.abs(E).max() + 1e-12
    rec.ok(max(depth.values()) <= kw["max_depth"], "ce:depth", "the tree is deeper than requested", **info)
    for i, rows in sets.items():
        rec.event("ce_nodes")
        nd = ce.node_dict_[i]
        rec.close(np.ravel(nd["mean"]), E[rows].mean(axis=0), "ce:node_mean", "a node's mean effect is not that of its rows", rtol=1e-8, atol=1e-10 * sc, **info)
        rec.close(np.ravel(nd["std"]), E[rows].std(axis=0), "ce:node_std", "a node's spread of effects is not that of its rows", rtol=1e-7, atol=1e-8 * sc, **info)
        if t.children_left[i] < 0:
            rec.ok(len(rows) >= kw.get("min_samples_leaf", 1), "ce:leaf_size", "a leaf is smaller than requested", **info)
    for data in (df, S.rows(rng) if ct is not None else on_thresholds(rec, rng, S.rows(rng), S.c.covariate, t)):
        if rng.random() < .5:
            data = data[list(rng.permutation(data.columns))]
        if rng.random() < .3:
            data = data[S.c.covariate]
        Xe = tr(est.arr(data, S.c.covariate).astype(float))
        _, _, lf = route(t, Xe)
        want = np.array([E[sets[i]].mean(axis=0) for i in lf])
        for name in ("predict", "decide"):
            rec.close(np.asarray(getattr(ce, name)(data)).reshape(len(data), -1), want, f"ce:{name}", "not the mean effect of the leaf of each row", rtol=1e-8, atol=1e-10 * sc, **info)
        texts(rec, ce.interpret(data=data), t, Xe, info, "ce")
    texts(rec, ce.interpret(), t, X, info, "ce")
    texts(rec, ce.interpret(v=X[:3]), t, X[:3], info, "ce")
    if rng.random() < .25 and t.node_count <= 20 and X.shape[1] == len(S.c.covariate):
        got = annotations(lambda ax: ce.plot(ax=ax, precision=4))
        nodes = list(preorder(t))
        rec.event("plots")
        if rec.ok(len(got) == len(nodes), "ce:plot:nodes", "the plot does not show every node once", **info):
            for s, i in zip(got, nodes):
                if t.children_left[i] >= 0:
                    rec.ok(s.startswith(f"{S.c.covariate[t.feature[i]]} <= "), "ce:plot:feature", "a plotted node names another covariate", text=s, **info)
                g = re.search(r"CATE mean-*\n(.*?)\n-*CATE std-*\n(.*)$", s, re.S)
                nums = [float(q) for q in re.findall(r"[-+0-9.e]+", g[1])] if g else []
                rec.ok(g is not None and np.allclose(nums, np.ravel(E[sets[i]].mean(axis=0)), atol=1e-4, rtol=1e-4), "ce:plot:mean", "a plotted node shows another mean effect", text=s, **info)


GROUPS = [Group("tree", tree, 200, 6000, 60, 25), Group("estimator", estimator, 130, 2500, 90, 10), Group("given", given, 60, 2000, 60, 15),
          Group("effects", effects, 110, 2500, 90, 10)]
