"""C12: every grown causal tree is dissected: partition, limits, leaf contents, split optimality, honesty by row influence."""
import numpy as np
import pandas as pd

from vm.core import Group, Skip
from vm import est

PROPERTY = "C12"
RULE = ("one evaluation = one node, limit, leaf value, split or row-influence condition of one grown tree; "
        "distinct = distinct (data spelling, limits, size, honest setting)")
REQUIRE = {"trees": 300, "inner_nodes": 1500, "optimal_splits": 800, "unsplit_leaves": 300, "other_levels": 60, "two_treatments": 30,
           "honest_trees": 60, "heldout_rows": 1000, "shape_rows": 1000, "scaled": 60, "random_splitter": 30, "honest_inherit": 5}
THR = np.float32(1e-7)   # values closer than this are one value to the tree builder


def hmse(y, g):
    """The honest causal MSE of one node: twice the variance of the estimated difference less its square."""
    a, b = y[g], y[~g]
    return 2 * a.var() / len(a) + 2 * b.var() / len(b) - (a.mean() - b.mean()) ** 2


def cost(y, g, left):
    return left.sum() * hmse(y[left], g[left]) + (~left).sum() * hmse(y[~left], g[~left])


def splits(x, y, g, min_leaf):
    """All admissible thresholds of one feature with their cost."""
    o = np.argsort(x, kind="stable")
    xs, ys, gs = x[o], y[o], g[o].astype(float)
    n = len(xs)
    k = np.arange(1, n)
    ok = (xs[1:] > xs[:-1] + THR) & (k >= min_leaf) & (n - k >= min_leaf)
    c = lambda q: np.cumsum(q)[:-1]
    nt, n0 = c(gs), c(1 - gs)
    Nt, N0 = gs.sum(), (1 - gs).sum()
    ok &= (nt > 0) & (n0 > 0) & (nt < Nt) & (n0 < N0)
    if not ok.any():
        return np.empty(0), np.empty(0)
    st, s0, qt, q0 = c(gs * ys), c((1 - gs) * ys), c(gs * ys ** 2), c((1 - gs) * ys ** 2)
    St, S0, Qt, Q0 = (gs * ys).sum(), ((1 - gs) * ys).sum(), (gs * ys ** 2).sum(), ((1 - gs) * ys ** 2).sum()

    def imp(nt, n0, st, s0, qt, q0):
        with np.errstate(all="ignore"):
            return 2 * (qt / nt - (st / nt) ** 2) / nt + 2 * (q0 / n0 - (s0 / n0) ** 2) / n0 - (st / nt - s0 / n0) ** 2
    v = k * imp(nt, n0, st, s0, qt, q0) + (n - k) * imp(Nt - nt, N0 - n0, St - st, S0 - s0, Qt - qt, Q0 - q0)
    return xs[:-1][ok], v[ok]


def limits(rng, n, honest=False):
    kw = {}
    if rng.random() < .5:
        kw["max_depth"] = int(rng.integers(1, 6))
    r = rng.random()
    if r < .5:
        kw["min_samples_leaf"] = int(rng.integers(1, 12))
    elif r < .7 and not honest:
        kw["min_samples_leaf"] = float(rng.choice([.02, .05, .1, .15]))
    r = rng.random()
    if r < .3:
        kw["min_samples_split"] = int(rng.integers(2, 40))
    elif r < .45 and not honest:
        kw["min_samples_split"] = float(rng.choice([.05, .2, .5, 1.]))
    if rng.random() < .15 and not honest:
        # room for one or two levels of splits only, and for the last one just about
        kw["max_depth"] = int(rng.integers(1, 4))
        kw["min_samples_leaf"] = max(1, n // int(rng.choice([2, 2, 3, 4, 5])))
        kw.pop("min_samples_split", None)
    kw["random_state"] = int(rng.integers(0, 1000))
    return kw


def nums(kw, n):
    ml = kw.get("min_samples_leaf", 1)
    ml = ml if isinstance(ml, int) else int(np.ceil(ml * n))
    ms = kw.get("min_samples_split", 2)
    ms = ms if isinstance(ms, int) else max(2, int(np.ceil(ms * n)))
    return ml, max(ms, 2 * ml), kw.get("max_depth", 10 ** 9)


def frame(rng, **opt):
    n_treat = 2 if rng.random() < .2 else 1
    c = est.make(rng, n_treat=n_treat, n=int(rng.integers(30, 170)), min_cell=3, **opt)
    for q in (c.adjustment or []) + (c.covariate or []):
        r = rng.random()
        if r < .2:
            c.data[q] = rng.integers(0, int(rng.integers(2, 6)), c.n)
        elif r < .27:
            c.data[q] = 3.25
        elif r < .34:
            c.data[q] = np.round(c.data[q].to_numpy(), 1) * 1e4
    r = rng.random()
    y = c.outcome[0]
    if r < .15:
        c.data[y] = (c.data[y] > c.data[y].median()).astype(int)
    elif r < .25:
        c.data[y] = c.data[y].round()
    elif r < .55:
        c.data[y] = c.data[y] * float(rng.choice([1e-3, 1e-2, 1e3, 1e6])) + float(rng.choice([0, 0, 1e3, -5e4]))
    return c


def roles(rng, c):
    fit = {}
    if c.adjustment:
        fit["adjustment"] = est.maybe_str(rng, c.adjustment)
    if c.covariate:
        fit["covariate"] = est.maybe_str(rng, c.covariate)
    cells = c.k ** len(c.treatment)
    combos = [tuple(q) for q in np.array(np.meshgrid(*[np.arange(c.k)] * len(c.treatment), indexing="ij")).reshape(len(c.treatment), -1).T]
    t0, c0 = combos.index((1,) * len(c.treatment)), 0
    if rng.random() < .65:
        t0, c0 = [int(q) for q in rng.permutation(cells)[:2]]
        lab = lambda g: [c.levels[j][combos[g][j]] for j in range(len(c.treatment))]
        fit.update(treat=est.label_form(rng, lab(t0)), control=est.label_form(rng, lab(c0)))
    cell = np.array([combos.index(tuple(q)) for q in c.codes])
    return fit, cell == t0, cell == c0


def route(t, X):
    """Node sets, computed from thresholds alone."""
    X = X.astype(np.float32)
    sets = {0: np.arange(len(X))}
    depth = {0: 0}
    for i in range(t.node_count):
        if t.children_left[i] >= 0:
            go = X[sets[i], t.feature[i]].astype(float) <= t.threshold[i]
            a, b = int(t.children_left[i]), int(t.children_right[i])
            sets[a], sets[b] = sets[i][go], sets[i][~go]
            depth[a] = depth[b] = depth[i] + 1
    return sets, depth


def dissect(rec, e, X, y, g, kw, n_limit, name, splitter="best", optimal=True, all_features=True):
    """X, y, g: the rows which grew the tree (compared levels only). Returns {node: rows}."""
    t = e.tree_
    sets, depth = route(t, X)
    ml, ms, md = nums(kw, n_limit)
    X32 = X.astype(np.float32)
    scale = max(np.ptp(y), 1e-300)
    yc = (y - y.mean()) / scale
    leaves = [i for i in sets if t.children_left[i] < 0]
    rec.event("trees")
    rec.ok(max(depth.values()) <= md, f"{name}:depth", "the tree is deeper than requested", depth=max(depth.values()), limit=md)
    rec.ok(e.get_depth() == max(depth.values()) and e.get_n_leaves() == len(leaves), f"{name}:reported", "reported depth or leaf count is wrong")
    rec.ok(all(len(sets[i]) == t.n_node_samples[i] for i in sets), f"{name}:samples", "a node's rows are not the compared-level rows that reach it",
           tree=np.asarray(t.n_node_samples), real=[len(sets[i]) for i in range(t.node_count)])
    for i in leaves:
        s = sets[i]
        rec.ok(len(s) >= min(ml, len(y)), f"{name}:leaf_size", "a leaf is smaller than requested", rows=len(s), limit=ml)
        if len(leaves) > 1:
            rec.ok(g[s].any() and (~g[s]).any(), f"{name}:one_group", "a leaf holds no rows of one of the compared levels", rows=len(s))
    for i in sets:
        s = sets[i]
        if t.children_left[i] < 0:
            if depth[i] >= md or len(s) < ms or len(s) < 2 * ml or not optimal or not all_features or splitter != "best":
                continue
            # with one group constant at each extreme there is nothing left to gain
            if (hmse(yc[s], g[s]) + 1) * scale ** 2 < 1e-12 or hmse(yc[s], g[s]) + 1 < 1e-9:
                continue
            best = -np.inf
            for f in range(X.shape[1]):
                _, v = splits(X32[s, f], yc[s], g[s], ml)
                if len(v):
                    best = max(best, len(s) * hmse(yc[s], g[s]) - v.min())
            gain = best / len(y)
            rec.event("unsplit_leaves")
            need = kw.get("min_impurity_decrease", 0.) / scale ** 2
            rec.ok(gain < need + 1e-9, f"{name}:unsplit", "a leaf could have been split further with a gain above the minimum", gain=gain, need=need,
                   rows=len(s))
            continue
        rec.event("inner_nodes")
        rec.ok(len(s) >= ms, f"{name}:split_size", "a node smaller than min_samples_split was split", rows=len(s), limit=ms)
        f = int(t.feature[i])
        a = sets[int(t.children_left[i])]
        b = sets[int(t.children_right[i])]
        if not (g[a].any() and g[b].any() and (~g[a]).any() and (~g[b]).any()):
            continue
        left = np.isin(s, a)
        mine = cost(yc[s], g[s], left)
        if optimal and splitter == "best":
            rec.event("optimal_splits")
            for h in (range(X.shape[1]) if all_features else [f]):
                x, v = splits(X32[s, h], yc[s], g[s], ml)
                if len(v):
                    j = int(np.argmin(v))
                    tol = 1e-8 * len(s)
                    if not rec.ok(mine <= v[j] + tol, f"{name}:not_best", "a better admissible split exists", node=i, feature=f, cost=mine, better_feature=h,
                                  better_cost=v[j], below=x[j], rows=len(s)):
                        break
        need = kw.get("min_impurity_decrease", 0.) / scale ** 2
        gain = (len(s) * hmse(yc[s], g[s]) - mine) / len(y)
        rec.ok(gain > need - 1e-8, f"{name}:no_gain", "a node was split with less gain than required", gain=gain, need=need)
    return sets, leaves


def diff(y, g):
    y = y - y[0]
    return y[g].mean() - y[~g].mean()


def tree(rec, rng, tier):
    from ylearn.estimator_model.causal_tree import CausalTree
    c = frame(rng)
    fit, gt, gc = roles(rng, c)
    use = gt | gc
    X, Y = est.wv(c, c.data), est.arr(c.data, c.outcome).astype(float)[:, 0]
    n = int(use.sum())
    kw = limits(rng, n)
    splitter = "random" if rng.random() < .15 else "best"
    mf = None
    if rng.random() < .25:
        mf = [1, "sqrt", "log2", .5, X.shape[1]][int(rng.integers(5))]
        kw["max_features"] = mf
    if rng.random() < .25:
        kw["min_impurity_decrease"] = float(rng.choice([.01, .1, .5])) * np.ptp(Y[use]) ** 2 / 20
    if rng.random() < .2:
        kw["categories"] = [list(l) for l in c.levels]
    make = lambda: CausalTree(splitter=splitter, **kw)
    e = make()
    before = est.snap(c.data)
    ret = e.fit(c.data, est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment), **fit)
    rec.ok(ret is e, "fit_return", "fit does not return the tree")
    rec.ok(est.snap(c.data) == before, "data_changed", "fit changed the caller's frame")
    info = dict(kw=kw, splitter=splitter, levels=c.levels, n=n, roles=[c.adjustment, c.covariate], fit={k: str(v) for k, v in fit.items()})
    rec.sample(nodes=int(e.tree_.node_count), **info)
    rec.seen(c.n, str(c.levels), str(kw), splitter, int(gt.sum()), int(gc.sum()))
    rec.event("two_treatments", int(len(c.treatment) == 2))
    rec.event("random_splitter", int(splitter == "random"))
    d = dissect(rec, e, X[use], Y[use], gt[use], kw, n, "tree", splitter, all_features=mf is None or mf == X.shape[1])
    sets, leaves = d
    # every evaluated row gets the difference of the compared rows in its leaf
    sc = max(1e-12, np.abs(Y[use] - Y[use].mean()).max())
    for data in (None, c.data, est.test_rows(rng, c), est.test_rows(rng, c)):
        got = np.asarray(e.estimate() if data is None else e.estimate(data))
        data = c.data if data is None else data
        XX = est.wv(c, data)
        if not rec.ok(got.size == len(data) and len(got) == len(data), "rows", "the effects do not match the evaluated rows", shape=got.shape, rows=len(data)):
            continue
        rs, _ = route(e.tree_, XX)
        want = np.full(len(data), np.nan)
        bad = np.zeros(len(data), dtype=bool)
        for i in leaves:
            g = gt[use][sets[i]]
            if g.any() and (~g).any():
                want[rs[i]] = diff(Y[use][sets[i]] - Y[use].mean(), g)
            else:
                bad[rs[i]] = True
        rec.close(got.reshape(-1)[~bad], want[~bad], "leaf_value", "an effect is not the treated-minus-control difference of its leaf", rtol=1e-7, atol=1e-8 * sc, **info)
        rec.close(np.asarray(e.apply(data=data)), np.array([next(i for i in leaves if r in set(rs[i])) for r in range(len(data))]), "apply",
                  "apply does not return the leaf", rtol=0, atol=0)
        path = e.decision_path(data=data).toarray()
        mem = np.zeros_like(path)
        for i in rs:
            mem[rs[i], i] = 1
        rec.ok((path == mem).all(), "decision_path", "the decision path is not the path taken")
        for q in ("ATE", "CATE"):
            rec.close(np.asarray(e.estimate(data, quantity=q), dtype=float).reshape(-1), [got.mean()], f"quantity:{q}", f"{q} is not the mean of the effects",
                      rtol=1e-9, atol=1e-12 * sc)
        nji = np.asarray(e.effect_nji(data))
        rec.close(nji.reshape(len(data), -1), np.column_stack([np.zeros(len(data)), got.reshape(-1)]), "effect_nji", "effect_nji is not (0, effect)", rtol=0, atol=0)
    # rows of other levels have no influence
    if (~use).any():
        rec.event("other_levels")
        d2 = c.data.copy()
        for q in (c.adjustment or []) + (c.covariate or []) + c.outcome:
            z = d2[q].to_numpy().astype(float)
            z[~use] = rng.normal(size=(~use).sum()) * 100 + 7
            d2[q] = z
        e2 = make().fit(d2, c.outcome, c.treatment, **fit)
        rec.close(np.asarray(e2.estimate(c.data)), np.asarray(e.estimate(c.data)), "other_levels", "rows of other treatment levels change the effects", rtol=0, atol=0)
    e3 = make().fit(c.data, c.outcome, c.treatment, **fit)
    rec.ok(np.array_equal(np.asarray(e3.estimate(c.data)), np.asarray(e.estimate(c.data))), "repeat", "two trees with one random state differ")


def structure(t):
    return (t.children_left.tolist(), t.children_right.tolist(), t.feature.tolist(), t.threshold.tolist())


def honest(rec, rng, tier):
    """Which rows shape the partition and which fill the leaves is found out by refitting with one outcome changed at a time."""
    from ylearn.estimator_model.causal_tree import CausalTree
    c = frame(rng, k=int(rng.integers(2, 4)))
    y = c.outcome[0]
    c.data[y] = rng.normal(size=c.n) + est.arr(c.data, c.outcome)[:, 0] / max(1e-9, np.ptp(est.arr(c.data, c.outcome)[:, 0])) * 4
    fit, gt, gc = roles(rng, c)
    use = gt | gc
    n = int(use.sum())
    if min(gt.sum(), gc.sum()) < 6 or n > 90:
        raise Skip("too few or too many rows")
    kw = limits(rng, n, honest=True)
    kw.pop("min_samples_split", None)
    h = [.5, .3, .7, int(n // 2), int(n // 3)][int(rng.integers(5))]
    make = lambda: CausalTree(honest_subsample_num=h, **kw)
    X = est.wv(c, c.data)
    rows = np.where(use)[0]

    def grow(Y):
        d = c.data.copy()
        d[y] = Y
        return make().fit(d, c.outcome, c.treatment, **fit)
    Y = c.data[y].to_numpy().astype(float)
    e = grow(Y)
    t0, s0 = e.estimate(c.data).reshape(-1), structure(e.tree_)
    rec.event("honest_trees")
    rec.seen(c.n, str(c.levels), str(kw), str(h))
    rec.sample(honest=h, kw=kw, n=n, nodes=int(e.tree_.node_count), levels=c.levels)
    # a huge change of a row which shapes the partition moves the partition or nothing; of a held-out row, its leaf value only
    fills, shapes, both, inert = [], [], [], []
    for r in rows:
        kinds = set()
        for delta in (40., -35., .37):
            Y2 = Y.copy()
            Y2[r] += delta
            e2 = grow(Y2)
            same = structure(e2.tree_) == s0
            moved = not np.allclose(e2.estimate(c.data).reshape(-1), t0, rtol=1e-9, atol=1e-11)
            if not same:
                kinds.add("shape")
            elif moved:
                kinds.add("fill")
        if kinds == {"shape", "fill"}:
            both.append(r)
        if "fill" in kinds:
            fills.append(r)
        elif "shape" in kinds:
            shapes.append(r)
        else:
            inert.append(r)
    fills = np.array(fills, dtype=int)
    num = h if isinstance(h, int) else h * n
    inert = np.array(inert, dtype=int)
    if max(gt[inert].sum(), gc[inert].sum()) >= int(num):
        # all rows held out are of one group: nothing to compare, so they have no influence at all
        rec.event("nothing_to_compare")
        raise Skip("held-out rows of one group only")
    rec.event("heldout_rows", len(fills))
    rec.event("shape_rows", len(shapes))
    for r in rows:
        rec.ok(r not in both, "dishonest", "a row both shapes the partition and fills its leaves", row=int(r), honest=h, kw=kw)
    if not rec.ok(len(fills) > 0, "no_heldout", "no held-out row fills any leaf", honest=h):
        return
    if not (gt[fills].any() and gc[fills].any()):
        raise Skip("held-out rows of one group only")
    rec.ok(len(fills) <= max(num, n - num) + 1, "heldout_count", "more rows fill the leaves than were held out", fills=len(fills), honest=h, n=n)
    # leaf values: differences over the held-out rows of the leaf, or of the closest ancestor which has both groups
    rs, depth = route(e.tree_, X)
    t = e.tree_
    parent = {}
    for i in range(t.node_count):
        if t.children_left[i] >= 0:
            parent[int(t.children_left[i])] = parent[int(t.children_right[i])] = i
    F = set(fills)
    for i in rs:
        if t.children_left[i] >= 0 or not len(rs[i]):
            continue
        j = i
        held = np.array([r for r in rs[i] if r in F], dtype=int)
        if not (gt[held].any() and gc[held].any()):
            # rows without influence may be held out as well: such a leaf only has to be free of the rows which shape the tree
            rec.event("honest_inherit")
            continue
        rec.close(t0[rs[i]], np.full(len(rs[i]), diff(Y[held], gt[held])), "honest_value",
                  "an honest leaf is not the difference over its held-out rows", rtol=1e-7, atol=1e-9, leaf=i, held=len(held), honest=h)
    # replacing every held-out outcome leaves the partition alone and refills every leaf
    Y3 = Y.copy()
    Y3[fills] = rng.normal(size=len(fills)) * 50
    e3 = grow(Y3)
    rec.ok(structure(e3.tree_) == s0, "heldout_shapes", "held-out outcomes change the partition", honest=h)
    # the rows which shaped the partition never enter a leaf value: shift all of their outcomes together
    others = np.setdiff1d(rows, fills)
    Y4 = Y.copy()
    Y4[others] += 1000.
    e4 = grow(Y4)
    if structure(e4.tree_) == s0:
        rec.event("shifted_shape_rows")
        rec.close(e4.estimate(c.data).reshape(-1), t0, "shape_fills", "outcomes of the rows that shaped the partition enter leaf values", rtol=1e-6, atol=1e-8, honest=h)
    rec.ok(e3.estimate(c.data).shape[0] == c.n, "rows", "the effects do not match the evaluated rows")


def scaled(rec, rng, tier):
    """Units of the outcome: a*y + b grows the same tree with effects scaled by a."""
    from ylearn.estimator_model.causal_tree import CausalTree
    c = est.make(rng, n=int(rng.integers(40, 150)), min_cell=5)
    fit, gt, gc = roles(rng, c)
    y = c.outcome[0]
    kw = limits(rng, int((gt | gc).sum()))
    kw["min_samples_leaf"] = max(2, kw.get("min_samples_leaf", 2)) if isinstance(kw.get("min_samples_leaf", 2), int) else kw["min_samples_leaf"]
    # equal cuts of the compared rows may be drawn at other thresholds: rows of other levels could then change sides
    grow = lambda d: CausalTree(**kw).fit(d, c.outcome, c.treatment, **fit).estimate().reshape(-1)[gt | gc]
    base = grow(c.data)
    a = float(rng.choice([2. ** -10, 2. ** 10, 2. ** 20, 1.]))
    b = float(rng.choice([0, 100., -3000., 2. ** 15]))
    d = c.data.copy()
    d[y] = d[y] * a + b * a
    rec.event("scaled")
    rec.seen(a, b, c.n, str(kw))
    rec.sample(a=a, b=b, kw=kw)
    rec.close(grow(d) / a, base, "units", "effects change with the unit or origin of the outcome", rtol=1e-6, atol=1e-7, a_=a, b_=b, kw=kw)
    # flipping treated and control flips the sign
    if "treat" in fit:
        f2 = dict(fit, treat=fit["control"], control=fit["treat"])
        g2 = CausalTree(**kw).fit(c.data, c.outcome, c.treatment, **f2).estimate().reshape(-1)[gt | gc]
        rec.close(-g2, base, "swap", "swapping treated and control does not flip the effects", rtol=1e-7, atol=1e-9, kw=kw)


def outcomes(rec, rng, tier):
    """Several outcomes are documented ('str or list of str')."""
    from ylearn.estimator_model.causal_tree import CausalTree
    c = est.make(rng, n=80, n_out=2, k=2, n_treat=1, min_cell=8)
    e = CausalTree(max_depth=2, min_samples_leaf=8).fit(c.data, c.outcome, c.treatment[0], adjustment=c.adjustment, covariate=c.covariate)
    got = np.asarray(e.estimate(c.data))
    Y = est.arr(c.data, c.outcome).astype(float)
    g = c.codes[:, 0] == 1
    sets, _ = route(e.tree_, est.wv(c, c.data))
    good = got.size == 2 * c.n
    if good:
        got = got.reshape(c.n, 2)
        for i in sets:
            if e.tree_.children_left[i] < 0:
                s = sets[i]
                w = [diff(Y[s, o], g[s]) if g[s].any() and (~g[s]).any() else np.nan for o in range(2)]
                good &= bool(np.allclose(got[s], w, equal_nan=False))
    rec.ok(good, "several_outcomes", "with two outcomes the leaf values are not the differences of each outcome")


def large(rec, rng, tier):
    """Long sorts, deep trees, heavy ties."""
    from ylearn.estimator_model.causal_tree import CausalTree
    n = int(rng.integers(1500, 4000))
    p = int(rng.integers(2, 7))
    X = rng.normal(size=(n, p))
    for j in range(p):
        r = rng.random()
        if r < .3:
            X[:, j] = rng.integers(0, 4, n)
        elif r < .4:
            X[:, j] = np.sort(X[:, j])[::-1]
        elif r < .5:
            X[:, j] = np.abs(np.arange(n) - n / 2)
    g = rng.random(n) < rng.uniform(.1, .9)
    Y = g * (1 + X[:, 0]) + X @ rng.normal(size=p) + rng.normal(size=n)
    d = pd.DataFrame(X, columns=[f"f{j}" for j in range(p)])
    d["y"], d["t"] = Y, g.astype(int)
    kw = dict(min_samples_leaf=int(rng.choice([1, 3, 20])), random_state=int(rng.integers(100)))
    if rng.random() < .5:
        kw["max_depth"] = int(rng.integers(2, 12))
    e = CausalTree(**kw).fit(d, "y", "t", covariate=[f"f{j}" for j in range(p)])
    rec.seen(n, p, str(kw))
    sets, leaves = dissect(rec, e, X, Y, g, kw, n, "large")
    got = e.estimate().reshape(-1)
    want = np.full(n, np.nan)
    for i in leaves:
        want[sets[i]] = diff(Y[sets[i]], g[sets[i]])
    rec.close(got, want, "leaf_value", "an effect is not the treated-minus-control difference of its leaf", rtol=1e-7, atol=1e-8)


GROUPS = [Group("tree", tree, 420, 6000), Group("honest", honest, 170, 1500), Group("scaled", scaled, 120, 1500), Group("outcomes", outcomes, 4, 10),
          Group("large", large, 12, 150)]
