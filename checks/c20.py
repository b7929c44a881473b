"""C20: residual-loss scores, propensity models, performance metrics and importances against their definitions recomputed on the same data."""
import copy
import itertools

import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.neighbors import KNeighborsClassifier
from sklearn.preprocessing import PolynomialFeatures, StandardScaler
from sklearn.tree import DecisionTreeClassifier

from checks.c05 import onehot, oof
from vm import est, zoo
from vm.core import Group, Skip

PROPERTY = "C20"
RULE = ("one evaluation = one score, probability, metric or importance compared with its definition recomputed from the observed folds, predictions or "
        "tree nodes, or one condition on the caller's objects; distinct = distinct (estimator, treatment form, levels asked, folds, learners) of scores, "
        "(model, levels) of propensities, (task, metric, label form) of metrics and (tree, shape) of importances")
REQUIRE = {"scored": 250, "discrete": 150, "continuous": 40, "cross_fitted": 80, "table_effects": 60, "two_treatments": 25, "two_outcomes": 25, "class_outcome": 12,
           "refits": 40, "repeated": 100, "fold_events": 400, "preferred": 60, "propensity": 100, "metric": 1000, "metric:auc": 40, "metric:logloss": 40,
           "importance": 100, "split_nodes": 300}
KINDS = zoo.FAST


# ---------------------------------------------------------------- residual loss

class Named:
    """An estimator of the user's own."""

    def __init__(self, f):
        self.f = f

    def estimate(self, data=None):
        return self.f(data)


def case_rloss(rec, rng, tier):
    from ylearn.estimator_model import RLoss
    kind = str(rng.choice(KINDS))
    s = zoo.Subject(rng, kind, nv=int(rng.integers(1, 3)), trees=bool(rng.random() < .5))
    c = s.c
    pair = s.cell_pairs(rng)[0]
    e = s.fit(pair=pair)
    # validation data: other rows of the same population, all levels present
    val = s.data.iloc[rng.permutation(c.n)[: c.n if rng.random() < .4 else int(c.n * .9)]].copy()
    roll = est.arr(val, (c.adjustment or []) + c.covariate).astype(float)
    for q, a in zip((c.adjustment or []) + c.covariate, (roll + rng.normal(size=roll.shape) * .3).T):
        val[q] = a
    if rng.random() < .5:
        val = val[[val.columns[i] for i in rng.permutation(val.shape[1])]]
    if rng.random() < .5:
        val.index = est.index_of(rng, len(val))
    folds = int(rng.choice([1, 1, 2, 3, 4]))
    discrete = not s.continuous
    k, n_treat = c.k, s.n_treat
    if discrete:
        codes = np.column_stack([[c.levels[j].index(v) for v in val[q]] for j, q in enumerate(c.treatment)])
        cell = codes[:, 0] if n_treat == 1 else codes[:, 0] * k + codes[:, 1]
        cells = s.cells
        if len(set(cell)) < cells or not est.covers(cell, folds):
            raise Skip("a fold misses a level")
    Y = est.arr(val, c.outcome)
    target = None
    ask = {}
    if s.proba:
        classes = sorted(set(c.data[c.outcome[0]]))
        if rng.random() < .6:
            target = classes[int(rng.integers(len(classes)))]
            ask["target_outcome"] = target
        else:
            target = classes[-1]
        Yv = (Y[:, 0] == target).astype(float).reshape(-1, 1)
        val_fit = val.copy()
        val_fit[c.outcome[0]] = Yv[:, 0]
    else:
        Yv, val_fit = Y.astype(float), val
    xm = est.classifier(rng) if discrete else est.regressor(rng, multi=n_treat > 1)
    ym = est.regressor(rng, multi=Yv.shape[1] > 1)
    ct = [PolynomialFeatures(2, include_bias=False), StandardScaler()][int(rng.integers(2))] if rng.random() < .25 else None
    at = StandardScaler() if c.adjustment and rng.random() < .25 else None
    if ct is not None or at is not None:
        xm, ym = (LogisticRegression() if discrete else est.smooth(rng)), est.smooth(rng)
    kw = {}
    if discrete:
        kw["is_discrete_treatment"] = True
    if folds > 1 or rng.random() < .5:
        kw["cf_fold"] = folds
    if ct is not None:
        kw["covariate_transformer"] = clone(ct)
    if at is not None:
        kw["adjustment_transformer"] = clone(at)
    W, V = est.arr(val, c.adjustment).astype(float), est.arr(val, c.covariate).astype(float)
    W = clone(at).fit_transform(W) if at is not None else W
    V = clone(ct).fit_transform(V) if ct is not None else V
    X = np.concatenate([W, V], axis=1)
    if not est.distinct(X):
        raise Skip("duplicate rows")
    xg, yg = est.Logged(xm, "x"), est.Logged(ym, "y")
    r = RLoss(x_model=xg, y_model=yg, **kw)
    roles = dict(covariate=est.maybe_str(rng, c.covariate))
    if c.adjustment:
        roles["adjustment"] = est.maybe_str(rng, c.adjustment)
    out, tr = est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment)
    if rng.random() < .3:
        # an earlier fit on other rows leaves nothing behind
        other = val_fit.iloc[rng.integers(0, len(val_fit), len(val_fit))].copy()
        try:
            r.fit(other, out, tr, **roles)
            rec.event("refits")
        except ValueError:
            r = RLoss(x_model=xg, y_model=yg, **kw)
    before = est.snap(val_fit)
    est.LOG.clear()
    r.fit(val_fit, out, tr, **roles)
    log = list(est.LOG)
    if discrete and s.how == "pair":
        t, ctl = pair
        lab = lambda g: est.label_form(rng, s.lab(g))
        ask.update(treat=lab(t), control=lab(ctl))
    # ---- reference ----
    xf = est.folds_of(rec, log, "x", X, folds, "x_model")
    yf = est.folds_of(rec, log, "y", X, folds, "y_model")
    T = onehot(cell, cells) if discrete else est.arr(val, c.treatment).astype(float)
    xh, _ = oof(xm, X, cell.astype(float) if discrete else (T[:, 0] if n_treat == 1 else T), xf, discrete)
    yh, _ = oof(ym, X, Yv[:, 0] if Yv.shape[1] == 1 else Yv, yf, False)
    R, yr = T - xh.reshape(T.shape), Yv - yh.reshape(Yv.shape)
    if discrete and s.how != "table":
        cols = [pair[0]]
    elif discrete:
        cols = [g for g in range(cells) if g != (pair[1] if kind == "CF" else 0)]
    else:
        cols = list(range(n_treat))
    ekw = {}
    if s.proba:
        ekw["target_outcome"] = target
    tau = s.ask(e, val_fit, pair=pair if discrete else None, **ekw)
    tau = np.asarray(tau, float).reshape(len(val), Yv.shape[1], -1)
    if not discrete and tau.shape[2] != len(cols):
        # the effect of all treatments moving together from the default control to the default treat
        raise Skip("joint effect of several continuous treatments")
    want = ((yr - np.einsum("njk,nk->nj", tau, R[:, cols])) ** 2).mean(0)
    info = dict(kind=kind, ask={q: str(v) for q, v in ask.items()}, pair=str(pair), levels=s.levels, folds=folds, x_model=str(xm), y_model=str(ym), transformers=[str(at), str(ct)], proba=s.proba,
                roles=[c.adjustment, c.covariate, c.treatment, c.outcome])
    probe = s.rows(rng)
    was = s.ask(e, probe, pair=pair if discrete else None, **ekw)
    try:
        got = r.score(e, **ask)
    except Exception as ex:
        ex.add_note(str(info))
        raise
    rec.event("scored")
    rec.event("discrete" if discrete else "continuous")
    rec.event("cross_fitted", int(folds > 1))
    rec.event("table_effects", int(s.how == "table" and discrete))
    rec.event("two_treatments", int(n_treat == 2))
    rec.event("two_outcomes", int(s.n_out == 2))
    rec.event("class_outcome", int(s.proba))
    rec.seen("rloss", kind, n_treat, s.n_out, k, folds, str(xm), str(ym), str(ct), str(ask), c.n)
    rec.sample(**info)
    rec.close(np.ravel(got), want, "rloss", "residual loss of an estimator", rtol=1e-5, atol=1e-8, **info)
    rec.close(np.ravel(r.score(e, **ask)), want, "rloss_repeated", "residual loss of the same estimator again", rtol=1e-5, atol=1e-8, **info)
    rec.event("repeated")
    rec.ok(est.snap(val_fit) == before, "data_changed", "scoring changed the caller's frame")
    rec.ok(np.array_equal(s.ask(e, probe, pair=pair if discrete else None, **ekw), was, equal_nan=True), "estimator_changed", "an estimator estimates other effects after it was scored", **info)
    rec.ok(not s.touched(), "model_touched", "scoring fitted a model of the caller's", models=s.touched())
    rec.ok(not hasattr(xg, "base_") and not hasattr(yg, "base_"), "nuisance_touched", "the nuisance models given to the loss were fitted in place")
    # another estimator in between
    z = Named(lambda data=None: np.zeros((len(val), Yv.shape[1], len(cols))))
    if discrete and len(cols) == cells - 1 and cols[0] != 0 or not discrete:
        rec.close(np.ravel(r.score(z)), (yr ** 2).mean(0), "rloss_zero", "residual loss of an estimator of no effect", rtol=1e-5, atol=1e-8, **info)
        rec.close(np.ravel(r.score(e, **ask)), want, "rloss_repeated", "residual loss after another estimator was scored", rtol=1e-5, atol=1e-8, **info)


# ---------------------------------------------------------------- preference for the truth

def case_prefer(rec, rng, tier):
    from ylearn.estimator_model import RLoss
    n = 2500
    discrete = bool(rng.random() < .7)
    k = int(rng.integers(2, 4)) if discrete else 0
    nv, nw = int(rng.integers(1, 3)), int(rng.integers(0, 2))
    F = rng.normal(size=(n, nv + nw))
    names = list(rng.permutation(["u", "v", "age", "b c"]))[: nv + nw]
    cov, adj = names[:nv], names[nv:]
    levels = sorted((est.LABELS[int(rng.integers(len(est.LABELS)))])(k)) if discrete else None
    m = (k - 1) if discrete else 1
    A, B = rng.normal(size=m) * 1.5, rng.normal(size=m)
    tau = np.column_stack([A[j] + B[j] * F[:, 0] for j in range(m)])
    base = np.sin(F @ rng.normal(size=nv + nw)) + F @ rng.normal(size=nv + nw)
    if discrete:
        p = np.ones(k) / k if rng.random() < .5 else rng.dirichlet(np.ones(k) * 20)
        t = rng.choice(k, n, p=p)
        y = base + np.where(t > 0, tau[np.arange(n), np.maximum(t - 1, 0)], 0)
    else:
        t = rng.normal(size=n)
        y = base + tau[:, 0] * t
    y = y + rng.normal(size=n) * .5
    d = {"y": y, "x": np.array(levels, dtype=object if discrete and isinstance(levels[0], str) else None)[t] if discrete else t}
    d.update({q: F[:, i] for i, q in enumerate(names)})
    data = pd.DataFrame(d, index=est.index_of(rng, n))
    data = data[[data.columns[i] for i in rng.permutation(data.shape[1])]]
    r = RLoss(x_model=LogisticRegression() if discrete else LinearRegression(), y_model=LinearRegression(), is_discrete_treatment=discrete, cf_fold=int(rng.choice([1, 2, 3])))
    r.fit(data, "y", "x", covariate=cov, **({"adjustment": adj} if adj else {}))

    def score(effect):
        return float(np.ravel(r.score(Named(lambda data=None: effect.reshape(n, 1, m))))[0])
    truth = score(tau)
    shift = rng.normal(size=m)
    shift *= 1 / np.linalg.norm(shift)
    wrong = {"far": tau + 2 * shift, "farther": tau + 5 * shift, "other side": tau - 2 * shift, "noise": tau + rng.normal(size=tau.shape) * 1.5}
    if np.abs(tau).mean() > 1:
        wrong["sign"] = -tau
        wrong["twice"] = 2.5 * tau
    if np.abs(B[0]) > .8:
        wrong["slope"] = tau - np.column_stack([2 * B[j] * F[:, 0] for j in range(m)])
    if m == 2 and np.abs(tau[:, 0] - tau[:, 1]).mean() > 1.2:
        wrong["levels exchanged"] = tau[:, ::-1].copy()
    info = dict(discrete=discrete, levels=levels, n=n, truth=truth)
    for name, f in wrong.items():
        v = score(f)
        rec.event("preferred")
        rec.ok(v > truth, "preference", f"effects which are wrong ({name}) score better than the true effects of a randomised experiment", score=v, **info)
    rec.ok(score(wrong["farther"]) > score(wrong["far"]), "preference", "effects farther from the truth score better", **info)
    rec.seen("prefer", discrete, k, nv, nw, str(levels))


# ---------------------------------------------------------------- propensity

def case_propensity(rec, rng, tier):
    from ylearn.estimator_model.propensity_score import PropensityScore
    c = est.make(rng, nw=int(rng.integers(1, 4)), nv=0, min_cell=6, labels=est.LABELS[int(rng.choice([0, 1, 2, 3, 4, 5, 7]))])
    given = [None, "LogisticR", LogisticRegression(C=.3), KNeighborsClassifier(7), DecisionTreeClassifier(max_depth=3, random_state=0)][int(rng.integers(5))]
    ref = clone(given) if given is not None and not isinstance(given, str) else LogisticRegression()
    was = zoo.state(given) if hasattr(given, "get_params") else None
    ps = PropensityScore(given) if rng.random() < .7 or given is None else PropensityScore(ml_model=given)
    if given is None and rng.random() < .5:
        ps = PropensityScore()
    t, adj = c.treatment[0], c.adjustment
    if rng.random() < .3:
        other = c.data.iloc[rng.integers(0, c.n, c.n)]
        ps.fit(other, t, adj)
        rec.event("refits")
    before = est.snap(c.data)
    rows = est.test_rows(rng, c)
    if rng.random() < .4:
        style = 1
        pre = rows if rng.random() < .6 else None
        got = ps.fit_predict(c.data, t, adj, pre_data=pre) if pre is not None else ps.fit_predict(c.data, t, adj)
        ref.fit(c.data[adj], c.data[t])
        want = ref.predict((c.data if pre is None else pre)[adj])
        rec.ok(np.array_equal(got, want), "propensity_levels", "fit_predict gives other levels than the model fitted on the training rows", model=str(ref))
    else:
        style = 0
        ps.fit(c.data, t, adj)
        ref.fit(c.data[adj], c.data[t])
    info = dict(model=str(given), levels=c.levels[0], rows=len(rows))
    p = ps.predict_proba(rows, adj)
    rec.event("propensity")
    rec.seen("propensity", str(given), str(c.levels), style, c.n, len(rows))
    rec.sample(**info)
    if rec.ok(np.shape(p) == (len(rows), c.k), "propensity_shape", f"shape {np.shape(p)} instead of {(len(rows), c.k)}", **info):
        rec.ok((p >= 0).all() and np.allclose(p.sum(1), 1), "propensity_sum", "probabilities are negative or do not sum to one", **info)
        rec.close(p, ref.predict_proba(rows[adj]), "propensity", "probabilities of the levels in their order", rtol=1e-9, **info)
        for j in range(c.k):
            rec.close(ps.predict_proba(rows, adj, target=j), p[:, j], "propensity_target", "probabilities of one level", rtol=1e-12, **info)
    rec.ok(np.array_equal(ps.predict(rows, adj), ref.predict(rows[adj])), "propensity_levels", "levels predicted", **info)
    q = rng.permutation(len(rows))
    rec.close(ps.predict_proba(rows.iloc[q][list(reversed(rows.columns))], adj), p[q], "propensity_rows", "probabilities of rows in another order", rtol=1e-12, **info)
    rec.ok(est.snap(c.data) == before, "data_changed", "the caller's frame was changed")
    if was is not None:
        rec.ok(zoo.state(given) == was, "model_touched", "the given model was fitted in place", **info)


# ---------------------------------------------------------------- metrics

def auc_of(pos, score):
    """Share of pairs of one positive and one negative row in the right order."""
    a, b = score[pos], score[~pos]
    return ((a[:, None] > b[None]).sum() + .5 * (a[:, None] == b[None]).sum()) / (len(a) * len(b))


def by_class(y, p, g):
    tp, pp, pos = ((y == g) & (p == g)).sum(), (p == g).sum(), (y == g).sum()
    pr = tp / pp if pp else 0.
    re = tp / pos if pos else 0.
    return dict(precision=pr, recall=re, f1=2 * tp / (pp + pos) if pp + pos else 0.)


def case_metrics(rec, rng, tier):
    from ylearn.utils import calc_score
    from ylearn.utils import const
    task = str(rng.choice(["regression", "binary", "multiclass"]))
    n = int(rng.integers(20, 120))
    kw = {}
    proba = None
    if task == "regression":
        y = rng.normal(size=n) * 3 + 5
        p = y + rng.normal(size=n)
        if rng.random() < .4:
            y, p = np.abs(y), np.abs(p)
        ref = dict(mae=np.abs(y - p).mean(), mse=((y - p) ** 2).mean(), rmse=np.sqrt(((y - p) ** 2).mean()), r2=1 - ((y - p) ** 2).sum() / ((y - y.mean()) ** 2).sum(),
                   rootmeansquarederror=np.sqrt(((y - p) ** 2).mean()), root_mean_squared_error=np.sqrt(((y - p) ** 2).mean()))
        if (y >= 0).all() and (p >= 0).all():
            ref["msle"] = ((np.log1p(y) - np.log1p(p)) ** 2).mean()
        default = ["mae", "mse", "rmse"]
        labels = None
    else:
        k = 2 if task == "binary" else int(rng.integers(3, 5))
        labels = sorted(est.LABELS[int(rng.choice([0, 1, 2, 3, 5, 7]))](k))
        dt = object if isinstance(labels[0], str) else None
        code = rng.integers(0, k, n)
        code[:k] = np.arange(k)
        pc = np.where(rng.random(n) < .6, code, rng.integers(0, k, n))
        if rng.random() < .15:
            pc[:] = np.where(pc == 0, 1, pc)      # a class nobody predicts
        y, p = np.array(labels, dtype=dt)[code], np.array(labels, dtype=dt)[pc]
        proba = rng.dirichlet(np.ones(k) * 2, n) * .5 + .5 * onehot(pc, k) * .9 + .05 / k
        if rng.random() < .3:
            proba = np.round(proba, 1) + .02      # ties
        proba = proba / proba.sum(1, keepdims=True)
        ref = dict(accuracy=(code == pc).mean(), logloss=-np.log(proba[np.arange(n), code]).mean())
        ref["log_loss"] = ref["logloss"]
        if k == 2:
            pos = 1
            if rng.random() < .3:
                pos = int(rng.integers(2))
                kw["pos_label"] = labels[pos]
            ref.update(by_class(code, pc, pos))
            ref["auc"] = auc_of(code == 1, proba[:, 1])
        else:
            q = [by_class(code, pc, g) for g in range(k)]
            for m in ("precision", "recall", "f1"):
                ref[m] = np.mean([v[m] for v in q])
            pairs = []
            for a, b in itertools.combinations(range(k), 2):
                on = (code == a) | (code == b)
                pairs.append((auc_of(code[on] == a, proba[on, a]) + auc_of(code[on] == b, proba[on, b])) / 2)
            ref["auc"] = np.mean(pairs)
        default = ["accuracy", "precision", "recall", "f1"]
        if rng.random() < .5:
            kw["classes"] = list(labels)
        elif k > 2 and len(set(pc) | set(code)) < k:
            raise Skip
    spelled = rng.random() < .6
    if spelled:
        kw["task"] = dict(regression=const.TASK_REGRESSION, binary=const.TASK_BINARY, multiclass=const.TASK_MULTICLASS)[task]
    elif task != "regression" and not isinstance(labels[0], str) and len(labels) > 2:
        kw["task"] = const.TASK_MULTICLASS
    if task == "regression" and not spelled and len(set(y)) != n:
        raise Skip
    names = [m for m in ref if rng.random() < .7] or ["mae" if task == "regression" else "accuracy"]
    if rng.random() < .3:
        kw_metrics, names = {}, default
    else:
        names = [str(v) for v in rng.permutation(names)]
        kw_metrics = dict(metrics=[m.upper() if rng.random() < .2 else m for m in names])
        names = kw_metrics["metrics"]
    column = rng.random() < .3
    P = p.reshape(-1, 1) if column else p
    Q = proba
    binary_column = False
    if proba is not None and task == "binary" and rng.random() < .4 and "logloss" not in str(names).lower() and "log_loss" not in str(names).lower():
        Q = proba[:, [1]] if rng.random() < .5 else proba[:, 1]
        binary_column = True
    yt = pd.Series(y, index=est.index_of(rng, n)) if rng.random() < .5 else y
    snap = (copy.deepcopy(yt), P.copy(), None if Q is None else Q.copy())
    got = calc_score(yt, P, Q, **kw_metrics, **kw) if Q is not None else calc_score(yt, P, **kw_metrics, **kw)
    info = dict(task=task, n=n, labels=labels, options={a: str(v) for a, v in kw.items()}, asked=names, column=column, one_probability=binary_column)
    rec.ok(list(got) == list(names), "metric_names", f"metrics {list(got)} instead of {names}", **info)
    for m in names:
        rec.event("metric")
        rec.event("metric:" + m.lower().replace("_", ""))
        rec.seen("metric", task, m, str(labels), column, binary_column, str(kw))
        if m in got:
            rec.close(got[m], ref[m.lower()], "metric:" + m.lower(), f"{m} of a {task} task", rtol=1e-7, atol=1e-9, **info)
    if rng.random() < .2:
        def mine(a, b):
            return float(len(a))
        rec.ok(dict(calc_score(yt, P, Q, metrics=[mine], **kw) if Q is not None else calc_score(yt, P, metrics=[mine], **kw)) == {"mine": float(n)}, "metric_own", "a metric of the user's own is not what it returned")
    same = np.array_equal(np.asarray(yt), np.asarray(snap[0])) and np.array_equal(P, snap[1]) and (Q is None or np.array_equal(Q, snap[2]))
    rec.ok(same, "metric_caller", "the caller's arrays were changed")


# ---------------------------------------------------------------- importances

def decrease(tree):
    """Total decrease of the weighted criterion by each feature."""
    out = np.zeros(tree.n_features)
    w, i, l, r = tree.weighted_n_node_samples, tree.impurity, tree.children_left, tree.children_right
    for n in range(tree.node_count):
        if l[n] >= 0:
            out[tree.feature[n]] += (w[n] * i[n] - w[l[n]] * i[l[n]] - w[r[n]] * i[r[n]]) / w[0]
    return out


def improvement(tree):
    out = np.zeros(tree.n_features)
    for n in range(tree.node_count):
        if tree.children_left[n] >= 0:
            out[tree.feature[n]] += tree.impurity[tree.children_left[n]] + tree.impurity[tree.children_right[n]]
    return out


def share(v):
    return v / v.sum() if v.sum() > 0 else v


def case_importance(rec, rng, tier):
    kind = str(rng.choice(["CT", "CTF", "GRF", "CF", "CFc", "policy"]))
    if kind == "policy":
        from ylearn.policy.policy_model import PolicyTree
        n, nv, k = int(rng.integers(60, 150)), int(rng.integers(1, 5)), int(rng.integers(2, 4))
        V = rng.normal(size=(n, nv))
        eff = np.column_stack([V[:, int(rng.integers(nv))] * rng.normal() + rng.normal() * .3 + rng.normal(size=n) * .3 for _ in range(k)])
        cols = [f"v{j}" for j in range(nv)]
        m = PolicyTree(max_depth=int(rng.integers(1, 4)), min_samples_leaf=int(rng.integers(2, 10)), random_state=0)
        m.fit(pd.DataFrame(V, columns=cols), cols, effect_array=eff)
        trees, how, got = [m.tree_], decrease, m.feature_importance
        info = dict(kind=kind, n=n)
    else:
        s = zoo.Subject(rng, kind, n_treat=1)
        e = s.fit(pair=s.cell_pairs(rng)[0] if not s.continuous else None)
        info = dict(kind=kind, n=s.c.n, estimator=str(s.new())[:200])
        if kind == "CT":
            trees, how, got = [e.tree_], decrease, e.feature_importance
        elif kind == "CTF":
            trees, how, got = [q.tree_ for q in e.estimators_], decrease, e.feature_importance
        else:
            f = e if kind == "GRF" else e.yx_model
            trees, how, got = [q.tree_ for q in f.estimators_], improvement, e.feature_importance
            for q in f.estimators_:
                rec.close(q.feature_importances_, share(improvement(q.tree_)), "importance_tree", "importances of one tree of a forest", rtol=1e-9, atol=1e-12, **info)
    if how is decrease and any(t.node_count > 1 and np.abs(how(t)).sum() < 1e-9 * np.abs(t.impurity).max() for t in trees):
        rec.event("no_gain")
        return    # splits which gain nothing: the shares in a rounding error
    each = [share(how(t)) for t in trees if t.node_count > 1]
    want = share(np.mean(each, axis=0)) if each else np.zeros(trees[0].n_features)
    rec.event("importance")
    rec.event("split_nodes", sum(int((t.children_left >= 0).sum()) for t in trees))
    rec.seen("importance", kind, [t.node_count for t in trees], info["n"])
    got = np.asarray(got, float)
    rec.close(got, want, "importance", "importances of the features", rtol=1e-9, atol=1e-12, **info)
    used = np.zeros(trees[0].n_features, dtype=bool)
    for t in trees:
        used[t.feature[t.children_left >= 0]] = True
    rec.ok((got[~used] == 0).all(), "importance_unused", "a feature no split uses has importance", got=got.tolist(), **info)
    rec.ok((got >= -1e-9).all(), "importance_negative", "an importance is negative", got=got.tolist(), **info)
    rec.ok(abs(got.sum() - (1 if each else 0)) < 1e-9, "importance_sum", "importances do not sum to one", got=got.tolist(), **info)


GROUPS = [
    Group("rloss", case_rloss, quick=640, thorough=12000, timeout=120),
    Group("prefer", case_prefer, quick=40, thorough=800, timeout=120),
    Group("propensity", case_propensity, quick=250, thorough=5000, timeout=60),
    Group("metrics", case_metrics, quick=500, thorough=15000, timeout=60),
    Group("importance", case_importance, quick=250, thorough=4000, timeout=120),
]
