"""C06: the doubly robust estimator against the cross-fitted AIPW computation, with an out-of-fold event monitor."""
import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator, ClassifierMixin, clone
from sklearn.dummy import DummyRegressor
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge

from vm.core import Group, Skip
from vm import est

PROPERTY = "C06"
RULE = ("one evaluation = one effect array compared element by element with the AIPW computation on the observed folds, one out-of-fold "
        "condition of the nuisance event log, or one truth test; distinct = distinct (levels, folds, roles, learners, size)")
REQUIRE = {"cross_fitted": 100, "fold_events": 1000, "no_covariate": 30, "two_treatments": 40, "two_outcomes": 40, "all_levels": 60,
           "second_estimate": 200, "outcome_model_wrong": 8, "propensity_wrong": 8}
EPS = 1e-5   # the library's guard against a zero propensity


def onehot(codes, k):
    return np.eye(k)[codes]


def case(rec, rng, tier):
    from ylearn.estimator_model.doubly_robust import DoublyRobust
    n_treat = 2 if rng.random() < .3 else 1
    n_out = 2 if rng.random() < .3 else 1
    folds = int(rng.choice([1, 1, 2, 3, 5, 10]))
    c = est.make(rng, n_treat=n_treat, n_out=n_out, n=int(rng.integers(60, 140)), min_cell=8, many=True)
    cells = c.k ** n_treat
    cell = c.codes[:, 0] if n_treat == 1 else c.codes[:, 0] * c.k + c.codes[:, 1]
    if not est.covers(cell, folds):
        raise Skip("a training fold misses a level")
    xm, ym, fm = est.classifier(rng), est.regressor(rng, multi=n_out > 1, collinear=True), est.smooth(rng)
    X = est.wv(c, c.data)
    if not est.distinct(X):
        raise Skip("duplicate rows")
    Y = est.arr(c.data, c.outcome).astype(float)
    kw = dict(cf_fold=folds) if folds > 1 or rng.random() < .5 else {}
    if rng.random() < .25:
        kw["categories"] = [list(l) for l in c.levels]
    sticky = bool(rng.random() < .3)
    rec.event("warm_start", int(sticky and folds > 1))
    e = DoublyRobust(x_model=est.Logged(xm, "x", sticky=sticky), y_model=est.Logged(ym, "y", X.shape[1], sticky=sticky), yx_model=fm, **kw)
    combos = [(i,) for i in range(c.k)] if n_treat == 1 else [(i, j) for i in range(c.k) for j in range(c.k)]
    lab = lambda g: [c.levels[j][combos[g][j]] for j in range(n_treat)]
    fit = {}
    if c.adjustment:
        fit["adjustment"] = est.maybe_str(rng, c.adjustment)
    if c.covariate:
        fit["covariate"] = est.maybe_str(rng, c.covariate)
    t0, c0 = 1, 0
    if rng.random() < .6:
        t0, c0 = [int(q) for q in rng.permutation(cells)[:2]]
        fit.update(treat=est.label_form(rng, lab(t0)), control=est.label_form(rng, lab(c0)))
    before = est.snap(c.data)
    est.LOG.clear()
    e.fit(c.data, est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment), **fit)
    log = list(est.LOG)
    rec.ok(est.snap(c.data) == before, "data_changed", "fit changed the caller's frame")
    xf = est.folds_of(rec, log, "x", X, folds, "x_model")
    yf = est.folds_of(rec, log, "y", X, folds, "y_model")
    p = np.full((c.n, cells), np.nan)
    for tr, te in xf:
        p[te] = clone(xm).fit(X[tr], cell[tr].astype(float)).predict_proba(X[te])
    yh = np.full((c.n, n_out, cells), np.nan)
    T = onehot(cell, cells)
    sq = lambda a: a[:, 0] if a.shape[1] == 1 else a
    for tr, te in yf:
        m = clone(ym).fit(np.concatenate([X, T], axis=1)[tr], sq(Y)[tr])
        for g in range(cells):
            yh[te, :, g] = m.predict(np.concatenate([X[te], onehot(np.full(len(te), g), cells)], axis=1)).reshape(len(te), -1)
    psi = yh + (Y[:, :, None] - yh) * (cell[:, None] == np.arange(cells))[:, None, :] / (p[:, None, :] + EPS)
    psi = psi - psi[:, :, [c0]]
    info = dict(levels=c.levels, folds=folds, roles=[c.adjustment, c.covariate, c.treatment, c.outcome], models=[str(xm), str(ym), str(fm)],
                fit={k: str(v) for k, v in fit.items()})
    rec.event("cross_fitted", int(folds > 1))
    rec.event("no_covariate", int(not c.covariate))
    rec.event("two_treatments", int(n_treat == 2))
    rec.event("two_outcomes", int(n_out == 2))
    rec.seen(folds, n_treat, n_out, str(xm), str(ym), str(fm), c.n, str(c.levels), t0, c0)
    rec.sample(**info)
    if c.covariate:
        V = est.arr(c.data, c.covariate).astype(float)
        final = [clone(fm).fit(V, sq(psi[:, :, g])) for g in range(cells)]

    def table(data):
        if not c.covariate:
            # nothing distinguishes new rows: all have the average effect
            return psi if data is c.data else np.repeat(psi.mean(axis=0, keepdims=True), len(data), axis=0)
        v = est.arr(data, c.covariate).astype(float)
        return np.stack([m.predict(v).reshape(len(v), -1) for m in final], axis=2)

    tol = dict(rtol=1e-6, atol=1e-7)
    for call in range(4):
        data = None if rng.random() < .3 else est.test_rows(rng, c)
        want = table(c.data if data is None else data)
        kws = {}
        if rng.random() < .25:
            kws["all_tr_effects"] = True
            rec.event("all_levels")
        else:
            t = t0
            if rng.random() < .6:
                t = int(rng.integers(cells))
                kws["treat"] = est.label_form(rng, lab(t))
            want = want[:, :, t]
        q = [None, None, "ATE", "CATE"][int(rng.integers(4 if c.covariate else 3))]
        if q:
            want = want.mean(axis=0)
        rec.event("second_estimate", int(call > 0))
        got = e.estimate(data=data, quantity=q, **kws)
        rec.close(got, want, "estimate", "effects differ from AIPW", call=call, quantity=q, asked={k: str(v) for k, v in kws.items()}, **tol, **info)
    data = None if rng.random() < .5 else est.test_rows(rng, c)
    want = table(c.data if data is None else data)[:, :, [t0]]
    z = np.zeros_like(want)
    rec.close(e.effect_nji(data), np.concatenate([z, want] if t0 > c0 else [want, z], axis=2), "effect_nji", "the two-level table differs from AIPW", **tol, **info)


class TrueProp(BaseEstimator, ClassifierMixin):
    def __init__(self, w=None, wrong=False):
        self.w, self.wrong = w, wrong

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        return self

    def predict_proba(self, X):
        s = 1 / (1 + np.exp(-X[:, 0] * self.w))
        s = np.full(len(X), .5) if self.wrong else s
        return np.column_stack([1 - s, s])


def truth(rec, rng, tier):
    """Double robustness: one nuisance is wrong, the average effect stays right (n = 6000, confounding bias > 1)."""
    from ylearn.estimator_model.doubly_robust import DoublyRobust
    n = 6000
    w = float(rng.choice([-1, 1]) * rng.uniform(.8, 1.4))
    x = rng.normal(size=n)
    v = rng.normal(size=n)
    t = (rng.random(n) < 1 / (1 + np.exp(-x * w))).astype(int)
    a = float(rng.normal() * 2)
    b = float(rng.choice([-1, 1]) * rng.uniform(2, 3))
    y = a * t + b * x + .5 * v + rng.normal(size=n) * .5
    wrong = "propensity" if rng.random() < .5 else "outcome"
    df = pd.DataFrame(dict(x=x, v=v, t=t, y=y))
    ymod = Ridge(alpha=1e-3) if wrong == "propensity" else DummyRegressor(strategy="constant", constant=float(rng.normal()))
    e = DoublyRobust(x_model=TrueProp(w, wrong == "propensity"), y_model=ymod, yx_model=LinearRegression(), cf_fold=int(rng.choice([1, 3])))
    e.fit(df, "y", "t", adjustment="x", covariate="v")
    got = float(np.ravel(e.estimate(quantity="ATE"))[0])
    rec.event("propensity_wrong" if wrong == "propensity" else "outcome_model_wrong")
    rec.seen("truth", wrong, round(a, 3))
    naive = y[t == 1].mean() - y[t == 0].mean()
    rec.sample(wrong=wrong, true=a, got=got, naive=naive)
    rec.ok(abs(got - a) < .45, f"truth:{wrong}", f"average effect {got:.3f} instead of {a:.3f} with a wrong {wrong} model (naive {naive:.3f})")


GROUPS = [Group("case", case, 700, 8000), Group("truth", truth, 48, 300)]
