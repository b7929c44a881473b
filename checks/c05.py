"""C05: double machine learning against cross-fitted residual-on-residual regression, with an out-of-fold event monitor."""
import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.linear_model import Lasso, LinearRegression, LogisticRegression, Ridge
from sklearn.preprocessing import PolynomialFeatures, StandardScaler

from vm.core import Group, Skip
from vm import est

PROPERTY = "C05"
RULE = ("one evaluation = one effect array compared element by element with the residual regression recomputed on the observed folds, "
        "or one out-of-fold condition of the nuisance event log; distinct = distinct (treatment kind, folds, roles, learners, transformers, size)")
REQUIRE = {"discrete": 60, "continuous": 60, "cross_fitted": 100, "fold_events": 800, "proba": 20, "transformer": 60, "no_covariate": 20,
           "two_treatments": 30, "second_estimate": 200, "per_row_levels": 20, "fwl": 20, "truth": 10}


def onehot(codes, k):
    return np.eye(k)[codes]


def transformer(rng):
    return [PolynomialFeatures(2, include_bias=False), StandardScaler(), PolynomialFeatures(2, interaction_only=True, include_bias=False)][int(rng.integers(3))]


def design(a, v):
    v = np.column_stack([np.ones(len(a)), v]) if v is not None else np.ones((len(a), 1))
    return np.einsum("ni,nk->nik", a, v).reshape(len(a), -1)


def oof(model, X, target, folds, proba):
    out = None
    for tr, te in folds:
        m = clone(model).fit(X[tr], target[tr])
        p = m.predict_proba(X[te]) if proba else m.predict(X[te])
        out = np.full((len(X),) + p.shape[1:], np.nan) if out is None else out
        out[te] = p
    return out, m


def case(rec, rng, tier):
    from ylearn.estimator_model.double_ml import DoubleML
    discrete = bool(rng.random() < .55)
    n_treat = 2 if rng.random() < .3 else 1
    folds = int(rng.choice([1, 1, 2, 3, 5, 10]))
    proba = bool(rng.random() < .2)
    n_out = 2 if not proba and rng.random() < .3 else 1
    c = est.make(rng, n_treat=n_treat, n_out=n_out, n=int(rng.integers(60, 130)), min_cell=8, many=True, outcome="class" if proba else "cont",
                 y_classes=int(rng.integers(2, 4)))
    cells = c.k ** n_treat
    cell = c.codes[:, 0] if n_treat == 1 else c.codes[:, 0] * c.k + c.codes[:, 1]
    if not discrete:
        for j, q in enumerate(c.treatment):
            c.data[q] = c.codes[:, j] + rng.normal(size=c.n)
    Y = est.arr(c.data, c.outcome)
    if (discrete and not est.covers(cell, folds)) or (proba and not est.covers(Y[:, 0], folds)):
        raise Skip("a training fold misses a class")
    xm = est.classifier(rng) if discrete else est.regressor(rng, multi=n_treat > 1)
    ym = est.classifier(rng) if proba else est.regressor(rng, multi=n_out > 1)
    at = transformer(rng) if c.adjustment and rng.random() < .3 else None
    ct = transformer(rng) if c.covariate and rng.random() < .35 else None
    if at is not None or ct is not None:
        xm = LogisticRegression() if discrete else est.smooth(rng)
        ym = LogisticRegression() if proba else est.smooth(rng)
    yx = [None, LinearRegression(fit_intercept=False), Ridge(alpha=1.0), Lasso(alpha=.001)][int(rng.choice([0, 0, 0, 1, 2, 3]))]
    kw = {}
    if rng.random() < .7:
        kw["cf_fold"] = folds
    else:
        folds = 1
    if yx is not None:
        kw["yx_model"] = yx
    if at is not None:
        kw["adjustment_transformer"] = clone(at)
    if ct is not None:
        kw["covariate_transformer"] = clone(ct)
    if proba:
        kw.update(is_discrete_outcome=True, proba_output=True)
    if discrete:
        kw["is_discrete_treatment"] = True
        if rng.random() < .25:
            kw["categories"] = [list(l) for l in c.levels]
    W, V = (est.arr(c.data, q).astype(float) if q else None for q in (c.adjustment, c.covariate))
    Wt = clone(at).fit_transform(W) if at is not None else W
    Vt = (VT := clone(ct).fit(V)).transform(V) if ct is not None else V
    X = np.concatenate([q for q in (Wt, Vt) if q is not None], axis=1)
    if not est.distinct(X):
        raise Skip("duplicate rows")
    before = est.snap(c.data)
    sticky = bool(rng.random() < .3)
    rec.event("warm_start", int(sticky and folds > 1))
    e = DoubleML(x_model=est.Logged(xm, "x", sticky=sticky), y_model=est.Logged(ym, "y", sticky=sticky), **kw)
    fit = {}
    if c.adjustment:
        fit["adjustment"] = est.maybe_str(rng, c.adjustment)
    if c.covariate:
        fit["covariate"] = est.maybe_str(rng, c.covariate)
    combos = [(i,) for i in range(c.k)] if n_treat == 1 else [(i, j) for i in range(c.k) for j in range(c.k)]
    lab = lambda g: [c.levels[j][combos[g][j]] for j in range(n_treat)]
    base_t, base_c = 1, 0
    if discrete and rng.random() < .3:
        base_t, base_c = [int(q) for q in rng.permutation(cells)[:2]]
        fit.update(treat=est.label_form(rng, lab(base_t)), control=est.label_form(rng, lab(base_c)))
    est.LOG.clear()
    e.fit(c.data, est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment), **fit)
    log = list(est.LOG)
    rec.ok(est.snap(c.data) == before, "data_changed", "fit changed the caller's frame")
    xf = est.folds_of(rec, log, "x", X, folds, "x_model")
    yf = est.folds_of(rec, log, "y", X, folds, "y_model")
    T = onehot(cell, cells) if discrete else est.arr(c.data, c.treatment).astype(float)
    t_target = cell.astype(float) if discrete else (T[:, 0] if n_treat == 1 else T)
    y_target = Y[:, 0] if n_out == 1 else Y
    xh, _ = oof(xm, X, t_target, xf, discrete)
    yh, ymod = oof(ym, X, y_target, yf, proba)
    xh = xh.reshape(T.shape)
    if proba:
        classes = list(ymod.classes_)
        yr = (Y == np.array(classes)).astype(float) - yh
    else:
        classes = None
        yr = Y.astype(float) - yh.reshape(Y.shape)
    R = T - xh
    D = design(R[:, 1:] if discrete else R, Vt)   # residuals of all levels sum to zero: the first level is the baseline
    sv = np.linalg.svd(D, compute_uv=False)
    if (yx is None or isinstance(yx, LinearRegression)) and sv[-1] < 1e-7 * sv[0]:
        raise Skip("collinear design")
    final = clone(yx) if yx is not None else LinearRegression()
    final.fit(D, yr)
    d = T.shape[1]
    coef = np.asarray(final.coef_).reshape(yr.shape[1], R.shape[1] - discrete, -1)
    if discrete:
        coef = np.concatenate([np.zeros_like(coef[:, :1]), coef], axis=1)

    def slopes(data):
        if c.covariate:
            v = est.arr(data, c.covariate).astype(float)
            v = VT.transform(v) if ct is not None else v
            v = np.column_stack([np.ones(len(v)), v])
        else:
            v = np.ones((len(data), 1))
        return np.einsum("jik,nk->nji", coef, v)

    tag = f"{'discrete' if discrete else 'continuous'}:{'proba' if proba else 'value'}"
    info = dict(discrete=discrete, folds=folds, levels=c.levels if discrete else None, roles=[c.adjustment, c.covariate, c.treatment, c.outcome],
                x_model=str(xm), y_model=str(ym), yx=str(yx), transformers=[str(at), str(ct)], fit={k: str(v) for k, v in fit.items()})
    rec.event("discrete" if discrete else "continuous")
    rec.event("cross_fitted", int(folds > 1))
    rec.event("proba", int(proba))
    rec.event("transformer", int(at is not None) + int(ct is not None))
    rec.event("no_covariate", int(not c.covariate))
    rec.event("two_treatments", int(n_treat == 2))
    rec.seen(discrete, folds, proba, n_treat, n_out, str(xm), str(ym), str(yx), str(at), str(ct), c.n, str(c.levels))
    rec.sample(**info)
    tol = dict(rtol=1e-5, atol=1e-7)
    for call in range(4):
        data = None if rng.random() < .3 else est.test_rows(rng, c)
        src = c.data if data is None else data
        F = slopes(src)
        kws = {}
        if discrete:
            style = int(rng.integers(4))
            t, k = base_t, base_c
            if style >= 2:
                t = int(rng.integers(cells))
                kws["treat"] = est.label_form(rng, lab(t))
            if style in (1, 2):
                k = int(rng.integers(cells))
                kws["control"] = est.label_form(rng, lab(k))
            want = F[:, :, t] - F[:, :, k]
        else:
            forms = []
            some = lambda size: rng.normal(size=size) * (rng.random(size) < (.5 if rng.random() < .4 else 1))   # exact zeros too
            for nm, dflt in (("treat", 1.), ("control", 0.)):
                f = int(rng.integers(5))
                n = len(src)
                if f == 0:
                    val, arr = None, np.full((1, d), dflt)
                elif f == 1:
                    val = float(np.round(rng.normal() * 3, 3))
                    arr = np.full((1, d), val)
                elif f == 2:
                    val = some(d)
                    arr = val.reshape(1, d)
                elif f == 3:
                    arr = some((n, d))
                    val = arr if d > 1 or rng.random() < .5 else arr[:, 0]
                    rec.event("per_row_levels")
                else:
                    arr = some((n, d))
                    val = pd.Series(arr[:, 0], index=src.index) if d == 1 else arr
                    rec.event("per_row_levels")
                forms.append(arr)
                if val is not None:
                    kws[nm] = val
            want = F * (forms[0] - forms[1])[:, None, :]
        if proba and rng.random() < .6:
            target = c.y_labels[int(rng.integers(len(c.y_labels)))]
            kws["target_outcome"] = target
            want = want[:, [classes.index(target)]]
        q = [None, None, "ATE", "CATE"][int(rng.integers(4 if c.covariate else 3))]
        if call:
            rec.event("second_estimate")
        snap = None if data is None else est.snap(data)
        got = e.estimate(data=data, quantity=q, **kws)
        if q:
            want = want.mean(axis=0)
        rec.close(got, want, f"{tag}:estimate", "effects differ from residual regression", quantity=q, call=call,
                  asked={k: str(v)[:80] for k, v in kws.items()}, **tol, **info)
        if data is not None:
            rec.ok(est.snap(data) == snap, "data_changed", "estimate changed the caller's frame")
    data = None if rng.random() < .5 else est.test_rows(rng, c)
    F = slopes(c.data if data is None else data)
    if discrete:
        k = int(rng.integers(cells)) if rng.random() < .5 else None
        got = e.effect_nji(data) if k is None else e.effect_nji(data, control=est.label_form(rng, lab(k)))
        F = F - F[:, :, [base_c if k is None else k]]
    else:
        got = e.effect_nji(data)
    rec.close(got, F, f"{tag}:effect_nji", "the table of effects differs from residual regression", **tol, **info)


def fwl(rec, rng, tier):
    """Linear nuisances, no covariates, no cross-fitting: partial least squares coefficient."""
    from ylearn.estimator_model.double_ml import DoubleML
    n, p, d = int(rng.integers(30, 200)), int(rng.integers(1, 5)), int(rng.integers(1, 3))
    W = rng.normal(size=(n, p)) * 10 ** rng.uniform(-2, 2, p) + rng.normal(size=p) * 5
    T = W / W.std(0) @ rng.normal(size=(p, d)) + rng.normal(size=(n, d)) * 10 ** rng.uniform(-1, 1)
    y = T @ rng.normal(size=d) + W / W.std(0) @ rng.normal(size=p) * 3 + rng.normal(size=n) + 100 * rng.normal()
    cols = [f"w{i}" for i in range(p)]
    df = pd.DataFrame(W, columns=cols)
    tn = [f"t{i}" for i in range(d)]
    for i in range(d):
        df[tn[i]] = T[:, i]
    df["y"] = y
    e = DoubleML(x_model=LinearRegression(), y_model=LinearRegression()).fit(df, "y", tn if d > 1 else tn[0], adjustment=cols)
    A = np.column_stack([T, W, np.ones(n)])
    A0 = A - np.concatenate([A[:, :-1].mean(0), [0]])
    b = np.linalg.lstsq(A0 / np.abs(A0).max(0), y, rcond=None)[0] / np.abs(A0).max(0)
    rec.event("fwl")
    rec.seen("fwl", n, p, d)
    rec.close(e.estimate(quantity="ATE"), b[:d], "fwl", "not the partial least squares coefficient", rtol=1e-4)


def truth(rec, rng, tier):
    """A confounded partially linear model with known effect, n = 4000."""
    from ylearn.estimator_model.double_ml import DoubleML
    n = 4000
    V, W = rng.normal(size=(n, 1)), rng.normal(size=(n, 2))
    a, b = rng.normal(size=2) * 2
    folds = int(rng.choice([1, 2, 4]))
    base = W @ rng.normal(size=2) + V[:, 0] * rng.normal()
    df = pd.DataFrame(dict(v=V[:, 0], w0=W[:, 0], w1=W[:, 1]))
    df["t"] = base + rng.normal(size=n)
    df["y"] = (a + b * df.v) * df.t + 3 * base + rng.normal(size=n)
    # E[y | v, w] is quadratic in (v, w): give the outcome model the right features
    from sklearn.pipeline import make_pipeline
    ym = make_pipeline(PolynomialFeatures(2), LinearRegression())
    e = DoubleML(x_model=LinearRegression(), y_model=ym, cf_fold=folds).fit(df, "y", "t", adjustment=["w0", "w1"], covariate="v")
    grid = pd.DataFrame(dict(v=np.linspace(-1.5, 1.5, 7)))
    got = np.asarray(e.estimate(grid)).ravel()
    err = np.abs(got - (a + b * grid.v.to_numpy())).max()
    rec.event("truth")
    rec.seen("truth", folds, round(a, 3))
    rec.ok(err < .25, "truth", f"effect off by {err:.3f} in a partially linear model", a=a, b=b, got=got)


GROUPS = [Group("case", case, 700, 8000), Group("fwl", fwl, 60, 600), Group("truth", truth, 24, 200)]
