"""C08: bounds on effects against their closed formulas, against populations with known potential outcomes, and against each other."""
import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

from vm.core import Group, Skip
from vm import est

PROPERTY = "C08"
RULE = ("one evaluation = one pair of bounds compared with its formula, one ordering/nesting condition, or one containment of the known effect; "
        "distinct = distinct (levels, roles, learners, assumption, compared levels, size)")
REQUIRE = {"formula": 300, "no_covariate": 30, "discrete_covariate": 30, "two_treatments": 30, "given_prob": 20, "new_rows": 80, "given_range": 80,
           "contained": 200, "refit": 15, "unobserved_level": 5, "three_levels": 60, "two_outcomes": 20}
ASSUMP = [None, "no-assump", "non-negative", "non-positive", "optimal"]


def pairs(res, assump):
    """The result as a list of (lower, upper)."""
    return [(np.asarray(a, float), np.asarray(b, float)) for a, b in (res if assump == "optimal" else [res])]


def formula(assump, pt, p0, yt, y0, lo, up):
    if assump == "optimal":
        other = (1 - pt - p0) * (up - lo)
        return [(p0 * (lo - y0) - other, pt * (yt - lo) + other),
                (pt * (yt - y0) + p0 * (lo - y0) - other, pt * (yt - lo) + p0 * (yt - y0) + other)]
    low = pt * yt + (1 - pt) * lo - (1 - p0) * up - p0 * y0
    upp = pt * yt + (1 - pt) * up - (1 - p0) * lo - p0 * y0
    return [(low * 0 if assump == "non-negative" else low, upp * 0 if assump == "non-positive" else upp)]


def case(rec, rng, tier):
    from ylearn.estimator_model.approximation_bound import ApproxBound
    n_treat = 2 if rng.random() < .25 else 1
    n_out = 2 if rng.random() < .2 else 1
    nv = int(rng.integers(0, 3))
    c = est.make(rng, n_treat=n_treat, n_out=n_out, nw=0, nv=max(nv, 1), many=True)
    if nv == 0:
        c.covariate = None
    disc = nv > 0 and rng.random() < .35
    if disc:
        for q in c.covariate:
            codes = rng.integers(0, 3, c.n)
            lab = est.LABELS[int(rng.integers(len(est.LABELS)))](3)
            c.data[q] = np.array([lab[a] for a in codes], dtype=object if isinstance(lab[0], str) else None)
    cells = c.k ** n_treat
    cell = c.codes[:, 0] if n_treat == 1 else c.codes[:, 0] * c.k + c.codes[:, 1]
    combos = [(i,) for i in range(c.k)] if n_treat == 1 else [(i, j) for i in range(c.k) for j in range(c.k)]
    ym = est.regressor(rng, multi=n_out > 1, collinear=True)
    xm = est.classifier(rng)
    kw = {}
    levels = [list(l) for l in c.levels]
    order = list(range(cells))
    if n_treat == 1 and rng.random() < .3:
        # given categories; sometimes with a level that never occurs
        if rng.random() < .5 and not isinstance(levels[0][0], str):
            levels[0] = [levels[0][0] - 1] + levels[0]
            combos = [(i,) for i in range(len(levels[0]))]
            cells = len(levels[0])
            cell = cell + 1
            rec.event("unobserved_level")
        kw["categories"] = [list(levels[0])]
    # how the library numbers the combinations does not matter for the effects unless the nuisance learners notice the order of columns or
    # classes; two treatments are enumerated with the first one varying slowest
    prob = None
    if rng.random() < .25:
        prob = rng.dirichlet(np.ones(cells))
        kw["x_prob"] = prob.copy()
        rec.event("given_prob")
    e = ApproxBound(y_model=clone(ym), **kw, **({} if prob is not None and rng.random() < .5 else dict(x_model=clone(xm))))
    if rng.random() < .3:
        # an earlier fit on other data must leave no trace
        c2 = est.make(rng, n_treat=n_treat, nw=0, nv=1, n=80)
        if prob is None and "categories" not in kw:
            if hasattr(e, "x_model") and e.x_model is not None:
                e.fit(c2.data, c2.outcome, c2.treatment, covariate=c2.covariate)
                rec.event("refit")
    V = None
    if nv:
        if disc:
            cats = [sorted(set(c.data[q].tolist())) for q in c.covariate]
            enc = lambda d: np.concatenate([np.array([[a == b for b in cats[i]] for a in d[q]], dtype=float).reshape(len(d), -1) for i, q in enumerate(c.covariate)], axis=1)
        else:
            enc = lambda d: est.arr(d, c.covariate).astype(float)
        V = enc(c.data)
    Y = est.arr(c.data, c.outcome).astype(float)
    fit = dict(covariate=est.maybe_str(rng, c.covariate)) if nv else {}
    if disc:
        fit["is_discrete_covariate"] = True
    before = est.snap(c.data)
    e.fit(c.data, est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment), **fit)
    rec.ok(est.snap(c.data) == before, "data_changed", "fit changed the caller's frame")
    # ---- reference ----
    T = np.eye(cells)[cell]
    cat = (lambda a, v: a) if V is None else (lambda a, v: np.concatenate([a, v], axis=1))
    m = clone(ym).fit(cat(T, V), Y[:, 0] if n_out == 1 else Y)
    if prob is None and nv:
        px = clone(xm).fit(V, cell)

    def nuisance(v, g):
        N = 1 if v is None else len(v)
        y = m.predict(cat(np.repeat(np.eye(cells)[[g]], N, axis=0), v)).reshape(N, -1)
        if prob is not None:
            p = np.full(N, prob[g])
        elif v is None:
            p = np.array([(cell == g).mean()])
        else:
            p = px.predict_proba(v)[:, list(px.classes_).index(g)] if g in px.classes_ else np.zeros(N)
        return p[:, None], y
    info = dict(levels=levels, roles=[c.covariate, c.treatment, c.outcome], models=[str(xm), str(ym)], discrete_covariate=disc, given_prob=prob is not None)
    rec.event("no_covariate", int(not nv))
    rec.event("discrete_covariate", int(disc))
    rec.event("two_treatments", int(n_treat == 2))
    rec.event("two_outcomes", int(n_out == 2))
    rec.event("three_levels", int(cells > 2))
    rec.sample(**info)
    lab = lambda g: [levels[j][combos[g][j]] for j in range(n_treat)]
    for call in range(5):
        t, k = 1, 0
        a = {}
        if rng.random() < .75:
            t, k = [int(q) for q in rng.permutation(cells)[:2]]
            a = dict(treat=est.label_form(rng, lab(t)), control=est.label_form(rng, lab(k)))
        elif n_treat == 2:
            continue   # the default levels of several treatments are whatever the library numbers 1 and 0
        lo, up = Y.min(axis=0), Y.max(axis=0)
        if rng.random() < .5:
            lo, up = float(Y.min() - rng.uniform(0, 3)), float(Y.max() + rng.uniform(0, 3))
            if rng.random() < .3:
                lo, up = (0., up) if Y.min() >= 0 or rng.random() < .5 else (lo, 0.)
            a.update(y_lower=lo, y_upper=up)
            rec.event("given_range")
        data, v = None, V
        if rng.random() < .6:
            data = c.data.iloc[rng.integers(0, c.n, int(rng.choice([1, 3, 20, c.n])))].copy()
            if nv and not disc:
                for q in c.covariate:
                    data[q] = data[q].to_numpy() + rng.normal(size=len(data)) * .2
            if rng.random() < .3 and nv:
                data = data.drop(columns=c.treatment + c.outcome)
            v = enc(data) if nv else None
            rec.event("new_rows")
        (pt, yt), (p0, y0) = nuisance(v, t), nuisance(v, k)
        got = {}
        inside = (yt >= lo - 1e-9).all() and (yt <= up + 1e-9).all() and (y0 >= lo - 1e-9).all() and (y0 <= up + 1e-9).all()
        for s in ASSUMP:
            P = pairs(e.estimate(data=data, assump=s, **a), s)
            W = formula(s, pt, p0, yt, y0, lo, up)
            rec.ok(len(P) == len(W), "shape", "another number of bounds", assump=s)
            for i, ((l, u), (wl, wu)) in enumerate(zip(P, W)):
                sq = lambda q: q if n_out > 1 else q[:, 0]
                info2 = dict(assump=s, pair=i, asked={x: str(y) for x, y in a.items()}, call=call, **info)
                rec.event("formula")
                rec.close(l, sq(wl), "lower", "the lower bound differs from its formula", rtol=1e-7, atol=1e-8, **info2)
                rec.close(u, sq(wu), "upper", "the upper bound differs from its formula", rtol=1e-7, atol=1e-8, **info2)
                if inside:
                    rec.ok((l <= u + 1e-8).all(), "order", "the lower bound exceeds the upper bound", **info2)
            got[s] = P
            rec.seen(cells, n_treat, nv, disc, str(xm), str(ym), s, t, k, c.n, "data" if data is None else len(data))
        if inside:
            (l, u) = got[None][0]
            rec.ok((l <= 1e-8).all() and (u >= -1e-8).all(), "contains_zero", "the no-assumption bounds exclude zero", **info)
            for s in ASSUMP[2:4]:
                rec.ok((got[s][0][0] >= l - 1e-8).all() and (got[s][0][1] <= u + 1e-8).all(), "nested", "an assumption widens the bounds", assump=s, **info)
            rec.ok((got["optimal"][0][0] >= l - 1e-8).all() and (got["optimal"][0][1] <= u + 1e-8).all(), "nested", "an assumption widens the bounds", assump="optimal", **info)


def population(rec, rng, tier):
    """Known potential outcomes, saturated nuisance learners: the bounds contain the effect of every covariate cell, exactly."""
    from ylearn.estimator_model.approximation_bound import ApproxBound
    n, k = int(rng.integers(120, 300)), int(rng.integers(2, 5))
    nc = int(rng.integers(0, 3)) + 1 if rng.random() < .7 else 0
    V = rng.integers(0, 3, (n, nc)) if nc else np.zeros((n, 0), int)
    cellid = np.ravel_multi_index(V.T, (3,) * nc) if nc else np.zeros(n, int)
    PO = np.clip(rng.normal(size=(n, k)) * rng.uniform(.5, 3) + rng.normal(size=k) * 2 + cellid[:, None], -8, 12)
    if rng.random() < .3:
        PO = (PO > np.median(PO)).astype(float)
    t, c0 = [int(q) for q in rng.permutation(k)[:2]]
    kind = ["none", "helps", "harms", "best"][int(rng.integers(4))]
    if kind in ("helps", "harms"):
        hi, lo_ = np.maximum(PO[:, t], PO[:, c0]), np.minimum(PO[:, t], PO[:, c0])
        PO[:, t], PO[:, c0] = (hi, lo_) if kind == "helps" else (lo_, hi)
    a = rng.integers(0, k, n)
    if rng.random() < .7:
        a = np.where(rng.random(n) < .7, PO.argsort(axis=1)[:, int(rng.integers(k))], a)   # confounded choice
    if kind == "best":
        m = np.isin(a, [t, c0])
        a[m] = np.where(PO[m, t] >= PO[m, c0], t, c0)
    idx = rng.permutation(n)
    for g in range(k):
        if not (a == g).any():
            raise Skip("level missing")
    # every cell has both compared levels
    for q in np.unique(cellid):
        if not {t, c0} <= set(a[cellid == q]):
            raise Skip("cell without a compared level")
    y = PO[np.arange(n), a]
    lab = sorted(est.LABELS[int(rng.integers(len(est.LABELS)))](k))
    df = pd.DataFrame({f"v{i}": V[:, i] for i in range(nc)}, index=est.index_of(rng, n))
    df["t"] = np.array([lab[q] for q in a], dtype=object if isinstance(lab[0], str) else None)
    df["y"] = y
    e = ApproxBound(y_model=DecisionTreeRegressor(random_state=0), x_model=DecisionTreeClassifier(random_state=0))
    e.fit(df, "y", "t", **(dict(covariate=[f"v{i}" for i in range(nc)], is_discrete_covariate=bool(rng.random() < .5)) if nc else {}))
    lo, up = PO.min(), PO.max()
    want = {}
    rowe = np.zeros(n)
    for q in np.unique(cellid):
        s = cellid == q
        rowe[s] = (PO[s, t] - PO[s, c0]).mean()
    rowe = rowe if nc else rowe[:1]
    info = dict(kind=kind, k=k, covariates=nc, n=n, levels=[lab[t], lab[c0]])
    use = {"none": [None], "helps": [None, "non-negative"], "harms": [None, "non-positive"], "best": [None, "optimal"]}[kind]
    for s in use:
        r = e.estimate(treat=lab[t], control=lab[c0], y_upper=up, y_lower=lo, assump=s)
        l, u = pairs(r, s)[0]
        rec.event("contained")
        rec.seen("pop", kind, k, nc, n, s)
        rec.ok((l <= rowe + 1e-8).all() and (rowe <= u + 1e-8).all(), "contained", "the effect lies outside its bounds", assump=s,
               worst=float(max((l - rowe).max(), (rowe - u).max())), **info)
        if s == "optimal" and k == 2:
            # the second pair needs that those who take a level would not do worse with it than the others would
            ok2 = np.ones(len(rowe), bool)
            for q in np.unique(cellid):
                m = cellid == q
                if PO[m & (a == c0), t].mean() > PO[m & (a == t), t].mean() or PO[m & (a == t), c0].mean() > PO[m & (a == c0), c0].mean():
                    ok2[m if nc else slice(None)] = False
            l, u = pairs(r, s)[1]
            rec.event("second_pair", int(ok2.sum() > 0))
            rec.ok((l <= rowe + 1e-8)[ok2].all() and (rowe <= u + 1e-8)[ok2].all(), "contained2", "the effect lies outside the second pair of bounds", **info)
    rec.sample(**info)


GROUPS = [Group("case", case, 260, 3000, 60), Group("population", population, 400, 5000, 60)]
