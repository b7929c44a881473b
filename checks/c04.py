"""C04: S-, T- and X-learner effects against a from-scratch computation on the same rows."""
import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LinearRegression, Ridge

from vm.core import Group
from vm import est

PROPERTY = "C04"
RULE = ("one evaluation = one effect array (estimate or per-level table) compared element by element with the textbook "
        "computation from clones of the same base learner; distinct = distinct (learner, mode, roles, levels, labels, base learner, data size)")
REQUIRE = {"S": 60, "T": 60, "X": 60, "combined": 100, "separate": 60, "proba": 40, "two_treatments": 30, "two_outcomes": 30, "second_estimate": 100, "class_missing_in_arm": 10}


def onehot(codes, k):
    return np.eye(k)[codes]


def squeeze_y(y):
    return y[:, 0] if y.shape[1] == 1 else y


class Ref:
    """Textbook learners over integer cell codes."""

    def __init__(self, kind, model, final, proba, c, cell, n_cells):
        self.kind, self.proba, self.n_cells = kind, proba, n_cells
        self.model, self.final = model, final
        self.X = est.wv(c, c.data)
        self.y = squeeze_y(est.arr(c.data, c.outcome).astype(float) if not proba else est.arr(c.data, c.outcome))
        self.cell = cell
        if kind == "S":
            self.f = clone(model).fit(np.concatenate([self.X, onehot(cell, n_cells)], axis=1), self.y)
            self.classes = getattr(self.f, "classes_", None)
        else:
            self.f = {g: clone(model).fit(self.X[cell == g], self.y[cell == g]) for g in range(n_cells)}
            self.classes = np.unique(self.y) if proba else None

    def out(self, m, X):
        if not self.proba:
            return m.predict(X)
        p = m.predict_proba(X)
        w = np.zeros((len(X), len(self.classes)))
        for i, v in enumerate(m.classes_):  # classes an arm has not seen have no probability
            w[:, list(self.classes).index(v)] = p[:, i]
        return w

    def effect(self, X, t, c, rho=.5):
        if self.kind == "S":
            z = lambda g: np.concatenate([X, np.tile(onehot(np.array([g]), self.n_cells), (len(X), 1))], axis=1)
            return self.out(self.f, z(t)) - self.out(self.f, z(c))
        if self.kind == "T":
            return self.out(self.f[t], X) - self.out(self.f[c], X)
        a, b = self.cell == t, self.cell == c
        ya, yb = self.y[a], self.y[b]
        if self.proba:
            ya, yb = (ya[:, None] == self.classes).astype(float), (yb[:, None] == self.classes).astype(float)
        kt = clone(self.final).fit(self.X[a], ya - self.out(self.f[c], self.X[a]))
        k0 = clone(self.final).fit(self.X[b], self.out(self.f[t], self.X[b]) - yb)
        return rho * kt.predict(X) + (1 - rho) * k0.predict(X)


def case(rec, rng, tier, kind=None):
    from ylearn.estimator_model.meta_learner import SLearner, TLearner, XLearner
    kind = kind or "STX"[int(rng.integers(3))]
    cls = dict(S=SLearner, T=TLearner, X=XLearner)[kind]
    n_treat = 2 if rng.random() < .25 else 1
    combined = bool(rng.random() < .6) or (kind == "S" and n_treat == 2)
    mode = ["cont", "proba", "label"][int(rng.choice([0, 0, 0, 1, 2]))]
    n_out = 2 if mode == "cont" and rng.random() < .3 else 1
    yc = int(rng.integers(2, 4))
    c = est.make(rng, n_treat=n_treat, n_out=n_out, outcome="cont" if mode == "cont" else "class", y_classes=yc, many=True,
                 n=int(rng.integers(70, 150)), min_cell=5)
    if mode == "proba" and yc == 3 and rng.random() < .6:
        arm, cl = int(rng.integers(c.k)), c.y_labels[int(rng.integers(3))]
        keep = ~((c.codes[:, 0] == arm) & (c.data[c.outcome[0]] == cl).values)
        d2, co = c.data[keep], c.codes[keep]
        cells = co[:, 0] if n_treat == 1 else co[:, 0] * c.k + co[:, 1]
        if all((cells == g).sum() > 3 and d2[c.outcome[0]][cells == g].nunique() > 1 for g in range(c.k ** n_treat)):
            c.data, c.codes, c.n = d2, co, len(d2)
            rec.event("class_missing_in_arm")
    model = est.classifier(rng) if mode != "cont" else est.smooth(rng) if kind == "X" else est.regressor(rng, multi=n_out > 1, collinear=True)
    kw, final = {}, model
    if mode == "proba":
        kw = dict(is_discrete_outcome=True, proba_output=True)
        if kind == "X":
            final = LinearRegression() if rng.random() < .6 else est.KNeighborsRegressor(3)
            kw["final_proba_model"] = final
    elif mode == "label":
        kw = dict(is_discrete_outcome=True)
        if kind == "X":
            model = final = est.smooth(rng)
            kw = {}
    before = est.snap(c.data)
    base = clone(model)
    e = cls(model=model, **kw)
    combos = [(i,) for i in range(c.k)] if n_treat == 1 else [(i, j) for i in range(c.k) for j in range(c.k)]
    cell = c.codes[:, 0] if n_treat == 1 else c.codes[:, 0] * c.k + c.codes[:, 1]
    t, ctl = [int(v) for v in rng.permutation(len(combos))[:2]]
    fit = dict(combined_treatment=combined)
    lab = lambda g: [c.levels[j][combos[g][j]] for j in range(n_treat)]
    if combined:
        style = int(rng.integers(4))
        if style == 0:
            t, ctl = 1, 0
        elif style == 1 and ctl != 1:
            fit["treat"] = lab(t)
            ctl = 0 if t != 0 else ctl
            if ctl != 0:
                fit["control"] = lab(ctl)
        else:
            fit.update(treat=lab(t), control=lab(ctl))
        if n_treat == 1 and rng.random() < .6:
            for q in ("treat", "control"):
                if q in fit:
                    fit[q] = fit[q][0]
        elif rng.random() < .4:
            for q in ("treat", "control"):
                if q in fit:
                    fit[q] = tuple(fit[q])
    if c.adjustment:
        fit["adjustment"] = est.maybe_str(rng, c.adjustment)
    if c.covariate:
        fit["covariate"] = est.maybe_str(rng, c.covariate)
    e.fit(c.data, est.maybe_str(rng, c.outcome), est.maybe_str(rng, c.treatment), **fit)
    rec.ok(est.snap(c.data) == before, f"{kind}:data_changed", "fit changed the caller's frame")
    ref = Ref(kind, base, final, mode == "proba", c, cell, len(combos))
    tag = f"{kind}:{'combined' if combined else 'separate'}:{mode}"
    info = dict(kind=kind, combined=combined, mode=mode, levels=c.levels, treat=lab(t), control=lab(ctl), model=str(model),
                roles=[c.adjustment, c.covariate, c.treatment, c.outcome], fit={a: str(b) for a, b in fit.items()})
    rec.event(kind)
    rec.event("combined" if combined else "separate")
    rec.event(mode)
    rec.event("two_treatments", int(n_treat == 2))
    rec.event("two_outcomes", int(n_out == 2))
    rec.seen(kind, combined, mode, n_treat, n_out, c.levels, str(model), c.n, t, ctl)
    rec.sample(**info)

    def expect(X, rho, target):
        if combined:
            w = ref.effect(X, t, ctl, rho)
            w = w.reshape(len(X), -1, 1)
        else:
            w = np.stack([ref.effect(X, g, 0, rho).reshape(len(X), -1) for g in range(1, len(combos))], axis=2)
        if target is not None:
            w = w[:, list(ref.classes).index(target), :][:, None, :]
        return w  # n, outcomes or classes, compared levels

    for call in range(3):
        d = None if rng.random() < .35 else est.test_rows(rng, c)
        X = est.wv(c, c.data if d is None else d)
        rho = float(rng.choice([.5, .2, 1.0])) if kind == "X" else .5
        kws = {} if kind != "X" or rho == .5 else dict(rho=rho)
        target = None
        if mode == "proba" and rng.random() < .6:
            target = c.y_labels[int(rng.integers(len(c.y_labels)))]
            kws["target_outcome"] = target
        q = [None, None, "ATE", "CATE"][int(rng.integers(4))]
        if call:
            rec.event("second_estimate")
        snap = None if d is None else est.snap(d)
        got = e.estimate(data=d, quantity=q, **kws)
        want = expect(X, rho, target)
        if q is not None:
            want = want.mean(axis=0)
        rec.close(got, want, f"{tag}:estimate", f"effects (call {call}, quantity {q}, target {target}, rho {rho})", rtol=1e-7, atol=1e-9, **info)
        rec.ok(d is None or est.snap(d) == snap, f"{kind}:data_changed", "estimate changed the caller's frame")
        if rng.random() < .35:
            tab = np.asarray(e.effect_nji(d))
            w = expect(X, .5, None)
            w = np.concatenate([np.zeros(w.shape[:2] + (1,)), w], axis=2)
            rec.ok(tab.shape == w.shape, f"{tag}:table_shape", f"per-level table has shape {tab.shape} instead of {w.shape}", **info)
            rec.close(tab, w, f"{tag}:table", "per-level effect table", rtol=1e-7, atol=1e-9, **info)
            rec.event("tables")


def categories(rec, rng, tier):
    """The order of levels given by the user decides the default control (first) and treated (second) level."""
    from ylearn.estimator_model.meta_learner import SLearner, TLearner, XLearner
    kind = "STX"[int(rng.integers(3))]
    cls = dict(S=SLearner, T=TLearner, X=XLearner)[kind]
    c = est.make(rng, labels=est.NUM_LABELS[int(rng.integers(len(est.NUM_LABELS)))], k=int(rng.integers(2, 4)), n=80, min_cell=6)
    model = est.smooth(rng) if kind == "X" else est.regressor(rng, collinear=True)
    order = [int(v) for v in rng.permutation(c.k)]
    e = cls(model=model, categories=[[c.levels[0][i] for i in order]])
    # sklearn only accepts unsorted numeric categories for object columns
    d = c.data.copy()
    d["treat"] = d["treat"].astype(object)
    e.fit(d, c.outcome, c.treatment, adjustment=c.adjustment, covariate=c.covariate)
    code = np.array([order.index(v) for v in c.codes[:, 0]])
    ref = Ref(kind, model, model, False, c, code, c.k)
    rec.event("categories")
    rec.seen("cat", kind, order, c.levels, str(model), c.n)
    rec.close(e.estimate(), ref.effect(ref.X, 1, 0), f"{kind}:categories", "effects with the level order given by the user",
              levels=c.levels, order=order, model=str(model))


def truth(rec, rng, tier):
    """Noise-free additive world with linear base learner: the structural effect comes out exactly."""
    from ylearn.estimator_model.meta_learner import SLearner, TLearner, XLearner
    import pandas as pd
    n = 120
    F = rng.normal(size=(n, 2))
    k = int(rng.integers(2, 4))
    t = rng.integers(0, k, n)
    t[:4 * k] = np.tile(np.arange(k), 4)
    b = rng.normal(size=k) * 3
    s = rng.normal(size=k)
    levels = ["c", "a", "b"][:k]
    kind = "STX"[int(rng.integers(3))]
    y = F @ [1., -2.] + b[t] + (s[t] * F[:, 0] if kind != "S" else 0)
    d = pd.DataFrame(dict(f0=F[:, 0], f1=F[:, 1], t=[levels[i] for i in t], y=y))
    i, j = [int(v) for v in rng.permutation(k)[:2]]
    e = dict(S=SLearner, T=TLearner, X=XLearner)[kind](model=Ridge(alpha=1e-7) if kind == "S" else LinearRegression())
    e.fit(d, "y", "t", adjustment=["f0", "f1"], treat=levels[i], control=levels[j])
    want = b[i] - b[j] + ((s[i] - s[j]) * F[:, 0] if kind != "S" else 0) + np.zeros(n)
    rec.event("truth")
    rec.seen("truth", kind, k, i, j, tuple(np.round(b, 6)))
    rec.close(e.estimate(), want, f"{kind}:structural_effect", "noise-free linear world", rtol=1e-5, atol=1e-6, treat=levels[i], control=levels[j])


GROUPS = [Group("case", case, 700, 8000), Group("categories", categories, 60, 600), Group("truth", truth, 60, 600)]
