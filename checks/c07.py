"""C07: instrumental-variable estimates against two-stage least squares on the same design; DeepIV against its own outcome net."""
import contextlib
import io

import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.preprocessing import PolynomialFeatures, StandardScaler

from vm.core import Group, Skip
from vm import est

PROPERTY = "C07"
RULE = ("one evaluation = one effect array compared with two-stage least squares on the same bases (or with the fitted outcome net), one training-batch "
        "condition, one exact invariance or one truth test; distinct = distinct (kinds, bases, roles, levels, size)")
REQUIRE = {"no_covariate": 20, "discrete_treatment": 30, "continuous_treatment": 30, "two_outcomes": 20, "two_treatments": 15, "row_treat": 15,
           "counterfactual": 15, "orthogonal_confounding": 20, "truth": 8, "deep": 12, "deep_batches": 50, "deep_truth": 2}
ASSUMPTIONS = ["designs whose second stage has a condition number above 1e7 are not judged (the effect is not identified by them)",
               "first-stage designs that are collinear on the data are judged with ridge stages only (scikit-learn's LinearRegression is unreliable on them)"]


def greedy(F):
    """Indices of the first maximal independent set of columns; None if the choice is numerically ambiguous."""
    keep, Q = [], np.zeros((len(F), 0))
    for i in range(F.shape[1]):
        f = F[:, i]
        n = np.linalg.norm(f)
        if n == 0:
            continue
        f = f / n
        f = f - Q @ (Q.T @ f)
        f = f - Q @ (Q.T @ f)
        r = np.linalg.norm(f)
        if 1e-14 < r < 1e-5:
            return None
        if r >= 1e-5:
            keep.append(i)
            Q = np.column_stack([Q, f / r])
    return keep


class Basis:
    def __init__(self, spec, kw, A):
        if isinstance(spec, (tuple, list)):
            self.t = PolynomialFeatures(degree=spec[1], **kw).fit(A)
            self.keep = greedy(self.t.transform(A))
            if self.keep is None:
                raise Skip("ambiguous basis")
        else:
            self.t = clone(spec).fit(A)
            self.keep = slice(None)

    def __call__(self, A):
        return self.t.transform(A)[:, self.keep]


def kron(a, b):
    return a if b is None else (a[:, :, None] * b[:, None, :]).reshape(len(a), -1)


def lsq(X, Y):
    """Least squares with intercept on scaled columns; returns predictor and the condition number of the non-constant part."""
    mu = X.mean(axis=0)
    C = X - mu
    sd = np.sqrt((C ** 2).mean(axis=0))
    live = sd > 1e-9 * np.maximum(1, np.abs(mu))
    U, s, Vt = np.linalg.svd(C[:, live] / sd[live], full_matrices=False) if live.any() else (None, np.ones(1), None)
    if live.any():
        b = Vt.T @ ((U.T @ (Y - Y.mean(axis=0))) / s[:, None])
    y0 = Y.mean(axis=0)

    def predict(Z):
        return y0 + (((Z - mu)[:, live] / sd[live]) @ b if live.any() else 0)
    return predict, s[0] / s[-1] if s[-1] > 0 else np.inf


def stage(model, X, Y):
    """Fitted stage as (predict, condition number)."""
    if isinstance(model, Ridge):
        m = clone(model).fit(X, Y)
        return lambda Z: m.predict(Z).reshape(len(Z), -1), 1.
    return lsq(X, Y)


def case(rec, rng, tier):
    from ylearn.estimator_model.iv import NP2SLS
    n = int(rng.integers(100, 250))
    nx = 2 if rng.random() < .25 else 1
    ny = 2 if rng.random() < .3 else 1
    nz = int(rng.integers(nx, 3))
    nw, nv = int(rng.integers(0, 3)) if rng.random() < .8 else int(rng.integers(3, 5)), int(rng.integers(0, 3))
    disc, dz = rng.random() < .5, rng.random() < .35
    k = int(rng.integers(2, 4)) if disc else None
    W, V = rng.normal(size=(n, nw)), rng.normal(size=(n, nv))
    if nv and rng.random() < .3:
        V[:, 0] = rng.integers(0, 2, n)
    Z = rng.integers(0, 4, (n, nz)).astype(float) if dz or rng.random() < .2 else rng.normal(size=(n, nz))
    u = rng.normal(size=n) * rng.uniform(0, 3)
    T = np.column_stack([Z[:, i] * 2 + u + rng.normal(size=n) + (W.sum(axis=1) + V.sum(axis=1)) * .5 for i in range(nx)])
    levels = None
    if disc:
        codes = np.column_stack([np.digitize(T[:, i], np.quantile(T[:, i], np.arange(1, k) / k)) for i in range(nx)])
        levels = [sorted(est.LABELS[int(rng.integers(len(est.LABELS)))](k)) for _ in range(nx)]
        Tc = codes.astype(float)
    else:
        Tc = T
    Y = np.column_stack([(o + 1) * Tc.sum(axis=1) * (1 + (V[:, 0] if nv else 0)) + 2 * u + W.sum(axis=1) + rng.normal(size=n) for o in range(ny)])
    d = {}
    nm = list(rng.permutation(["w", "x y", "age", "zip", "v", "v2", "q", "inst", "W2", "b"]))
    adj, cov, ins = nm[:nw], nm[nw:nw + nv], nm[nw + nv:nw + nv + nz]
    for i, q in enumerate(adj):
        d[q] = W[:, i]
    for i, q in enumerate(cov):
        d[q] = V[:, i]
    zl = est.LABELS[int(rng.integers(len(est.LABELS)))](4)
    for i, q in enumerate(ins):
        d[q] = np.array([zl[int(a)] for a in Z[:, i]], dtype=object if isinstance(zl[0], str) else None) if dz else Z[:, i]
    tn, yn = ["t", "dose"][:nx], ["y", "y2"][:ny]
    for i, q in enumerate(tn):
        d[q] = np.array([levels[i][a] for a in codes[:, i]], dtype=object if isinstance(levels[i][0], str) else None) if disc else T[:, i]
    for i, q in enumerate(yn):
        d[q] = Y[:, i]
    cols = list(d)
    df = pd.DataFrame({q: d[q] for q in [cols[i] for i in rng.permutation(len(cols))]}, index=est.index_of(rng, n))

    def spec(deg):
        r = rng.random()
        if r < .7:
            return [("Poly", deg), ["Poly", deg]][int(rng.random() < .3)]
        return PolynomialFeatures(degree=deg, include_bias=bool(rng.random() < .5)) if r < .9 else StandardScaler()
    kw = {"include_bias": False} if rng.random() < .2 else {}
    sx, sz, sv = spec(1 if rng.random() < .6 else 2), spec(int(rng.integers(1, 3))), spec(1 if rng.random() < .6 else 2)
    mk = lambda: None if rng.random() < .4 else (LinearRegression() if rng.random() < .4 else Ridge(alpha=float(rng.choice([.1, 1., 5.]))))
    xm, ym = mk(), mk()
    # ---- reference ----
    Zd = Z
    if dz:
        zs = [sorted({zl[int(a)] for a in Z[:, i]}) for i in range(nz)]
        Zd = np.concatenate([np.array([[zl[int(a)] == q for q in zs[i][1:]] for a in Z[:, i]], dtype=float) for i in range(nz)], axis=1)
    bx, bz, bv = Basis(sx, kw, Tc), Basis(sz, kw, Zd), Basis(sv, kw, V) if nv else None
    vb = bv(V) if nv else None
    zvw = np.concatenate([kron(bz(Zd), vb), W, np.ones((n, 1))], axis=1)
    if not isinstance(xm, Ridge):
        C = zvw[:, :-1] - zvw[:, :-1].mean(axis=0)
        C = C[:, (C ** 2).sum(axis=0) > 1e-12]
        if np.linalg.matrix_rank(C / np.linalg.norm(C, axis=0), tol=1e-7) < C.shape[1]:
            raise Skip("collinear first stage")
    f1, _ = stage(xm, zvw, bx(Tc)) if isinstance(xm, Ridge) else project(zvw, bx(Tc))
    xh = f1(zvw)
    f2, cond = stage(ym, np.concatenate([kron(xh, vb), W, np.ones((n, 1))], axis=1), Y)
    if cond > 1e7:
        raise Skip("effect not identified by the design")

    def out(A, v, w):
        return f2(np.concatenate([kron(bx(A), v), w, np.ones((len(A), 1))], axis=1))
    # ---- the estimator ----
    e = NP2SLS(x_model=xm, y_model=ym, is_discrete_treatment=disc)
    fit = dict(instrument=est.maybe_str(rng, ins), treatment_basis=sx, instrument_basis=sz, covar_basis=sv, **kw)
    if dz:
        fit["is_discrete_instrument"] = True
    if nw:
        fit["adjustment"] = est.maybe_str(rng, adj)
    if nv:
        fit["covariate"] = est.maybe_str(rng, cov)
    before = est.snap(df)
    e.fit(df, est.maybe_str(rng, yn), est.maybe_str(rng, tn), **fit)
    rec.ok(est.snap(df) == before, "data_changed", "fit changed the caller's frame")
    info = dict(discrete=disc, levels=levels, discrete_instrument=dz, roles=[adj, cov, ins, tn, yn], bases=[str(sx), str(sz), str(sv)], kw=kw, models=[str(xm), str(ym)])
    rec.event("discrete_treatment" if disc else "continuous_treatment")
    rec.event("no_covariate", int(not nv))
    rec.event("two_outcomes", int(ny == 2))
    rec.event("two_treatments", int(nx == 2))
    rec.seen(disc, k, dz, nx, ny, nw, nv, nz, str(sx), str(sz), str(sv), n, str(xm), str(ym))
    rec.sample(**info)
    sc = max(1., np.abs(Y).max())
    tol = dict(rtol=1e-6, atol=1e-7 * sc * max(1., cond / 1e2))
    for call in range(4):
        m = int(rng.choice([1, 3, 20, n]))
        own = rng.random() < .35
        if own:
            data, v, w, Tt = None, vb, W, Tc
        else:
            idx = rng.integers(0, n, m)
            data = df.iloc[idx].copy()
            V2, w, Tt = V[idx] + (rng.normal(size=(m, nv)) * .2 if nv else 0), W[idx] + (rng.normal(size=(m, nw)) * .2 if nw else 0), Tc[idx]
            for i, q in enumerate(adj):
                data[q] = w[:, i]
            for i, q in enumerate(cov):
                data[q] = V2[:, i]
            v = bv(V2) if nv else None
        N = len(Tt)
        kws, A, B = {}, np.ones((N, nx)), np.zeros((N, nx))
        for name in ("treat", "control"):
            if rng.random() < .7:
                rows = rng.random() < .25
                if disc:
                    cc = rng.integers(0, k, (N if rows else 1, nx))
                    if rows:
                        val = np.array([[levels[j][a] for j, a in enumerate(r)] for r in cc], dtype=object)
                    else:
                        val = est.label_form(rng, [levels[j][a] for j, a in enumerate(cc[0])])
                    cc = cc.astype(float)
                else:
                    cc = rng.normal(size=(N if rows else 1, nx)) * 2
                    val = cc if rows else est.label_form(rng, cc[0].tolist())
                rec.event("row_treat", int(rows))
                kws[name] = val
                if name == "treat":
                    A = np.broadcast_to(cc, (N, nx))
                else:
                    B = np.broadcast_to(cc, (N, nx))
        q = [None, None, "ATE", "CATE", "CF"][int(rng.integers(5))]
        if q == "CATE" and not nv:
            q = "ATE"
        if q == "CF":
            want, kws = out(Tt, v, w), {}
            rec.event("counterfactual")
        else:
            want = out(A, v, w) - out(B, v, w)
            if q:
                want = want.mean(axis=0)
        got = np.asarray(e.estimate(data=data, quantity=q, **kws))
        rec.close(got, want, "estimate", "effects differ from two-stage least squares", call=call, quantity=q, condition=cond, asked={a: str(b) for a, b in kws.items()}, **tol, **info)
    # table
    own = rng.random() < .5
    data, v, w = (None, vb, W) if own else (df.iloc[:9], bv(V[:9]) if nv else None, W[:9])
    N = len(w)
    if disc:
        combos = np.array(np.meshgrid(*[np.arange(k)] * nx, indexing="ij")).reshape(nx, -1).T.astype(float)
    else:
        combos = np.array([np.zeros(nx), np.ones(nx)])
    tab = np.stack([out(np.repeat(c[None], N, axis=0), v, w) for c in combos], axis=2)
    rec.close(np.asarray(e.effect_nji(data)), tab - tab[:, :, :1], "effect_nji", "the per-level table differs from two-stage least squares", condition=cond, **tol, **info)


def project(X, Y):
    """Least squares predictions on the training rows, whatever the rank of X."""
    U, s, _ = np.linalg.svd(X / np.maximum(1e-300, np.linalg.norm(X, axis=0)), full_matrices=False)
    gap = s / s[0]
    if ((gap < 1e-7) & (gap > 1e-13)).any():
        raise Skip("first stage is numerically rank deficient")
    U = U[:, gap > 1e-10]
    return lambda Z: U @ (U.T @ Y), s[0] / s[-1]


def orthogonal(rec, rng, tier):
    """Anything added to the outcome that is orthogonal to the instrument space leaves the effects where they were; scaling scales them."""
    from ylearn.estimator_model.iv import NP2SLS
    n = int(rng.integers(80, 400))
    nw, nz = int(rng.integers(0, 3)), int(rng.integers(1, 3))
    Z, W, u = rng.normal(size=(n, nz)), rng.normal(size=(n, nw)), rng.normal(size=n)
    disc = rng.random() < .4
    t = Z.sum(axis=1) + u + rng.normal(size=n) * .5
    t = (t > 0).astype(float) if disc else t
    df = pd.DataFrame(Z, columns=[f"z{i}" for i in range(nz)])
    for i in range(nw):
        df[f"w{i}"] = W[:, i]
    df["t"] = t
    df["y"] = t * 2 + u * 3 + W.sum(axis=1) + rng.normal(size=n)
    dz = int(rng.integers(1, 4))
    kw = dict(instrument=[f"z{i}" for i in range(nz)], treatment_basis=("Poly", 1), instrument_basis=("Poly", dz), adjustment=[f"w{i}" for i in range(nw)] or None)
    D = np.column_stack([PolynomialFeatures(dz).fit_transform(Z), W])
    Q, _ = np.linalg.qr(D)
    r = u * rng.uniform(1, 50) + rng.normal(size=n)
    r = r - Q @ (Q.T @ r)
    a0 = np.asarray(NP2SLS(is_discrete_treatment=disc).fit(df, "y", "t", **kw).estimate(quantity="ATE"))
    k = float(rng.uniform(-4, 4))
    df2 = df.assign(y=k * (df.y + r) + 7)
    a1 = np.asarray(NP2SLS(is_discrete_treatment=disc).fit(df2, "y", "t", **kw).estimate(quantity="ATE"))
    rec.event("orthogonal_confounding")
    rec.seen("orth", n, nw, nz, dz, disc)
    s = np.abs(r).max() + np.abs(df.y).max()
    rec.close(a1, k * a0, "orthogonal", "confounding orthogonal to the instruments changed the effect", rtol=1e-6, atol=1e-8 * s, discrete=disc, n=n)


def truth(rec, rng, tier):
    from ylearn.estimator_model.iv import NP2SLS
    n = 6000
    z, u = rng.normal(size=n), rng.normal(size=n)
    v = rng.normal(size=n)
    g = float(rng.uniform(1, 2))
    t = z + g * u + rng.normal(size=n) * .3
    a, b = float(rng.normal() * 2), float(rng.choice([-1, 1]) * rng.uniform(2, 3))
    h = float(rng.normal())
    y = (a + h * v) * t + b * u + v + rng.normal(size=n) * .3
    df = pd.DataFrame(dict(z=z, v=v, t=t, y=y))
    e = NP2SLS().fit(df, "y", "t", instrument="z", covariate="v", treatment_basis=("Poly", 1), instrument_basis=("Poly", 1), covar_basis=("Poly", 1))
    x1, x0 = float(rng.normal()), float(rng.normal()) - 2
    got = np.ravel(e.estimate(treat=x1, control=x0))
    want = (a + h * v) * (x1 - x0)
    naive = np.polyfit(t, y, 1)[0]
    rec.event("truth")
    rec.seen("truth", round(a, 3), round(b, 3))
    rec.sample(true=a, confounding=b, naive=naive, average=float(got.mean() / (x1 - x0)))
    err = float(np.abs(got - want).mean() / abs(x1 - x0))
    rec.ok(err < .45, "truth", "the effect is far from the structural effect", error=err, true=a, hetero=h, confounding=b, naive=naive)


# ---- DeepIV ----
SEEN = []


def nets(torch, xd, wd, yd, disc):
    from ylearn.estimator_model.deepiv import Net

    class LogNet(Net):
        def forward(self, x, w):
            if torch.is_grad_enabled() and self.training:
                SEEN.append(("net", x.detach().clone(), w.detach().clone()))
            return super().forward(x, w)
    return LogNet(xd, wd, yd, hidden_d1=16, hidden_d2=16, hidden_d3=8, is_discrete_input=disc)


def deep(rec, rng, tier):
    import torch
    from ylearn.estimator_model.deepiv import DeepIV
    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    torch.manual_seed(int(rng.integers(1 << 30)))
    n = int(rng.integers(40, 120))
    disc, dz = rng.random() < .5, rng.random() < .4
    nw, ny, nx = int(rng.integers(0, 3)), 2 if rng.random() < .3 else 1, 2 if not disc and rng.random() < .3 else 1
    k = int(rng.integers(2, 4))
    Z = rng.integers(0, 3, n) if dz else rng.normal(size=n)
    W, u = rng.normal(size=(n, nw)), rng.normal(size=n)
    s = Z + u + W.sum(axis=1)
    codes = np.digitize(s, np.quantile(s, np.arange(1, k) / k))
    lv = sorted(est.LABELS[int(rng.integers(len(est.LABELS)))](k))
    df = pd.DataFrame({f"w{i}": W[:, i] for i in range(nw)}, index=est.index_of(rng, n))
    df["z"] = Z
    tn, yn = ["t", "t2"][:nx], ["y", "y2"][:ny]
    for i, q in enumerate(tn):
        df[q] = np.array([lv[a] for a in codes], dtype=object if isinstance(lv[0], str) else None) if disc else s + rng.normal(size=n)
    for q in yn:
        df[q] = 2 * s + u + rng.normal(size=n)
    wn = [f"w{i}" for i in range(nw)]
    xd = k if disc else nx
    given = rng.random() < .6
    kw = dict(y_net=nets(torch, xd, nw, ny, disc)) if given else {}
    e = DeepIV(is_discrete_treatment=disc, is_discrete_instrument=dz, num_gaussian=3, **kw)
    sn = None if disc else [None, 1, 3][int(rng.integers(3))]
    bs = int(rng.choice([16, 64, 1000]))
    epochs = int(rng.integers(1, 3))
    SEEN.clear()

    def loss(p, y):
        SEEN.append(("loss", p.detach().clone(), y.detach().clone()))
        return ((p - y) ** 2).mean()
    fit = dict(x_net_config=dict(epoch=1, lr=.01, batch_size=bs, device="cpu"), y_net_config=dict(epoch=epochs, lr=.01, batch_size=bs, device="cpu", loss=loss))
    if nw:
        fit["adjustment"] = est.maybe_str(rng, wn)
    before = est.snap(df)
    with contextlib.redirect_stdout(io.StringIO()):
        e.fit(df, est.maybe_str(rng, yn), est.maybe_str(rng, tn), instrument="z", sample_n=sn, **fit)
    rec.ok(est.snap(df) == before, "data_changed", "fit changed the caller's frame")
    log = list(SEEN)
    info = dict(discrete=disc, discrete_instrument=dz, adjustment=wn, n=n, sample_n=sn, batch=bs, levels=lv if disc else None, given=given)
    rec.event("deep")
    rec.seen("deep", disc, dz, nw, ny, nx, k, sn, bs, given, n)
    rec.sample(**info)
    # training log of the outcome net: every batch pairs adjustment rows with their own outcomes, every row as often as it was sampled
    Yv, times = df[yn].to_numpy(dtype=float), 1 if disc else (sn or 1)
    if given:
        count = np.zeros(n, dtype=int)
        for j, ev in enumerate(log):
            if ev[0] != "loss":
                continue
            rec.event("deep_batches")
            y, w, x = ev[2].numpy(), log[j - 1][2].numpy(), log[j - 1][1].numpy()
            if disc:
                w = w.reshape(len(y), k, nw)[:, 0] if nw else np.zeros((len(y), 0))
            hit = [np.where((np.abs(Yv - r).max(axis=1) < 1e-12))[0] for r in y]
            if not rec.ok(all(len(h) == 1 for h in hit), "deep_target", "the outcome net is trained with outcomes which are not in the data", **info):
                break
            hit = np.array([h[0] for h in hit])
            np.add.at(count, hit, 1)
            rec.ok(nw == 0 or np.abs(W[hit] - w).max() < 1e-12, "deep_pairing", "the outcome net is trained with another row's adjustment", **info)
        rec.ok((count == times * epochs).all(), "deep_rows", "rows are not trained as often as sampled", observed=np.unique(count), expected=times * epochs, **info)
    net = e.y_net.model
    net.eval()

    def out(a, w):
        x = torch.tensor(np.full(len(w), a), dtype=torch.int64) if disc else torch.tensor(np.broadcast_to(a, (len(w), nx)).astype(float).copy())
        with torch.no_grad():
            return net(x, torch.tensor(w)).numpy().reshape(len(w), -1)
    tol = dict(rtol=1e-9, atol=1e-11)
    num = lambda q: q.detach().numpy() if hasattr(q, "detach") else np.asarray(q)
    for call in range(3):
        own = rng.random() < .4
        idx = rng.integers(0, n, int(rng.choice([1, 5, 30])))
        data, w = (None, W) if own else (df.iloc[idx].drop(columns=yn), W[idx])
        kws, A, B = {}, 1, 0
        if rng.random() < .7:
            A, B = (rng.integers(0, k, 2) if disc else rng.normal(size=2) * 2).tolist()
            kws = dict(treat=est.label_form(rng, [lv[A]]), control=est.label_form(rng, [lv[B]])) if disc else dict(treat=A, control=B)
        q = [None, "ATE", "CATE"][int(rng.integers(3))]
        want = out(A, w) - out(B, w)
        want = want.mean(axis=0) if q else want
        rec.close(num(e.estimate(data, quantity=q, **kws)), want, "deep_estimate", "effects are not the differences of the fitted outcome net", quantity=q, asked=kws, **tol, **info)
        if not disc and rng.random() < .5:
            h = 1e-6
            g = np.stack([(out(np.full(nx, A) + h * np.eye(nx)[i], w) - out(np.full(nx, A) - h * np.eye(nx)[i], w)) / (2 * h) for i in range(nx)], axis=-1)
            g2 = np.stack([(out(np.full(nx, A) + 2 * h * np.eye(nx)[i], w) - out(np.full(nx, A) - 2 * h * np.eye(nx)[i], w)) / (4 * h) for i in range(nx)], axis=-1)
            got = num(e.estimate(data, quantity=None, marginal_effect=True, **kws)).reshape(g.shape)
            flat = np.abs(g - g2) < 1e-7   # no kink of the activation in between
            rec.close(got[flat], g[flat], "deep_marginal", "marginal effects are not the derivatives of the fitted outcome net", rtol=1e-4, atol=1e-6, **info)
            rec.event("deep_marginal")
    tab = np.stack([out(a, W) for a in (range(k) if disc else [0, 1])], axis=2)
    rec.close(num(e.effect_nji()), tab - tab[:, :, :1], "deep_nji", "the per-level table differs from the fitted outcome net", **tol, **info)


def deep_truth(rec, rng, tier):
    """Confounded binary treatment with a strong binary instrument: the deep estimate is nearer to the structural effect than to the naive contrast."""
    import torch
    from ylearn.estimator_model.deepiv import DeepIV
    torch.set_default_dtype(torch.float64)
    torch.set_num_threads(1)
    torch.manual_seed(int(rng.integers(1 << 30)))
    n = 2000
    z = rng.integers(0, 2, n)
    u = rng.normal(size=n)
    w = rng.normal(size=n)
    t = (1.6 * (2 * z - 1) + 1.5 * u + rng.normal(size=n) * .3 > 0).astype(int)
    a, b = float(rng.uniform(-1, 1)), float(rng.choice([-1, 1]) * 2)
    y = a * t + b * u + .3 * w + rng.normal(size=n) * .2
    df = pd.DataFrame(dict(z=z, w=w, t=t, y=y))
    e = DeepIV(is_discrete_treatment=True, is_discrete_instrument=True)
    kw = dict(lr=.005, batch_size=200, device="cpu", optimizer="Adam", epoch=25)
    with contextlib.redirect_stdout(io.StringIO()):
        e.fit(df, "y", "t", instrument="z", adjustment="w", **kw)
    got = float(e.estimate(quantity="ATE"))
    naive = y[t == 1].mean() - y[t == 0].mean()
    wald = (y[z == 1].mean() - y[z == 0].mean()) / (t[z == 1].mean() - t[z == 0].mean())
    rec.event("deep_truth")
    rec.seen("deep_truth", round(a, 3))
    rec.sample(true=a, naive=naive, wald=wald, got=got)
    rec.ok(abs(got - wald) < abs(naive - wald) / 2, "deep_truth", "the deep estimate follows the confounded contrast", true=a, naive=naive, wald=wald, got=got)


GROUPS = [Group("case", case, 260, 3000, 60), Group("orthogonal", orthogonal, 60, 600, 60), Group("truth", truth, 24, 120, 60),
          Group("deep", deep, 60, 600, 120), Group("deep_truth", deep_truth, 8, 32, 240)]
