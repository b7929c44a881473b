"""C22: generated graphs, weights, simulations and reported true effects against the structural models they describe; accuracy metrics against their definition."""
import numpy as np
import pandas as pd

from vm.core import Group, Skip

PROPERTY = "C22"
RULE = "one evaluation = one statement about generated data (order of nodes, support, equation, noise, reported effect, metric) compared with the structural model; distinct = distinct generator settings or pairs of graphs"
REQUIRE = {"dag": 100, "weights": 100, "linear": 80, "population": 20, "nonlinear": 40, "lagged": 25, "effects": 25, "metric": 300, "metric_undirected": 80, "metric_reverse": 80, "reproducible": 60,
           "scale_vector": 60}
ASSUMPTIONS = ["noise is compared with its distribution at 7 standard errors"]


def ancestors_ok(B):
    """Acyclic, by repeatedly removing nodes without parents."""
    B = np.array(B) != 0
    left = list(range(len(B)))
    while left:
        free = [j for j in left if not B[left, j].any()]
        if not free:
            return False
        left = [j for j in left if j not in free]
    return True


def a_dag(rng):
    d = int(rng.integers(1, 9))
    B = np.tril(rng.random((d, d)) < rng.choice([.2, .5, 1.]), -1).astype(float)
    p = rng.permutation(d)
    return B[np.ix_(p, p)]


def seed(rng):
    from ylearn.exp_dataset import gen
    s = int(rng.integers(10 ** 6))
    gen.set_random_seed(s)
    return s


def twice(rec, rng, f, what):
    """The same seed gives the same data."""
    from ylearn.exp_dataset import gen
    s = int(rng.integers(10 ** 6))
    gen.set_random_seed(s)
    a = f()
    gen.set_random_seed(s)
    b = f()
    t = lambda q: q if isinstance(q, (tuple, list)) else (q,)
    rec.ok(all(np.array_equal(u, v) for u, v in zip(t(a), t(b))), "reproducible:" + what, f"{what}: the same seed gives other data")
    rec.event("reproducible")
    return a


# ---------------------------------------------------------------- graphs and weights

def case_graphs(rec, rng, tier):
    from ylearn.exp_dataset import gen
    kind = str(rng.choice(["ER", "SF", "BP"]))
    d = int(rng.integers(2, 25))
    full = d * (d - 1) // 2
    if kind == "ER":
        s0 = int(rng.choice([0, 1, min(d, full), full // 2, full]))
    elif kind == "SF":
        s0 = d * int(rng.integers(1, 4))
    else:
        d = int(rng.integers(5, 30))
        top = int(.2 * d)
        s0 = int(rng.integers(0, top * (d - top) + 1))
    B = twice(rec, rng, lambda: gen.simulate_dag(d, s0, kind), "simulate_dag")
    info = dict(kind=kind, d=d, s0=s0)
    rec.sample(**info)
    rec.seen("dag", kind, d, s0)
    rec.event("dag")
    rec.ok(np.shape(B) == (d, d) and set(np.unique(B)) <= {0, 1}, "dag_shape", "a generated graph is no binary matrix of the requested size", **info)
    rec.ok(ancestors_ok(B), "dag_cyclic", "a generated graph has a cycle", B=B.tolist(), **info)
    edges = int(np.sum(B))
    if kind in ("ER", "BP"):
        rec.ok(edges == s0, "dag_edges", f"a generated graph has {edges} edges instead of {s0}", **info)
    else:
        m = s0 // d
        rec.ok(edges == sum(min(i, m) for i in range(d)), "dag_edges", f"a scale-free graph has {edges} edges with {m} edges for each new node", **info)
    if kind == "BP":
        B = np.array(B)
        rec.ok(not ((B.sum(0) > 0) & (B.sum(1) > 0)).any(), "dag_bipartite", "a node of a bipartite graph has both parents and children", **info)
        rec.ok((B.sum(1) > 0).sum() <= int(.2 * d), "dag_bipartite", "too many nodes on the upper side of a bipartite graph", **info)
    ranges = [((-2.0, -0.5), (0.5, 2.0)), ((1., 2.),), ((-3., -2.), (-1., -.1), (.5, .6))][int(rng.integers(3))]
    W = np.array(twice(rec, rng, lambda: gen.simulate_parameter(B, ranges), "simulate_parameter"))
    rec.event("weights")
    rec.ok(np.array_equal(W != 0, np.array(B) != 0), "weights_support", "weights are not non-zero exactly on the edges", **info)
    w = W[W != 0]
    inside = np.zeros(len(w), dtype=bool)
    for lo, hi in ranges:
        k = (w >= lo) & (w <= hi)
        inside |= k
        if len(w) > 150:
            rec.ok(k.any(), "weights_ranges", "a range of weights is never used", ranges=ranges)
    rec.ok(inside.all(), "weights_ranges", "a weight lies outside its ranges", ranges=ranges)
    rec.ok(gen.is_dag(W), "is_dag", "is_dag refuses a graph without cycles", W=W.tolist())
    if edges:
        i, j = np.argwhere(W)[0]
        C = W.copy()
        C[j, i] = 1.
        rec.ok(not gen.is_dag(C), "is_dag", "is_dag accepts a cycle of two nodes")
        C = W.copy()
        C[i, i] = -1.
        rec.ok(not gen.is_dag(C), "is_dag", "is_dag accepts a node which is its own parent")
    # bands for lagged effects
    order = int(rng.integers(1, 4))
    A_bin = (rng.random((d, d, order)) < .3).astype(float)
    eta, low, high, scale = float(rng.choice([1., 1.5, 3.])), .3, .5, float(rng.choice([1., 2.]))
    A = np.array(gen.simulate_weight_A(A_bin, order, scale=scale, low=low, high=high, eta=eta))
    rec.ok(np.array_equal(A != 0, A_bin != 0), "lag_weights_support", "lagged weights are not non-zero exactly on the edges")
    for k in range(order):
        v = np.abs(A[:, :, k][A[:, :, k] != 0]) * eta ** k / scale
        rec.ok(((v > low - 1e-9) & (v < high + 1e-9)).all(), "lag_weights_range", f"weights of lag matrix {k} lie outside their range", eta=eta)
    g = np.array(gen.simulate_random_graph(d, str(rng.choice(["ER", "SF"])), 1, 2))
    rec.ok(g.shape == (d, d) and set(np.unique(g)) <= {0, 1}, "random_graph", "a random graph is no binary matrix of the requested size")


# ---------------------------------------------------------------- linear equations

def noise_ok(rec, Z, noise, scale, what, **info):
    """Columns of Z have the distribution of the noise."""
    n = len(Z)
    e = np.euler_gamma
    mean, sd = {"gauss": (0, 1), "exp": (1, 1), "gumbel": (e, np.pi / np.sqrt(6)), "uniform": (0, 1 / np.sqrt(3))}[noise]
    kurt = {"gauss": 2, "exp": 8, "gumbel": 4.4, "uniform": .8}[noise]
    for j in range(Z.shape[1]):
        z = Z[:, j] / scale[j]
        rec.ok(abs(z.mean() - mean) < 7 * sd / np.sqrt(n) + 1e-8, what + "_mean", f"noise of a node has mean {z.mean():.3f} instead of {mean:.3f}", noise=noise, **info)
        v = z.var() / sd ** 2
        rec.ok(abs(v - 1) < 7 * np.sqrt(kurt / n) + 40 / n, what + "_scale", f"noise of a node has {v:.3f} times its variance", noise=noise, **info)
        if noise == "exp":
            rec.ok(z.min() > -1e-6, what + "_sign", "exponential noise is negative", **info)
        elif noise == "uniform":
            rec.ok(np.abs(z).max() < 1 + 1e-6, what + "_range", "uniform noise beyond its range", **info)
        med, se = {"gauss": (0, 1.26), "exp": (np.log(2), 1), "gumbel": (-np.log(np.log(2)), 1.45), "uniform": (0, 1)}[noise]
        rec.ok(abs(np.median(z) - med) < 7 * se / np.sqrt(n) + 1e-8, what + "_shape", f"noise of a node has another shape (median {np.median(z):.3f} instead of {med:.3f})", noise=noise, **info)
    if Z.shape[1] > 1:
        C = np.corrcoef(Z.T) - np.eye(Z.shape[1])
        rec.ok(np.abs(C).max() < 7 / np.sqrt(n), what + "_dependent", f"noises of different nodes are correlated ({np.abs(C).max():.3f})", noise=noise, **info)


def a_scale(rec, rng, d):
    """noise_scale argument and what it means for each node."""
    k = int(rng.integers(3))
    if k == 0:
        return None, np.ones(d)
    if k == 1:
        s = float(rng.choice([.1, 2., 5.]))
        return s, np.full(d, s)
    rec.event("scale_vector")
    s = rng.uniform(.1, 3., d)
    return s, s


def case_linear(rec, rng, tier):
    from ylearn.exp_dataset import gen
    B = a_dag(rng)
    d = len(B)
    n = 1500
    kind = str(rng.choice(["gauss", "exp", "gumbel", "uniform", "logistic", "poisson"]))
    W = B * rng.uniform(.2, 2., (d, d)) * rng.choice([-1, 1], (d, d))
    if kind == "poisson":
        W = W / 8 / np.maximum(B.sum(0), 1)
    arg, scale = a_scale(rec, rng, d)
    info = dict(kind=kind, d=d, W=W.tolist(), noise_scale=scale.tolist())
    rec.sample(kind=kind, d=d)
    keep = W.copy()
    X = np.array(twice(rec, rng, lambda: gen.simulate_linear_sem(W, n, kind, arg), "simulate_linear_sem"))
    rec.event("linear")
    rec.seen("linear", kind, str(B.astype(int).tolist()))
    rec.ok(np.array_equal(keep, W), "weights_changed", "the weights given were changed")
    rec.ok(X.shape == (n, d) and np.isfinite(X).all(), "linear_shape", "simulated data has another shape", **info)
    if kind in ("logistic", "poisson"):
        rec.ok((X == np.round(X)).all() and (X >= 0).all() and (kind == "poisson" or (X <= 1).all()), "counts", "counts or labels are no integers in their range", **info)
        L = X @ W
        m = 1 / (1 + np.exp(-L)) if kind == "logistic" else np.exp(L)
        v = m * (1 - m) if kind == "logistic" else m
        for j in range(d):
            z = np.sum(X[:, j] - m[:, j]) / np.sqrt(np.sum(v[:, j]) + 1e-9)
            rec.ok(abs(z) < 7, "counts_mean", f"counts of a node miss their conditional mean by {z:.1f} standard errors", **info)
            for i in np.flatnonzero(B[:, j]):
                c = X[:, i] - X[:, i].mean()
                z = np.sum(c * (X[:, j] - m[:, j])) / np.sqrt(np.sum(c * c * v[:, j]) + 1e-9)
                rec.ok(abs(z) < 8, "counts_mean", f"counts of a node miss their conditional mean given a parent by {z:.1f} standard errors", **info)
            u = (X[:, j] - m[:, j]) ** 2 - v[:, j]
            z = u.sum() / np.sqrt(np.sum(v[:, j] * (1 - 4 * v[:, j]).clip(.01) if kind == "logistic" else v[:, j] + 2 * v[:, j] ** 2))
            rec.ok(abs(z) < 9 or v[:, j].sum() < 100, "counts_spread", f"counts of a node miss their variance by {z:.1f} standard errors", **info)
    else:
        noise_ok(rec, X - X @ W, kind, scale, "linear", **info)
    if kind == "gauss":
        P = np.array(gen.simulate_linear_sem(W, np.inf, "gauss", arg))
        rec.event("population")
        inv = np.linalg.inv(np.eye(d) - W)
        rec.close(P.T @ P / d, inv.T @ np.diag(scale ** 2) @ inv, "population", "the population covariance", rtol=1e-8, atol=1e-8)
    if B.any():
        i, j = np.argwhere(B)[0]
        C = W.copy()
        C[j, i] = 1.
        for f, what in ((lambda: gen.simulate_linear_sem(C, 10, kind), "cycle"), (lambda: gen.simulate_linear_sem(W, 10, kind, np.ones(d + 1)), "scale length"), (lambda: gen.simulate_linear_sem(W, 10, "unknown"), "type")):
            try:
                f()
                rec.ok(False, "accepted:" + what, "a wrong request is answered with data: " + what)
            except (ValueError, AssertionError):
                rec.ok(True, "", "")


def silent(P, x, i):
    """Whether parent i adds nothing to a cubic surface over the other parents (F test at 1e-4)."""
    from scipy.stats import f as F
    P = (P - P.mean(0)) / np.maximum(P.std(0), 1e-12)

    def rss(D):
        r = x - D @ np.linalg.lstsq(D, x, rcond=None)[0]
        return r @ r
    rest = [np.ones(len(x))] + [P[:, k] ** e for k in range(P.shape[1]) if k != i for e in (1, 2, 3)]
    mine = [P[:, i] ** e for e in (1, 2, 3)] + [P[:, i] * P[:, k] for k in range(P.shape[1]) if k != i]
    a, b = rss(np.column_stack(rest)), rss(np.column_stack(rest + mine))
    m, n = len(mine), len(x) - len(rest) - len(mine)
    return F.sf((a - b) / m / max(b / n, 1e-300), m, n) > 1e-4


def finish(ctx):
    for kind in ("mlp", "mim", "gp", "gp-add"):
        for at in (0, -1):
            n, k = ctx.events.get(f"parents:{kind}:{at}", 0), ctx.events.get(f"silent_parents:{kind}:{at}", 0)
            if n >= 12 and k > .3 * n:
                ctx.viol.setdefault("nonlinear_parents:" + kind, []).append(("nonlinear", 0, f"{k} of {n} parents have no influence on their child", dict(parents=n, silent=k)))


def case_nonlinear(rec, rng, tier):
    from ylearn.exp_dataset import gen
    kind = str(rng.choice(["mlp", "mim", "gp", "gp-add"]))
    B = a_dag(rng)
    d = len(B)
    n = 300 if kind.startswith("gp") else 1500
    scale = [None, np.full(d, .001), rng.uniform(.5, 2, d), .001, np.where(B.sum(0) > 0, .001, 1.)][int(rng.choice(5, p=[.15, .15, .15, .15, .4]))]
    arg = scale
    if scale is not None:
        rec.event("scale_vector")
        scale = np.ones(d) * scale
    X = np.array(twice(rec, rng, lambda: gen.simulate_nonlinear_sem(B, n, kind, arg), "simulate_nonlinear_sem"))
    info = dict(kind=kind, B=B.tolist(), noise_scale=None if scale is None else scale.tolist())
    s = np.ones(d) if scale is None else scale
    rec.event("nonlinear")
    rec.seen("nonlinear", kind, str(B.astype(int).tolist()))
    rec.ok(X.shape == (n, d) and np.isfinite(X).all(), "nonlinear_shape", "simulated data has another shape", **info)
    roots = np.flatnonzero(B.sum(0) == 0)
    noise_ok(rec, X[:, roots], "gauss", s[roots], "nonlinear_root", **info)
    for j in np.flatnonzero(B.sum(0) > 0):
        pa = np.flatnonzero(B[:, j])
        for at, p in ((0, pa[0]), (-1, pa[-1])):
            if s[j] < .01 and X[:, p].std() > .3 and len(pa) <= 3:
                # does the node still tell something about this parent once the others are known
                rec.event(f"parents:{kind}:{at}")
                rec.event(f"silent_parents:{kind}:{at}", int(silent(X[:, pa], X[:, j], list(pa).index(p))))
        x = X[:, j]
        if kind == "mim":
            rec.ok(np.abs(x).max() <= 3 + 6.5 * s[j], "nonlinear_bound", "a sum of three bounded functions is larger than they can be", **info)
        elif kind == "mlp":
            rec.ok(np.abs(x).max() <= 200 + 6.5 * s[j], "nonlinear_bound", "a network of bounded units is larger than they can be", **info)
        pa = np.flatnonzero(B[:, j])
        rec.ok(x.std() > .9 * s[j] * (1 - 7 / np.sqrt(2 * n)), "nonlinear_noise", "a node varies less than its noise", **info)
        if len(pa) == 1 and s[j] < .01 and s[pa[0]] < .01:
            # every function offered is smooth: in the narrow range of the parent it is close to a polynomial
            u = X[:, pa[0]]
            if u.std() < .02:
                t = (u - u.mean()) / u.std()
                r = x - np.polyval(np.polyfit(t, x, 4), t)
                rec.event("nonlinear_function")
                rec.ok(abs(r.std() / s[j] - 1) < 7 / np.sqrt(2 * n), "nonlinear_function", f"a node is no function of its parent plus noise ({r.std() / s[j]:.2f} times the noise)", **info)
    try:
        gen.simulate_nonlinear_sem(np.array([[0, 1], [0, 0]]), 10, "unknown")
        rec.ok(False, "accepted:type", "an unknown type is answered with data")
    except ValueError:
        rec.ok(True, "", "")


def case_lagged(rec, rng, tier):
    from ylearn.exp_dataset import gen
    if rng.random() < .5:
        # one slice given the slices before
        B = a_dag(rng)
        d = len(B)
        order, n = int(rng.integers(1, 4)), 1500
        W = B * rng.uniform(.2, 1.5, (d, d)) * rng.choice([-1, 1], (d, d))
        A = (rng.random((d, d, order)) < .4) * rng.uniform(.2, 1, (d, d, order))
        lag = rng.normal(size=(order, n, d))
        kind = str(rng.choice(["gauss", "uniform", "exp", "gumbel"])) if order == 1 else "gauss"
        arg, scale = a_scale(rec, rng, d)
        X = np.array(twice(rec, rng, lambda: gen.simulate_linear_sem_with_A(A, W, lag, n, kind, arg), "simulate_linear_sem_with_A"))
        Z = X - X @ W - sum(lag[k] @ A[:, :, k] for k in range(order))
        info = dict(kind=kind, d=d, order=order)
        rec.event("lagged")
        rec.seen("lagged", d, order, kind)
        spread = np.sqrt((Z ** 2).mean(0)).mean() / np.sqrt((scale ** 2)).mean() if kind == "gauss" else 1.
        # noise enters once, or once with every lag
        f = 1. if order == 1 or abs(spread - 1) < abs(spread - np.sqrt(order)) else np.sqrt(order)
        noise_ok(rec, Z, kind, scale * f, "lagged", **info)
        return
    n, d, step, order = 400, int(rng.integers(3, 6)), int(rng.integers(3, 7)), int(rng.integers(1, 4))
    arg, scale = a_scale(rec, rng, d)
    X, W, A = twice(rec, rng, lambda: gen.dygen(n=n, d=d, step=step, order=order, noise_scale=arg), "dygen")
    X, W, A = np.array(X), np.array(W), np.array(A)
    info = dict(n=n, d=d, step=step, order=order)
    rec.event("lagged")
    rec.seen("dygen", d, step, order)
    rec.ok(X.shape == ((step + order) * n, d) and W.shape == (d, d) and A.shape == (d, d, order), "dygen_shape", "generated series have another shape", **info)
    rec.ok(ancestors_ok(W), "dygen_cyclic", "the effects within a time slice have a cycle", **info)
    S = X.reshape(step + order, n, d)
    for t in range(order):
        noise_ok(rec, S[t] - S[t] @ W, "gauss", scale, "dygen_first", **info)
    Z = np.concatenate([S[t] - S[t] @ W - sum(S[t - order + k] @ A[:, :, k] for k in range(order)) for t in range(order, step + order)])
    spread = np.sqrt((Z ** 2).mean(0) / scale ** 2).mean()
    f = 1. if abs(spread - 1) < abs(spread - np.sqrt(order)) else np.sqrt(order)
    noise_ok(rec, Z, "gauss", scale * f, "dygen", **info)


# ---------------------------------------------------------------- experiments with known effects

def bounded_residual(rec, y, W, what, bound=1., coef=(0., 1.), support=5, **info):
    """y is W times few coefficients plus uniform noise; the support."""
    D = np.column_stack([W, np.ones(len(W))])
    b, *_ = np.linalg.lstsq(D, y, rcond=None)
    r = y - D @ b
    se = r.std() / np.sqrt(len(y))
    rec.ok(abs(r.std() - bound / np.sqrt(3)) < .08 and np.abs(r).max() < bound + 12 * se + .1, what + "_noise", f"{what}: what remains is no uniform noise (standard deviation {r.std():.3f}, largest {np.abs(r).max():.2f})", **info)
    b, b0 = b[:-1], b[-1]
    rec.ok(abs(b0) < 7 * se, what + "_offset", f"{what}: an offset of {b0:.3f}", **info)
    big = np.flatnonzero(np.abs(b) > 7 * se)
    rec.ok(len(big) <= support and (b > coef[0] - 7 * se).all() and (b < coef[1] + 7 * se).all(), what + "_support", f"{what}: coefficients of confounders are not the described ones", coefficients=b.tolist(), **info)
    return set(big.tolist())


def case_effects(rec, rng, tier):
    from ylearn.exp_dataset import exp_data as E
    kind = str(rng.choice(["binary", "continuous", "multi", "sq", "binary_data", "discrete", "coupon", "dose"]))
    s = int(rng.integers(10 ** 6))
    rec.event("effects")
    rec.event("effects:" + kind)
    rec.sample(kind=kind, seed=s)
    rec.seen(kind, s % 50)
    n = int(rng.choice([1500, 2500]))
    cols = lambda f, p: f[[c for c in f.columns if str(c).startswith(p)]].to_numpy()
    if kind in ("binary", "continuous", "multi"):
        nw = int(rng.choice([5, 8, 20]))
        nc = int(rng.integers(1, 4)) if kind == "continuous" else int(rng.integers(1, 6))
        info = dict(kind=kind, n=n, confounders=nw, covariates=nc, seed=s)
        if kind == "binary":
            f = lambda: E.single_binary_treatment(n=n, confounder_n=nw, covariate_n=nc, random_seed=s)
        elif kind == "continuous":
            f = lambda: E.single_continuous_treatment(num=n, confounder_n=nw, covariate_n=nc, random_seed=s)
        else:
            f = lambda: E.multi_continuous_treatment(n=n, n_w=nw, n_v=nc, random_seed=s)
        train, val, te = f()
        again = f()
        rec.ok(sorted(train.index.tolist() + val.index.tolist()) == list(range(n)), "split", "training and validation rows do not partition the generated rows", **info)
        rec.ok(train.shape[1] == val.shape[1] and list(train.columns) == list(val.columns), "split", "training and validation data have other columns", **info)
        D = pd.concat([train, val]).sort_index()
        D2 = pd.concat([again[0], again[1]]).sort_index()
        rec.ok(D.equals(D2), "reproducible:" + kind, "the same seed gives other data", **info)
        c, w, y = cols(D, "c_"), cols(D, "w_"), D["outcome"].to_numpy()
        rec.ok(c.shape == (n, nc) and w.shape == (n, nw), "columns", "numbers of confounders or covariates are not the requested ones", **info)
        rec.ok(((c >= 0) & (c <= 1)).all(), "covariates", "covariates beyond their range", **info)
        e1 = np.exp(2 * c[:, 0])
        if kind == "multi":
            x = D["treatment_0"].to_numpy()
            rec.close(D["treatment_1"], x ** 2, "square", "second treatment is the square of the first", rtol=1e-9, **info)
            rec.close(D["te1"], e1, "reported_effect", "reported effect of the first treatment", rtol=1e-9, **info)
            rec.close(D["te2"], np.log(1 + c[:, 0]), "reported_effect", "reported effect of the second treatment", rtol=1e-9, **info)
            test, t1, t2 = te
            q = cols(test, "c_")
            rec.close(t1, np.exp(2 * q[:, 0]), "test_effect", "expected effects of the test data", rtol=1e-9, **info)
            rec.close(t2, np.log(1 + q[:, 0]), "test_effect", "expected effects of the test data", rtol=1e-9, **info)
            rec.ok(q.shape[1] == nc, "columns", "test data has another number of covariates", **info)
            effect = D["te1"] * x + D["te2"] * x ** 2
        else:
            x = D["treatment"].to_numpy()
            rec.close(D["TE"], e1, "reported_effect", "reported effects", rtol=1e-9, **info)
            rec.close(np.asarray(te)[train.index], train["TE"], "returned_effect", "returned effects at the rows of the training data", rtol=1e-9, **info)
            rec.close(np.asarray(te)[val.index], val["TE"], "returned_effect", "returned effects at the rows of the validation data", rtol=1e-9, **info)
            effect = D["TE"] * x
        sy = bounded_residual(rec, (y - effect).to_numpy() if hasattr(y - effect, "to_numpy") else y - effect, w, "outcome", **info)
        if kind == "binary":
            rec.ok(set(np.unique(x)) <= {0, 1}, "treatment", "a binary treatment has other values", **info)
            from sklearn.linear_model import LogisticRegression
            p = LogisticRegression(C=1e6, max_iter=500).fit(w, x)
            z = 1 / (1 + np.exp(-(p.decision_function(w))))
            rec.ok(abs(p.intercept_[0]) < .45 and (p.coef_ > -.45).all() and (p.coef_ < 1.6).all(), "treatment", "the assignment does not follow the described odds", coefficients=p.coef_.tolist(), **info)
            weak = [j for j in range(nw) if p.coef_[0, j] > .45]
            rec.ok(len(weak) <= 5, "confounding", "too many confounders decide the treatment", **info)
        else:
            sx = bounded_residual(rec, x, w, "treatment", **info)
            rec.ok(len(sx | sy) <= 5, "confounding", "treatment and outcome do not share their confounders", outcome=sorted(sy), treatment=sorted(sx), **info)
    elif kind == "sq":
        d, nx = int(rng.integers(1, 5)), int(rng.integers(1, 4))
        y, x, v = E.sq_data(n, d, nx, random_seed=s)
        info = dict(kind=kind, d=d, treatments=nx, seed=s)
        rec.ok(y.shape == (n, 1) and x.shape == (n, nx) and v.shape == (n, d) and set(np.unique(x)) <= {0, 1}, "sq_shape", "shapes or values of generated data", **info)
        te = np.hstack([v[:, [0]] ** 2 + 1, np.ones((n, nx - 1))])
        r = y[:, 0] - (te * x).sum(1)
        rec.ok(abs(r.mean()) < 7 * .5 / np.sqrt(n) and abs(r.std() / .5 - 1) < 7 / np.sqrt(2 * n), "sq_noise", f"outcome minus effects is no noise of deviation one half ({r.mean():.3f}, {r.std():.3f})", **info)
        q = np.column_stack([v, x])
        rec.ok(np.abs(r @ (q - q.mean(0)) / n / q.std(0)).max() < 7 * .5 / np.sqrt(n), "sq_noise", "noise depends on treatments or covariates", **info)
        p = 1 / (1 + np.exp(-v[:, 0]))
        for t in range(nx):
            for wgt in (np.ones(n), v[:, 0]):
                z = ((x[:, t] - p) * wgt).sum() / np.sqrt((p * (1 - p) * wgt ** 2).sum())
                rec.ok(abs(z) < 7, "sq_treatment", f"treatments miss their probability by {z:.1f} standard errors", **info)
        b = E.sq_data(n, d, nx, random_seed=s)
        rec.ok(all(np.array_equal(i, j) for i, j in zip((y, x, v), b)), "reproducible:sq", "the same seed gives other data", **info)
    elif kind == "binary_data":
        d = int(rng.integers(3, 7))
        y, x, v = E.binary_data(n=n, d=d)
        info = dict(kind=kind, d=d)
        rec.ok(y.shape == (n,) and x.shape == (n,) and v.shape == (n, d) and set(np.unique(x)) <= {0, 1}, "binary_shape", "shapes or values of generated data", **info)
        y0 = y - np.where(v[:, 1] > .1, 8, 0) * x
        b, *_ = np.linalg.lstsq(np.column_stack([v, np.ones(n)]), y0, rcond=None)
        r = y0 - np.column_stack([v, np.ones(n)]) @ b
        rec.ok(abs(r.std() - 1) < 7 / np.sqrt(2 * n) + .01 and (np.abs(b[:-1]) < 3.3).all(), "binary_outcome", f"outcomes without the effect are not linear with unit noise ({r.std():.3f})", **info)
        p = np.where((v[:, 2] > -.5) & (v[:, 2] < .5), .8, .2)
        for side in (p > .5, p < .5):
            z = (x - p)[side].sum() / np.sqrt((p * (1 - p))[side].sum())
            rec.ok(abs(z) < 7, "binary_treatment", f"treatments miss their probability by {z:.1f} standard errors", **info)
    elif kind == "discrete":
        k, nw = int(rng.integers(2, 5)), int(rng.integers(1, 5))
        eff = rng.uniform(-50, 50, k).tolist()
        eps = float(rng.choice([1e-4, 1e-2]))
        D = E.meaningless_discrete_dataset_(n, eff, confounder_n=nw, eps=eps, random_seed=s)
        x2, w2, y2 = E.meaningless_discrete_dataset_(n, eff, confounder_n=nw, eps=eps, random_seed=s, data_frame=False)
        info = dict(kind=kind, treatments=k, confounders=nw, eps=eps, seed=s)
        x, w, y = D["treatment"].to_numpy(), cols(D, "w_"), D["outcome"].to_numpy()
        rec.ok(np.array_equal(x, x2) and np.array_equal(w, w2) and np.array_equal(y, np.ravel(y2)), "reproducible:discrete", "data frame and arrays of one seed differ", **info)
        rec.ok(w.shape == (n, nw) and set(np.unique(x)) <= set(range(k)), "discrete_shape", "shapes or values of generated data", **info)
        r = y - np.array(eff)[x]
        b, *_ = np.linalg.lstsq(w, r, rcond=None)
        q = r - w @ b
        rec.ok(abs(q.std() / eps - 1) < 7 / np.sqrt(2 * n) + .01 and abs(q.mean()) < 7 * eps / np.sqrt(n), "discrete_outcome", f"outcomes minus reported effects are not linear in the confounders ({q.std():.2g} instead of {eps})", **info)
    elif kind == "dose":
        k, nw = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        eff, prob = rng.uniform(-5, 5, k), rng.dirichlet(np.ones(k))
        D, coef = E.meaningless_discrete_dataset(n, nw, treatment_effct=eff, prob=prob, random_seed=s, coef_range=5e4)
        x2, w2, y2, c2 = E.meaningless_discrete_dataset(n, nw, treatment_effct=eff, prob=prob, random_seed=s, coef_range=5e4, data_frame=False)
        x, w, y = D["treatment"].to_numpy(), cols(D, "w_"), D["outcome"].to_numpy()
        info = dict(kind=kind, treatments=k, confounders=nw, seed=s)
        rec.ok(np.array_equal(x, x2) and np.array_equal(y, y2) and np.array_equal(coef, c2), "reproducible:dose", "data frame and arrays of one seed differ", **info)
        rec.ok(set(np.unique(x)) <= set(range(k)) and w.shape == (n, nw), "dose_shape", "shapes or values of generated data", **info)
        r = y - eff[x] * x - w @ np.asarray(coef, float)
        rec.ok(abs(r.std() - 1) < 7 / np.sqrt(2 * n) and abs(r.mean()) < 7 / np.sqrt(n) + .01, "dose_outcome", f"outcomes minus reported effects and confounding are no noise ({r.mean():.3f}, {r.std():.3f})", **info)
    else:
        style, inc = str(rng.choice(["binary", "continuous"])), bool(rng.random() < .5)
        np.random.seed(s)
        D = E.coupon_dataset(n, treatment_style=style, with_income=inc)
        info = dict(kind=kind, style=style, income=inc, seed=s)
        rec.ok(len(D) == n and ("income" in D) == inc and D.notna().all().all(), "coupon_shape", "shapes of generated data", **info)
        g, c = D["gender"], D["coupon"]
        if inc:
            r = D["amount"] - (c * 150 + g * 100 + 150 + D["income"] / 5)
            rec.close(D["time_spent"], c * 10 + D["amount"] / 10, "coupon_time", "time spent", rtol=1e-9, **info)
            u = c - (g * 20 + 110 + D["income"] / 50)
        else:
            r = D["amount"] - (c * 30 + g * 100 + 150)
            rec.close(D["time_spent"], c * 100 + D["amount"] / 10, "coupon_time", "time spent", rtol=1e-9, **info)
            u = c - (g * 20 + 150)
        rec.ok(abs(r.mean()) < 7 / np.sqrt(n) and abs(r.std() - 1) < 7 / np.sqrt(2 * n), "coupon_amount", f"amounts do not follow their equation ({r.mean():.3f}, {r.std():.3f})", **info)
        if style == "binary":
            rec.ok(set(np.unique(c)) <= {0, 1} and c[g == 1].mean() > c[g == 0].mean(), "coupon_treatment", "coupons do not depend on gender as described", **info)
        else:
            rec.ok(abs(u.mean()) < 7 * 5 / np.sqrt(n) and abs(u.std() / 5 - 1) < 7 / np.sqrt(2 * n), "coupon_treatment", "coupons do not follow their equation", **info)


# ---------------------------------------------------------------- accuracy of recovered graphs

def accuracy(T, E):
    """The definition, pair by pair."""
    d = len(T)
    true = {(i, j) for i in range(d) for j in range(d) if T[i, j] != 0}
    pred = {(i, j) for i in range(d) for j in range(d) if E[i, j] == 1}
    und = {(i, j) for i in range(d) for j in range(d) if E[i, j] == -1}
    rev = {(j, i) for i, j in true}
    tp = len(pred & true) + len(und & (true | rev))
    reverse = len((pred - true) & rev)
    fp = len(pred - true - rev) + len(und - true - rev)
    pairs = lambda q: {frozenset(e) for e in q}
    p, t = pairs(pred | und), pairs(true)
    return dict(fdr=(reverse + fp) / max(len(pred) + len(und), 1), tpr=tp / max(len(true), 1), fpr=(reverse + fp) / max(d * (d - 1) / 2 - len(true), 1), shd=len(p ^ t) + reverse, nnz=len(pred) + len(und)), reverse


def case_metric(rec, rng, tier):
    from ylearn.exp_dataset.gen import count_accuracy
    for _ in range(5):
        T = a_dag(rng)
        d = len(T)
        k = int(rng.integers(5))
        if k == 0:
            E = T.copy()
        elif k == 1:
            E = T.T.copy()
        else:
            E = np.zeros((d, d))
            for i in range(d):
                for j in range(i):
                    u = rng.random()
                    if u < .4:
                        E[i, j] = T[i, j]
                        E[j, i] = T[j, i]
                    elif u < .7:
                        a, b = (i, j) if rng.random() < .5 else (j, i)
                        E[a, b] = 1
                    elif u < .85 and k > 2:
                        a, b = (i, j) if rng.random() < .5 else (j, i)
                        E[a, b] = -1
        W = T * rng.uniform(.5, 2, (d, d)) if rng.random() < .3 else T
        keep = E.copy()
        boolean = not (E < 0).any() and rng.random() < .3
        got = count_accuracy(W, E != 0 if boolean else E)
        want, reverse = accuracy(T, E)
        rec.event("metric")
        rec.event("metric_undirected", int((E < 0).any()))
        rec.event("metric_reverse", int(reverse > 0))
        rec.seen("metric", str(T.astype(int).tolist()), str(E.astype(int).tolist()))
        rec.ok(np.array_equal(keep, E), "metric_argument", "the estimate was changed")
        for q in want:
            if boolean and q == "shd" and ((E + E.T) > 1).any():
                continue
            rec.close(got[q], want[q], "metric:" + q, f"{q} of a recovered graph", rtol=1e-9, truth=T.tolist(), estimate=E.tolist())


GROUPS = [
    Group("graphs", case_graphs, quick=250, thorough=6000, timeout=100),
    Group("linear", case_linear, quick=220, thorough=5000, timeout=100),
    Group("nonlinear", case_nonlinear, quick=170, thorough=2000, timeout=100),
    Group("lagged", case_lagged, quick=80, thorough=1500, timeout=100),
    Group("effects", case_effects, quick=90, thorough=2000, timeout=100),
    Group("metrics", case_metric, quick=150, thorough=4000, timeout=60),
]
