"""C16: uplift curves, top points and area scores against a loop over the ranked rows."""
import numpy as np
import pandas as pd

from vm.core import Group, Skip

PROPERTY = "C16"
RULE = ("one evaluation = one curve, score or top point compared with counting over the rows ranked by the prediction, or with the "
        "same table in another row order, index, scale or set of columns; distinct = distinct (labels, dtypes, ties, true effect, size)")
REQUIRE = {"curves": 300, "scores": 300, "ties": 50, "true_effect": 30, "model": 60, "metamorphic": 100, "perfect": 60, "plots": 10, "random": 100}

LABELS = [(1, 0), (0, 1), ("b", "a"), ("a", "b"), (5, 2), (-1, 3), (2.5, .5), (True, False), ("treated", "none")]


def table(rng, n=None, true_effect=None, ties=None, ncol=None, big=False):
    """(frame, keyword arguments, names of the prediction columns)."""
    n = n or int(rng.integers(4, 200))
    tr, ct = LABELS[int(rng.integers(len(LABELS)))]
    p = float(rng.choice([.5, .5, .2, .8]))
    t = rng.random(n) < p
    t[int(rng.integers(n))] = True
    if t.all():
        t[0] = False
    te = rng.normal(.5, 1, n)
    kind = int(rng.integers(6))
    kind = kind if n > 40 or kind != 3 else 4
    y = (rng.random(n) < 1 / (1 + np.exp(-te * t))).astype(int) if kind in (0, 1, 2) else rng.normal(size=n) * 3 + te * t + rng.choice([0., 10., -4.])
    if kind == 1:
        y = y.astype(bool)
    elif kind == 2:
        y = (y * int(rng.integers(1, 200))).astype([np.uint8, np.int16, np.int32][int(rng.integers(3))])
    elif kind == 3:
        y = y.round(2).astype(np.float32)
    names = dict(outcome=str(rng.choice(["y", "outcome", "sales"])), treatment=str(rng.choice(["x", "treatment", "w"])), treat=tr, control=ct)
    d = {}
    ncol = ncol or int(rng.integers(1, 4))
    cols = []
    for j in range(ncol):
        s = te * float(rng.choice([1, .3, 0, -1])) + rng.normal(size=n)
        tied = ties if ties is not None else rng.random() < .35
        if tied:
            s = np.round(s * float(rng.choice([.5, 1, 2]))) * float(rng.choice([1, .1]))
        elif len(np.unique(s)) < n:
            s = s + np.arange(n) * 1e-9
        c = [f"score{j}", f"m{j}", j, f"__x_{j}"][int(rng.integers(4))]
        cols.append(c)
        d[c] = s.astype(int) if tied and np.all(s == s.astype(int)) and rng.random() < .3 else s
    d[names["outcome"]] = y
    d[names["treatment"]] = np.where(t, tr, ct) if not isinstance(tr, str) or rng.random() < .5 else pd.Categorical(np.where(t, tr, ct))
    kw = dict(names)
    if true_effect if true_effect is not None else rng.random() < .3:
        d["te"] = te
        kw["true_effect"] = "te"
    d = pd.DataFrame(d)
    d = d[[d.columns[i] for i in rng.permutation(d.shape[1])]]
    i = int(rng.integers(4))
    d.index = [pd.RangeIndex(n), pd.Index(rng.permutation(n) * 3 + 7), pd.Index([f"r{v % 5}" for v in range(n)]), pd.Index(rng.integers(0, 4, n))][i]
    if kw["outcome"] == "y" and kw["treatment"] == "x" and kw["treat"] == 1 and kw["control"] == 0 and rng.random() < .7:
        kw = {k: v for k, v in kw.items() if k == "true_effect"}
    return d, kw, cols


def full(kw):
    return dict(dict(outcome="y", treatment="x", treat=1, control=0, true_effect=None), **kw)


def fill(v):
    """Linear interpolation of undefined rows between known ones (row 0 is zero); the last value is kept after the last known row."""
    v = np.asarray(v, float)
    ok = np.flatnonzero(~np.isnan(v))
    return np.interp(np.arange(len(v)), ok, v[ok])


def count(d, col, kw):
    """lift, gain and qini by rank 0..n (undefined rows NaN) and where each is determined (between blocks of equal scores)."""
    k = full(kw)
    s = d[col].to_numpy(dtype=float)
    order = sorted(range(len(d)), key=lambda i: -s[i])
    y = [float(v) for v in d[k["outcome"]].to_numpy()]
    t = [v == k["treat"] for v in d[k["treatment"]].tolist()]
    te = d[k["true_effect"]].to_numpy(float) if k["true_effect"] else None
    lift, gain, qini, det = [0.], [0.], [0.], [True]
    n1 = n0 = 0
    y1 = y0 = e = 0.
    for r, i in enumerate(order, 1):
        if t[i]:
            n1, y1 = n1 + 1, y1 + y[i]
        else:
            n0, y0 = n0 + 1, y0 + y[i]
        if te is not None:
            e += te[i]
            l, q = e / r, e / r * n1
        else:
            l = y1 / n1 - y0 / n0 if n1 and n0 else np.nan
            q = y1 - y0 * n1 / n0 if n0 else np.nan
        lift.append(l)
        gain.append(l * r)
        qini.append(q)
        det.append(r == len(order) or s[order[r]] != s[i])
    return dict(lift=np.array(lift), gain=np.array(gain), qini=np.array(qini), det=np.array(det), scores=np.array([s[i] for i in order]))


def api():
    from ylearn import uplift as U
    return dict(lift=U.get_cumlift, gain=U.get_gain, qini=U.get_qini, auuc=U.auuc_score, qscore=U.qini_score, gtop=U.gain_top_point, qtop=U.qini_top_point)


def norm(v):
    with np.errstate(all="ignore"):
        return v / abs(v[-1])


def envelope(rng, d, kw, which, m=200):
    """Mean heights of the curves of m random rankings: (low, high) for the mean height of an average of ten, and the heights, the last value."""
    e = []
    for _ in range(m):
        f = d.assign(**{"__r": rng.random(len(d))})
        v = fill(count(f, "__r", kw)[which])
        e.append(v.mean())
    e = np.array(e)
    w = 5 * e.std() + 1e-6 * (1 + np.abs(e).max())
    return e.mean() - w, e.mean() + w, v[-1]


def same_frame(a, b):
    return list(a.columns) == list(b.columns) and a.index.equals(b.index) and a.equals(b)


def curves(rec, rng, tier):
    A = api()
    d, kw, cols = table(rng)
    before = d.copy(deep=True)
    n = len(d)
    tied = {c: d[c].nunique() < n for c in cols}
    rec.seen(kw, str(d.dtypes.to_dict()), tied, n)
    rec.event("ties", sum(tied.values()))
    rec.event("true_effect", int("true_effect" in kw))
    rec.sample(kw=kw, n=n, columns=cols)
    info = dict(kw=kw, n=n, dtypes=str(d.dtypes.to_dict()))
    acc = 1e-3 if d[full(kw)["outcome"]].dtype == np.float32 else 1e-6  # sums of single precision
    tag = "te:" if "true_effect" in kw else ""
    got = {}
    for w in ("lift", "gain", "qini"):
        for normalize in ((False, True) if w != "lift" else (None,)):
            o = {} if normalize is None else dict(normalize=normalize)
            r = A[w](d, random_name=None, **o, **kw)
            got[w, normalize] = r
            rec.ok(list(r.columns) == [c for c in d.columns if c in cols], f"{tag}{w}:columns", f"columns {list(r.columns)}", **info)
            rec.ok(list(r.index) == list(range(n + 1)), f"{tag}{w}:index", "the index is not the number of rows targeted", **info)
            for c in cols:
                want = count(d, c, kw)
                v = want[w]
                if not tied[c]:
                    v = fill(v)
                m = want["det"] & ~np.isnan(v)
                if normalize:
                    v = norm(v)
                rec.event("curves")
                if normalize and abs(want[w][-1]) < 1e-6:
                    continue
                rec.close(r[c].to_numpy()[m], v[m], f"{tag}{w}:values", f"{w} of {c}, normalize={normalize}, ties={tied[c]}", rtol=acc, atol=acc, **info)
                rec.ok(r[c].iloc[0] == 0 or normalize, f"{tag}{w}:origin", "the curve does not start from zero", **info)
    for c in cols:
        for normalize in (True, False):
            a = A["auuc"](d, normalize=normalize, random_name=None, **kw)
            if normalize and abs(count(d, c, kw)["gain"][-1]) < 1e-6:
                continue
            rec.event("scores")
            curve = got["gain", normalize][c]
            rec.close(a[c], curve.sum() / (n + 1), f"{tag}auuc:value", "area under the gain curve", rtol=1e-9, **info)
            rec.ok(list(a.index) == [x for x in d.columns if x in cols], f"{tag}auuc:index", f"names {list(a.index)}", **info)
            if not tied[c]:
                v = fill(count(d, c, kw)["gain"])
                v = norm(v) if normalize else v
                rec.close(a[c], v.sum() / (n + 1), f"{tag}auuc:value", "area under the counted gain curve", rtol=acc, atol=acc, **info)
    for name, w in (("gtop", "gain"), ("qtop", "qini")):
        top = A[name](d, **kw)
        rec.ok(sorted(map(str, top.index)) == sorted(map(str, cols)), f"{tag}{w}:top_names", f"names {list(top.index)}", **info)
        for c in cols:
            want = count(d, c, kw)
            v = want[w][1:]
            if tied[c]:
                rec.ok(top[c] in want["scores"], f"{tag}{w}:top", "top point is not one of the predictions", **info)
                continue
            best = np.nanmax(v)
            at = np.flatnonzero(want["scores"] == float(top[c]))
            rec.ok(len(at) == 1 and np.isclose(v[at[0]], best, rtol=acc, atol=acc * 10), f"{tag}{w}:top",
                   f"the {w} at the reported top point {top[c]!r} is not the largest", **info)
    # random baseline: other columns the same, its own values those of random rankings
    name = str(rng.choice(["RANDOM", "base"]))
    w = ["lift", "gain", "qini"][int(rng.integers(3))]
    np.random.seed(int(rng.integers(2**31)))
    r = A[w](d, random_name=name, **({} if w == "lift" else dict(normalize=False)), **kw)
    rec.event("random")
    rec.ok(set(r.columns) == set(cols) | {name}, "random:columns", f"columns {list(r.columns)}", **info)
    for c in cols:
        rec.close(r[c], got[w, None if w == "lift" else False][c], "random:others", "a random baseline changed another column", rtol=1e-12, **info)
    lo, hi, last = envelope(rng, d, kw, w)
    v = r[name].mean()
    rec.ok(lo <= v <= hi, "random:values", "the baseline is outside of what random rankings give", mean=v, low=lo, high=hi, **info)
    rec.close(r[name].iloc[[0, -1]], [0, last], "random:ends", "the baseline does not go from zero to the value of the whole population", rtol=acc, atol=acc, **info)
    if abs(count(d, cols[0], kw)["qini"][-1]) > 1e-6:
        for random_name in (None, name):
            normalize = bool(rng.random() < .5)
            q = A["qscore"](d, normalize=normalize, random_name=random_name, **kw)
            rec.event("scores")
            rec.ok(set(q.index) == set(cols) | ({random_name} if random_name else set()), f"{tag}qini:score_names", f"{list(q.index)}", **info)
            if random_name:
                rec.close(q[random_name], 0, f"{tag}qini:score_random", "the baseline's own Qini score is not zero", atol=1e-12, **info)
            lo, hi, last = envelope(rng, d, kw, "qini", 60)
            scale = abs(last) if normalize else 1
            base = [got["qini", normalize][c].sum() / (n + 1) - q[c] for c in cols]
            rec.ok(all(lo <= b * scale <= hi for b in base), f"{tag}qini:score",
                   "area between the curve and a random ranking's", base=base, low=lo / scale, high=hi / scale, **info)
            rec.close(base, [base[0]] * len(base), f"{tag}qini:score_base", "the columns are measured against different baselines", atol=1e-9, **info)
    rec.ok(same_frame(d, before), "data_changed", "the caller's frame was changed", **info)


def metamorphic(rec, rng, tier):
    A = api()
    d, kw, cols = table(rng, ties=False)
    n = len(d)
    info = dict(kw=kw, n=n)
    funcs = [("lift", {}), ("gain", dict(normalize=bool(rng.integers(2)))), ("qini", dict(normalize=bool(rng.integers(2))))]

    def run(f, k, cs):
        out = {}
        for w, o in funcs:
            out[w] = A[w](f, random_name=None, **o, **k)[cs].to_numpy()
        out["auuc"] = A["auuc"](f, random_name=None, **k)[cs].to_numpy()
        return out

    base = run(d, kw, cols)
    rec.event("metamorphic")
    rec.seen("meta", kw, n, cols)
    perm = rng.permutation(n)
    p = run(d.iloc[perm], kw, cols)
    q = run(d.set_axis(pd.Index(rng.integers(0, max(2, n // 2), n))), kw, cols)
    # only the order of the predictions counts
    f = d.copy()
    i = int(rng.integers(4))
    for c in cols:
        s = f[c].to_numpy(float)
        f[c] = [3 * s - 7, s ** 3 + s, np.arctan(s / 5), pd.Series(s).rank().to_numpy()][i]
        if f[c].nunique() < n:
            f[c] = d[c]
    m = run(f, kw, cols)
    # one column at a time, other columns dropped or moved
    one = {w: [] for w in base}
    k = full(kw)
    keep = [k["outcome"], k["treatment"]] + ([k["true_effect"]] if k["true_effect"] else [])
    for c in cols:
        r = run(d[[d.columns[j] for j in rng.permutation(d.shape[1]) if d.columns[j] in keep or d.columns[j] == c]], kw, [c])
        for w in base:
            one[w].append(r[w].reshape(len(r[w]), -1)[:, 0] if w != "auuc" else r[w][0])
    # other labels for the two levels
    g = d.copy()
    isT = np.array([v == k["treat"] for v in d[k["treatment"]].tolist()])
    new = LABELS[int(rng.integers(len(LABELS)))]
    g[k["treatment"]] = np.where(isT, new[0], new[1])
    lab = run(g, dict(kw, treat=new[0], control=new[1]), cols)
    for w in base:
        rec.close(p[w], base[w], f"meta:rows:{w}", "rows in another order", rtol=1e-9, atol=1e-12, **info)
        rec.close(q[w], base[w], f"meta:index:{w}", "another index", rtol=1e-12, **info)
        rec.close(m[w], base[w], f"meta:monotone:{w}", f"increasing function {i} of the predictions", rtol=1e-12, **info)
        o = np.array(one[w]) if w == "auuc" else np.stack(one[w], axis=1)
        rec.close(o, base[w], f"meta:columns:{w}", "one column at a time", rtol=1e-12, **info)
        rec.close(lab[w], base[w], f"meta:labels:{w}", f"levels named {new}", rtol=1e-12, **info)
    if not k["true_effect"]:
        # exchanging the arms negates lift and gain
        sw = run(d, dict(kw, treat=k["control"], control=k["treat"]), cols)
        rec.close(sw["lift"], -base["lift"], "meta:swap:lift", "treatment and control exchanged", rtol=1e-9, atol=1e-12, **info)
        # a constant added to the outcome leaves lift and gain, outcomes times a positive number scale them
        h = d.copy()
        h[k["outcome"]] = d[k["outcome"]].astype(float) * 2.5 + 4
        sh = run(h, kw, cols)
        known = count(d, cols[0], kw)
        mm = ~np.isnan(known["lift"])
        mm[0] = True
        rec.close(sh["lift"][mm, 0], 2.5 * base["lift"][mm, 0], "meta:affine:lift", "outcomes scaled and shifted", rtol=1e-5, atol=1e-5, **info)


def perfect(rec, rng, tier):
    A = api()
    mode = int(rng.integers(2))
    if mode == 0:
        d, kw, _ = table(rng, true_effect=True, n=int(rng.integers(6, 150)))
        k = full(kw)
        d = d[[k["outcome"], k["treatment"], "te"]].copy()
        d["good"], d["bad"] = d["te"], -d["te"]
        for j in range(3):
            d[f"any{j}"] = rng.normal(size=len(d)) + d["te"] * rng.normal()
        for normalize in (True, False):
            a = A["auuc"](d, random_name="R", normalize=normalize, **kw)
            tol = 1e-9 * np.abs(a).max()
            rec.ok(a["good"] >= a["bad"] - tol, "perfect:auuc", "ranking by the true effect scores below its reverse", kw=kw)
            rec.ok(all(a["good"] >= a[c] - tol for c in ("R", "any0", "any1", "any2")), "perfect:auuc_best", "another ranking scores above that of the true effects", kw=kw)
        l = A["lift"](d, random_name=None, **kw)
        rec.ok(np.all(l["good"].to_numpy() >= l["bad"].to_numpy() - 1e-9 * (1 + l.abs().to_numpy().max())), "perfect:lift", "lift of the reverse above that of the true effects", kw=kw)
    else:
        # randomised pairs, large separated effects of both signs
        n = 4 * int(rng.integers(10, 40))
        tr, ct = LABELS[int(rng.integers(len(LABELS)))]
        te = np.repeat(np.where(np.arange(n // 2) % 2, 3., -2.) + rng.normal(0, .2, n // 2), 2)
        t = np.tile([1, 0], n // 2)
        d = pd.DataFrame(dict(y=te * t + rng.normal(0, .1, n), x=np.where(t == 1, tr, ct), good=te + rng.random(n) * 1e-3))
        d["bad"] = -d["good"]
        d = d.iloc[rng.permutation(n)]
        kw = dict(treat=tr, control=ct)
        a = A["auuc"](d, random_name=None, normalize=False, **kw)
        q = A["qscore"](d, random_name=None, normalize=False, **kw)
        qr = A["qscore"](d, random_name="RANDOM", normalize=False, **kw)
        rec.ok(a["good"] > a["bad"], "perfect:auuc", "ranking by the effect scores below its reverse", a=dict(a), kw_=kw)
        rec.ok(q["good"] > 0 > q["bad"], "perfect:qini", "ranking by the effect does not beat a random one", q=dict(q), kw_=kw)
        rec.ok(qr["good"] > qr["RANDOM"] > qr["bad"], "perfect:qini", "ranking by the effect does not beat a random one", q=dict(qr), kw_=kw)
    rec.event("perfect")
    rec.seen("perfect", mode, len(d), kw)


def model(rec, rng, tier):
    from ylearn.uplift import UpliftModel
    A = api()
    d, kw, cols = table(rng, ncol=int(rng.integers(1, 4)))
    before = d.copy(deep=True)
    n = len(d)
    um = UpliftModel()
    name = [None, "RANDOM", "base"][int(rng.integers(3))]
    r = um.fit(d, random=name, **kw)
    info = dict(kw=kw, n=n, random=name)
    rec.event("model")
    rec.seen("model", kw, n, name)
    rec.ok(r is um, "model:fit", "fit does not return the model")
    for w, f in (("lift", um.get_cumlift), ("gain", um.get_gain), ("qini", um.get_qini)):
        for norm_ in ((None,) if w == "lift" else (False, True)):
            o = {} if norm_ is None else dict(normalize=norm_)
            got = f(**o)
            want = A[w](d, random_name=None, **o, **kw)
            rec.ok(set(got.columns) == set(cols) | ({name} if name else set()), f"model:{w}:columns", f"{list(got.columns)}", **info)
            for c in cols:
                rec.close(got[c], want[c], f"model:{w}", f"curve of {c} kept by the model, normalize={norm_}", rtol=1e-12, **info)
            if name and norm_ is not True:
                lo, hi, _ = envelope(rng, d, kw, w, 60)
                rec.ok(lo <= got[name].mean() <= hi, "model:random", "baseline outside of what random rankings give", **info)
            got.iloc[:, :] = -1.
            rec.ok(not (f(**o).to_numpy() == -1.).all(), "model:alias", f"the model's own {w} was handed out", **info)
    a = um.auuc_score()
    want = A["auuc"](d, random_name=None, **kw)
    gt, qt = um.gain_top_point(), um.qini_top_point()
    wg, wq = A["gtop"](d, **kw), A["qtop"](d, **kw)
    q = um.qini_score()
    for s, what in ((a, "auuc"), (gt, "gain_top"), (qt, "qini_top"), (q, "qini_score")):
        rec.ok(set(s.index) == set(cols), f"model:{what}:names", f"{list(s.index)}", **info)
    diff = []
    for c in cols:
        rec.close(a[c], want[c], "model:auuc", "score kept by the model", rtol=1e-12, **info)
        rec.close(um.auuc_score(c), want[c], "model:auuc", "score of one column", rtol=1e-12, **info)
        rec.close([gt[c], um.gain_top_point(c)], [wg[c]] * 2, "model:gain_top", "top point", **info)
        rec.close([qt[c], um.qini_top_point(c)], [wq[c]] * 2, "model:qini_top", "top point", **info)
        rec.close(um.qini_score(c), q[c], "model:qini_score", "score of one column", rtol=1e-12, **info)
        diff.append(um.get_qini(normalize=True)[c].sum() / (n + 1) - q[c])
    rec.close(diff, [diff[0]] * len(diff), "model:qini_base", "columns measured against different baselines", atol=1e-9, **info)
    rec.ok(same_frame(d, before), "data_changed", "the caller's frame was changed", **info)
    # a second fit forgets the first
    d2, kw2, cols2 = table(rng)
    um.fit(d2, random=None, **kw2)
    rec.ok(set(um.get_gain().columns) == set(cols2) == set(um.auuc_score().index) == set(um.qini_score().index) == set(um.qini_top_point().index), "model:refit",
           "columns of an earlier fit remain")
    for c in cols2:
        rec.close(um.get_qini()[c], A["qini"](d2, random_name=None, normalize=False, **kw2)[c], "model:refit", "curve after a second fit", rtol=1e-12)


def plots(rec, rng, tier):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from ylearn.uplift import UpliftModel, plot_gain, plot_qini
    d, kw, cols = table(rng, n=int(rng.integers(60, 150)), ncol=2, ties=False)
    um = UpliftModel().fit(d, **kw)
    ns = int(rng.integers(10, 50))
    for f, curve, top in ((plot_gain, um.get_gain, 0), (plot_qini, um.get_qini, 0)):
        for normalize in (False, True):
            plt.close("all")
            how = int(rng.integers(3))
            if how == 0:
                f(um, n_sample=ns, normalize=normalize)
            elif how == 1:
                f(curve(normalize=normalize), n_sample=ns)
            else:
                getattr(um, f.__name__)(n_sample=ns, normalize=normalize)
            ax = plt.gcf().axes[0]
            want = curve(normalize=normalize)
            labels = [t.get_text() for t in ax.get_legend().get_texts()]
            rec.event("plots")
            rec.seen("plot", f.__name__, how, normalize, ns, len(d))
            rec.ok(labels == [str(c) for c in want.columns], "plot:names", f"lines {labels}")
            for line, c in zip(ax.lines, want.columns):
                x = np.asarray(line.get_xdata(), int)
                rec.ok(len(x) == ns and x[0] == 0 and x[-1] == len(d), "plot:range", f"{len(x)} points from {x[0]} to {x[-1]}")
                rec.close(line.get_ydata(), want[c].to_numpy()[x], "plot:values", "drawn points are not on the curve")
    plt.close("all")


GROUPS = [Group("curves", curves, 240, 4000), Group("metamorphic", metamorphic, 240, 4000), Group("perfect", perfect, 160, 2000),
          Group("model", model, 120, 1500), Group("plots", plots, 16, 120)]
