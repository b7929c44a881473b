"""C11: the same data in another spelling - labels, column names and order, row index, single names, number types."""
import numpy as np
import pandas as pd

from vm.core import Group, Skip
from vm import est, zoo

PROPERTY = "C11"
RULE = ("one evaluation = one answer of an estimator fitted and asked in another spelling of the same data compared with the answer in the plain spelling; "
        "distinct = distinct (spelling, estimator, configuration, data)")
KINDS = zoo.FAST + ["AB"]
DISCRETE = [k for k in KINDS if k not in zoo.CONTINUOUS]
# the order of the levels has no role in these; trees grown over all levels may break ties by it
SYMMETRIC = ["S", "T", "X", "PS", "PT", "PX", "PDR", "DML", "DR", "IV", "CT", "AB"]
DEEP = ["DIV", "DIVc"]
SPELLINGS = ("labels", "dtype", "columns", "index", "names", "forms", "numbers", "all")
REQUIRE = {f"spelling:{s}": 20 for s in SPELLINGS if s != "names"}
REQUIRE.update({f"kind:{k}": 8 for k in KINDS})
REQUIRE.update({"spelling:names": 20, "shuffled_labels": 15, "answers": 2500, "deep": 3})

FAMILIES = [lambda k: list(range(k)), lambda k: list(range(1, k + 1)), lambda k: [-1, 0, 5, 6, 9][:k], lambda k: [3, 7, 8, 20, 21][:k], lambda k: ["a", "b", "c", "d", "e"][:k],
            lambda k: ["-1", "0", "10", "2", "9"][:k], lambda k: ["", " ", "None", "nan", "x"][:k], lambda k: [0.5, 1.5, 2.0, 7.25, 9.0][:k], lambda k: [10 ** 6 * (i + 1) for i in range(k)],
            lambda k: [-.75, -.5, 0., .25, 1e-3 + .25][:k], lambda k: ["treatment", "treatment A", "Ä", "é", "日本"][:k]]
NAMES = ["a", "b", "effect", "index", "level_0", "x y", "outcome_", "treatment", "control", "covariate", "y_hat", "Ü", "0", "1", "data", "columns", "values", "T", "A.b", "w[0]", "i", "n"]


def relabel(rng, S, shuffle):
    """Other labels for the levels; levels[j][code] is the new label of that code."""
    out = []
    for j, old in enumerate(S.levels):
        k = len(old)
        fams = FAMILIES + ([lambda k: [False, True]] if k == 2 else [])
        new = fams[int(rng.integers(len(fams)))](k)
        new = sorted(new)
        if shuffle:
            new = [new[i] for i in rng.permutation(k)]
        out.append(new)
    return out


def column(values):
    return np.array(values, dtype=object) if isinstance(values[0], str) else np.array(values)


def apply_labels(S, d, old, new):
    d = d.copy()
    for j, q in enumerate(S.c.treatment):
        to = dict(zip(old[j], new[j]))
        d[q] = column([to[v.item() if hasattr(v, "item") else v] for v in d[q]])
    return d


def other_index(rng, n):
    k = int(rng.integers(9))
    if k == 0:
        return pd.Index(rng.permutation(n))
    if k == 1:
        return pd.Index([f"r{i}" for i in rng.permutation(n)])
    if k == 2:
        return pd.Index(rng.integers(0, max(2, n // 3), n))
    if k == 3:
        return pd.date_range("2020-01-01", periods=n, freq="h")
    if k == 4:
        return pd.MultiIndex.from_arrays([rng.integers(0, 3, n), rng.permutation(n)], names=["g", None])
    if k == 5:
        return pd.Index(np.zeros(n, dtype=int))
    if k == 6:
        return pd.Index(np.where(rng.random(n) < .3, np.nan, np.arange(n) * .5))
    if k == 7:
        return pd.Index(np.arange(n)[::-1], name="y")
    return pd.CategoricalIndex(rng.choice(["a", "b"], n))


def number_type(rng, v):
    """A label as another number type of the same value."""
    if isinstance(v, (bool, str)):
        return np.bool_(v) if isinstance(v, bool) and rng.random() < .5 else v
    if isinstance(v, int):
        return [v, np.int64(v), float(v), np.int32(v)][int(rng.integers(4))]
    if isinstance(v, float):
        return np.float64(v) if rng.random() < .5 else v
    return v


class Spelling:
    """What to fit on and how to ask."""

    def __init__(self, S, frames):
        self.data, self.frames = S.data, frames
        self.roles, self.levels, self.spell, self.form = S.roles(), S.levels, lambda v: v, None
        self.how, self.shuffled = [], False


def respell(rng, S, frames, which, shuffle):
    """frames: evaluation frames in the plain spelling."""
    P = Spelling(S, list(frames))
    P.shuffled = shuffle
    every = lambda f: (f(P.data), [f(d) for d in P.frames])
    todo = [which] if which != "all" else [s for s in SPELLINGS[:-1] if rng.random() < .6] or ["columns"]
    if "labels" in todo and S.levels is not None:
        new = relabel(rng, S, shuffle)
        P.data, P.frames = every(lambda d: apply_labels(S, d, S.levels, new))
        P.levels = new
        P.how.append(f"labels {new}")
    if "dtype" in todo and S.levels is not None:
        casts = []
        for j, q in enumerate(S.c.treatment):
            v = P.data[q]
            opts = ["category", "category", "object"]
            if v.dtype.kind == "i":
                opts += [t for t in ("int8", "int16", "int32", "uint16", "float32", "float64", "Int64") if _fits(v, t)]
            casts.append((q, opts[int(rng.integers(len(opts)))]))
        P.data, P.frames = every(lambda d: d.astype(dict(casts)))
        P.how.append(f"types {casts}")
    if "numbers" in todo:
        # whole-number features as integers, and the other way around; nothing is rounded
        ints = [q for q in (S.c.adjustment or []) + (S.c.covariate or []) if np.all(P.data[q] == np.round(P.data[q])) and all(np.all(d[q] == np.round(d[q])) for d in P.frames)]
        if ints:
            t = ["int64", "int32", "float64"][int(rng.integers(3))]
            P.data, P.frames = every(lambda d: d.astype({q: t for q in ints}))
            P.how.append(f"{ints} as {t}")
        elif which == "numbers":
            raise Skip("no whole-number feature")
    if "columns" in todo:
        cols = list(P.data.columns)
        names = dict(zip(cols, [str(q) for q in rng.permutation(NAMES)[:len(cols)]])) if rng.random() < .8 else {q: q for q in cols}
        order = [names[cols[i]] for i in rng.permutation(len(cols))]

        def f(d):
            d = d.rename(columns=names)
            d = d[[q for q in order if q in d.columns]].copy()
            if rng.random() < .3:
                d.insert(int(rng.integers(len(d.columns) + 1)), "more", ["text"] * len(d))
            return d
        P.data, P.frames = every(f)
        P.roles = {r: [names[q] for q in v] for r, v in P.roles.items()}
        P.how.append(f"columns {P.roles} in order {list(P.data.columns)}")
    if "index" in todo:
        def f(d):
            d = d.copy()
            d.index = other_index(rng, len(d))
            return d
        P.data, P.frames = every(f)
        P.how.append(f"index {type(P.data.index).__name__}")
    if "names" in todo:
        picks = {r: bool(rng.random() < .7) for r in P.roles}
        if not any(picks[r] and len(P.roles[r]) == 1 for r in picks) and which == "names":
            picks = {r: True for r in picks}
            if not any(len(v) == 1 for v in P.roles.values()):
                raise Skip("no single name")
        P.roles = {r: v[0] if picks[r] and len(v) == 1 else list(v) for r, v in P.roles.items()}
        P.how.append(f"roles {P.roles}")
    if "forms" in todo and S.levels is not None:
        def form(lab):
            lab = [number_type(rng, v) for v in lab]
            return est.label_form(rng, lab)
        P.form = form
        P.how.append("forms")
    elif which == "forms":
        raise Skip("continuous treatment")
    return P


def _fits(v, t):
    try:
        return (v.astype(t).astype("int64") == v).all()
    except Exception:
        return False


def answers(S, plan, data, frames, roles, levels, form, pair):
    e = S.fit(data=data, pair=pair, roles=roles, form=form, levels=levels)
    out = []
    for q in plan:
        kind, f, p, extra = q
        d = None if f is None else frames[f]
        if kind == "table":
            v = S.table(e, d)
        else:
            v = S.ask(e, d, p, form=form, levels=levels, **extra)
        out.append([np.asarray(zoo.num(a), dtype=float) for a in (v if isinstance(v, (tuple, list)) else [v])])
    return out


def plans(rng, S, shuffle, m=5):
    k, out = S.kind, []
    for _ in range(m):
        f = [None, 0, 1][int(rng.integers(3))]
        pair = S.cell_pairs(rng)[0]
        if rng.random() < .25 and not shuffle:
            pair = None
        extra = {}
        if k not in ("GRF", "CF", "CFc", "CTF", "AB") and rng.random() < .3:
            extra = dict(quantity="ATE")
        if k == "AB":
            extra = dict(assump=[None, "optimal"][int(rng.integers(2))])
        if rng.random() < .3 and k not in ("CTF", "GRF", "AB") and not shuffle:
            out.append(("table", f, None, {}))
        else:
            out.append(("effects", f, pair, extra))
    return out


def case(rec, rng, tier, kind=None, which=None):
    which = which or SPELLINGS[int(rng.integers(len(SPELLINGS)))]
    labels_matter = which in ("labels", "dtype", "forms")
    pool = DISCRETE if labels_matter else KINDS
    shuffle = which in ("labels", "all") and kind is None and rng.random() < .4
    if shuffle:
        pool = SYMMETRIC
    k = kind or pool[int(rng.integers(len(pool)))]
    if labels_matter and k in zoo.CONTINUOUS:
        raise Skip("continuous treatment")
    S = zoo.Subject(rng, k, trees=not shuffle, proba=False if shuffle and k not in ("S", "T") else None)
    info = S.info()
    if shuffle and k == "IV" and (S.cells > 2 or "Ridge" in info["estimator"]):
        raise Skip("one instrument identifies one contrast; the first level is the baseline, so a penalty shrinks towards it")
    if which == "numbers" or rng.random() < .2:
        feats = (S.c.adjustment or []) + (S.c.covariate or [])
        q = feats[int(rng.integers(len(feats)))]
        S.data[q] = np.round(S.data[q] * 2)
    frames = [S.data.iloc[rng.permutation(S.c.n)[:20]], S.data.iloc[rng.integers(0, S.c.n, 3)].reset_index(drop=True)]
    pair = S.cell_pairs(rng)[0]
    plan = plans(rng, S, shuffle)
    P = respell(rng, S, frames, which, shuffle)
    rec.event("spelling:" + which)
    rec.event("kind:" + k)
    rec.event("shuffled_labels", int(shuffle))
    rec.seen(which, k, info["estimator"], S.c.n, info["roles"], str(P.how))
    rec.sample(spelling=P.how, **info)
    want = answers(S, plan, S.data, frames, None, None, None, pair)
    before = est.snap(P.data)
    got = answers(S, plan, P.data, P.frames, P.roles, P.levels, P.form, pair)
    rec.ok(est.snap(P.data) == before, "data_changed", "the caller's frame changed", spelling=P.how, **info)
    for q, w, g in zip(plan, want, got):
        rec.event("answers")
        loose = shuffle or k in DEEP
        sc = max([1e-9] + [float(np.nanmax(np.abs(a))) for a in w if a.size])
        ys = float(np.abs(est.arr(S.data, S.c.outcome).astype(float)).max())
        for a, b in zip(g, w):
            ok = rec.close(a, b, f"{which}:{k}", "effects depend on the spelling of the data", rtol=1e-4 if loose else 1e-9, atol=(2e-5 if loose else 1e-9) * max(sc, 0 if S.proba else ys),
                           spelling=P.how, shuffled=shuffle, question=str(q), pair=pair, **info)
            if not ok:
                return


def each(rec, rng, tier):
    """Every spelling of every kind in turn."""
    for k in KINDS:
        for s in SPELLINGS:
            try:
                case(rec, rng, tier, k, s)
            except Skip:
                continue


def deep(rec, rng, tier):
    rec.event("deep")
    for s in SPELLINGS:
        try:
            case(rec, rng, tier, DEEP[int(rng.integers(2))], s)
        except Skip:
            continue


def unseen(rec, rng, tier):
    """Levels are labels, never positions: a position which is no label is not a level."""
    k = ["S", "T", "X", "PS", "PDR", "DML", "IV", "DR", "CT", "CTF", "CF", "AB", "DIV"][int(rng.integers(13))]
    S = zoo.Subject(rng, k, n_treat=1, labels=lambda k: [[3, 7, 8, 20, 21], [10, 20, 30, 40, 50], ["u", "v", "w", "x", "z"]][int(rng.integers(3))][:k])
    info = S.info()
    if S.continuous:
        raise Skip("continuous")
    bad = int(rng.integers(0, S.c.k))
    rec.event("unseen")
    rec.seen("unseen", k, str(S.levels), bad)
    S2 = S
    for where in ("treat", "control"):
        lab = S.lab(int(rng.integers(S.cells)))[0]
        kw = dict(treat=lab, control=lab)
        kw[where] = bad
        try:
            if S.how == "fitted":
                e = S.new()
                e.fit(S.data, **S.roles(), **S.fit_kw, **kw)
                v = S.ask(e, S.data)
            elif k == "CF":
                e = S.new()
                e.fit(S.data, **S.roles(), control=bad)
                v = S.ask(e, S.data)
            else:
                e = S2.fit()
                v = e.estimate(data=S.data, **kw)
        except Exception as x:
            rec.event("refused")
            continue
        rec.ok(False, f"position:{k}", "a number which is no level of the data was accepted as a level", given=kw, levels=S.levels, **info)


GROUPS = [Group("each", each, 4, 40, 240, 1), Group("case", case, 480, 9000, 60, 12), Group("deep", deep, 5, 50, 120, 1), Group("unseen", unseen, 60, 600, 60, 6)]
