"""Workload generation shared by the estimator checks: data frames in many spellings, deterministic base learners."""
import numpy as np
from vm.core import Skip
import pandas as pd
from sklearn.ensemble import GradientBoostingRegressor
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
from sklearn.tree import DecisionTreeClassifier, DecisionTreeRegressor

LABELS = [lambda k: list(range(k)), lambda k: [3, 7, 8, 20, 21, 22, 30, 41, 42, 43, 50, 61][:k], lambda k: list("abcdefghijkl")[:k],
          lambda k: ["high", "low", "mid", "none", "zero", "Abc", "a1", "a10", "a2", "x y", "z", "zz"][:k], lambda k: [-1, 0, 5, 6, 9, 10, 11, 100, 12, 13, -7, 8][:k],
          lambda k: list(range(1, k + 1)), lambda k: [0.5, 1.5, 2.0, 7.25, 9.0, -3.5, 10.0, 0.25, 11.5, 20.0, 30.5, 40.0][:k],
          lambda k: [0, 10, 2, 30, 4, 5, 6, 7, 8, 9, 100, 11][:k]]
NUM_LABELS = [LABELS[i] for i in (0, 1, 4, 5, 6)]


def index_of(rng, n):
    k = int(rng.integers(6))
    if k == 0:
        return pd.RangeIndex(n)
    if k == 1:
        return pd.Index(rng.permutation(n))
    if k == 2:
        return pd.Index([f"r{i}" for i in rng.permutation(n)])
    if k == 3:
        return pd.Index(rng.integers(0, max(2, n // 3), n))
    if k == 4:
        return pd.date_range("2020-01-01", periods=n, freq="h")
    return pd.Index(np.arange(n) * 2 + 5)


class Case:
    """A generated data set: frame, column roles, level labels and integer level codes."""


def make(rng, n=None, n_treat=1, k=None, n_out=1, nw=None, nv=None, labels=None, outcome="cont", y_classes=2, index=True,
         min_cell=4, noise=.5, hetero=True, scale=1.0, confound=1.0, many=False):
    c = Case()
    n = int(rng.integers(60, 160)) if n is None else n
    count = lambda: int(rng.integers(0, 3)) if rng.random() < .85 else int(rng.integers(3, 5))
    nw = count() if nw is None else nw
    nv = count() if nv is None else nv
    if k is None and n_treat == 1 and many and rng.random() < .06:
        k = int(rng.integers(7, 12))
        n = max(n, k * (min_cell + 6))
    if nw + nv == 0:
        nw = 1 if rng.random() < .5 else 0
        nv = 1 - nw
    k = (int(rng.integers(2, 5)) if n_treat == 1 else 2) if k is None else k
    F = rng.normal(size=(n, nw + nv))
    if rng.random() < .3 and nw + nv > 1:
        F[:, -1] = rng.integers(0, 4, n)
    score = F @ rng.normal(size=nw + nv) * confound
    cells = k ** n_treat
    codes = []
    for j in range(n_treat):
        t = np.clip(np.floor((score + rng.logistic(size=n) * 1.5 - score.min()) / (np.ptp(score) + 1e-9) * k), 0, k - 1).astype(int)
        mix = rng.random(n) < .5
        t[mix] = rng.integers(0, k, mix.sum())
        codes.append(t)
    # every combination of levels present at least min_cell times
    need = np.array(np.meshgrid(*[np.arange(k)] * n_treat, indexing="ij")).reshape(n_treat, -1).T
    pos = rng.permutation(n)[:cells * min_cell]
    for m, p in enumerate(pos):
        for j in range(n_treat):
            codes[j][p] = need[m % cells][j]
    lab = [(LABELS[int(rng.integers(len(LABELS)))] if labels is None else labels)(k) for _ in range(n_treat)]
    c.levels = [sorted(l) for l in lab]
    te = sum(codes[j] * (1 + (F[:, 0] if hetero else 0) * (j + 1)) for j in range(n_treat))
    Y = np.empty((n, n_out))
    for o in range(n_out):
        Y[:, o] = scale * (te * (o + 1) + F @ rng.normal(size=nw + nv) + rng.normal(size=n) * noise + 2)
    c.F, c.codes, c.n, c.k = F, np.array(codes).T, n, k
    names = list(rng.permutation(["age", "x1", "x2", "w", "v", "income", "zz", "b c", "Y_", "t2"]))
    c.adjustment = names[:nw] or None
    c.covariate = names[nw:nw + nv] or None
    c.treatment = ["treat", "dose"][:n_treat]
    c.outcome = ["y", "y2"][:n_out]
    df = {}
    for i in range(nw + nv):
        df[names[i]] = F[:, i]
    for j in range(n_treat):
        col = [c.levels[j][t] for t in codes[j]]
        df[c.treatment[j]] = np.array(col, dtype=object) if isinstance(col[0], str) else np.array(col)
    for o in range(n_out):
        if outcome == "class":
            q = np.quantile(Y[:, o], np.arange(1, y_classes) / y_classes)
            yc = np.searchsorted(q, Y[:, o])
            flip = rng.random(n) < .35
            yc[flip] = rng.integers(0, y_classes, flip.sum())
            # every outcome class present in every treatment cell
            cell = np.ravel_multi_index(tuple(c.codes.T), (k,) * n_treat)
            for g in range(cells):
                idx = np.where(cell == g)[0]
                yc[idx[:y_classes]] = np.arange(y_classes)
            ylab = [[0, 1, 2], [2, 5, 9], [1, 2, 3]][int(rng.integers(3))]
            df[c.outcome[o]] = np.array(ylab)[yc]
            c.y_labels = sorted(ylab[:y_classes])
        else:
            df[c.outcome[o]] = Y[:, o]
    cols = list(df)
    cols = [cols[i] for i in rng.permutation(len(cols))]
    df["unused"] = rng.normal(size=n)
    c.data = pd.DataFrame({q: df[q] for q in cols + ["unused"]}, index=index_of(rng, n) if index else None)
    return c


def arr(data, cols):
    if cols is None:
        return np.empty((len(data), 0))
    return np.column_stack([np.asarray(data[q]) for q in cols]) if len(cols) else np.empty((len(data), 0))


def wv(c, data):
    return np.concatenate([arr(data, c.adjustment), arr(data, c.covariate)], axis=1).astype(float)


def maybe_str(rng, cols):
    """A one-element list is sometimes passed as a plain name."""
    if cols is not None and len(cols) == 1 and rng.random() < .4:
        return cols[0]
    return cols


def smooth(rng):
    """Learners whose predictions move continuously with the targets: for stages whose targets are computed, where a tree
    would turn a rounding difference into another split."""
    return [LinearRegression(), Ridge(alpha=float(rng.choice([.1, 1., 10.]))), KNeighborsRegressor(3), KNeighborsRegressor(7)][int(rng.integers(4))]


def regressor(rng, multi=False, collinear=False):
    """collinear: the features contain a full set of dummies, on which LinearRegression is numerically arbitrary."""
    pool = [Ridge(alpha=.5) if collinear else LinearRegression(), Ridge(alpha=float(rng.choice([.1, 1., 10.]))), KNeighborsRegressor(3),
            DecisionTreeRegressor(max_depth=3, random_state=0), DecisionTreeRegressor(min_samples_leaf=4, random_state=1)]
    if not multi:
        pool.append(GradientBoostingRegressor(n_estimators=8, max_depth=2, random_state=0))
    return pool[int(rng.integers(len(pool)))]


def classifier(rng):
    pool = [LogisticRegression(C=float(rng.choice([.1, 1.]))), KNeighborsClassifier(5), DecisionTreeClassifier(max_depth=3, random_state=0)]
    return pool[int(rng.integers(len(pool)))]


def test_rows(rng, c):
    """Evaluation data: a permuted, duplicated or single-row selection of fresh perturbed rows, with and without outcome columns."""
    m = int(rng.choice([1, 2, 7, 30, c.n]))   # as many rows as were fitted: they are others nevertheless
    idx = rng.integers(0, c.n, m)
    d = c.data.iloc[idx].copy()
    for q in (c.adjustment or []) + (c.covariate or []):
        d[q] = d[q].to_numpy() + rng.normal(size=m) * .3
    if rng.random() < .3:
        d = d.drop(columns=c.treatment + c.outcome)
    return d


def snap(df):
    """Content hash of a frame: values, labels, dtypes, index, order."""
    import hashlib
    h = hashlib.md5()
    h.update(repr((list(df.columns), [str(t) for t in df.dtypes], list(df.index))).encode())
    for q in range(df.shape[1]):
        h.update(repr(df.iloc[:, q].tolist()).encode())
    return h.hexdigest()


# ---- instrumented base learners: every fit and prediction leaves an event with the rows it touched ----
from sklearn.base import BaseEstimator, clone
from sklearn.utils.metaestimators import available_if

LOG = []


def rows_of(X, ncol=None):
    X = np.array(X, dtype=float, copy=True)
    return X[:, :ncol] if ncol else X


def distinct(X):
    """Rows are far enough apart to be told from each other after rounding."""
    from scipy.spatial import cKDTree
    d, _ = cKDTree(X).query(X, k=2)
    return d[:, 1].min() > 1e-7 * max(1., np.abs(X).max())


class Logged(BaseEstimator):
    """Delegates to a base learner and logs ('fit'|'predict'|'predict_proba', tag, model id, rows)."""

    def __init__(self, base, tag, ncol=None, sticky=False):
        # sticky: like a learner with warm start, another fit of the same object keeps what it learned from earlier rows
        self.base, self.tag, self.ncol, self.sticky = base, tag, ncol, sticky

    @property
    def _estimator_type(self):
        return getattr(self.base, "_estimator_type", None)

    @property
    def classes_(self):
        return self.base_.classes_

    def fit(self, X, y, sample_weight=None):
        if self.sticky:
            if hasattr(self, "seen_"):
                X, y = np.concatenate([self.seen_[0], X]), np.concatenate([self.seen_[1], y])
            self.seen_ = np.array(X, copy=True), np.array(y, copy=True)
        LOG.append(("fit", self.tag, id(self), rows_of(X, self.ncol), np.array(y, copy=True)))
        self.base_ = clone(self.base)
        self.base_.fit(X, y) if sample_weight is None else self.base_.fit(X, y, sample_weight=sample_weight)
        self.serial_ = len(LOG)
        return self

    def predict(self, X):
        LOG.append(("predict", self.tag, self.serial_, rows_of(X, self.ncol), None))
        return self.base_.predict(X)

    @available_if(lambda self: hasattr(self.base, "predict_proba"))
    def predict_proba(self, X):
        LOG.append(("predict", self.tag, self.serial_, rows_of(X, self.ncol), None))
        return self.base_.predict_proba(X)


def folds_of(rec, log, tag, rows, folds, name, repeat=1):
    """Out-of-fold discipline from the event log. rows: nuisance features of the data rows in order (all distinct).
    Returns [(train, test)] as observed. Every row has to be predicted by exactly one model, trained without it."""
    from scipy.spatial import cKDTree
    tree = cKDTree(rows)

    def locate(R):
        if R.shape[1] != rows.shape[1]:
            return np.full(len(R), -1)
        d, i = tree.query(R)
        return np.where(d <= 1e-9 * max(1., np.abs(rows).max()), i, -1)
    fits = [(n + 1, e) for n, e in enumerate(log) if e[0] == "fit" and e[1] == tag]
    out = []
    seen = np.zeros(len(rows), dtype=int)
    for serial, f in fits:
        train = locate(f[3])
        preds = [e for e in log if e[0] == "predict" and e[1] == tag and e[2] == serial]
        if not preds:
            continue
        tests = []
        for e in preds:
            tests.append(tuple(locate(e[3])))
        rec.ok(len(set(tests)) == 1, f"{name}:rows_moved", "the same model predicted different rows within one pass", tag=tag)
        test = np.array(tests[0])
        rec.event("fold_events", len(preds) + 1)
        if not rec.ok((train >= 0).all() and (test >= 0).all(), f"{name}:foreign_rows", "a nuisance model saw rows which are not in the data", tag=tag):
            raise Skip("foreign rows")
        if folds > 1:
            rec.ok(not set(train) & set(test), f"{name}:leak", "a row's nuisance prediction comes from a model fitted on that row", tag=tag,
                   rows=sorted(set(train) & set(test))[:10])
            rec.ok(set(train) | set(test) == set(range(len(rows))), f"{name}:train_rows", "a fold's model was not fitted on all other rows", tag=tag)
        seen[test] += 1
        out.append((train, test))
    if folds > 1:
        rec.ok(len(out) == folds, f"{name}:fold_count", f"{len(out)} folds instead of {folds}", tag=tag)
    rec.ok((seen == 1).all(), f"{name}:coverage", "some row is not predicted exactly once", tag=tag, seen=np.unique(seen))
    return out


def covers(codes, folds):
    """Every code occurs in every contiguous training fold."""
    from sklearn.model_selection import KFold
    if folds <= 1:
        return True
    k = len(np.unique(codes))
    return all(len(np.unique(codes[tr])) == k for tr, _ in KFold(folds).split(codes))


def label_form(rng, lab):
    """A compared level in one of the documented spellings."""
    lab = list(lab)
    forms = [lab, tuple(lab), np.array(lab, dtype=object) if len({type(q) for q in lab}) > 1 else np.array(lab)]
    if len(lab) == 1:
        forms += [lab[0]] * 4
    return forms[int(rng.integers(len(forms)))]
