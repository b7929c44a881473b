"""C15: the one-stop interface against estimators fitted directly on independently encoded data."""
import copy
import itertools

import numpy as np
import pandas as pd
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge

from vm.core import Group, Skip

from ylearn import Why, sklearn_ex as skex, uplift as U
from ylearn.estimator_model import (ESTIMATOR_FACTORIES, DoubleML, PermutedSLearner, PermutedTLearner, PermutedXLearner,
                                    PermutedDoublyRobust, NP2SLS)
from ylearn.estimator_model.effect_score import RLoss
from ylearn.effect_interpreter.policy_interpreter import PolicyInterpreter

PROPERTY = "C15"
RULE = ("one evaluation = one answer of a fitted Why (a column of effects, an individual effect, a what-if column, a policy, a score, an identified role) compared with the reference; "
        "distinct = distinct (question, estimator, kind of treatment and outcome, data)")
APIS = ("ate", "ite", "combined", "individual", "whatif", "rloss", "auuc", "policy", "uplift", "cost", "training_data", "refit")
REQUIRE = {f"asked:{a}": 15 for a in APIS}
REQUIRE.update({"outcome:classes": 40, "treatment:continuous": 60, "treatments:several": 60, "duplicated_index": 40, "identified": 60, "encoded_labels": 100, "fresh_estimators": 300})

LEVELS = [[0, 1], [1, 2], ["a", "b"], ["no", "yes"], [False, True], [3, 7, 20], ["lo", "mid", "zz"], [-1, 0, 5], ["10", "2", "9"], [0, 1, 2]]
OUTCOMES = [[0, 1], ["no", "yes"], [1, 2], ["b", "a"], [False, True], ["hi", "lo", "mid"], [2, 5, 9], [-1, 1], [0, 1, 2]]


def codes(values, labels):
    to = {v: i for i, v in enumerate(labels)}
    return np.array([to[v.item() if hasattr(v, "item") else v] for v in values])


class Problem:
    """Random data with roles, labels and an estimator; everything Why is told and everything it should conclude."""

    def __init__(self, rng, discrete=None, outcome=None, k_treat=None, n=None, est=None):
        self.rng = rng
        self.discrete = rng.random() < .65 if discrete is None else discrete
        self.k = k_treat or int(rng.choice([1, 1, 2, 2, 3] if self.discrete else [1, 2, 2, 3]))
        self.n = n or int(rng.integers(70, 160)) + (100 if self.discrete and self.k > 1 else 0)
        self.est = est or str(rng.choice(["S", "T", "X", "DR", "DML", "CT", "IV", "auto"] if self.discrete else ["DML", "DML", "IV", "auto"]))
        if self.est == "IV" and self.discrete:
            self.k = 1
        if self.est == "CT":
            self.k = min(self.k, 2)
        if outcome is None:
            outcome = "number" if rng.random() < .55 or self.est in ("DR", "CT", "IV") else "classes"
        self.outcome = outcome
        self.y_labels = None
        if outcome == "classes":
            self.y_labels = sorted(OUTCOMES[int(rng.integers(len(OUTCOMES)))])
            if self.est not in ("S", "T", "X", "DML", "auto"):
                self.y_labels = sorted(OUTCOMES[int(rng.choice([0, 2, 4, 7]))])
        self.x = ["x", "treat", "B"][:self.k]
        if rng.random() < .3:
            self.x = list(rng.permutation(self.x))
        self.x = [str(q) for q in self.x]
        self.levels = None
        if self.discrete:
            self.levels = {}
            for q in self.x:
                fam = LEVELS if self.k == 1 else LEVELS[:5]
                self.levels[q] = sorted(fam[int(rng.integers(len(fam)))])
        kv = int(rng.integers(1, 4))
        self.v = ["v0", "v 1", "c"][:kv]
        self.w = ["w0", "w1"][:int(rng.integers(0, 3))] if rng.random() < .5 else None
        if not self.w:
            self.w = None
        self.z = ["z"] if self.est == "IV" or (self.est == "auto" and not self.discrete and rng.random() < .4) else None
        self.categorical = rng.random() < .35
        self.missing = rng.random() < .25
        self.y = "y"
        self.model = str(rng.choice(["lr", "ridge"]))
        self.by_name = rng.random() < .5 and not (self.est == "IV" and self.discrete)
        self.train = self.frame(self.n)
        self.how = f"{self.est} {'levels' if self.discrete else 'amounts'} {self.k} {self.outcome}{len(self.y_labels) if self.y_labels else ''} " \
                   f"v{len(self.v)} w{len(self.w or [])} z{len(self.z or [])} {'named' if self.by_name else 'given'}{' cat' if self.categorical else ''}{' nan' if self.missing else ''}"

    def frame(self, n, complete=True):
        rng = self.rng
        d = {}
        for q in self.v + (self.w or []):
            d[q] = rng.normal(size=n) if rng.random() < .8 else rng.integers(0, 5, n).astype(float)
        s = sum(d[q] for q in self.v)
        z = None
        if self.z:
            z = d["z"] = rng.normal(size=n)
        eff = 0.
        for j, q in enumerate(self.x):
            lat = .6 * s + (2.5 * z if self.z else 0) + rng.normal(size=n) * 1.5
            if self.discrete:
                k = len(self.levels[q])
                c = np.clip(np.digitize(lat, np.linspace(-1, 1, k + 1)[1:-1] if k > 2 else [0.]), 0, k - 1)
                if complete and n >= 12 * k:
                    c[:12 * k] = np.tile(np.arange(k), 12) if j == 0 else rng.integers(0, k, 12 * k)
                lab = np.empty(n, dtype=object)
                lab[:] = [self.levels[q][i] for i in c]
                d[q] = lab if isinstance(self.levels[q][0], str) else np.array(lab.tolist())
                eff = eff + (1 + j + .8 * d[self.v[0]]) * c
            else:
                d[q] = lat
                eff = eff + (1 + j + .8 * d[self.v[0]]) * lat
        y = eff + s + .5 * (d[self.w[0]] if self.w else 0) + rng.normal(size=n)
        if self.y_labels:
            k = len(self.y_labels)
            cut = np.quantile(y, np.linspace(0, 1, k + 1)[1:-1])
            c = np.digitize(y + rng.normal(size=n) * np.std(y), cut)
            y = np.empty(n, dtype=object)
            y[:] = [self.y_labels[i] for i in c]
            if not isinstance(self.y_labels[0], str):
                y = np.array(y.tolist())
        d["y"] = y
        if self.categorical:
            q = self.v[-1]
            d[q] = np.array(["u", "w", "k"], dtype=object)[np.digitize(d[q], [-.4, .5])]
        if self.missing:
            q = self.v[0]
            d[q] = np.where(rng.random(n) < .1, np.nan, d[q]) if d[q].dtype.kind == "f" else d[q]
        if rng.random() < .5 or not hasattr(self, "train"):
            d["unused"] = rng.normal(size=n)
        cols = list(d) if hasattr(self, "train") is False else list(rng.permutation(list(d)))
        f = pd.DataFrame({q: d[q] for q in cols})
        return f

    def reindex(self, f):
        rng, n = self.rng, len(f)
        k = int(rng.integers(5))
        self.index_kind = ["range", "permuted", "names", "duplicated", "offset"][k]
        f = f.copy()
        f.index = [pd.RangeIndex(n), pd.Index(rng.permutation(n)), pd.Index([f"r{i}" for i in rng.permutation(n)]),
                   pd.Index(rng.integers(0, max(2, n // 2), n)), pd.RangeIndex(1000, 1000 + n)][k]
        return f

    # -- the estimator, as Why is told and as the reference builds it
    def options(self):
        m = "lr"
        return {"S": ("slearner", dict(model=m)), "T": ("tlearner", dict(model=m)), "X": ("xlearner", dict(model=m)), "DR": ("dr", dict(y_model=m, x_model=m, yx_model=m)),
                "DML": ("dml", dict(y_model=m, x_model=m, yx_model=m)), "CT": ("tree", dict(max_depth=3, min_samples_leaf=4)), "IV": ("iv", dict(y_model=m, x_model=m))}[self.est]

    def instance(self):
        reg = (lambda: LinearRegression()) if self.model == "lr" else (lambda: Ridge(.3))
        cla = lambda: LogisticRegression(C=.7)
        y_is = self.y_labels is not None
        ym = cla if y_is else reg
        if self.est in "STX":
            kw = dict(final_proba_model=reg()) if self.est == "X" and y_is else {}
            return dict(S=PermutedSLearner, T=PermutedTLearner, X=PermutedXLearner)[self.est](
                model=ym(), is_discrete_outcome=y_is, is_discrete_treatment=True, proba_output=True if y_is else None, random_state=7, **kw)
        if self.est == "DR":
            return PermutedDoublyRobust(y_model=ym(), x_model=cla(), yx_model=reg(), cf_fold=1, random_state=7)
        if self.est == "DML":
            return DoubleML(y_model=ym(), x_model=cla() if self.discrete else reg(), yx_model=reg(), is_discrete_outcome=y_is, is_discrete_treatment=self.discrete,
                            proba_output=True if y_is else None, cf_fold=1, random_state=7)
        if self.est == "IV":
            return NP2SLS(y_model=reg(), x_model=reg(), is_discrete_outcome=False, is_discrete_treatment=self.discrete, random_state=7)
        return None

    def why(self, **kw):
        a = {}
        if self.est != "auto":
            inst = None if self.by_name else self.instance()
            if inst is None:
                a["estimator"], a["estimator_options"] = self.options()
            else:
                a["estimator"] = inst
        a["random_state"] = 11
        if not self.inferable(self.y, self.y_labels is not None):
            a["discrete_outcome"] = self.y_labels is not None
        if not self.inferable(self.x[0], self.discrete):
            a["discrete_treatment"] = self.discrete
        a.update(kw)
        return Why(**a)

    def inferable(self, q, discrete):
        """Whether the documented inference (number of values against the number of rows) gives the intended kind."""
        return bool(self.rng.random() < .7)

    def spec(self, names):
        """A list of names in one of its documented forms."""
        if names is None:
            return None
        k = int(self.rng.integers(3))
        return list(names) if k == 0 else ", ".join(names) if k == 1 else tuple(names) if self.tuples else list(names)

    tuples = False

    def roles(self):
        return dict(treatment=self.spec(self.x), adjustment=self.spec(self.w), covariate=self.spec(self.v), instrument=self.spec(self.z))

    def fit(self, w, data=None, **kw):
        data = self.train if data is None else data
        roles = self.roles()
        kept, before = copy.deepcopy(roles), data.copy(deep=True)
        r = w.fit(data, self.y, **roles, **kw)
        self.roles_touched = [k for k in roles if roles[k] != kept[k]]
        self.data_touched = not (before.equals(data) and list(before.columns) == list(data.columns) and (before.dtypes == data.dtypes).all() and before.index.equals(data.index))
        return r

    def examine_fit(self, rec, w, r):
        rec.ok(r is w, "fit_returns_self", "fit does not return the fitted object", how=self.how)
        rec.ok(not self.data_touched, "data_modified", "fit modified the caller's data", how=self.how)
        rec.ok(not self.roles_touched, "lists_modified", f"fit modified the caller's lists of {self.roles_touched}", how=self.how)
        for name, got, exp in [("treatment", w.treatment_, self.x), ("adjustment", w.adjustment_, self.w), ("covariate", w.covariate_, self.v), ("instrument", w.instrument_, self.z)]:
            rec.ok((list(got) if got is not None else None) == exp, f"role:{name}", f"{name} is {got} instead of {exp}", how=self.how)
        rec.ok(w.outcome_ == self.y, "role:outcome", f"outcome is {w.outcome_!r}", how=self.how)
        if rec.ok(w.discrete_treatment == self.discrete and bool(w.discrete_outcome) == (self.y_labels is not None), "inference",
                  f"inferred discrete treatment {w.discrete_treatment}, outcome {w.discrete_outcome}", how=self.how):
            if self.discrete:
                for q in self.x:
                    rec.ok(list(w.x_encoders_[q].classes_.tolist()) == self.levels[q], "levels_known", f"{q}: levels {w.x_encoders_[q].classes_.tolist()} instead of {self.levels[q]}", how=self.how)
            if self.y_labels:
                rec.ok(list(w.y_encoder_.classes_.tolist()) == self.y_labels, "outcome_levels_known", f"{w.y_encoder_.classes_} instead of {self.y_labels}", how=self.how)
        else:
            raise Skip


class Reference:
    """Own encoding of the data, own estimators fitted on it."""

    def __init__(self, P, train, with_estimators=True):
        self.P = P
        self.cols = (P.w or []) + P.v + (P.z or [])
        yc = codes(train[P.y], P.y_labels) if P.y_labels else train[P.y]
        self.prep = skex.general_preprocessor()
        self.prep.fit(train[self.cols], yc)
        self.train = self.encode(train)
        self.made = {}
        self.classwise = P.est in ("S", "T", "X", "DML") or (P.est == "auto" and not P.z)

    def encode(self, d):
        P, out = self.P, d.copy()
        t = self.prep.transform(d[self.cols])
        for q in self.cols:
            out[q] = np.asarray(t[q])
        if P.discrete:
            for q in P.x:
                if q in out.columns:
                    out[q] = codes(d[q], P.levels[q])
        if P.y_labels and P.y in out.columns:
            out[P.y] = codes(d[P.y], P.y_labels)
        return out

    def estimator(self, key):
        if key in self.made:
            return self.made[key]
        P = self.P
        kw = {a: v for a, v in dict(adjustment=P.w, covariate=P.v, instrument=P.z).items() if v is not None}
        e = None if P.by_name or P.est == "auto" else P.instance()
        if e is None:
            if P.est == "auto":
                name, opt = ("iv" if P.z else "tlearner" if P.discrete else "dml"), {}
            else:
                name, opt = P.options()
            e = ESTIMATOR_FACTORIES[name](**opt)(self.train, P.y, y_task=P.y_labels is not None, x_task=P.discrete, treatment=key, random_state=11, **kw)
        np.random.seed(11)
        e.fit(self.train, P.y, list(key) if isinstance(key, tuple) else key, **kw)
        self.made[key] = e
        return e

    def target(self, label):
        return None if self.P.y_labels is None else len(self.P.y_labels) - 1 if label is None else self.P.y_labels.index(label)

    def effect(self, key, enc, t, c, target=None, e=None):
        """Effects per row; key a treatment or a pair of treatments, t and c codes or amounts; enc None means the training rows."""
        e = copy.deepcopy(e if e is not None else self.estimator(key))
        kw = {}
        if self.P.y_labels is not None and self.classwise:
            kw["target_outcome"] = self.target(target)
        r = e.estimate(data=enc, treat=t, control=c, **kw)
        r = r.values if hasattr(r, "values") else r
        return np.asarray(r, dtype=float).reshape(-1)

    def code(self, q, label):
        return self.P.levels[q].index(label)


def tol(P):
    return dict(rtol=1e-5, atol=1e-7)


def setup(rec, rng, **kw):
    P = Problem(rng, **kw)
    P.train = P.reindex(P.train)
    if P.index_kind == "duplicated":
        rec.event("duplicated_index")
    w = P.why()
    try:
        r = P.fit(w)
    except Exception:
        # not every sample supports every estimator (single-class subsets, ...): only a failure of Why alone is its own
        try:
            R = Reference(P, P.train)
            for q in P.x:
                R.estimator(q)
            if P.discrete and P.k > 1:
                for a, b in itertools.permutations(P.x, 2):
                    R.estimator((a, b))
        except Exception:
            raise Skip
        raise
    P.examine_fit(rec, w, r)
    rec.event("outcome:classes", int(P.y_labels is not None))
    rec.event("treatment:continuous", int(not P.discrete))
    rec.event("treatments:several", int(P.k > 1))
    rec.event("encoded_labels", int(P.discrete and any(lv != list(range(len(lv))) for lv in P.levels.values())))
    return P, w, Reference(P, P.train)


def questions(P, rng, drop=True):
    """Frames to ask about: fresh rows, rows without treatment and outcome, the training rows."""
    k = int(rng.integers(3))
    f = P.reindex(P.frame(int(rng.integers(2, 40)), complete=False))
    if k == 1 and drop:
        f = f.drop(columns=[q for q in P.x + [P.y] if rng.random() < .8 and not (P.z and q in P.x)])
    if k == 2:
        f = P.train.iloc[rng.permutation(P.n)[:30]]
    return f


def guarded(rec, P, fn, *frames, key="data_modified"):
    """Calls fn and checks that the frames are as before."""
    kept = [f.copy(deep=True) for f in frames]
    r = fn()
    for f, k in zip(frames, kept):
        same = f.equals(k) and list(f.columns) == list(k.columns) and (f.dtypes == k.dtypes).all() and f.index.equals(k.index)
        rec.ok(same, key, "the caller's data was modified", how=P.how)
    return r


def pick_levels(P, rng, names):
    """(treat, control) as the caller gives them and as labels per treatment; None where not given."""
    t = [P.levels[q][int(rng.integers(len(P.levels[q])))] for q in names] if rng.random() < .5 else None
    c = [P.levels[q][int(rng.integers(len(P.levels[q])))] for q in names] if rng.random() < .5 else None
    form = lambda v: v if v is None else v[0] if len(v) == 1 and rng.random() < .6 else tuple(v) if rng.random() < .5 else list(v)
    return form(t), form(c), t, c


def expected_pairs(P, names, t, c, combined):
    """[(key, treat labels, control labels)] by the documentation."""
    c = c or [P.levels[q][0] for q in names]
    if combined and len(names) > 1:
        ts = [t] if t is not None else [list(u) for u in itertools.product(*[P.levels[q] for q in names])]
        return [(tuple(names), list(u), list(c)) for u in ts if list(u) != list(c)]
    out = []
    for i, q in enumerate(names):
        us = [t[i]] if t is not None else [u for u in P.levels[q] if u != c[i]]
        out += [((q,), [u], [c[i]]) for u in us if not (combined and u == c[i])]
    return out


def squash(s):
    return "".join(ch for ch in str(s) if ch not in "'\"[]() ,")


def label_ok(row, key, t, c):
    """The row of a result names its treatment and its levels."""
    return squash(row[0]) == squash(",".join(key)) and squash(row[1]) == squash(",".join(map(str, t))) + "vs" + squash(",".join(map(str, c)))


def names_of(P, rng, combined=False):
    names = P.x
    if rng.random() < .5:
        k = int(rng.integers(1, (min(2, P.k) if combined else P.k) + 1))
        names = [P.x[i] for i in rng.permutation(P.k)[:k]]
    if combined and len(names) > 2:
        names = names[:2]
    return names


def reference_ites(R, key, enc, t, c, target):
    """By the estimator fitted independently of Why."""
    tc, cc = [R.code(q, u) for q, u in zip(key, t)], [R.code(q, u) for q, u in zip(key, c)]
    if len(key) == 1:
        return R.effect(key[0], enc, tc[0], cc[0], target)
    return R.effect(tuple(key), enc, tuple(tc), tuple(cc), target)


def cost_by(P, kind):
    """A cost function over rows as the caller knows them."""
    q, v = P.x[0], P.v[0]
    if kind == 0:
        return lambda row: row["effect"] * 2 - 1
    if kind == 1:
        return lambda row: row["effect"] - (0 if isinstance(row[v], str) or row[v] != row[v] else row[v])
    return lambda row: row["effect"] * (3 if str(row[q]) == str(P.levels[q][-1] if P.levels else 0) else 1)


def with_cost(fn, frame, eff):
    out = []
    for i in range(len(frame)):
        row = frame.iloc[i].to_dict()
        row["effect"] = eff[i]
        out.append(float(fn(row)))
    return np.array(out)


def effects(rec, rng, tier):
    P, w, R = setup(rec, rng)
    for _ in range(3):
        how_q = str(rng.choice(["ate", "ite"]))
        combined = P.discrete and rng.random() < .35
        names = names_of(P, rng, combined)
        f = None if rng.random() < .2 else questions(P, rng)
        cost = None
        if f is not None and rng.random() < .25 and all(q in f.columns for q in P.x):
            cost = cost_by(P, int(rng.integers(3)))
        enc = R.encode(f) if f is not None else None
        ask = dict(quantity=how_q.upper())
        if names is not P.x or rng.random() < .3:
            ask["treatment"] = names[0] if len(names) == 1 and rng.random() < .5 else list(names) if rng.random() < .6 else ",".join(names)
        if combined:
            ask["combine_treatment"] = True
        target = None
        if P.y_labels and rng.random() < .6:
            target = ask["target_outcome"] = P.y_labels[int(rng.integers(len(P.y_labels)))]
        exp = []
        if P.discrete:
            ft, fc, t, c = pick_levels(P, rng, names)
            if ft is not None:
                ask["treat"] = ft
            if fc is not None:
                ask["control"] = fc
            pairs = expected_pairs(P, names, t, c, combined)
            if not pairs:
                continue
            for key, u, b in pairs:
                exp.append((key, u, b, reference_ites(R, key, enc, u, b, target)))
        else:
            if rng.random() < .6:
                t = [float(np.round(rng.normal(), 2)) for _ in names]
                c = [float(np.round(rng.normal(), 2)) for _ in names]
                ask["treat"], ask["control"] = (t, c) if len(names) > 1 or rng.random() < .5 else (t[0], c[0])
            else:
                t = c = [None] * len(names)
            for q, u, b in zip(names, t, c):
                exp.append(((q,), u, b, R.effect(q, enc, u, b, target)))
        if cost is not None:
            w.fn_cost = cost
            exp = [(k, u, b, with_cost(cost, f, e)) for k, u, b, e in exp]
        detail = how_q == "ate" and rng.random() < .5
        if detail:
            ask["return_detail"] = True
        kept = copy.deepcopy(ask)
        frames = [f] if f is not None else []
        got = guarded(rec, P, lambda: w.causal_effect(f, **ask) if rng.random() < .5 else w.causal_effect(test_data=f, **ask), *frames)
        w.fn_cost = None
        rec.ok(kept == ask, "lists_modified", f"causal_effect modified its arguments: {kept} became {ask}", how=P.how)
        info = dict(how=P.how, ask={k: str(v) for k, v in ask.items()}, cost=cost is not None, data="none" if f is None else len(f))
        rec.event("asked:" + how_q)
        rec.event("asked:combined", int(combined and len(names) > 1))
        rec.event("asked:cost", int(cost is not None))
        rec.event("asked:training_data", int(f is None))
        rec.event("fresh_estimators", len(exp))
        rec.seen("effect", P.how, str(ask), P.n)
        table = got if how_q == "ate" else got.T
        if not rec.ok(len(table) == len(exp), "effect_rows", f"{len(table)} effects instead of {len(exp)}: {list(table.index)}", **info):
            continue
        for i, (key, u, b, e) in enumerate(exp):
            if P.discrete:
                rec.ok(label_ok(table.index[i], key, u, b), "effect_label", f"row {i} is called {table.index[i]} instead of {key}: {u} vs {b}", **info)
            else:
                rec.ok(table.index[i] == key[0], "effect_label", f"row {i} is called {table.index[i]} instead of {key[0]}", **info)
            row = table.iloc[i]
            if how_q == "ate":
                rec.close(row["mean"], e.mean(), "ate:mean", f"{key} {u} vs {b}", **tol(P), **info)
                rec.close([row["min"], row["max"]], [e.min(), e.max()], "ate:range", f"{key} {u} vs {b}", **tol(P), **info)
                rec.close(row["std"], e.std(), "ate:std", f"{key} {u} vs {b}", **tol(P), **info)
                if detail:
                    rec.close(np.asarray(row["detail"], dtype=float), e, "ate:detail", f"{key} {u} vs {b}", **tol(P), **info)
                rec.ok(("detail" in table.columns) == detail, "ate:detail", "detail column not as asked", **info)
            else:
                rec.close(row.values.astype(float), e, "ite", f"{key} {u} vs {b}", **tol(P), **info)


def individual(rec, rng, tier):
    P, w, R = setup(rec, rng)
    f = questions(P, rng, drop=False)
    if P.index_kind == "duplicated":
        rec.event("duplicated_index")
    f = f.iloc[:12]
    enc = R.encode(f)
    ask = {}
    target = None
    if P.y_labels and rng.random() < .7:
        target = ask["target_outcome"] = P.y_labels[int(rng.integers(len(P.y_labels)))]
    if P.discrete:
        _, fc, _, c = pick_levels(P, rng, P.x)
        if fc is not None:
            ask["control"] = fc
        c = c or [P.levels[q][0] for q in P.x]
    else:
        c = [float(np.round(rng.normal(), 2)) for _ in P.x] if rng.random() < .6 else None
        if c is not None:
            ask["control"] = c if len(c) > 1 or rng.random() < .5 else c[0]
    got = guarded(rec, P, lambda: w.individual_causal_effect(f, **ask), f)
    info = dict(how=P.how, ask={k: str(v) for k, v in ask.items()}, index=P.index_kind)
    rec.event("asked:individual")
    rec.seen("individual", P.how, str(ask), len(f))
    if P.discrete:
        exp, labels = [], []
        for i in range(len(f)):
            for j, q in enumerate(P.x):
                own = f[q].iloc[i]
                own = own.item() if hasattr(own, "item") else own
                e = 0. if own == c[j] else R.effect(q, enc.iloc[[i]], R.code(q, own), R.code(q, c[j]), target)[0]
                exp.append(e)
                labels.append((f.index[i], q, f"{own} vs {c[j]}"))
        if rec.ok(len(got) == len(exp), "individual_rows", f"{len(got)} effects instead of {len(exp)} for {len(f)} individuals", **info):
            rec.ok([tuple(map(str, u)) for u in got.index] == [tuple(map(str, u)) for u in labels], "individual_label", f"{list(got.index)[:4]} instead of {labels[:4]}", **info)
            rec.close(got["effect"].values.astype(float), exp, "individual", "effects of individuals", **tol(P), **info)
    else:
        rec.ok(list(got.columns) == P.x, "individual_label", f"columns {list(got.columns)}", **info)
        for j, q in enumerate(P.x):
            cc = None if c is None else c[j]
            e = copy.deepcopy(R.estimator(q))
            kw = {"target_outcome": R.target(target)} if P.y_labels is not None and R.classwise else {}
            one = []
            for i in range(len(f)):
                # row by row, as a number: the effect of the row's own amount
                u = float(f[q].iloc[i])
                b = cc
                if b is None:
                    one = None
                    break
                one.append(np.asarray(e.estimate(data=enc.iloc[[i]], treat=u, control=b, **kw), dtype=float).reshape(-1)[0])
            if one is not None:
                rec.close(got[q].values.astype(float), one, "individual:amount", f"{q} against {cc}", **tol(P), **info)
            else:
                full = np.asarray(e.estimate(data=enc, treat=enc[q].values, control=None, **kw), dtype=float).reshape(-1)
                rec.close(got[q].values.astype(float), full, "individual:amount_default", f"{q}", **tol(P), **info)


def whatif(rec, rng, tier):
    P, w, R = setup(rec, rng, outcome="number")
    f = questions(P, rng, drop=False)
    if P.index_kind == "duplicated":
        rec.event("duplicated_index")
    q = P.x[int(rng.integers(P.k))]
    if P.discrete:
        new = np.empty(len(f), dtype=object)
        new[:] = [P.levels[q][int(rng.integers(len(P.levels[q])))] for _ in range(len(f))]
        if not isinstance(P.levels[q][0], str):
            new = np.array(new.tolist())
    else:
        new = np.round(rng.normal(size=len(f)), 3)
    form = int(rng.integers(3))
    given = new if form == 0 else pd.Series(new, index=f.index) if form == 1 else pd.Series(new)
    cost = cost_by(P, int(rng.integers(2))) if rng.random() < .3 else None
    w.fn_cost = cost
    ask = dict(treatment=q) if q != P.x[0] or rng.random() < .5 else {}
    got = guarded(rec, P, lambda: w.whatif(f, given, **ask), f)
    w.fn_cost = None
    enc = R.encode(f)
    if P.discrete:
        e = []
        for i in range(len(f)):
            own, to = [u.item() if hasattr(u, "item") else u for u in (f[q].iloc[i], new[i])]
            e.append(0. if own == to else R.effect(q, enc.iloc[[i]], R.code(q, to), R.code(q, own))[0])
    else:
        e = [R.effect(q, enc.iloc[[i]], float(new[i]), float(f[q].iloc[i]))[0] for i in range(len(f))]
    e = np.array(e)
    if cost is not None:
        e = with_cost(cost, f, e)
    info = dict(how=P.how, treatment=q, index=P.index_kind, form=["array", "series", "series with another index"][form], cost=cost is not None)
    rec.event("asked:whatif")
    rec.event("asked:cost", int(cost is not None))
    rec.seen("whatif", P.how, form, len(f))
    rec.ok(isinstance(got, pd.Series) and len(got) == len(f) and got.index.equals(f.index), "whatif_index", f"index {list(getattr(got, 'index', []))[:5]} instead of {list(f.index)[:5]}", **info)
    rec.close(np.asarray(got, dtype=float), f[P.y].values.astype(float) + e, "whatif", "what-if outcomes", **tol(P), **info)


def rloss(rec, rng, tier):
    P, w, R = setup(rec, rng, **({"est": str(rng.choice(["S", "T", "X", "DR", "DML", "CT", "auto"])), "discrete": True} if rng.random() < .6 else {"discrete": False}))
    if P.z:
        raise Skip   # the loss gives the estimator no treatments to evaluate at
    f = P.reindex(P.frame(int(rng.integers(60, 120))))
    enc = R.encode(f)
    ask = {}
    ts = cs = [None] * P.k
    if P.discrete and rng.random() < .7:
        ft, fc, t, c = pick_levels(P, rng, P.x)
        if t is not None:
            ask["treat"], ts = ft, [R.code(q, u) for q, u in zip(P.x, t)]
        if c is not None:
            ask["control"], cs = fc, [R.code(q, u) for q, u in zip(P.x, c)]
        for j, q in enumerate(P.x):
            if (ts[j] if ts[j] is not None else len(P.levels[q]) - 1) == (cs[j] if cs[j] is not None else 0):
                raise Skip
    np.random.seed(5)
    label, target = None, None
    if P.y_labels is not None and R.classwise:
        # effects on the probability of a class: the loss of the indicator of the class
        label = P.y_labels[int(rng.integers(len(P.y_labels)))] if rng.random() < .6 else None
        if label is not None:
            ask["target_outcome"] = label
        target = R.target(label)
        enc = enc.assign(**{P.y: (enc[P.y] == target).astype(int)})
    got = guarded(rec, P, lambda: w.score(f, **ask, scorer=str(rng.choice(["auto", "rloss"]))), f)
    exp = []
    np.random.seed(5)
    for j, q in enumerate(P.x):
        s = ESTIMATOR_FACTORIES["rloss"]()(f, P.y, y_task=False, x_task=P.discrete, treatment=q, random_state=11,
                                           adjustment=P.w, covariate=P.v, instrument=P.z)
        s.fit(enc, P.y, q, **{a: v for a, v in dict(adjustment=P.w, covariate=P.v).items() if v is not None})
        o = {}
        if ts[j] is not None:
            o["treat"] = ts[j]
        if cs[j] is not None:
            o["control"] = cs[j]
        if target is not None:
            o["target_outcome"] = target
        exp.append(s.score(copy.deepcopy(R.estimator(q)), **o))
    info = dict(how=P.how, ask={k: str(v) for k, v in ask.items()})
    rec.event("asked:rloss")
    rec.seen("rloss", P.how, str(ask), len(f))
    rec.close(got, np.mean(exp), "rloss", "residual loss of the estimators", rtol=1e-5, atol=1e-7, **info)


def lift_frame(P, R, f, names, t, c, target):
    """The rows of the two arms with their effects, as the documentation of uplift_model describes."""
    hit = np.array([all(f[q].iloc[i] == u for q, u in zip(names, t)) for i in range(len(f))])
    ctl = np.array([all(f[q].iloc[i] == u for q, u in zip(names, c)) for i in range(len(f))])
    rows = np.flatnonzero(hit | ctl)
    enc = R.encode(f).iloc[rows]
    tc, cc = [R.code(q, u) for q, u in zip(names, t)], [R.code(q, u) for q, u in zip(names, c)]
    key = names[0] if len(names) == 1 else tuple(names)
    e = R.effect(key, enc, tc[0] if len(names) == 1 else tuple(tc), cc[0] if len(names) == 1 else tuple(cc), target)
    y = np.asarray(enc[P.y], dtype=float)
    if P.y_labels is not None:
        y = (y == R.target(target)).astype(float)
    return pd.DataFrame({"e": e, "x": hit[rows].astype(int), "y": y}, index=pd.RangeIndex(len(rows)))


def uplift(rec, rng, tier):
    P, w, R = setup(rec, rng, discrete=True, k_treat=int(rng.choice([1, 1, 2])), est=str(rng.choice(["S", "T", "X", "DR", "CT", "DML"])))
    f = P.reindex(P.frame(int(rng.integers(60, 120))))
    names = names_of(P, rng, True)
    ft, fc, t, c = pick_levels(P, rng, names)
    ask = {}
    if names is not P.x or rng.random() < .3:
        ask["treatment"] = list(names) if rng.random() < .5 else ",".join(names)
    if ft is not None:
        ask["treat"] = ft
    if fc is not None:
        ask["control"] = fc
    target = None
    if P.y_labels and rng.random() < .7:
        target = ask["target_outcome"] = P.y_labels[int(rng.integers(len(P.y_labels)))]
    t, c = t or [P.levels[q][-1] for q in names], c or [P.levels[q][0] for q in names]
    if t == c:
        raise Skip
    spare = [(q, u) for q in P.x for u in P.levels[q] if q not in names or u not in (t[list(names).index(q)], c[list(names).index(q)])]
    if spare and rng.random() < .6:
        # nobody in the evaluated rows has a level which is not compared
        q, u = spare[int(rng.integers(len(spare)))]
        f = f[[v != u for v in f[q]]]
        rec.event("absent_level")
    L = lift_frame(P, R, f, names, t, c, target)
    if set(L.x) != {0, 1}:
        raise Skip
    L["e"] = L["e"].round(9)
    info = dict(how=P.how, ask={k: str(v) for k, v in ask.items()})
    um = guarded(rec, P, lambda: w.uplift_model(f, **ask), f)
    rec.event("asked:uplift")
    rec.seen("uplift", P.how, str(ask), len(f))
    name = "_".join(map(str, t))
    tied = L["e"].nunique() < len(L)
    cl = um.get_cumlift()
    rec.ok(list(cl.columns) == [name], "uplift_name", f"columns {list(cl.columns)} instead of {name}", **info)
    rec.ok(len(cl) == len(L) + 1, "uplift_rows", f"{len(cl)} points for {len(L)} rows", **info)
    if not tied:
        D = U.UpliftModel()
        D.fit(L, treatment="x", outcome="y", random=None)
        for a, b, nm in [(um.get_gain(), D.get_gain(), "gain"), (cl, D.get_cumlift(), "lift"), (um.get_qini(), D.get_qini(), "qini")]:
            rec.close(a.values[:, 0], b.values[:, 0], "uplift:" + nm, nm, rtol=1e-6, atol=1e-8, **info)
        rec.close(um.auuc_score(name), D.auuc_score("e"), "uplift:auuc", "area", rtol=1e-6, atol=1e-8, **info)
    # the final point is free of the ranking
    g = um.get_gain().values[-1, 0]
    y1, y0 = L.y[L.x == 1].mean(), L.y[L.x == 0].mean()
    rec.close(g, (y1 - y0) * len(L), "uplift:total", "gain over everybody", rtol=1e-7, atol=1e-8, **info)
    if rng.random() < .6 and names == P.x:
        sk = {k: v for k, v in ask.items() if k != "treatment"}
        s = guarded(rec, P, lambda: w.score(f, scorer="auuc", **sk), f)
        rec.event("asked:auuc")
        if not tied:
            rec.close(s, D.auuc_score("e"), "score:auuc", "area score", rtol=1e-6, atol=1e-8, **info)
            np.random.seed(3)
            s = w.score(f, scorer="qini", **sk)
            np.random.seed(3)
            D2 = U.UpliftModel()
            D2.fit(L, treatment="x", outcome="y", random=None)
            rec.close(s, D2.qini_score("e"), "score:qini", "qini score", rtol=1e-6, atol=1e-8, **info)


def policy(rec, rng, tier):
    P, w, R = setup(rec, rng, discrete=bool(rng.random() < .8), est=None)
    if P.est in ("IV",) or (P.est == "auto" and P.z):
        raise Skip
    names = names_of(P, rng, True)
    if P.k > 2 and names is P.x:
        names = P.x[:2]
    f = P.reindex(P.frame(int(rng.integers(30, 80))))
    ask = {}
    if names != P.x[:2] or rng.random() < .3:
        ask["treatment"] = list(names) if rng.random() < .5 else ",".join(names)
    target = None
    if P.y_labels and rng.random() < .7:
        target = ask["target_outcome"] = P.y_labels[int(rng.integers(len(P.y_labels)))]
    names = ask["treatment"] if isinstance(ask.get("treatment"), list) else names
    enc = R.encode(f)
    info = dict(how=P.how, ask={k: str(v) for k, v in ask.items()})
    cost = cost_by(P, int(rng.integers(2))) if rng.random() < .25 else None
    if P.discrete:
        _, fc, _, c = pick_levels(P, rng, names)
        if P.est == "DML":
            fc = c = None
        if fc is not None:
            ask["control"] = fc
        c = c or [P.levels[q][0] for q in names]
        combos = list(itertools.product(*[P.levels[q] for q in names]))
        cols = [np.zeros(len(f)) if list(u) == list(c) else reference_ites(R, names, enc, list(u), list(c), target) for u in combos]
        labels = ["_".join(map(str, u)) for u in combos]
    else:
        if P.y_labels is not None:
            raise Skip
        cols = [R.effect(q, enc, None, None) for q in names]
        labels = list(names)
    if cost is not None:
        cols = [with_cost(cost, f, e) for e in cols]
    A = np.stack(cols, axis=1)
    opts = dict(max_depth=int(rng.integers(1, 4)), min_samples_leaf=int(rng.integers(2, 8)), random_state=1)
    w.fn_cost = cost
    pi = guarded(rec, P, lambda: w.policy_interpreter(f, **ask, **opts), f)
    w.fn_cost = None
    D = PolicyInterpreter(**opts)
    D.fit(enc, covariate=P.v, est_model=None, effect_array=A, treatment_names=labels)
    rec.event("asked:policy")
    rec.event("asked:cost", int(cost is not None))
    rec.seen("policy", P.how, str(ask), len(f))
    g = questions(P, rng)
    eg = R.encode(g)
    best = lambda M: np.sort(M, axis=1)
    got, exp = guarded(rec, P, lambda: np.asarray(pi.predict(g), dtype=float), g), np.asarray(D.predict(eg), dtype=float)
    # rounding may settle ties among splits differently: compare the values where both trees agree in shape
    ta, tb = pi._tree_model.tree_, D._tree_model.tree_
    same = ta.node_count == tb.node_count and np.array_equal(ta.feature, tb.feature) and np.allclose(ta.threshold, tb.threshold)
    rec.event("policy:same_tree", int(same))
    own = np.asarray(pi._tree_model.predict_opt_effect(data=eg), dtype=float)
    rec.close(got, own, "policy:data", "the policy was asked about other rows than the caller's", **tol(P), **info)
    if same:
        rec.close(got, exp, "policy:value", "expected effect of every level", **tol(P), **info)
    d = guarded(rec, P, lambda: list(pi.decide(g)), g)
    rec.ok(len(d) == len(g) and set(d) <= set(labels), "policy:label", f"decisions {sorted(set(map(str, d)))[:6]} among {labels}", **info)
    for i in range(len(g)):
        if d[i] in labels:
            rec.ok(got[i][labels.index(d[i])] >= got[i].max() - 1e-9 * max(1, abs(got[i]).max()), "policy:best", f"recommends {d[i]} with {got[i]}", **info)
    # value of the root: what the caller's own effects give
    root = np.asarray(pi._tree_model.tree_.value[0], dtype=float).reshape(-1)
    if root.size == A.shape[1]:
        rec.close(root, A.mean(axis=0), "policy:effects", "mean effects at the root of the policy", rtol=1e-5, atol=1e-7, **info)
        rec.event("policy:root")


def refit(rec, rng, tier):
    """A second fit, on other data, forgets the first."""
    P = Problem(rng)
    kind = bool(rng.random() < .5)
    Q = Problem(rng, discrete=kind, est="auto" if rng.random() < .5 else None)
    if Q.est != "auto" and P.est != Q.est:
        Q.est = "auto"
    P.est = Q.est = "auto"
    for X in (P, Q):
        X.train = X.reindex(X.train)
        X.by_name = False
        X.z = None
    est = "tlearner" if P.discrete and Q.discrete and rng.random() < .5 else "auto"
    opt = dict(model="lr") if est == "tlearner" else None
    w = Why(estimator=est, estimator_options=opt, random_state=11)
    fresh = Why(estimator=est, estimator_options=opt, random_state=11)
    try:
        P.fit(w)
        Q.fit(fresh)
    except Exception:
        raise Skip
    Q.fit(w)
    info = dict(how=P.how + " then " + Q.how)
    rec.event("asked:refit")
    rec.seen("refit", info["how"])
    rec.ok(bool(w.discrete_treatment) == bool(fresh.discrete_treatment) and bool(w.discrete_outcome) == bool(fresh.discrete_outcome), "refit:inference",
           f"treatment discrete {w.discrete_treatment} outcome discrete {w.discrete_outcome}, a fresh object has {fresh.discrete_treatment} {fresh.discrete_outcome}", **info)
    f = questions(Q, rng)
    a, b = w.causal_effect(f, quantity="ITE"), fresh.causal_effect(f, quantity="ITE")
    rec.ok(list(a.columns) == list(b.columns), "refit:labels", f"{list(a.columns)} instead of {list(b.columns)}", **info)
    rec.close(a.values.astype(float), b.values.astype(float), "refit:effects", "effects after a second fit", rtol=1e-6, **info)


def identify(rec, rng, tier):
    P = Problem(rng, est="auto", discrete=bool(rng.random() < .5))
    data = P.reindex(P.train)
    if P.missing or P.categorical:
        data[P.v] = data[P.v].apply(lambda s: s.fillna(0) if s.dtype.kind == "f" else s)
    cols = [q for q in data.columns if q != P.y]
    how = str(rng.choice(["default", "learner", "learner", "notgiven"]))
    fixed = {}
    pool = list(rng.permutation(cols))
    if rng.random() < .5:
        fixed["treatment"] = [P.x[0]] if rng.random() < .5 else list(P.x)
        pool = [q for q in pool if q not in fixed["treatment"]]
    for role in ("adjustment", "covariate", "instrument"):
        if rng.random() < .3 and len(pool) > 3:
            fixed[role] = [str(pool.pop()) for _ in range(int(rng.integers(1, 3)))]
    overlap = "treatment" in fixed and "covariate" in fixed and rng.random() < .3
    given = {k: list(v) for k, v in fixed.items()}
    if overlap:
        given["covariate"] = given["covariate"] + [fixed["treatment"][0]]
    matrix = None
    kw = {}
    if how == "learner":
        order = rng.permutation(cols + [P.y]) if rng.random() < .5 else np.array(list(rng.permutation(cols)) + [P.y])
        pos = {q: i for i, q in enumerate(order)}

        def learner(X):
            # entry (i, j): the effect of column j on column i
            m = np.zeros((X.shape[1], X.shape[1]))
            names = list(X.columns)
            g = np.random.default_rng(5)
            for i, a in enumerate(names):
                for j, b in enumerate(names):
                    if pos[b] < pos[a] and g.random() < .5:
                        m[i, j] = g.normal()
            return pd.DataFrame(m, columns=names, index=names) if g.random() < .5 else m
        kw = dict(identifier=learner)
        if rng.random() < .7:
            kw["identifier_options"] = dict(method=[None, "dfs", "straight"][int(rng.integers(3))])
    shared = None
    if how == "learner" and rng.random() < .6:
        # an identifier object of the caller, who asks it about several frames
        from ylearn.api._identifier import IdentifierWithLearner
        make = lambda: IdentifierWithLearner(learner, **kw.get("identifier_options", {}))
        shared = make()
        kw = dict(identifier=shared)
        if rng.random() < .5:
            # everything but the treatments is left to the matrix
            fixed = dict(treatment=list(fixed.get("treatment", P.x[:1])))
            given, overlap = {k: list(v) for k, v in fixed.items()}, False
    w = Why(random_state=3, **kw)
    before = 0
    if shared is not None or rng.random() < .3:
        for _ in range(int(rng.integers(1, 3))):
            other = Why(random_state=3, **kw) if rng.random() < .5 else w
            some = [q for q in cols if rng.random() < .8 or q in P.x]
            first = [q for q in some if q in P.x][:1] if rng.random() < .6 else None
            if len(some) > 3:
                other.identify(data[some + [P.y]], P.y, treatment=first)
                before += 1
    ask = {k: (v if rng.random() < .5 else ",".join(v)) for k, v in given.items()}
    limit = int(rng.integers(1, 4)) if rng.random() < .5 else None
    if limit:
        ask["treatment_count_limit"] = limit
    kept = copy.deepcopy(ask)
    try:
        t, a, v, z = guarded(rec, P, lambda: w.identify(data, P.y, **ask), data)
    except Exception:
        raise
    info = dict(how=how, fixed=fixed, ask={k: str(u) for k, u in ask.items()}, got=dict(treatment=t, adjustment=a, covariate=v, instrument=z))
    rec.event("identified")
    rec.event("identified:" + how)
    rec.seen("identify", how, str(fixed), len(cols))
    rec.ok(kept == ask, "lists_modified", "identify modified the caller's lists", **info)
    sets = dict(treatment=list(t or []), adjustment=list(a or []), covariate=list(v or []), instrument=list(z or []))
    for r, s in sets.items():
        rec.ok(len(set(s)) == len(s) and set(s) <= set(cols), "identify:columns", f"{r} {s} are not distinct feature columns", **info)
        rec.ok(P.y not in s, "identify:outcome", f"the outcome is also {r}", **info)
    for r1, r2 in itertools.combinations(sets, 2):
        rec.ok(not set(sets[r1]) & set(sets[r2]), "identify:disjoint", f"{sorted(set(sets[r1]) & set(sets[r2]))} are both {r1} and {r2}", **info)
    for r, s in fixed.items():
        rec.ok(sets[r] == s, "identify:fixed", f"the caller fixed {r} {s}, identified {sets[r]}", **info)
    rec.ok(len(sets["treatment"]) > 0, "identify:treatment", "no treatment", **info)
    if before:
        rec.event("identified_again")
        fresh = Why(random_state=3, **(dict(identifier=make()) if shared is not None else kw))
        want = fresh.identify(data, P.y, **copy.deepcopy(kept))
        rec.ok([list(q or []) for q in want] == [list(q or []) for q in (t, a, v, z)], "identify:history",
               f"after other frames {(t, a, v, z)}, a new object identifies {want}", **info)
    if limit and "treatment" not in fixed:
        rec.ok(len(sets["treatment"]) <= limit, "identify:limit", f"{len(sets['treatment'])} treatments, limit {limit}", **info)


GROUPS = [
    Group("effects", effects, quick=260, thorough=2500, timeout=300),
    Group("individual", individual, quick=90, thorough=800, timeout=300),
    Group("whatif", whatif, quick=90, thorough=800, timeout=300),
    Group("rloss", rloss, quick=60, thorough=500, timeout=300),
    Group("uplift", uplift, quick=110, thorough=900, timeout=300),
    Group("policy", policy, quick=90, thorough=800, timeout=300),
    Group("refit", refit, quick=40, thorough=300, timeout=300),
    Group("identify", identify, quick=160, thorough=1600, timeout=300),
]
