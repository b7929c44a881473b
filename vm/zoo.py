"""One interface over every effect estimator of the library: a Subject knows how to build, fit and question one of them."""
import contextlib
import io

import numpy as np
from sklearn.base import clone
from sklearn.linear_model import LinearRegression, LogisticRegression, Ridge
from sklearn.neighbors import KNeighborsClassifier, KNeighborsRegressor
from sklearn.preprocessing import PolynomialFeatures, StandardScaler
from sklearn.tree import DecisionTreeRegressor

from vm import est
from vm.core import Skip

META = ("S", "T", "X")
PERM = ("PS", "PT", "PX", "PDR")
# pair: treat and control given when estimating; fitted: given when fitting; table: effects of every level at once
HOW = dict(S="fitted", T="fitted", X="fitted", DR="fitted", CT="fitted", CTF="fitted", SS="table", TS="table", XS="table",
           PS="pair", PT="pair", PX="pair", PDR="pair", DML="pair", DMLc="pair", IV="pair", IVc="pair", DIV="pair", DIVc="pair",
           GRF="table", CF="table", CFc="table", AB="pair")
FAST = ["S", "T", "X", "SS", "TS", "XS", "PS", "PT", "PX", "PDR", "DML", "DMLc", "DR", "IV", "IVc", "CT", "CTF", "GRF", "CF", "CFc"]
CONTINUOUS = ("DMLc", "IVc", "GRF", "CFc", "DIVc")


def state(m):
    if hasattr(m, "state_dict"):
        return repr([(q, v.detach().cpu().numpy().tolist()) for q, v in m.state_dict().items()])
    return repr(sorted(vars(m).items(), key=str))


def reg(rng, trees=True):
    pool = [Ridge(alpha=float(rng.choice([.5, 1., 5.]))), KNeighborsRegressor(5)]
    if trees:
        pool.append(DecisionTreeRegressor(max_depth=3, random_state=0))
    return pool[int(rng.integers(len(pool)))]


class Subject:
    def __init__(self, rng, kind, n=None, n_treat=None, n_out=None, trees=True, proba=None, labels=None, nv=None, nw=None, transformer=None):
        self.kind, self.how = kind, HOW[kind]
        self.continuous = kind in CONTINUOUS
        one_t = kind in ("GRF", "CF", "CFc", "SS", "TS", "XS", "DIV", "DIVc", "AB")
        n_treat = n_treat or (2 if rng.random() < .2 and not one_t else 1)
        one_y = kind in ("CT", "CTF", "GRF", "CF", "CFc") or kind.startswith(("PX", "X")) and False
        self.proba = bool(kind in ("S", "T", "X", "PS", "PT", "DML") and rng.random() < .25) if proba is None else proba
        n_out = n_out or (2 if rng.random() < .2 and not one_y and not self.proba else 1)
        needs_v = kind in ("CF", "CFc", "GRF", "DML", "DMLc", "CT", "CTF", "AB")
        fixed_n = n is not None
        n = n or (int(rng.integers(120, 200)) if kind in ("CT", "CTF", "CF", "CFc", "GRF") else int(rng.integers(80, 150)))
        nv = nv if nv is not None else int(rng.integers(1, 3)) if needs_v else None
        if kind in ("GRF", "AB"):
            nw = 0
        if kind in ("DIV", "DIVc"):
            nv, nw = 0, int(rng.integers(1, 3))
        k = 2 if kind == "AB" and rng.random() < .5 else int(rng.integers(2, 4))
        if n_treat == 2 and k == 3:
            k = 3 if rng.random() < .6 and not fixed_n else 2
            n = n + 80 if k == 3 else n
        c = est.make(rng, n=n, n_treat=n_treat, n_out=n_out, k=k,
                     nv=nv, nw=nw, outcome="class" if self.proba else "cont", labels=labels, min_cell=10)
        if self.continuous:
            for j, q in enumerate(c.treatment):
                c.data[q] = c.codes[:, j] + rng.normal(size=c.n) * .7
        self.c, self.data = c, c.data
        self.instrument = None
        if kind in ("IV", "IVc", "DIV", "DIVc"):
            # one instrument per treatment, strong enough to identify
            self.instrument = [f"z{j}" for j in range(n_treat)]
            for j, q in enumerate(self.instrument):
                c.data[q] = c.codes[:, j] * 1. + rng.normal(size=c.n) * .5
        self.levels = None if self.continuous else c.levels
        self.combos = None if self.continuous else [tuple(int(a) for a in q) for q in
                                                    np.array(np.meshgrid(*[np.arange(c.k)] * n_treat, indexing="ij")).reshape(n_treat, -1).T]
        self.n_treat, self.n_out = n_treat, n_out
        self.cells = None if self.continuous else len(self.combos)
        self.fit_kw = {}
        self.given = []
        self._build(rng, trees, transformer)
        self.tag = kind + (":proba" if self.proba else "")

    # ---- construction ----
    def give(self, model):
        """A fresh copy of a base model for a new estimator; remembered, to see whether anyone fits it."""
        return self.lend(clone(model))

    def lend(self, m):
        self.given.append((m, state(m)))
        return m

    def _nets(self, seed):
        """Networks of the user's own for the deep estimator, the same ones every time."""
        def make():
            import torch
            from ylearn.estimator_model.deepiv import MixtureDensityNetwork, Net
            c, disc = self.c, self.kind == "DIV"
            torch.set_default_dtype(torch.float64)
            with torch.random.fork_rng():
                torch.manual_seed(seed)
                w = len(c.adjustment or []) + len(c.covariate or [])
                h = dict(hidden_d1=8, hidden_d2=8, hidden_d3=8)
                x = Net(1, w, c.k, is_discrete_output=True, **h) if disc else MixtureDensityNetwork(1, w, 1, num_gaussian=2, **h)
                y = Net(c.k if disc else 1, w, self.n_out, is_discrete_input=disc, **h)
            return dict(x_net=self.lend(x), y_net=self.lend(y))
        return make

    def touched(self):
        """Models handed to estimators which are no longer as they were given."""
        return [type(m).__name__ for m, was in self.given if state(m) != was]

    def _build(self, rng, trees, transformer):
        k, c = self.kind, self.c
        import ylearn.estimator_model as em
        seed = int(rng.integers(0, 10 ** 6))
        base = LogisticRegression() if self.proba else reg(rng, trees)
        cls = (lambda: LogisticRegression(C=.5)) if rng.random() < .7 else (lambda: KNeighborsClassifier(15))
        ct = None
        if transformer is None:
            transformer = rng.random() < .3
        if c.covariate and transformer:
            ct = PolynomialFeatures(2, include_bias=False) if rng.random() < .5 else StandardScaler()
        self.transformer = ct if k in ("DML", "DMLc", "CF", "CFc") else None
        if k in META or k in ("SS", "TS", "XS"):
            C = dict(S=em.SLearner, T=em.TLearner, X=em.XLearner)[k[0]]
            fin = dict
            kw = dict(is_discrete_outcome=True, proba_output=True) if self.proba else {}
            if k[0] == "X":
                base = base if self.proba else reg(rng, False)
                if self.proba:
                    fin = lambda: dict(final_proba_model=self.give(Ridge()))
            self.new = lambda: C(model=self.give(base), **kw, **fin())
            self.fit_kw = dict(combined_treatment=len(k) == 1)
        elif k in ("PS", "PT", "PX"):
            C = dict(S=em.PermutedSLearner, T=em.PermutedTLearner, X=em.PermutedXLearner)[k[1]]
            kw = dict(is_discrete_outcome=True) if self.proba else {}
            if k == "PX":
                base = reg(rng, False)
            self.new = lambda: C(model=self.give(base), **kw)
            self.fit_kw = dict(n_jobs=[0, 1, None][int(rng.integers(3))])
        elif k in ("DR", "PDR"):
            xm, ym, fm, folds = cls(), base, reg(rng, False), int(rng.choice([1, 2]))
            C = em.DoublyRobust if k == "DR" else em.PermutedDoublyRobust
            self.new = lambda: C(self.give(xm), self.give(ym), self.give(fm), cf_fold=folds)
            self.fit_kw = {} if k == "DR" else dict(n_jobs=[0, 1, None][int(rng.integers(3))])
        elif k in ("DML", "DMLc"):
            xm = cls() if k == "DML" else reg(rng, trees)
            kw = dict(cf_fold=int(rng.choice([1, 2, 3])), is_discrete_treatment=k == "DML")
            if self.proba:
                kw.update(is_discrete_outcome=True, proba_output=True)
            self.new = lambda: em.DoubleML(self.give(xm), self.give(base), covariate_transformer=self.give(ct) if ct is not None else None, **kw)
        elif k in ("IV", "IVc"):
            xm, ym = (None, None) if rng.random() < .4 else (Ridge(alpha=.1), Ridge(alpha=.1))
            self.new = lambda: em.NP2SLS(x_model=None if xm is None else self.give(xm), y_model=None if ym is None else self.give(ym), is_discrete_treatment=k == "IV")
            self.fit_kw = dict(treatment_basis=("Poly", 1), instrument_basis=("Poly", 1), covar_basis=("Poly", 1))
        elif k in ("DIV", "DIVc"):
            nets = self._nets(seed) if rng.random() < .5 else dict
            self.new = lambda: em.DeepIV(is_discrete_treatment=k == "DIV", num_gaussian=2, random_state=seed, **nets())
            self.fit_kw = dict(x_net_config=dict(epoch=1, lr=.01, batch_size=64, device="cpu"), y_net_config=dict(epoch=1, lr=.01, batch_size=64, device="cpu"),
                               sample_n=None if k == "DIV" else 1)
        elif k == "CT":
            kw = dict(max_depth=int(rng.integers(1, 4)), min_samples_leaf=int(rng.integers(3, 8)), random_state=seed)
            if rng.random() < .3:
                kw["honest_subsample_num"] = .5
                kw["min_samples_leaf"] = 8
            self.new = lambda: em.CausalTree(**kw)
        elif k == "CTF":
            kw = dict(n_estimators=4, max_depth=3, min_samples_leaf=5, random_state=seed, n_jobs=1)
            self.new = lambda: em.CTCausalForest(**kw)
        elif k == "GRF":
            kw = dict(n_estimators=4, max_depth=3, min_samples_leaf=8, random_state=seed, n_jobs=1, is_discrete_treatment=False)
            self.new = lambda: em.GRForest(**kw)
        elif k in ("CF", "CFc"):
            xm = cls() if k == "CF" else reg(rng, False)
            kw = dict(n_estimators=4, max_depth=3, min_samples_leaf=8, random_state=seed, n_jobs=1, is_discrete_treatment=k == "CF", cf_fold=int(rng.choice([1, 2])))
            self.new = lambda: em.CausalForest(self.give(xm), self.give(reg_fixed), covariate_transformer=self.give(ct) if ct is not None else None, **kw)
            reg_fixed = Ridge(alpha=1.)
        elif k == "AB":
            self.new = lambda: em.ApproxBound(y_model=self.give(base), x_model=self.give(cls()))
        else:
            raise ValueError(k)

    # ---- use ----
    def roles(self):
        c = self.c
        r = dict(outcome=c.outcome, treatment=c.treatment)
        if c.adjustment:
            r["adjustment"] = c.adjustment
        if c.covariate:
            r["covariate"] = c.covariate
        if self.instrument:
            r["instrument"] = self.instrument
        return r

    def fit(self, data=None, pair=None, e=None, roles=None, form=None, levels=None, spell=lambda v: v):
        """A fitted estimator; pair = (cell, cell) matters for the estimators told what to compare when fitted."""
        e = e if e is not None else self.new()
        data = self.data if data is None else data
        kw = {k: spell(v) for k, v in (roles or self.roles()).items()}
        kw.update(self.fit_kw)
        if pair is not None and self.how == "fitted":
            f = form or (lambda v: v)
            kw.update(treat=f(self.lab(pair[0], levels)), control=f(self.lab(pair[1], levels)))
        if pair is not None and self.kind == "CF":
            kw.update(control=(form or (lambda v: v))(self.lab(pair[1], levels)))
        if self.kind in ("DIV", "DIVc"):
            import torch
            torch.set_default_dtype(torch.float64)
            torch.set_num_threads(1)
            with contextlib.redirect_stdout(io.StringIO()):
                e.fit(data, **kw)
        else:
            e.fit(data, **kw)
        return e

    def lab(self, cell, levels=None):
        """The level(s) of a cell in the user's labels (a list, one per treatment); a continuous value is its own label."""
        if self.continuous:
            return [float(v) for v in cell]
        levels = levels or self.levels
        return [levels[j][i] for j, i in enumerate(self.combos[cell])]

    def ask(self, e, data=None, pair=None, quantity=None, form=None, levels=None, **kw):
        if self.how == "pair" and pair is not None:
            f = form or (lambda v: v[0] if len(v) == 1 else np.array(v) if self.continuous else v)
            kw.update(treat=f(self.lab(pair[0], levels)), control=f(self.lab(pair[1], levels)))
        if self.kind in ("GRF", "CF", "CFc", "CTF"):
            return num(e.estimate(data, **kw))
        if self.kind == "AB":
            r = e.estimate(data=data, **kw)
            return r
        if self.kind in ("DIV", "DIVc"):
            kw["quantity"] = quantity
        elif quantity is not None:
            kw["quantity"] = quantity
        if self.kind in ("DIV", "DIVc") and data is not None:
            return num(e.estimate(data, **kw))
        return num(e.estimate(data=data, **kw))

    def table(self, e, data=None, **kw):
        return num(e.effect_nji(data, **kw) if data is not None else e.effect_nji(**kw))

    def cell_pairs(self, rng, m=1):
        if self.continuous:
            return [tuple(tuple(float(v) for v in rng.normal(size=self.n_treat) * 2) for _ in range(2)) for _ in range(m)]
        return [tuple(int(q) for q in rng.permutation(self.cells)[:2]) for _ in range(m)]

    def rows(self, rng):
        """Evaluation rows: perturbed copies of training rows."""
        c = self.c
        m = int(rng.choice([1, 2, 9, 25]))
        d = self.data.iloc[rng.integers(0, c.n, m)].copy()
        for q in (c.adjustment or []) + (c.covariate or []):
            d[q] = d[q].to_numpy() + rng.normal(size=m) * .3
        return d

    def info(self):
        r = self.roles()
        return dict(kind=self.kind, levels=self.levels, roles={k: str(v) for k, v in r.items()}, n=self.c.n, proba=self.proba, estimator=str(self.new())[:300],
                    transformer=str(self.transformer))


def num(v):
    if hasattr(v, "detach"):
        v = v.detach().cpu().numpy()
    return np.asarray(v, dtype=float)
