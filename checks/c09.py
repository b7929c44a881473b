"""C09: the algebra of contrasts, monitored on every answer of every estimator; selections of rows against selections of answers."""
import numpy as np

from vm.core import Group, Skip
from vm import est, zoo

PROPERTY = "C09"
RULE = ("one evaluation = one algebraic relation between observed answers of one fitted estimator (or of estimators fitted for the two compared levels); "
        "distinct = distinct (estimator, configuration, data shape, levels)")
KINDS = zoo.FAST + ["AB"]
REQUIRE = {f"kind:{k}": 3 for k in KINDS}
REQUIRE.update({"averages": 150, "swaps": 80, "selfs": 60, "chains": 60, "tables": 120, "selections": 250, "own_rows": 80, "deep": 4})


def flat(v):
    return np.asarray(v, dtype=float).reshape(len(v), -1)


def tolerance(S, *v):
    sc = max([1e-12] + [float(np.abs(q).max()) for q in v if np.size(q)])
    sc = max(sc, float(np.abs(est.arr(S.data, S.c.outcome).astype(float)).max()) * (0 if S.proba else 1))
    return dict(rtol=1e-7, atol=1e-8 * sc)


def algebra(rec, rng, S, d, info):
    """Relations between compared levels."""
    k = S.kind
    cells = [int(q) for q in rng.permutation(S.cells)[:3]] if not S.continuous else [tuple(float(v) for v in rng.normal(size=S.n_treat) * 2) for _ in range(3)]
    fitted = {}

    def R(a, b, **kw):
        key = (a, b) if S.how == "fitted" else None
        if key not in fitted:
            fitted[key] = S.fit(pair=(a, b))
        return S.ask(fitted[key], d, (a, b), **kw)
    a, b = cells[:2]
    ab = R(a, b)
    tol = tolerance(S, ab)
    ba = R(b, a)
    rec.event("swaps")
    rec.close(ba, -ab, f"swap:{k}", "swapping the compared levels does not negate the effects", compared=[a, b], **tol, **info)
    if not (k in ("CT", "CTF")):
        rec.event("selfs")
        z = R(a, a)
        rec.ok(z.shape == ab.shape and np.abs(z).max() <= tol["atol"], f"self:{k}", "comparing a level with itself is not zero", level=a, got=np.abs(z).max(), **info)
    if k not in ("CTF",):
        for q in ("ATE",) + (("CATE",) if S.c.covariate or k in ("DIV", "DIVc") else ()):
            rec.event("averages")
            got = R(a, b, quantity=q)
            rec.close(np.ravel(got), flat(ab).mean(axis=0), f"average:{k}", f"{q} is not the mean of the per-sample effects", quantity=q, shape=np.shape(got), **tol, **info)
    if k not in ("X", "PX", "CT", "CTF") and len(cells) > 2:
        c = cells[2]
        rec.event("chains")
        rec.close(R(a, c), ab + R(b, c), f"chain:{k}", "effects are not transitive", compared=[a, b, c], **tol, **info)
    # the table of every level
    if k == "CTF":
        return
    e = fitted.get((a, b), fitted.get(None))
    T = S.table(e, d)
    n = len(d)
    rec.event("tables")
    if S.how == "fitted":
        # either order of the columns: DoublyRobust sorts the two levels, the others put the control first
        zero = int(np.abs(T[:, :, 0]).max() > np.abs(T[:, :, 1]).max()) if T.shape[2] == 2 else 0
        want = np.zeros((n, T.shape[1] if T.ndim == 3 else 1, 2))
        want[:, :, 1 - zero] = ab.reshape(n, -1)
        rec.close(T, want, f"table:{k}", "the table of effects is not zero for the control and the pairwise effect for the treatment", compared=[a, b], **tol, **info)
        return
    if S.continuous:
        one = tuple([1.] * S.n_treat)
        zero = tuple([0.] * S.n_treat)
        if k == "DMLc":
            for j in range(S.n_treat):
                u = tuple(1. if i == j else 0. for i in range(S.n_treat))
                rec.close(T[:, :, j], R(u, zero).reshape(n, S.n_treat, -1).sum(axis=1) if T.shape[1] == 1 else T[:, :, j], f"table:{k}", "the table of effects differs from unit changes", **tol, **info)
        else:
            rec.close(T[:, :, 0], np.zeros_like(T[:, :, 0]), f"table:{k}", "the control column is not zero", rtol=0, atol=0, **info)
            rec.close(T[:, :, 1].reshape(n, -1), R(one, zero).reshape(n, -1), f"table:{k}", "the table of effects differs from the pairwise effect", **tol, **info)
        return
    controls = [0]
    if k in zoo.PERM or k == "DML":
        controls.append(cells[1])
    for ctl in controls:
        kw = {} if ctl == 0 and rng.random() < .5 else dict(control=est.label_form(rng, S.lab(ctl)))
        if k not in zoo.PERM and k != "DML":
            kw = {}
        T = S.table(e, d, **kw)
        for g in range(S.cells):
            want = np.zeros_like(T[:, :, g]) if g == ctl else R(g, ctl).reshape(n, -1)
            if S.proba and g == ctl:
                rec.ok(np.abs(T[:, :, g]).max() <= tol["atol"], f"table:{k}", "the control column is not zero", **info)
                continue
            if S.proba:
                want = want if want.shape[1] == T.shape[1] else None
                if want is None:
                    continue
            rec.close(T[:, :, g], want, f"table:{k}", "the table of effects differs from the pairwise effects", level=g, control=ctl, **tol, **info)


def tables(rec, rng, S, d, info):
    """Estimators which answer for every level at once."""
    e = S.fit(pair=S.cell_pairs(rng)[0] if S.kind == "CF" else None)
    v = S.ask(e, d)
    tol = tolerance(S, v)
    if S.kind in ("SS", "TS", "XS"):
        for q in ("ATE", "CATE") if S.c.covariate else ("ATE",):
            rec.event("averages")
            rec.close(np.ravel(S.ask(e, d, quantity=q)), flat(v).mean(axis=0), f"average:{S.kind}", f"{q} is not the mean of the per-sample effects", **tol, **info)
        T = S.table(e, d)
        rec.event("tables")
        rec.ok(np.abs(T[:, :, 0]).max() == 0, f"table:{S.kind}", "the control column is not zero", **info)
        rec.close(T[:, :, 1:].reshape(len(d), -1), v.reshape(len(d), -1), f"table:{S.kind}", "the table of effects differs from the estimated effects", **tol, **info)
    elif S.kind in ("CF", "CFc"):
        T = S.table(e, d)
        rec.event("tables")
        z = [j for j in range(T.shape[2]) if np.abs(T[:, :, j]).max() == 0]
        rest = np.delete(T, z[0], axis=2) if S.kind == "CF" and z else T
        rec.ok(S.kind == "CFc" or len(z) >= 1, f"table:{S.kind}", "no zero column for the control", **info)
        rec.close(rest.reshape(len(d), -1), v.reshape(len(d), -1), f"table:{S.kind}", "the table of effects differs from the estimated effects", **tol, **info)


def selections(rec, rng, S, info, d, asks=2):
    """Rows chosen, permuted and repeated before and after estimating."""
    pair = S.cell_pairs(rng)[0]
    e = S.fit(pair=pair)
    D = S.data if rng.random() < .6 else d
    f = {}
    if S.kind == "AB":
        kw = dict(assump=[None, "mtr", "cmtr", "mts"][int(rng.integers(4))]) if False else {}

    def whole(rows):
        if S.kind == "AB":
            r = S.ask(e, rows, pair)
            return np.concatenate([flat(np.asarray(q, dtype=float)) for q in (r if isinstance(r, (tuple, list)) else [r])], axis=1)
        return flat(S.ask(e, rows, pair))
    base = whole(D)
    tol = tolerance(S, base)
    if not rec.ok(len(base) == len(D), f"rows:{S.kind}", "not one effect per row", got=len(base), want=len(D), **info):
        return
    N = len(D)
    for how in ("subset", "permuted", "repeated", "one"):
        idx = dict(subset=np.sort(rng.permutation(N)[:max(1, N // 2)]), permuted=rng.permutation(N), repeated=rng.integers(0, N, N + 3), one=rng.integers(0, N, 1))[how]
        rows = D.iloc[idx]
        if rng.random() < .3:
            rows = rows.reset_index(drop=True)
        got = whole(rows)
        rec.event("selections")
        rec.close(got, base[idx], f"select:{S.kind}", f"effects of {how} rows are not the {how} effects", how=how, **tol, **info)
        if S.kind not in ("AB", "CTF", "GRF") and rng.random() < .5:
            rec.close(flat(S.table(e, rows)), flat(S.table(e, D))[idx], f"select_table:{S.kind}", f"the table of {how} rows is not the {how} table", how=how, **tol, **info)
    if not (S.kind in ("DR", "PDR") and not S.c.covariate):
        rec.event("own_rows")
        own = whole(None) if S.kind not in ("AB",) else base if D is S.data else whole(S.data)
        ref = whole(S.data)
        rec.close(own, ref, f"own:{S.kind}", "effects without data are not those of the training rows", **tol, **info)


def case(rec, rng, tier, kind=None):
    k = kind or KINDS[int(rng.integers(len(KINDS)))]
    S = zoo.Subject(rng, k)
    info = S.info()
    rec.event("kind:" + k)
    rec.seen(k, info["estimator"], S.c.n, S.levels, info["roles"])
    rec.sample(**info)
    d = S.data if rng.random() < .4 else S.rows(rng)
    before = est.snap(S.data)
    selections(rec, rng, S, info, S.rows(rng))
    if k != "AB":
        (tables if S.how == "table" else algebra)(rec, rng, S, d, info)
    rec.ok(est.snap(S.data) == before, "data_changed", "the caller's frame changed", **info)


def deep(rec, rng, tier):
    rec.event("deep")
    case(rec, rng, tier, ["DIV", "DIVc"][int(rng.integers(2))])


def each(rec, rng, tier):
    """Every kind in turn, so that none is missed."""
    for k in KINDS:
        try:
            case(rec, rng, tier, k)
        except Skip:
            continue


GROUPS = [Group("each", each, 6, 60, 120, 1), Group("case", case, 480, 8000, 90, 10), Group("deep", deep, 8, 60, 120, 2)]
