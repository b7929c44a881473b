"""C17: matrices of discovered structures — trimming, conversion, learning, proxies and the roles derived from them."""
import numpy as np
import pandas as pd

from vm import graphs as G
from vm.core import Group, Skip

PROPERTY = "C17"
RULE = ("one evaluation = one matrix, dictionary, table or set of roles compared with reachability and thresholds computed on plain sets of "
        "edges from the same (generated, or recorded raw) matrix; distinct = distinct edge sets and options")
REQUIRE = {"trim": 1000, "cyclic": 300, "acyclic": 100, "negative": 300, "self_loop": 60, "dict": 300, "array": 300, "learned": 40, "raw_seen": 20,
           "pgm": 12, "gcastle": 10, "roles": 150, "instrument_found": 15, "causal_graph": 10, "trimmed_two_cycle": 50}


def matrix(rng, d=None, dag=None):
    """(weights, is acyclic by construction)"""
    big = d is None and rng.random() < .15          # ten and more nodes: also places whose numbers have two digits
    d = d or int(rng.integers(10, 15) if big else rng.integers(2, 8))
    p = float(rng.choice([.05, .1, .2] if big else [.1, .25, .5, .9]))
    m = np.where(rng.random((d, d)) < p, rng.normal(size=(d, d)), 0.)
    k = int(rng.integers(6))
    if k == 0:
        m = np.abs(m)
    elif k == 1:
        m = (m != 0).astype(float)
    elif k == 2:
        m = np.sign(m) * np.round(np.abs(m) + .5)
    elif k == 3:
        m = (m != 0).astype(int)
    dag = rng.random() < .35 if dag is None else dag
    if dag:
        m = np.triu(m, 1)
        o = rng.permutation(d)
        m = m[np.ix_(o, o)]
    elif rng.random() < .75:
        np.fill_diagonal(m, 0)
    return m, dag


def edges(m, eps=0):
    m = np.asarray(m)
    return {(i, j) for i in range(len(m)) for j in range(len(m)) if m[i, j] != 0 and not np.isnan(m[i, j])}


def reach(es, n, start, steps=None):
    """Nodes other than start reached by at least one and at most `steps` edges."""
    seen, front, k = {start}, {start}, 0
    while front and (steps is None or k < steps):
        front = {b for a, b in es if a in front} - seen
        seen |= front
        k += 1
    return seen - {start}


def cyclic(es, n):
    indeg = {j: sum(1 for e in es if e[1] == j) for j in range(n)}
    todo, done = [j for j in range(n) if indeg[j] == 0], 0
    while todo:
        i = todo.pop()
        done += 1
        for a, b in es:
            if a == i:
                indeg[b] -= 1
                if indeg[b] == 0:
                    todo.append(b)
    return done < n


def on_cycle(es, n):
    r = {i: reach(es, n, i) | {i} for i in range(n)}
    return {(a, b) for a, b in es if a in r[b]}


def check_trim(rec, before, after, key, weights=True, **info):
    n = len(before)
    b, a = edges(before), edges(after)
    after = np.asarray(after)
    rec.ok(after.shape == np.asarray(before).shape, key + ":shape", f"shape {after.shape}", **info)
    rec.ok(not cyclic(a, n), key + ":cyclic", "the trimmed matrix has a cycle", before=np.asarray(before).tolist(), after=after.tolist(), **info)
    rec.ok(a <= b, key + ":invented", f"edges invented: {sorted(a - b)}", before=np.asarray(before).tolist(), **info)
    if weights:
        rec.ok(all(after[e] == before[e] for e in a), key + ":weights", "weights of remaining edges changed", before=np.asarray(before).tolist(), after=after.tolist(), **info)
    c = on_cycle(b, n)
    rec.ok((b - a) <= c, key + ":removed", f"edges on no cycle removed: {sorted((b - a) - c)}", before=np.asarray(before).tolist(), **info)
    return b, a, c


def trim(rec, rng, tier):
    from ylearn.causal_discovery import BaseDiscovery
    import ylearn.causal_discovery as D
    for _ in range(4):
        m, dag = matrix(rng)
        n = len(m)
        keep = m.copy()
        rec.event("trim")
        rec.event("acyclic" if not cyclic(edges(m), n) else "cyclic")
        rec.event("negative", int((m < 0).any()))
        rec.event("self_loop", int(np.diag(m).any()))
        rec.seen("trim", n, m.tobytes())
        r = BaseDiscovery.trim_cycle(m)
        rec.ok(np.array_equal(m, keep), "trim:input", "trim_cycle changed its argument")
        b, a, c = check_trim(rec, m, r, "trim")
        # the weakest edge goes: around some cycle no other edge is weaker than the removed one
        for u, v in b - a:
            w = abs(m[u, v])
            strong = {e for e in b if abs(m[e]) >= w}
            rec.ok(u == v or u in reach(strong, n, v), "trim:not_weakest", f"{(u, v)} is not the weakest edge of any cycle", before=m.tolist(), after=r.tolist())
        cls = [getattr(D, k) for k in ("CausalDiscovery", "GolemDiscovery", "DagmaDiscovery", "DyCausalDiscovery", "DygolemCausalDiscovery") if hasattr(getattr(D, k), "_to_dag")]
        if cls:
            cl = cls[int(rng.integers(len(cls)))]
            m = m.astype(float)
            np.fill_diagonal(m, np.where(rng.random(n) < .5, 0, rng.normal(size=n)))
            r = cl._to_dag(m.copy())
            b, a, c = check_trim(rec, m, r, "to_dag", cls=cl.__name__)
            for i in range(n):
                for j in range(i):
                    if m[i, j] and m[j, i]:
                        rec.event("trimmed_two_cycle")
                        x, y = ((i, j), (j, i)) if abs(m[i, j]) > abs(m[j, i]) else ((j, i), (i, j))
                        rec.ok(y not in a or abs(m[x]) == abs(m[y]), "to_dag:stronger", f"of two opposite edges the weaker {y} was kept", before=m.tolist(), after=np.asarray(r).tolist())


def name_list(rng, n):
    k = int(rng.integers(5))
    pool = [[f"x{i}" for i in range(n)], list("zebcyadkvwrfghij")[:n], [f"col {n - i}" for i in range(n)], list(range(10, 10 + n)),
            ["y", "x", "1", "0", "t", "a.b", "B", "b", "10", "x y", "Y", "T", "11", "2", "z", "_"][:n]][k]
    return [pool[i] for i in rng.permutation(n)]


def convert(rec, rng, tier):
    from ylearn.causal_discovery import BaseDiscovery
    m, dag = matrix(rng)
    n = len(m)
    names = name_list(rng, n)
    form = int(rng.integers(4))
    arg = [m, m, pd.DataFrame(m, columns=names, index=names), pd.DataFrame(m, columns=[f"q{i}" for i in range(n)], index=[f"q{i}" for i in range(n)])][form]
    kw = {} if form in (0, 2) else dict(names=names)
    lab = list(range(n)) if form == 0 else names
    keep = arg.copy()
    es = edges(m)
    off = {e for e in es if e[0] != e[1]}
    info = dict(matrix=m.tolist(), form=form, names=lab)
    rec.seen("convert", m.tobytes(), form, lab)
    back = {(b, a) for a, b in off}
    for depth in (None, 1, int(rng.integers(1, 4))):
        r = BaseDiscovery.matrix2dict(arg, **kw, **({} if depth is None and rng.random() < .5 else dict(depth=depth)))
        rec.event("dict")
        rec.ok(list(r.keys()) == lab, "dict:keys", f"keys {list(r)}", **info)
        for j in range(n):
            want = [lab[i] for i in sorted(reach(back, n, j, depth))]
            rec.ok(sorted(map(str, r[lab[j]])) == sorted(map(str, want)) and len(set(r[lab[j]])) == len(r[lab[j]]), f"dict:depth{'None' if depth is None else 1 if depth == 1 else 'k'}",
                   f"causes of {lab[j]} within {depth} steps: {r[lab[j]]} instead of {want}", **info)
    for f in (BaseDiscovery.matrix2array, BaseDiscovery.matrix2df):
        r = f(arg, **kw)
        rec.event("array")
        if f is BaseDiscovery.matrix2df:
            rec.ok(list(r.columns) == ["from", "to", "prob"], "df:columns", f"{list(r.columns)}", **info)
            r = r.values.tolist()
        got = {}
        for a, b, v in r:
            rec.ok((a, b) not in got, "array:twice", f"{(a, b)} listed twice", **info)
            got[lab.index(a), lab.index(b)] = v
        rec.ok(all(v == m[e] for e, v in got.items()), "array:entries", "a listed entry is not that of the matrix", got=str(got), **info)
        for i in range(n):
            for j in range(i):
                x, y = ((i, j), (j, i)) if abs(m[i, j]) > abs(m[j, i]) else ((j, i), (i, j))
                if m[x] != 0:  # of two opposite entries the larger one
                    rec.ok(x in got or (abs(m[x]) == abs(m[y]) and y in got), "array:lost", f"entry {x} is not listed", got=str(got), **info)
    rec.ok(arg.equals(keep) if isinstance(arg, pd.DataFrame) else np.array_equal(arg, keep), "convert:input", "the matrix given was changed", **info)


def world(rng, d, n, discrete=False):
    """Data of a random linear (or noisy discrete) structural model."""
    es = [(i, j) for i in range(d) for j in range(i + 1, d) if rng.random() < .5]
    X = np.zeros((n, d))
    for j in range(d):
        if discrete:
            X[:, j] = rng.integers(0, 2, n)
            for a, b in es:
                if b == j:
                    m = rng.random(n) < .8
                    X[m, j] = X[m, a]
        else:
            X[:, j] = rng.normal(size=n) * .5 + rng.exponential(size=n) + sum(X[:, a] * rng.choice([1.5, -1, .7]) for a, b in es if b == j)
    o = rng.permutation(d)
    return X[:, o].astype(int) if discrete else X[:, o]


class RawHook:
    """Records copies of square arrays that leave torch during a call: the last one is the raw weight matrix."""

    def __init__(self, d):
        import torch
        self.d, self.torch, self.seen = d, torch, []

    def __enter__(self):
        self.orig = orig = self.torch.Tensor.numpy
        hook = self

        def numpy(t, *a, **k):
            r = orig(t, *a, **k)
            if getattr(r, "shape", None) == (hook.d, hook.d):
                hook.seen.append(np.array(r, copy=True))
            return r
        self.torch.Tensor.numpy = numpy
        return self

    def __exit__(self, *a):
        self.torch.Tensor.numpy = self.orig


def check_learned(rec, kind, raw, out, thr, info):
    """out: the matrix returned; raw: weights before thresholding and trimming."""
    n = len(out)
    a = edges(out)
    rec.ok(not cyclic(a, n), f"{kind}:cyclic", "the learned matrix has a cycle", out=out.tolist(), **info)
    if raw is None or np.isnan(raw).any():
        return
    rec.event("raw_seen")
    t = raw if thr is None else np.where(np.abs(raw) < thr, 0, raw)
    b = {e for e in edges(t) if e[0] != e[1]}
    rec.ok(a <= edges(raw), f"{kind}:invented", f"edges invented: {sorted(a - edges(raw))}", **info)
    rec.ok(a <= b, f"{kind}:threshold", f"entries below the threshold: {sorted((a - b) & edges(raw))}", raw=raw.tolist(), out=out.tolist(), **info)
    c = on_cycle(b, n)
    rec.ok((b - a) <= c, f"{kind}:removed", f"edges above the threshold and on no cycle removed: {sorted((b - a) - c)}", raw=raw.tolist(), out=out.tolist(), **info)
    ok = all(out[e] == raw[e] or (kind in ("golem", "dagma") and thr is not None and out[e] == 1) for e in a)
    rec.ok(ok, f"{kind}:weights", "weights differ from the learned ones", raw=raw.tolist(), out=out.tolist(), **info)


def learn(rec, rng, tier):
    import torch
    import ylearn.causal_discovery as D
    torch.set_num_threads(1)
    kind = ["notears", "notears", "golem", "dagma", "dynotears", "dygolem"][int(rng.integers(6))]
    d = int(rng.integers(2, 6))
    order = int(rng.integers(1, 3))
    step = int(rng.integers(3, 6))
    n = (step + order) * int(rng.integers(15, 30))
    X = world(rng, d, n)
    names = name_list(rng, d)
    frame = bool(rng.integers(2))
    data = pd.DataFrame(X, columns=names) if frame else X
    keep = data.copy()
    thr = [None, 0., .01, .05, .1, .3, .8][int(rng.integers(7))]
    seed = [0, 3, 2022, np.int64(5), np.random.RandomState(7)][int(rng.integers(5))]
    kw, call = {}, dict(threshold=thr)
    if kind == "notears":
        cls = D.CausalDiscovery
        kw.update(hidden_layer_dim=[None, [3], [2, 2]][int(rng.integers(3))], scale=["auto", None, "std", True][int(rng.integers(4))])
        call.update(epoch=int(rng.integers(1, 5)), max_iter=int(rng.choice([5, 20, 60])))
    elif kind == "golem":
        cls = D.GolemDiscovery
        kw.update(scale=["auto", None, "std"][int(rng.integers(3))])
        call.update(epoch=int(rng.choice([5, 40, 150])), lr=float(rng.choice([.001, .01])))
    elif kind == "dagma":
        cls = D.DagmaDiscovery
        kw.update(warm_iter=int(rng.choice([50, 300])), max_iter=int(rng.choice([100, 500])), T=int(rng.integers(1, 6)), lr=float(rng.choice([.0003, .003])))
    elif kind == "dynotears":
        cls = D.DyCausalDiscovery
        call.update(epoch=int(rng.integers(1, 4)), max_iter=20, order=order, step=step)
    else:
        cls = D.DygolemCausalDiscovery
        call.update(epoch=int(rng.choice([5, 40])), lr=float(rng.choice([.001, .01])), order=order, step=step, verbose=False)
    dy = kind.startswith("dy")
    info = dict(kind=kind, threshold=thr, columns=names if frame else None, opts=str({**kw, **call}), seed=str(seed))
    mk = lambda: cls(random_state=np.random.RandomState(7) if isinstance(seed, np.random.RandomState) else seed, **kw)
    np.random.seed(int(rng.integers(2**31)))
    torch.manual_seed(int(rng.integers(2**31)))
    m = mk()
    with RawHook(d) as h:
        r = m(data, **call)
    rec.event("learned")
    rec.seen("learn", kind, thr, names, str(kw), str(call))
    rec.ok(data.equals(keep) if frame else np.array_equal(data, keep), f"{kind}:data", "the data given was changed", **info)
    out = r
    if dy:
        rec.ok(isinstance(r, tuple) and len(r) == 2, f"{kind}:returned", f"{type(r)}", **info)
        out, lag = r
        lag = np.asarray(lag)
        rec.ok(lag.shape == (d, d, order), f"{kind}:lag_shape", f"{lag.shape}", **info)
    elif frame:
        rec.ok(isinstance(out, pd.DataFrame) and list(out.columns) == names and list(out.index) == names, f"{kind}:labels", "columns of the matrix are not those of the data, in order", **info)
    else:
        rec.ok(isinstance(out, np.ndarray), f"{kind}:type", f"{type(out)}", **info)
    out = np.asarray(out, float)
    rec.ok(out.shape == (d, d), f"{kind}:shape", f"{out.shape}", **info)
    rec.ok(np.isfinite(out).all(), f"{kind}:finite", "the matrix returned has entries which are no numbers", out=out.tolist(), **info)
    if not np.isfinite(out).all():
        return
    raw = h.seen[0] if len(h.seen) == 1 else h.seen[-1] if h.seen and kind == "notears" else None
    check_learned(rec, kind, raw, out, thr, info)
    # the same again under the same seed, whatever came before; a dictionary of the same structure
    m2 = mk()
    np.random.seed(int(rng.integers(2**31)))
    torch.manual_seed(int(rng.integers(2**31)))
    r2 = m2(data, **call)
    out2 = np.asarray(r2[0] if dy else r2, float)
    rec.close(out2, out, f"{kind}:seed", "the same seed gives another matrix", rtol=1e-5, atol=1e-8, **info)
    r3 = mk()(data, return_dict=True, **call)
    if not dy:
        lab = names if frame else list(range(d))
        back = {(b, a) for a, b in edges(out)}
        want = {lab[j]: sorted(str(lab[i]) for i in reach(back, d, j)) for j in range(d)}
        rec.ok(isinstance(r3, dict) and {k: sorted(map(str, v)) for k, v in r3.items()} == want, f"{kind}:dict", f"{r3} instead of {want}", **info)
    else:
        rec.close(r3[0], out, f"{kind}:dict", "asking for a dictionary changes the matrix", rtol=1e-5, atol=1e-8, **info)


def behind(pgm, learner, X, data, frame, kw):
    d = X.shape[1]
    if pgm:
        from pgmpy import estimators as A
        df = data if frame else pd.DataFrame(data)
        if learner == "PC":
            g = A.PC(df).estimate(variant="stable", ci_test="pearsonr", show_progress=False, return_type="dag")
        else:
            g = getattr(A, learner)(df).estimate(**kw)
        want = np.zeros((d, d))
        cols = df.columns.tolist()
        for a, b in g.edges:
            want[cols.index(a), cols.index(b)] = 1
        return want
    from castle import algorithms as A
    c = getattr(A, learner)(**kw)
    c.learn(np.array(X))
    return np.asarray(c.causal_matrix, float)


def proxies(rec, rng, tier):
    import ylearn.causal_discovery as D
    import warnings
    warnings.filterwarnings("ignore")
    d = int(rng.integers(3, 6))
    pgm = bool(rng.integers(2))
    learner = ["PC", "PC", "HillClimbSearch", "TreeSearch"][int(rng.integers(4))] if pgm else ["PC", "PC", "DirectLiNGAM", "ICALiNGAM", "Notears"][int(rng.integers(5))]
    disc = pgm and learner != "PC"
    X = world(rng, d, int(rng.integers(120, 250)), disc)
    frame = bool(rng.random() < .75)
    names = name_list(rng, d)
    data = pd.DataFrame(X, columns=names) if frame else X
    keep = data.copy()
    seed = [1, 42, np.int64(9)][int(rng.integers(3))]
    kw = {}
    if learner == "Notears":
        kw = dict(max_iter=3)
    elif learner in ("HillClimbSearch", "TreeSearch"):
        kw = dict(show_progress=False)
        if learner == "HillClimbSearch":
            kw["scoring_method"] = ["bic-d", "k2", "bicscore"][1]
    info = dict(learner=learner, names=names if frame else None, rows=len(X))
    cls = D.PgmProxy if pgm else D.GCastleProxy
    if pgm and learner == "HillClimbSearch":
        kw["scoring_method"] = "k2" if _pgm_has("k2") else "k2score"
    # the library behind, asked directly under the same seed
    np.random.seed(int(seed))
    import torch
    torch.manual_seed(int(seed))
    try:
        want = behind(pgm, learner, X, data, frame, kw)
    except Exception:  # a limit of the library behind
        raise Skip()
    r = cls(learner, random_state=seed, **kw)(data)
    rec.event("pgm" if pgm else "gcastle")
    rec.seen("proxy", learner, names, frame, len(X), d)
    kind = ("pgm:" if pgm else "gcastle:") + learner
    rec.ok(data.equals(keep) if frame else np.array_equal(data, keep), f"{kind}:data", "the data given was changed", **info)
    if frame:
        rec.ok(isinstance(r, pd.DataFrame) and list(r.columns) == names and list(r.index) == names, f"{kind}:labels",
               f"columns {list(r.columns)}, rows {list(r.index)}", **info)
    out = np.asarray(r, float)
    rec.ok(out.shape == (d, d), f"{kind}:shape", f"{out.shape}", **info)
    rec.close(out, want, f"{kind}:matrix", "not the structure found by the library behind", **info)
    rec.event("edges_found", int((want != 0).sum()))
    # dictionary and threshold
    r2 = cls(learner, random_state=seed, **kw)(data, return_dict=True)
    lab = names if frame else list(range(d))
    back = {(b, a) for a, b in edges(want)}
    w = {lab[j]: sorted(str(lab[i]) for i in reach(back, d, j)) for j in range(d)}
    rec.ok({k: sorted(map(str, v)) for k, v in r2.items()} == w, f"{kind}:dict", f"{r2} instead of {w}", **info)
    thr = float(rng.choice([.05, .4]))
    r3 = np.asarray(cls(learner, random_state=seed, **kw)(data, threshold=thr), float)
    rec.close(r3, np.where(np.abs(want) < thr, 0, want), f"{kind}:threshold", "entries with a threshold", thr=thr, **info)
    r4 = cls(learner, random_state=seed, **kw)(data, threshold=thr, return_dict=True)
    back = {(b, a) for a, b in edges(r3)}
    w = {lab[j]: sorted(str(lab[i]) for i in reach(back, d, j)) for j in range(d)}
    rec.ok({k: sorted(map(str, v)) for k, v in r4.items()} == w, f"{kind}:dict", f"with a threshold: {r4} instead of {w}", **info)


def _pgm_has(name):
    from pgmpy.estimators import HillClimbSearch
    import inspect
    return f'"{name}"' in inspect.getsource(HillClimbSearch) or f"'{name}'" in inspect.getsource(HillClimbSearch)


def roles(rec, rng, tier):
    from ylearn.api._identifier import IdentifierWithLearner
    d = int(rng.integers(3, 8))
    names = [n for n in name_list(rng, d)]
    if not all(isinstance(n, str) for n in names):
        names = [f"n{n}" for n in names]
    m, _ = matrix(rng, d, dag=True)
    n = 60
    df = pd.DataFrame(rng.normal(size=(n, d)), columns=names)
    outcome = names[int(rng.integers(d))]
    frame = bool(rng.integers(2))
    cols_seen = []

    def learner(X):
        cols_seen.append(list(X.columns))
        M = pd.DataFrame(m, columns=names, index=names).loc[X.columns, X.columns]
        return M if frame else M.values

    method = [None, "dfs", "straight", ("backdoor", "simple"), ("backdoor", "simple")][int(rng.integers(5))]
    ident = IdentifierWithLearner(learner, random_state=1, **({} if method is None else dict(method=method)))
    ref = G.Ref(names, [(names[i], names[j]) for i, j in edges(m)])
    W = {(names[i], names[j]): m[i, j] for i, j in edges(m)}
    keep = df.copy()
    info = dict(edges=sorted((a, b, float(w)) for (a, b), w in W.items()), outcome=outcome, method=str(method))
    rec.event("roles")
    rec.seen("roles", m.tobytes(), outcome, str(method), names)
    causes = sorted(ref.parents(outcome), key=lambda c: -abs(W[c, outcome]))
    limit = int(rng.integers(1, 4))
    excl = [c for c in names if c != outcome and rng.random() < .2] if rng.random() < .5 else None
    given = bool(rng.random() < .4)
    if not given and excl and len(excl) >= d - 1:
        raise Skip()
    if not given:
        t = ident.identify_treatment(df, outcome, None, limit, excludes=excl)
        free = [c for c in causes if c not in (excl or [])]
        rec.ok(len(t) == len(set(t)) <= limit and outcome not in t and not set(t) & set(excl or []), "roles:treatment", f"treatments {t}, limit {limit}, excluded {excl}", **info)
        if free:
            rec.ok(set(t) <= set(free), "roles:treatment_cause", f"treatments {t} are not causes of the outcome {free}", **info)
            rec.ok(len(t) == min(limit, len(free)), "roles:treatment_number", f"treatments {t} of {free}, limit {limit}", **info)
            top = sorted((abs(W[c, outcome]) for c in free), reverse=True)[:len(t)]
            rec.close(sorted((abs(W[c, outcome]) for c in t), reverse=True), top, "roles:treatment_strength", f"treatments {t} are not the strongest of {free}", **info)
        rec.ok(set(cols_seen[0]) == set(names), "roles:columns", f"discovery got columns {cols_seen[0]}", **info)
        got = ident.causal_matrix_
        rec.ok({(a, b) for a in got.index for b in got.columns if got.loc[a, b] != 0} == set(W), "roles:matrix", "the matrix kept is not the discovered one", **info)
        if not t:
            raise Skip()
    else:
        cand = [c for c in names if c != outcome]
        t = [cand[i] for i in rng.permutation(len(cand))[:limit]]
    if isinstance(method, tuple) and (any(x in ref.de({outcome}) for x in t) or len(t) > 1 and rng.random() < .7):
        t = [x for x in t if x not in ref.de({outcome})][:1]
        if not t:
            raise Skip()
    try:
        adj, cov, iv = ident.identify_aci(df, outcome, list(t))
    except Exception as e:
        if len(t) > 1 and isinstance(method, tuple):
            raise Skip()  # several treatments need not have a back door set
        raise
    adj, cov, iv = [list(v) if v is not None else [] for v in (adj, cov, iv)]
    every = adj + cov + iv
    info.update(treatment=t, covariate=cov, instrument=iv)
    rec.ok(len(every) == len(set(every)) and not set(every) & (set(t) | {outcome}) and set(every) <= set(names), "roles:disjoint", "roles overlap", **info)
    rec.ok(df.equals(keep), "roles:data", "the data given was changed", **info)
    rec.event("instrument_found", int(bool(iv)))
    anc_y = ref.an({outcome}) - {outcome} - set(t)
    rest = [c for c in names if c != outcome and c not in t and c not in iv]
    if not isinstance(method, tuple):
        want_iv = ref.an(set(t)) - set(t) - {outcome} - anc_y
        rec.ok(set(iv) == want_iv, "roles:instrument", f"instruments instead of {sorted(want_iv)}", **info)
        if anc_y:
            rec.ok(set(cov) == anc_y, "roles:covariate", f"covariates instead of {sorted(anc_y)}", **info)
        else:
            rec.ok(set(cov) == set(rest), "roles:covariate_default", f"covariates instead of all others {rest}", **info)
    else:
        for z in iv:
            for x in t:
                # relevant, and reaches the outcome only through the treatment
                cut = ref.no_out({x})
                rec.ok(not ref.dsep({z}, {x}, set()) and cut.dsep({z}, {outcome}, set()), "roles:iv_invalid", f"{z} is not an instrument for {x}", **info)
        if len(t) == 1:
            valid = {z for z in names if z not in (t[0], outcome) and z in ref.an({t[0]}) and ref.no_out({t[0]}).dsep({z}, {outcome}, set())}
            valid &= ref.parents(t[0])  # only direct causes are looked at
            rec.ok(set(iv) == valid, "roles:iv_valid", f"instruments instead of {sorted(valid)}", **info)
            rec.event("iv_exists", int(bool(valid)))
            if set(cov) != set(rest):
                rec.ok(ref.no_out({t[0]}).dsep({t[0]}, {outcome}, set(cov)) and not set(cov) & ref.de({t[0]}), "roles:backdoor", "covariates do not block the back doors", **info)
            else:
                rec.event("covariates_default")


def why(rec, rng, tier):
    """The graph reported by Why is the discovered one; the default graph has every role in its place."""
    from sklearn.linear_model import LinearRegression
    from ylearn import Why
    d = int(rng.integers(3, 6))
    names = [f"v{i}" for i in rng.permutation(d)]
    m, _ = matrix(rng, d, dag=True)
    df = pd.DataFrame(rng.normal(size=(80, d)), columns=names)
    outcome = names[int(rng.integers(d))]
    df[outcome] = df.sum(axis=1)
    disc = bool(rng.random() < .6)
    kw = dict(identifier=lambda X: pd.DataFrame(m, columns=names, index=names).loc[X.columns, X.columns]) if disc else {}
    w = Why(estimator="dml", discrete_outcome=False, discrete_treatment=False, random_state=1, **kw,
            estimator_options=dict(x_model=LinearRegression(), y_model=LinearRegression(), cf_fold=1))
    t, adj, cov, iv = w.identify(df, outcome)
    given = {}
    if not disc:
        w.outcome_, w.treatment_, w.adjustment_, w.covariate_, w.instrument_ = outcome, t, adj, cov, iv
        if rng.random() < .5 and len(cov) > 1:
            w.covariate_, w.adjustment_ = cov[1:], cov[:1]
        if rng.random() < .3:
            w.instrument_ = ["zz"]
    g = w.causal_graph()
    rec.event("causal_graph")
    rec.seen("why", disc, m.tobytes(), names)
    got = {(a, b) for b, ps in g.causation.items() for a in ps}
    if disc:
        want = {(names[i], names[j]) for i, j in edges(m)}
        rec.ok(got == want and set(g.causation) == set(names), "why:graph", f"edges {sorted(got)} instead of {sorted(want)}")
    else:
        short = {(a.split("(")[0], b.split("(")[0]) for a, b in got}
        want = {("Treatments", "Outcome")}
        for r, v in (("Covariates", w.covariate_), ("Adjustments", w.adjustment_)):
            if v:
                want |= {(r, "Treatments"), (r, "Outcome")}
        if w.instrument_:
            want.add(("Instruments", "Treatments"))
        rec.ok(short == want, "why:default_graph", f"edges {sorted(short)} instead of {sorted(want)}")


def discovery_roles(rec, rng, tier):
    """Identifiers with a real discovery: roles agree with the matrix they keep, which agrees with the columns."""
    import torch
    torch.set_num_threads(1)
    from ylearn.api import _identifier as I
    d = int(rng.integers(3, 6))
    X = world(rng, d, 150)
    names = [f"c{i}" for i in rng.permutation(d)]
    df = pd.DataFrame(X, columns=names)
    outcome = names[int(rng.integers(d))]
    k = int(rng.integers(3))
    ident = [lambda: I.IdentifierWithNotears(random_state=3, epoch=3, max_iter=30, threshold=.05), lambda: I.IdentifierWithGCastle(random_state=3),
             lambda: I.IdentifierWithPgm(random_state=3)][k]()
    t = ident.identify_treatment(df, outcome, None, 2)
    m = ident.causal_matrix_
    rec.ok(set(m.columns) == set(names) and list(m.columns) == list(m.index), "disc:columns", f"{list(m.columns)}")
    es = {(a, b) for a in names for b in names if m.loc[a, b] != 0 and a != b}
    pa = {a for a, b in es if b == outcome}
    info = dict(kind=k, edges=sorted(es), outcome=outcome, treatment=t)
    rec.event("roles")
    rec.seen("disc", k, names, sorted(es))
    if np.isnan(m.values).any():
        raise Skip()
    rec.ok(set(t) <= (pa or set(names)) and outcome not in t and 1 <= len(t) <= 2, "disc:treatment", f"causes {sorted(pa)}", **info)
    adj, cov, iv = ident.identify_aci(df, outcome, t)
    ref = G.Ref(names, es)
    anc = ref.an({outcome}) - {outcome} - set(t)
    want_iv = ref.an(set(t)) - set(t) - {outcome} - anc
    rec.ok(set(iv or []) == want_iv, "disc:instrument", f"{iv} instead of {sorted(want_iv)}", **info)
    rec.ok(set(cov) == (anc or set(names) - set(t) - {outcome} - want_iv), "disc:covariate", f"{cov} instead of {sorted(anc)}", **info)


GROUPS = [Group("trim", trim, 500, 8000), Group("convert", convert, 300, 4000), Group("learn", learn, 80, 900, timeout=300, chunk=4),
          Group("proxies", proxies, 60, 600, timeout=300, chunk=4), Group("roles", roles, 320, 4000), Group("why", why, 32, 300), Group("discovery_roles", discovery_roles, 40, 300, chunk=3)]
