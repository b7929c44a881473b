"""C24: what CausalModel.estimate and identify_estimate fit, judged by brute-force criteria, direct fits and least squares."""
import numpy as np
import pandas as pd

from checks.c02 import backdoor_ok, snapshot
from vm.core import Group, Skip
from vm.graphs import Ref, powerset, rand_graph, to_lib

PROPERTY = "C24"
RULE = ("one evaluation = one question answered by CausalModel.estimate or identify_estimate compared with the sets the graph "
        "justifies (exhaustive d-separation), with the estimator fitted directly with those sets and with least squares; "
        "distinct = distinct (graph, treatment, outcome, estimator)")
REQUIRE = {"default": 60, "explicit": 60, "refused_set": 60, "no_set": 20, "stale": 30, "one_per_set": 30, "fitted_before": 30,
           "least_squares": 100, "true_effect": 60,
           "several": 80}


def problem(rec, rng, n_rows):
    n = int(rng.integers(3, 7))
    nodes, edges, arcs = rand_graph(rng, n, p_edge=rng.choice([.3, .5, .7]), p_arc=rng.choice([0, .1, .25]))
    i, j = sorted(rng.permutation(n)[:2])
    if rng.random() < .15:
        i, j = j, i
    elif rng.random() < .8 and (nodes[i], nodes[j]) not in edges:
        edges.append((nodes[i], nodes[j]))
    if min(i, j) and rng.random() < .6:
        # something to adjust for
        k = int(rng.integers(min(i, j)))
        edges = sorted(set(edges) | {(nodes[k], nodes[i]), (nodes[k], nodes[j])})
    x, y = nodes[i], nodes[j]
    binary = bool(rng.random() < .6)
    w = {e: float(rng.choice([-1, 1]) * rng.uniform(.5, 1.5)) for e in edges}
    d = {}
    lat = [(a, rng.normal(size=n_rows), rng.uniform(.5, 1.5)) for a in arcs]
    for v in nodes:
        s = rng.normal(size=n_rows) * rng.uniform(.5, 1.2) + rng.uniform(-2, 2)
        for a, b in edges:
            if b == v:
                s = s + w[a, b] * d[a]
        for a, u, k in lat:
            if v in a:
                s = s + k * u
        if v == x and binary:
            s = (s > np.median(s) + .3 * np.std(s) * rng.uniform(-1, 1)).astype(int)
        d[v] = s
    # total effect along directed paths
    tot = {x: 1.0}
    for v in nodes[nodes.index(x) + 1:]:
        tot[v] = sum(w[a, v] * tot.get(a, 0.0) for a, b in edges if b == v)
    cols = [nodes[k] for k in rng.permutation(n)]
    f = pd.DataFrame({c: d[c] for c in cols})
    if rng.random() < .3:
        f["elsewhere"] = rng.normal(size=n_rows)
    if rng.random() < .4:
        f.index = [("r", "s", 7)[int(rng.integers(3))]] * n_rows if rng.random() < .5 else rng.permutation(n_rows) + 5
    g, _ = to_lib(rng, nodes, edges, arcs)
    ref = Ref(nodes, edges, arcs)
    cands = powerset(ref.nodes - {x, y})
    valid = [frozenset(z) for z in cands if backdoor_ok(ref, z, {x}, {y})]
    return dict(nodes=nodes, ref=ref, g=g, x=x, y=y, binary=binary, f=f, cands=cands, valid=valid, tot=tot.get(y, 0.0))


def estimators(p):
    from sklearn.linear_model import LinearRegression as LR
    from sklearn.linear_model import LogisticRegression as LG
    from sklearn.linear_model import Ridge
    from ylearn.estimator_model import DoubleML, DoublyRobust, SLearner, TLearner, XLearner
    k = [("DML", lambda: DoubleML(x_model=LR(), y_model=LR(), cf_fold=1))]
    if p["binary"]:
        k += [("S", lambda: SLearner(model=Ridge(alpha=1e-6))), ("S", lambda: SLearner(model=Ridge(alpha=1e-6))), ("T", lambda: TLearner(model=LR())),
              ("X", lambda: XLearner(model=LR())), ("DR", lambda: DoublyRobust(x_model=LG(), y_model=LR(), yx_model=LR(), cf_fold=1))]
    return k


def form(rng, s):
    s = [s] if isinstance(s, str) else [t for t in s]
    s = [s[i] for i in rng.permutation(len(s))]
    r = rng.random()
    return s[0] if len(s) == 1 and r < .4 else set(s) if r < .7 else s


def ols(p, z):
    f = p["f"]
    A = np.column_stack([f[p["x"]]] + [f[c] for c in sorted(z)] + [np.ones(len(f))])
    b, _, rank, _ = np.linalg.lstsq(A, f[p["y"]].to_numpy(), rcond=None)
    if rank < A.shape[1]:
        return None
    r = f[p["y"]].to_numpy() - A @ b
    s2 = r @ r / (len(f) - A.shape[1])
    return float(b[0]), float(np.sqrt(s2 * np.linalg.inv(A.T @ A)[0, 0]))


def guard(rec, p, frame0, snap0, info):
    rec.ok(p["f"].equals(frame0) and list(p["f"].columns) == list(frame0.columns) and p["f"].index.equals(frame0.index), "frame_changed",
           "the user's frame was modified", **info)
    rec.ok(snapshot(p["g"]) == snap0, "graph_changed", "the graph was modified", **info)


def judge(rec, p, name, make, est, res, q, info, z=None, split=None):
    """The fitted estimator used a set the graph justifies, and the answer is that of a direct fit with it."""
    got = frozenset((est.adjustment if est.adjustment is not None else ())) | frozenset(est.covariate if est.covariate is not None else ())
    if z is not None:
        rec.ok(got == frozenset(z), "set_used", f"{set(got)} was adjusted for instead of {set(z)}", **info)
    rec.ok(got in p["valid"], "set_used:invalid", f"{set(got)} does not satisfy the back-door criterion", valid=p["valid"][:4], **info)
    e = make()
    ad, co = split if split else (sorted(got), None)
    if split is None and est.covariate is not None and len(est.covariate):
        ad, co = None, sorted(got)
    e.fit(data=p["f"], outcome=[p["y"]], treatment=[p["x"]], adjustment=ad or None, covariate=co or None)
    want = e.estimate(data=p["f"], quantity=q)
    rec.close(np.asarray(res, float), np.asarray(want, float), "direct_fit", f"{name}: the answer differs from the estimator fitted directly",
              rtol=1e-6, atol=1e-7, **info)
    if name == "S":
        o = ols(p, got)
        if o is not None:
            rec.event("least_squares")
            rec.close(float(np.mean(res)), o[0], "least_squares", "the effect is not the least-squares coefficient given the set", rtol=1e-4,
                      atol=1e-5, **info)
            if len(p["f"]) >= 300:
                rec.event("true_effect")
                rec.ok(abs(float(np.mean(res)) - p["tot"]) < 6.5 * o[1] + 1e-6, "true_effect",
                       f"effect {float(np.mean(res)):.4f}, truth {p['tot']:.4f}, standard error {o[1]:.4f}", **info)


def ask(rec, rng, fn, *a, **k):
    from ylearn.causal_model.utils import IdentificationError
    try:
        return "ok", fn(*a, **k)
    except IdentificationError:
        return "none", None
    except AssertionError as e:
        return "refused", str(e)


def start(rec, rng, tier):
    p = problem(rec, rng, int(rng.choice([60, 300, 800])))
    ks = estimators(p)
    name, make = ks[int(rng.integers(len(ks)))]
    info = dict(graph=p["ref"].key(), x=p["x"], y=p["y"], estimator=name, rows=len(p["f"]))
    rec.seen(p["ref"].key(), p["x"], p["y"], name)
    return p, name, make, info


def estimate(rec, rng, tier):
    from ylearn.causal_model import CausalModel
    p, name, make, info = start(rec, rng, tier)
    own = rng.random() < .5
    m = CausalModel(causal_graph=p["g"], data=p["f"] if own else None)
    f0, s0 = p["f"].copy(deep=True), snapshot(p["g"])
    data = {} if own else {"data": p["f"]}
    q = [None, "ATE"][int(rng.integers(2))]
    what = ["default", "default", "explicit", "refused", "history"][int(rng.integers(5))]
    x, y = p["x"], p["y"]
    names = dict(treatment=form(rng, x), outcome=form(rng, y))
    info.update(what=what)

    if what == "history":
        # another question first: its sets may not leak into this one
        for _ in range(int(rng.integers(1, 4))):
            a, b = [p["nodes"][i] for i in rng.permutation(len(p["nodes"]))[:2]]
            r = rng.random()
            if r < .4:
                ask(rec, rng, m.get_backdoor_set, form(rng, a), form(rng, b), adjust=["all", "minimal", "simple"][int(rng.integers(3))])
            elif r < .7:
                ask(rec, rng, m.identify, form(rng, a), form(rng, b), identify_method=("backdoor", ["all", "minimal"][int(rng.integers(2))]))
            else:
                ask(rec, rng, m.is_valid_backdoor_set, set(), a, b)
            rec.event("stale")
        if rng.random() < .5:
            m.treatment, m.outcome = None, None
    if what in ("default", "history"):
        if what == "default" and rng.random() < .4 and any(p["valid"]):
            # names taken from the identification made before
            st, _ = ask(rec, rng, m.identify, names["treatment"], names["outcome"],
                        identify_method=("backdoor", ["all", "minimal", "simple"][int(rng.integers(3))]))
            if st == "ok":
                rec.event("names_remembered")
                names = {}
        est = make()
        st, res = ask(rec, rng, m.estimate, est, quantity=q, **data, **names)
        if st == "none":
            rec.event("no_set")
            from ylearn.causal_model import CausalModel as CM
            st2, r2 = ask(rec, rng, CM(causal_graph=p["g"]).get_backdoor_set, x, y, adjust="simple")
            rec.ok(not (st2 == "ok" and r2 is not None), "refused_although_valid", "no estimate although the simplest set is valid", **info)
            rec.ok(frozenset(p["ref"].parents(x)) not in p["valid"], "refused_although_valid",
                   "no estimate although the parents of the treatment are a valid set", **info)
            guard(rec, p, f0, s0, info)
            return
        rec.ok(len(p["valid"]) > 0, "estimated_without_set", "an estimate although no set satisfies the criterion", **info)
        if st == "refused":
            # these estimators need at least one covariate
            rec.event("nothing_to_adjust")
            rec.ok(frozenset() in p["valid"], "refused", f"refused: {res}", **info)
            if what == "default" and names:
                # the simplest set is the parents of the treatment, and that is not empty
                pa = frozenset(p["ref"].parents(x))
                rec.ok(not (pa and pa in p["valid"]), "refused:parents_valid", f"refused: {res}", **info)
            return
        rec.event("default")
        judge(rec, p, name, make, est, res, q, info)
    elif what == "explicit":
        zs = [z for z in p["valid"] if z]
        if not zs:
            raise Skip
        z = sorted(zs[int(rng.integers(len(zs)))])
        cut = int(rng.integers(0, len(z) + 1))
        z = [z[i] for i in rng.permutation(len(z))]
        ad, co = z[:cut], z[cut:]
        kw = {}
        if ad:
            kw["adjustment"] = form(rng, ad)
        if co:
            kw["covariate"] = form(rng, co)
        est = make()
        st, res = ask(rec, rng, m.estimate, est, quantity=q, **data, **names, **kw)
        rec.event("explicit")
        if rec.ok(st == "ok", "explicit:refused", f"a valid set was refused: {res}", adjustment=ad, covariate=co, **info):
            rec.ok(set(est.adjustment or ()) == set(ad) if est.adjustment is not None else not ad, "roles", "adjustment given to the estimator differs",
                   adjustment=ad, covariate=co, **info)
            judge(rec, p, name, make, est, res, q, info, z=z, split=(sorted(ad), sorted(co)))
    else:
        bad = [z for z in p["cands"] if z and frozenset(z) not in set(p["valid"])]
        if not bad:
            raise Skip
        for z in [bad[i] for i in rng.permutation(len(bad))[:4]]:
            z = sorted(z)
            cut = int(rng.integers(0, len(z) + 1))
            kw = {}
            if z[:cut]:
                kw["adjustment"] = form(rng, z[:cut])
            if z[cut:]:
                kw["covariate"] = form(rng, z[cut:])
            est = make()
            st, res = ask(rec, rng, m.estimate, est, quantity=q, **data, **names, **kw)
            rec.event("refused_set")
            rec.ok(st != "ok", "invalid_set_accepted", f"{z} violates the back-door criterion yet an effect was estimated with it", **info)
            rec.ok(not est._is_fitted, "fitted_with_invalid_set", f"the estimator was fitted with {z}", **info)
    guard(rec, p, f0, s0, info)


def fitted(rec, rng, tier):
    """An estimator fitted before is asked, not fitted again."""
    from ylearn.causal_model import CausalModel
    p, name, make, info = start(rec, rng, tier)
    zs = [z for z in p["valid"] if z]
    if not zs:
        raise Skip
    z = sorted(zs[int(rng.integers(len(zs)))])
    est = make()
    half = p["f"].iloc[:max(30, len(p["f"]) // 2)]
    if p["binary"] and half[p["x"]].nunique() < 2:
        raise Skip
    q = [None, "ATE"][int(rng.integers(2))]
    est.fit(data=half, outcome=p["y"], treatment=p["x"], adjustment=None if name == "DML" else z, covariate=z if name == "DML" else None)
    want = est.estimate(data=p["f"], quantity=q)
    m = CausalModel(causal_graph=p["g"], data=half)
    other = sorted(zs[int(rng.integers(len(zs)))])
    st, res = ask(rec, rng, m.estimate, est, p["f"], quantity=q, treatment=form(rng, p["x"]), outcome=form(rng, p["y"]), adjustment=form(rng, other))
    rec.event("fitted_before")
    if rec.ok(st == "ok", "fitted:refused", f"refused: {res}", **info):
        rec.close(np.asarray(res, float), np.asarray(want, float), "fitted:refitted", f"{name}: a fitted estimator answers otherwise through the model",
                  rtol=1e-9, atol=1e-10, **info)


def every_set(rec, rng, tier):
    from ylearn.causal_model import CausalModel
    p, name, make, info = start(rec, rng, tier)
    m = CausalModel(causal_graph=p["g"], data=None if rng.random() < .5 else p["f"])
    f0, s0 = p["f"].copy(deep=True), snapshot(p["g"])
    style = ["auto", "all", "minimal", "simple"][int(rng.integers(4))]
    meth = style if style == "auto" or rng.random() < .5 else ("backdoor", style)
    q = [None, "ATE", "CATE"][int(rng.integers(3))]
    info.update(method=str(meth))
    est = make()
    if rng.random() < .4:
        # a question asked before, answered by a model of its own
        ask(rec, rng, m.identify_estimate, p["f"], form(rng, p["y"]), form(rng, p["x"]), make(), quantity=q, identify_method="minimal")
    st, res = ask(rec, rng, m.identify_estimate, p["f"], form(rng, p["y"]), form(rng, p["x"]), est, quantity=q, identify_method=meth)
    rec.ok(not est._is_fitted, "users_estimator_fitted", "the estimator handed in was fitted itself", **info)
    guard(rec, p, f0, s0, info)
    if st == "none":
        rec.event("no_set")
        if style == "simple":
            rec.ok(frozenset(p["ref"].parents(p["x"])) not in p["valid"], "refused_although_valid", "the parents of the treatment are a valid set", **info)
        else:
            rec.ok(not p["valid"], "refused_although_valid", "valid sets exist", valid=p["valid"][:3], **info)
        return
    rec.ok(len(p["valid"]) > 0, "estimated_without_set", "an answer although no set satisfies the criterion", **info)
    if st == "refused":
        rec.event("nothing_to_adjust")
        rec.ok(frozenset() in p["valid"], "refused", f"refused: {res}", **info)
        return
    models, effects = res["est_models"], res["effects"]
    rec.event("one_per_set")
    rec.ok(len(models) == len(effects), "length", f"{len(models)} models, {len(effects)} effects", **info)
    used = [frozenset(e.adjustment if e.adjustment is not None else ()) | frozenset(e.covariate if e.covariate is not None else ()) for e in models]
    rec.ok(len(set(map(id, models))) == len(models), "models_shared", "one model stands for several sets", **info)
    if style in ("auto", "all"):
        rec.ok(sorted(map(sorted, used)) == sorted(map(sorted, p["valid"])), "every_set", f"{len(used)} sets estimated, {len(p['valid'])} valid",
               used=used[:6], valid=p["valid"][:6], **info)
    elif style == "minimal":
        rec.ok(len(used) >= 1 and all(not any(v < z for v in p["valid"]) for z in used), "not_minimal", f"{used}", **info)
    else:
        rec.ok(len(used) == 1, "simple:one", f"{len(used)} sets", **info)
    for i in rng.permutation(len(models))[:4]:
        judge(rec, p, name, make, models[i], effects[i], q, info)


def several(rec, rng, tier):
    """Two treatments or two outcomes."""
    from sklearn.linear_model import LinearRegression as LR
    from ylearn.causal_model import CausalModel
    from ylearn.estimator_model import DoubleML
    n = int(rng.integers(3, 7))
    nodes, edges, arcs = rand_graph(rng, n, p_edge=rng.choice([.3, .5, .7]), p_arc=rng.choice([0, .1]))
    perm = [nodes[i] for i in rng.permutation(n)]
    nx_ = 2 if rng.random() < .6 else 1
    x, y = sorted(perm[:nx_]), sorted(perm[nx_:nx_ + 1 + int(rng.random() < .6 and n > nx_ + 1)])
    if len(x) + len(y) < 3:
        raise Skip
    f = pd.DataFrame({c: rng.normal(size=80) for c in nodes})
    for a, b in edges:
        f[b] = f[b] + f[a]
    g, _ = to_lib(rng, nodes, edges, arcs)
    ref = Ref(nodes, edges, arcs)
    X, Y = set(x), set(y)
    cands = powerset(ref.nodes - X - Y)
    valid = [frozenset(z) for z in cands if backdoor_ok(ref, z, X, Y)]
    info = dict(graph=ref.key(), x=x, y=y)
    rec.seen(ref.key(), tuple(x), tuple(y))
    m = CausalModel(causal_graph=g, data=f)
    z = cands[int(rng.integers(len(cands)))]
    if not z:
        raise Skip
    make = lambda: DoubleML(x_model=LR(), y_model=LR(), cf_fold=1)
    est = make()
    # sets carry no order: names are sorted before they are handed on
    tf, of = form(rng, x), form(rng, y)
    st, res = ask(rec, rng, m.estimate, est, treatment=tf, outcome=of, adjustment=form(rng, sorted(z)))
    rec.event("several")
    if frozenset(z) not in valid:
        rec.ok(st == "refused" and not est._is_fitted, "invalid_set_accepted", f"{z} accepted for several treatments or outcomes", **info)
        return
    if rec.ok(st == "ok", "explicit:refused", f"a valid set was refused: {res}", adjustment=sorted(z), **info):
        e = make()
        e.fit(data=f, treatment=sorted(tf) if isinstance(tf, set) else tf, outcome=sorted(of) if isinstance(of, set) else of, adjustment=sorted(z))
        rec.close(np.asarray(res, float), np.asarray(e.estimate(data=f), float), "direct_fit", "several: differs from the estimator fitted directly",
                  rtol=1e-6, atol=1e-7, **info)


GROUPS = [Group("estimate", estimate, 2200, 22000), Group("fitted", fitted, 300, 3000), Group("every_set", every_set, 1200, 12000),
          Group("several", several, 400, 4000)]
