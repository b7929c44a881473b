"""C10: histories of fitting and estimating; each answer against the same question asked alone of a fresh copy."""
import copy
import random

import numpy as np

from vm.core import Group, Skip
from vm import est, zoo

PROPERTY = "C10"
RULE = ("one evaluation = one answer in a history of fits and estimates compared bit by bit with the same question asked alone of a freshly fitted copy, "
        "or one state (frame, base model, earlier answer, global random stream) found unchanged; distinct = distinct (history kind, estimator, configuration, data)")
KINDS = zoo.FAST + ["AB"]
DEEP = ["DIV", "DIVc"]
REQUIRE = {f"{g}:{k}": 2 for g in ("sequence", "refit", "repro") for k in KINDS}
REQUIRE.update({f"{g}:deep": 2 for g in ("sequence", "refit", "repro")})
REQUIRE.update({"answers": 3000, "failing_calls": 150, "failed_fits": 20, "repeats": 500, "old_answers": 2000, "models_checked": 200, "two_treatments_other_levels": 25})
ONE_T = ("GRF", "CF", "CFc", "SS", "TS", "XS", "DIV", "DIVc", "AB")
POINT = ("GRF", "CF", "CFc", "CTF")     # estimate(data) only


def answer(v):
    """An answer as a list of arrays."""
    if isinstance(v, dict):
        v = [v[q] for q in sorted(v)]
    if isinstance(v, (tuple, list)):
        return [np.asarray(zoo.num(q), dtype=float) for q in v]
    return [zoo.num(v)]


def same(a, b, exact=True):
    if len(a) != len(b):
        return False
    for p, q in zip(a, b):
        if p.shape != q.shape:
            return False
        if exact and not np.array_equal(p, q, equal_nan=True):
            return False
        if not exact and not np.allclose(p, q, rtol=1e-7, atol=1e-9 * max(1., np.abs(q[np.isfinite(q)]).max() if np.isfinite(q).any() else 1.), equal_nan=True):
            return False
    return True


def first_difference(a, b):
    for p, q in zip(a, b):
        if p.shape != q.shape:
            return f"shape {p.shape} instead of {q.shape}"
        bad = ~((p == q) | (np.isnan(p) & np.isnan(q)))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            return f"{int(bad.sum())} of {p.size} values differ, e.g. {list(i)} {p[i]!r} instead of {q[i]!r}"
    return f"{len(a)} results instead of {len(b)}"


def questions(rng, S, m=7, frames=None):
    """(name, call) where call(e) returns an answer."""
    k, out = S.kind, []
    frames = frames or [("train", S.data), ("rows", S.rows(rng)), ("rows2", S.rows(rng))]
    for i in range(m):
        name, d = frames[int(rng.integers(len(frames)))] if rng.random() < .75 else ("none", None)
        pair = S.cell_pairs(rng)[0]
        if rng.random() < .1:
            pair = (pair[0], pair[0])
        if rng.random() < .2:
            pair = None
        q = [None, None, "ATE", "CATE"][int(rng.integers(4))] if k not in POINT else None
        if k == "AB":
            kw = dict(assump=[None, "no-assump", "non-negative", "optimal"][int(rng.integers(4))])
            if rng.random() < .5:
                y = np.asarray(S.data[S.c.outcome[0]], dtype=float)
                kw.update(y_upper=float(y.max() + rng.random()), y_lower=float(y.min() - rng.random()))
            if pair is not None and pair[0] == pair[1]:
                continue
            out.append((f"estimate({name}, {pair}, {kw})", lambda e, d=d, pair=pair, kw=kw: answer(S.ask(e, d, pair, **kw))))
            continue
        if rng.random() < .35 and k != "CTF":
            kw = {}
            if k in zoo.PERM + ("DML",) and rng.random() < .5:
                kw = dict(control=S.lab(int(rng.integers(S.cells))))
            out.append((f"effect_nji({name}, {kw})", lambda e, d=d, kw=kw: answer(S.table(e, d, **kw))))
            continue
        kw = {}
        if S.proba and k in ("S", "T", "PS", "PT", "DML") and rng.random() < .4:
            kw = dict(target_outcome=S.c.y_labels[int(rng.integers(len(S.c.y_labels)))])
        if k in ("X", "XS") and rng.random() < .3:
            kw = dict(rho=float(rng.choice([.2, .9])))
        if k == "DR" and S.n_treat == 1 and rng.random() < .3:
            kw = dict(treat=S.lab(int(rng.integers(S.cells)))[0])
        if k == "DR" and rng.random() < .3:
            kw = dict(all_tr_effects=True)
        if k in ("IVc", "DIVc") and rng.random() < .3:
            kw = dict(marginal_effect=True)
        out.append((f"estimate({name}, {pair}, {q}, {kw})", lambda e, d=d, pair=pair, q=q, kw=kw: answer(S.ask(e, d, pair, quantity=q, **kw))))
    return out


def bad_question(rng, S):
    """A call which cannot be answered."""
    how = int(rng.integers(3))
    if how == 0 and (S.c.covariate or S.c.adjustment) and S.kind not in ("DR", "PDR"):
        q = (S.c.covariate or S.c.adjustment)[0]
        d = S.data.drop(columns=[q])
        return "missing column", lambda e: S.ask(e, d, None)
    if how == 1 and S.how == "pair" and not S.continuous:
        d = S.rows(rng)
        return "unknown level", lambda e: zoo.num(e.estimate(data=d, treat="no such level", control=S.lab(0) if S.n_treat > 1 else S.lab(0)[0]))
    return "not a frame", lambda e: S.ask(e, object(), None)


def ask(q, e):
    """The answer, or the type of the error raised."""
    try:
        return q(e)
    except Exception as x:
        return [np.array([0.]), np.array([float(abs(hash(type(x).__name__)) % 10 ** 6)])], x


def inputs_unchanged(rec, S, before, info, where):
    rec.ok(est.snap(S.data) == before, "frame_changed", f"the caller's frame changed while {where}", **info)
    rec.event("models_checked", len(S.given))
    t = S.touched()
    rec.ok(not t, f"model_changed:{S.kind}", f"a base model handed to the estimator was changed while {where}", models=t, **info)


def pick(rng, kind):
    return kind or KINDS[int(rng.integers(len(KINDS)))]


def sequence(rec, rng, tier, kind=None):
    k = pick(rng, kind)
    S = zoo.Subject(rng, k)
    info = S.info()
    rec.event("sequence:" + ("deep" if k in DEEP else k))
    rec.seen("sequence", k, info["estimator"], S.c.n, S.levels, info["roles"])
    before = est.snap(S.data)
    e = S.fit(pair=S.cell_pairs(rng)[0])
    # the original is never asked, only copied
    alone = copy.deepcopy(e)
    Q = questions(rng, S)
    if not Q:
        raise Skip("no questions")
    rec.sample(questions=[q[0] for q in Q], **info)
    frames = {}
    want = []
    for name, q in Q:
        r = ask(q, copy.deepcopy(alone))
        want.append(r)
    # nothing random in estimating: another copy gives the same (draws of the deep variant depend on a global stream)
    loose = k in DEEP
    old = []
    history = []
    order = [int(v) for v in rng.integers(0, len(Q), 2 * len(Q))]
    seen = set()
    for j in order:
        name, q = Q[j]
        if rng.random() < .2:
            bname, b = bad_question(rng, S)
            try:
                b(e)
            except Exception:
                rec.event("failing_calls")
                history.append("failed: " + bname)
            else:
                history.append(bname)
        got = ask(q, e)
        history.append(name)
        rec.event("answers")
        rec.event("repeats", int(j in seen))
        seen.add(j)
        if isinstance(want[j], tuple) or isinstance(got, tuple):
            if isinstance(want[j], tuple) and isinstance(got, tuple):
                if kind_of(want[j][1]) == kind_of(got[1]):
                    continue
            rec.ok(False, f"sequence:{k}", "a call fails or succeeds depending on the calls before it", alone=repr(want[j])[:200], got=repr(got)[:200], question=name, history=history[:-1], **info)
            return
        if not rec.ok(same(got, want[j], exact=not loose), f"sequence:{k}", f"an answer depends on the calls before it: {first_difference(got, want[j])}", question=name, history=history[:-1], **info):
            return
        old.append((got, [p.copy() for p in got], name))
    rec.event("old_answers", len(old))
    for live, was, name in old:
        rec.ok(same(live, was), f"old_answer:{k}", "an earlier answer was altered by later calls", question=name, **info)
    # the caller writes into what it got
    for live, was, name in old:
        for p in live:
            try:
                p[...] = -777.
            except ValueError:
                pass
    for j in range(len(Q)):
        if not isinstance(want[j], tuple):
            got = ask(Q[j][1], e)
            if not rec.ok(not isinstance(got, tuple) and same(got, want[j], exact=not loose), f"aliased:{k}",
                          "writing into a returned array changed later answers", question=Q[j][0], **info):
                break
    inputs_unchanged(rec, S, before, info, "fitting and estimating")


def kind_of(x):
    return type(x).__name__


def relabel(rec, rng, tier):
    """Refits between two treatments of two levels and two of three."""
    two = [q for q in KINDS if q not in ONE_T]
    refit(rec, rng, tier, two[int(rng.integers(len(two)))], levels=True)


def refit(rec, rng, tier, kind=None, levels=False):
    k = pick(rng, kind)
    two = (levels or rng.random() < .2) and k not in ONE_T
    B = zoo.Subject(rng, k, n_treat=2 if two else None)
    info = B.info()
    for _ in range(6):
        A = zoo.Subject(rng, k, proba=B.proba, n_treat=2 if two and (levels or rng.random() < .7) else None)
        if levels and A.c.k == B.c.k and not B.continuous:
            continue
        if A.proba == B.proba:
            break
    rec.event("two_treatments_other_levels", int(A.n_treat == B.n_treat == 2 and A.c.k != B.c.k))
    rec.event("refit:" + ("deep" if k in DEEP else k))
    pa, pb = A.cell_pairs(rng)[0], B.cell_pairs(rng)[0]
    e = B.new()
    history = []

    def past(S, pair):
        how = rng.random()
        if how < .25:
            # a fit which cannot succeed
            bad = S.data.drop(columns=[S.c.outcome[0]])
            try:
                S.fit(data=bad, pair=pair, e=e)
            except Exception:
                rec.event("failed_fits")
                history.append("failed fit")
                return
        try:
            S.fit(pair=pair, e=e)
        except Exception as x:
            # e.g. cross-fitting folds of B on the rows of A
            history.append(f"failed fit {x!r:.80}")
            return
        history.append(f"fit on {S.info()['roles']} levels {S.levels}")
        for name, q in questions(rng, S, 3):
            ask(q, e)
            history.append(name)
    past(A, pa)
    if rng.random() < .4:
        past(B, pb if rng.random() < .5 else B.cell_pairs(rng)[0])
    if rng.random() < .3:
        past(A, A.cell_pairs(rng)[0])
    rec.seen("refit", k, info["estimator"], B.c.n, B.levels, len(history))
    before = est.snap(B.data)
    fresh = B.fit(pair=pb)
    e = B.fit(pair=pb, e=e)
    for name, q in questions(rng, B, 6):
        want = ask(q, fresh)
        got = ask(q, e)
        rec.event("answers")
        if isinstance(want, tuple) or isinstance(got, tuple):
            if isinstance(want, tuple) and isinstance(got, tuple):
                continue
            rec.ok(False, f"refit:{k}", "a call fails or succeeds depending on an earlier fit", fresh=repr(want)[:200], got=repr(got)[:300], question=name, history=history, **info)
            return
        if not rec.ok(same(got, want, exact=k not in DEEP), f"refit:{k}", f"a refitted estimator answers otherwise than a new one: {first_difference(got, want)}", question=name, history=history, **info):
            return
    inputs_unchanged(rec, B, before, info, "refitting")


def repro(rec, rng, tier, kind=None):
    """The same run again, with the global random streams elsewhere and other estimators at work in between."""
    k = pick(rng, kind)
    S = zoo.Subject(rng, k)
    info = S.info()
    rec.event("repro:" + ("deep" if k in DEEP else k))
    rec.seen("repro", k, info["estimator"], S.c.n, S.levels, info["roles"])
    pair = S.cell_pairs(rng)[0]
    Q = questions(rng, S, 4)
    runs = []
    for r in range(2):
        np.random.seed(int(rng.integers(0, 2 ** 31)))
        random.seed(int(rng.integers(0, 2 ** 31)))
        if k in DEEP:
            import torch
            torch.manual_seed(int(rng.integers(0, 2 ** 31)))
        e = S.fit(pair=pair, data=S.data.copy() if r else S.data)
        runs.append([ask(q, e) for _, q in Q])
    for (name, _), a, b in zip(Q, *runs):
        if isinstance(a, tuple) and isinstance(b, tuple):
            continue
        rec.event("answers")
        if not rec.ok(not isinstance(a, tuple) and not isinstance(b, tuple) and same(b, a), f"repro:{k}",
                      "two runs of the same fit and estimate differ: " + (first_difference(b, a) if not isinstance(a, tuple) and not isinstance(b, tuple) else "one fails"), question=name, **info):
            return


def each(rec, rng, tier):
    for k in KINDS:
        for f in (sequence, refit, repro):
            try:
                f(rec, rng, tier, k)
            except Skip:
                continue


def deep(rec, rng, tier):
    k = DEEP[int(rng.integers(2))]
    for f in (sequence, refit, repro):
        f(rec, rng, tier, k)


GROUPS = [Group("each", each, 4, 40, 240, 1), Group("sequence", sequence, 240, 5000, 60, 8), Group("refit", refit, 240, 5000, 60, 8),
          Group("relabel", relabel, 90, 1500, 60, 8), Group("repro", repro, 80, 1500, 60, 8), Group("deep", deep, 6, 60, 200, 1)]
