"""Uninstrumented runs of the compiled tree code: the same work with fresh memory filled with different bytes, and the growth of the heap over repeated calls."""
import ctypes
import gc
import json
import os
import sys
import warnings

warnings.filterwarnings("ignore")


class Info(ctypes.Structure):
    _fields_ = [(q, ctypes.c_size_t) for q in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


def main():
    spec = json.loads(os.environ["VM_PLAIN"])
    libc = ctypes.CDLL("libc.so.6")
    libc.mallinfo2.restype = Info
    from vm import native
    table = json.load(open(os.environ["VM_SAN_DEST"] + "/table.json"))["plain"]
    if table:
        native.install(table)
    os.environ["VM_SAN_CASES"] = "1"
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    from vm.core import Rec, case_rng
    from checks import c21
    M_PERTURB = -6

    def results(kind, i, fill):
        rng = case_rng(spec["seed"], kind, i)
        n, d = int(rng.choice([5, 30, 120])), int(rng.integers(1, 4))
        m, fit, V, data, kw = c21.grow(rng, Rec(), kind, n, d)
        libc.mallopt(M_PERTURB, fill)
        try:
            fit()
            t = m.tree_
            X = V.astype(np.float32)
            out = [t.node_count, t.max_depth, t.value.tobytes(), t.threshold[t.children_left >= 0].tobytes(), t.feature[t.children_left >= 0].tobytes(), t.children_left.tobytes(), t.impurity.tobytes(),
                   t.n_node_samples.tobytes(), t.weighted_n_node_samples.tobytes(), t.apply(X).tobytes(), t.predict(X).tobytes(), t.decision_path(X).toarray().tobytes(), t.compute_feature_importances().tobytes()]
        except (ValueError, AssertionError) as e:
            out = [type(e).__name__]
        finally:
            libc.mallopt(M_PERTURB, 0)
        return out, str(kw)
    filled = []
    for i in range(spec["cases"]):
        kind = ["causal", "policy", "grf"][i % 3]
        a = [results(kind, i, f) for f in (0x01, 0xff, 0x55, 0x80)]
        bad = [j for j in range(len(a[0][0])) if any(len(b[0]) != len(a[0][0]) or b[0][j] != a[0][0][j] for b in a)]
        filled.append(dict(kind=kind, settings=a[0][1], same=not bad, parts=bad, case=i))
    leaks = []
    if spec["leaks"]:
        import pickle
        rng = np.random.default_rng(spec["seed"])
        made = {}
        for kind in ("causal", "policy", "grf"):
            while True:
                m, fit, V, data, kw = c21.grow(rng, Rec(), kind, 60, 2)
                try:
                    fit()
                    break
                except (ValueError, AssertionError):
                    continue
            made[kind] = (m, fit, V)

        def failing(kind):
            t = made[kind][0].tree_
            X = made[kind][2]
            def f():
                for bad in (lambda: t.apply(X), lambda: t.predict(X[0].astype(np.float32)), lambda: t.__setstate__({"max_depth": 1, "node_count": 1, "nodes": np.zeros(3), "values": np.zeros(3)})):
                    try:
                        bad()
                    except Exception:
                        pass
            return f

        def round_trip(kind):
            t = pickle.dumps(made[kind][0].tree_)
            return lambda: pickle.loads(t)
        jobs = [(f"{k}:{op}", f) for k in made for op, f in (("fit", made[k][1]), ("use", lambda k=k: (lambda X: (made[k][0].tree_.apply(X), made[k][0].tree_.decision_path(X), made[k][0].tree_.predict(X)))(made[k][2].astype(np.float32))),
                                                            ("pickle", round_trip(k)), ("error", failing(k)))]
        for name, f in jobs:
            def used():
                gc.collect()
                i = libc.mallinfo2()
                return i.uordblks + i.hblkhd
            for _ in range(15):
                f()
            a = used()
            for _ in range(40):
                f()
            b = used()
            for _ in range(40):
                f()
            c = used()
            leaks.append(dict(kind=name, per_call=min(b - a, c - b) / 40, allowed=150.))
    print("RESULT " + json.dumps(dict(filled=filled, leaks=leaks)))
    sys.stdout.flush()
    os._exit(0)


main()
