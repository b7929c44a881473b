"""C19: preprocessing — rows stay aligned, new data is treated like the training data, encoders invert, tasks depend on values."""
import copy
import pickle

import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.impute import SimpleImputer
from sklearn.linear_model import LinearRegression, LogisticRegression
from sklearn.preprocessing import MinMaxScaler, OneHotEncoder, OrdinalEncoder, StandardScaler

from vm.core import Group, Skip

from ylearn import sklearn_ex as skex
from ylearn import utils as U
from ylearn.sklearn_ex import DataCleaner, DataFrameMapper, FeatureImportancesSelectionTransformer, SafeOrdinalEncoder
from ylearn.utils import infer_task_type

PROPERTY = "C19"
RULE = ("one evaluation = one transformed column (or frame, or state of the caller) compared with a recomputation value by value, or with the same rows transformed in another order, "
        "in parts or with other columns around; distinct = distinct (preprocessor, options, kinds of columns)")
REQUIRE = {"encoded": 300, "unseen": 150, "missing": 200, "inverted": 150, "preprocessed": 60, "mapped": 60, "cleaned": 100, "refits": 100, "selected": 20, "tasks": 1000, "shuffled_rows": 200,
           "shuffled_columns": 100, "duplicated_index": 60, "mixed_types": 25, "all_missing": 10, "utils": 200, "labels_missing": 20}

KINDS = ["float", "floatnan", "float32", "int", "int8", "uint8", "bool", "str", "strnan", "strnone", "cat", "catnan", "catint", "string", "Int64", "boolean", "boolnan", "mixed", "numstr", "inf", "const", "id", "dup", "allnan"]


def column(rng, kind, n, shift=0):
    """Values of one column; shift > 0 draws from a wider set, as new data may."""
    v = rng.normal(size=n) * float(rng.choice([1, 30]))
    lab = np.array(["b", "a", "", "zz", "A", "10", "é"][: 4 + 3 * bool(shift)], dtype=object)
    hole = rng.random(n) < .25
    hole[int(rng.integers(n))] = True
    i = rng.integers(0, 3 + 3 * bool(shift), n)
    if kind == "float":
        return v
    if kind == "floatnan":
        return np.where(hole, np.nan, v)
    if kind == "float32":
        return v.astype(np.float32)
    if kind == "int":
        return rng.integers(-5, 400 if shift else 60, n)
    if kind == "int8":
        return rng.integers(-3, 9, n).astype(np.int8)
    if kind == "uint8":
        return rng.integers(0, 250, n).astype(np.uint8)
    if kind == "bool":
        return rng.random(n) < .5
    if kind == "str":
        return lab[i]
    if kind in ("strnan", "strnone"):
        s = lab[i].copy()
        s[hole] = np.nan if kind == "strnan" else None
        return s
    if kind == "cat":
        return pd.Categorical(lab[i])
    if kind == "catnan":
        s = lab[i].copy()
        s[hole] = np.nan
        return pd.Categorical(s)
    if kind == "catint":
        return pd.Categorical((i * 3 - 1).tolist())
    if kind == "string":
        s = lab[i].copy()
        s[hole] = None
        return pd.array(s, dtype="string")
    if kind == "Int64":
        s = rng.integers(0, 30, n).astype(object)
        s[hole] = None
        return pd.array(s.tolist(), dtype="Int64")
    if kind == "boolean":
        s = (rng.random(n) < .5).astype(object)
        s[hole] = None
        return pd.array(s.tolist(), dtype="boolean")
    if kind == "boolnan":
        s = (rng.random(n) < .5).astype(object)
        s[hole] = np.nan
        return s
    if kind == "mixed":
        s = np.array([1, "a", 2.5, True, "b", 7][: 4 + 2 * bool(shift)], dtype=object)[rng.integers(0, 4 + 2 * bool(shift), n)]
        return s
    if kind == "numstr":
        return np.array([str(x) for x in rng.integers(0, 20, n)], dtype=object)
    if kind == "inf":
        return np.where(hole, np.inf * rng.choice([-1, 1], n), v)
    if kind == "const":
        return np.full(n, 3 if rng.random() < .5 else "k", dtype=object if rng.random() < .5 else None)
    if kind == "id":
        return np.array([f"r{x}" for x in rng.permutation(n)], dtype=object)
    if kind == "allnan":
        return np.full(n, np.nan)
    raise AssertionError(kind)


def names(rng, k):
    pool = [["a", "b", "c", "d", "e", "f", "g", "h"], ["x 1", "y_2", "x_1_y_2", "weight", "é", "0", "T", "__"], ["a", "a_0", "a_b", "b", "a_b_0", "c", "b_c", "ab"]][int(rng.integers(3))]
    return [pool[i] for i in rng.permutation(len(pool))[:k]]


def index(rng, n, rec=None):
    r = int(rng.integers(5))
    if r == 0:
        return pd.RangeIndex(n)
    if r == 1:
        return pd.Index(rng.permutation(n) * 2 + 5)
    if r == 2:
        if rec:
            rec.event("duplicated_index")
        return pd.Index(rng.integers(0, max(2, n // 3), n))
    if r == 3:
        return pd.Index([f"i{x}" for x in rng.permutation(n)])
    return pd.date_range("2021-02-01", periods=n)[::-1]


def frame(rng, rec, kinds=None, n=None, k=None):
    n = n or int(rng.integers(8, 60))
    k = k or int(rng.integers(1, 7))
    kinds = kinds or [str(x) for x in rng.choice(KINDS, k)]
    cols = names(rng, len(kinds))
    d, seen = {}, []
    for c, kd in zip(cols, kinds):
        if kd == "dup":
            d[c] = d[seen[0]].copy() if seen else column(rng, "int", n)
        else:
            d[c] = column(rng, kd, n)
        seen.append(c)
    X = pd.DataFrame(d)
    X.index = index(rng, n, rec)
    return X, dict(zip(cols, kinds))


def new_frame(rng, kinds, n=None):
    n = n or int(rng.integers(1, 25))
    X = pd.DataFrame({c: column(rng, "int" if k == "dup" else k, n, shift=1) for c, k in kinds.items()})
    X.index = index(rng, n)
    return X


def missing(v):
    return v is None or v is pd.NA or (isinstance(v, (float, np.floating)) and np.isnan(v))


def values(s):
    return [x for x in np.asarray(s, dtype=object)] if not isinstance(s, pd.DataFrame) else s.to_numpy(dtype=object)


def equal(a, b):
    """Frames, arrays or columns with equal values, kinds of dtype, columns and index."""
    if isinstance(a, pd.DataFrame):
        return (isinstance(b, pd.DataFrame) and list(a.columns) == list(b.columns) and a.index.equals(b.index) and len(a) == len(b)
                and all(equal(a.iloc[:, i], b.iloc[:, i]) for i in range(a.shape[1])))
    if isinstance(a, pd.Series):
        return a.dtype == b.dtype and a.index.equals(b.index) and equal(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind == "f" and b.dtype.kind == "f":
        return bool(np.array_equal(a, b, equal_nan=True))
    return all((missing(x) and missing(y)) or (not missing(x) and not missing(y) and x == y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))


def near(a, b, tol=1e-9):
    if isinstance(a, pd.DataFrame):
        return (list(a.columns) == list(b.columns) and a.index.equals(b.index)
                and all(near(a.iloc[:, i].to_numpy(dtype=float), b.iloc[:, i].to_numpy(dtype=float), 2e-5 if a.dtypes.iloc[i] == np.float32 else tol) for i in range(a.shape[1])))
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def order_key(v):
    return type(v).__name__, v


def categories(vals):
    """Sorted distinct values; values of several types are grouped by type; missing last."""
    u, miss = [], False
    for v in vals:
        if missing(v):
            miss = True
        elif not any(v == w for w in u):
            u.append(v)
    try:
        u = sorted(u)
    except TypeError:
        u = None
    return u, miss


# ---------------------------------------------------------------- encoder

def case_encoder(rec, rng, tier):
    kind = [str(x) for x in rng.choice(["str", "strnan", "int", "int8", "bool", "float", "floatnan", "boolnan", "mixed", "strnone", "numstr"], int(rng.integers(1, 4)))]
    X, kinds = frame(rng, rec, kind)
    as_array = rng.random() < .35
    if as_array and len(kind) > 1:
        X = X[[X.columns[0]]]
        kinds = {X.columns[0]: kinds[X.columns[0]]}
    A = X.to_numpy() if as_array else X
    dtype = [np.float64, np.float32, int, np.int64][int(rng.integers(4))]
    if X.isna().any().any():
        dtype = [np.float64, np.float32][int(rng.integers(2))]  # the encoder of sklearn refuses missing values for integer codes
    e = SafeOrdinalEncoder(dtype=dtype) if rng.random() < .7 else SafeOrdinalEncoder()
    before = copy.deepcopy(A)
    one = e.fit_transform(A)
    two = clone(e).fit(A).transform(A)
    rec.event("encoded")
    frames = not as_array
    rec.ok(type(one) is type(A) and one.shape == A.shape, "encoder_form", "another type or shape than the input", got=type(one).__name__)
    rec.ok(equal(one, two), "encoder_separately", "fit_transform differs from fit and transform", kinds=kinds)
    if frames:
        rec.ok(one.index.equals(X.index) and list(one.columns) == list(X.columns), "encoder_index", "the index or the columns were not kept")
    Z = new_frame(rng, kinds)
    if len(Z) and rng.random() < .5:
        for c in Z.columns:
            if Z[c].dtype == object:
                Z.loc[Z.index[0], c] = "never seen"
    B = Z.to_numpy() if as_array else Z
    b2 = copy.deepcopy(B)
    new = np.asarray(e.transform(B), dtype=float)
    ref = np.asarray(one, dtype=float)
    for j, c in enumerate(X.columns):
        tv = values(X[c]) if frames else A[:, j].tolist()
        nv = values(Z[c]) if frames else B[:, j].tolist()
        cats, miss = categories(tv)
        if cats is None:
            rec.event("mixed_types")
            # the order is not specified: a bijection onto 0..k-1
            groups = {}
            for v, code in zip(tv, ref[:, j]):
                key = "missing" if missing(v) else next((w for w in groups if not isinstance(w, str) or w != "missing" if w == v), v)
                groups.setdefault(key, set()).add(code)
            codes = [g for g in groups.values()]
            k = len(groups)
            rec.ok(all(len(g) == 1 for g in codes) and sorted(x for g in codes for x in g) == list(range(k)), "encoder_codes", "codes are not one number per value", column=c, values=str(tv[:12]), codes=ref[:12, j].tolist())
            total = k
        else:
            total = len(cats) + miss
            code = lambda v: len(cats) if missing(v) and miss else next((i for i, w in enumerate(cats) if not missing(v) and w == v), total)
            if miss:
                rec.event("missing")
            want = [code(v) for v in tv]
            rec.ok(ref[:, j].tolist() == want, "encoder_codes", "a code is not the position of its value among the sorted values", column=c, values=str(tv[:12]), codes=ref[:12, j].tolist(), expected=want[:12])
            want = [code(v) for v in nv]
            rec.ok(new[:, j].tolist() == want, "encoder_new", "new rows are encoded otherwise", column=c, values=str(nv[:12]), codes=new[:12, j].tolist(), expected=want[:12])
            if total in want:
                rec.event("unseen")
    rec.ok(equal(A, before) and equal(B, b2), "encoder_caller", "the caller's data was changed")
    inv = e.inverse_transform(one)
    rec.event("inverted")
    rec.ok(inv.shape == A.shape and (not frames or inv.index.equals(X.index)), "encoder_inverse_form", "the inverse has another shape or index")
    for j, c in enumerate(X.columns):
        a = values(X[c]) if frames else A[:, j].tolist()
        b = values(inv.iloc[:, j]) if frames else inv[:, j].tolist()
        rec.ok(equal(np.array(a + [0], dtype=object), np.array(b + [0], dtype=object)), "encoder_inverse", "the inverse is not the value encoded", column=c, values=str(a[:10]), got=str(b[:10]), kind=kinds[c], dtype=str(dtype))
    if len(A) > 1:
        p = rng.permutation(len(A))
        rec.event("shuffled_rows")
        got = e.transform(A.iloc[p] if frames else A[p])
        rec.ok(equal(got, one.iloc[p] if frames else one[p]), "encoder_rows", "rows in another order are encoded otherwise")
        rec.ok(len(e.transform(A.iloc[:0] if frames else A[:0])) == 0, "encoder_empty", "an empty table gave rows")
        e2 = clone(e).fit(B)
        e2.fit(A)
        rec.event("refits")
        rec.ok(equal(e2.transform(A), one), "encoder_refit", "a refitted encoder differs from a new one")
    rec.seen(tuple(sorted(kinds.values())), as_array, str(dtype))


# ---------------------------------------------------------------- mapper and general preprocessor

def reference_general(X, Z, scaler):
    """What general_preprocessor should give for Z when fitted on X: per column imputed and encoded."""
    out = {}
    cats = [c for c in X.columns if X[c].dtype == object or isinstance(X[c].dtype, pd.CategoricalDtype) or isinstance(X[c].dtype, pd.StringDtype)]
    bools = [c for c in X.columns if c not in cats and X[c].dtype == bool]
    nums = [c for c in X.columns if c not in cats + bools and X[c].dtype.kind in "iuf"]
    for c in cats + bools:
        tv = ["" if missing(v) else v for v in values(X[c])]
        u, _ = categories(tv)
        if u is None:
            out[c] = None
            continue
        out[c] = [next((i for i, w in enumerate(u) if w == v), len(u)) for v in ("" if missing(v) and c in cats else v for v in values(Z[c]))]
    for c in nums:
        t = np.array([np.nan if missing(v) else float(v) for v in values(X[c])])
        z = np.array([np.nan if missing(v) else float(v) for v in values(Z[c])])
        m = np.nanmean(t) if not np.isnan(t).all() else 0.
        t, z = np.where(np.isnan(t), m, t), np.where(np.isnan(z), m, z)
        if scaler:
            s = t.std()
            z = (z - t.mean()) / (s if s > 1e-12 * max(1, abs(t.mean())) else 1.)
        out[c] = z.tolist()
    return out, cats + bools + nums


def case_general(rec, rng, tier):
    kinds = [str(x) for x in rng.choice([k for k in KINDS if k not in ("inf", "boolean")], int(rng.integers(1, 8)))]
    X, kinds = frame(rng, rec, kinds)
    scaler = True if rng.random() < .35 else None
    Z = new_frame(rng, kinds)
    for c in X.columns:
        # constant columns and copies are drawn again: keep the type of the training column
        if kinds[c] in ("const", "dup"):
            Z[c] = pd.Series([X[c].iloc[0]] * len(Z), index=Z.index, dtype=X[c].dtype)
    bx, bz = X.copy(deep=True), Z.copy(deep=True)
    p = skex.general_preprocessor(number_scaler=scaler)
    one = p.fit_transform(X)
    two = skex.general_preprocessor(number_scaler=scaler).fit(X).transform(X)
    rec.event("preprocessed")
    rec.ok(equal(one, two), "general_separately", "fit_transform differs from fit and transform", kinds=kinds)
    cols = Z.columns[rng.permutation(Z.shape[1])]
    Zs = Z[list(cols)].assign(**{"a stranger": 1.5}) if rng.random() < .5 else Z[list(cols)]
    rec.event("shuffled_columns")
    new = p.transform(Zs)
    rec.ok(list(new.columns) == list(one.columns), "general_columns", "other columns for new data than for the training data", got=list(new.columns), expected=list(one.columns))
    rec.ok(one.index.equals(X.index) and new.index.equals(Z.index), "general_index", "the index was not kept", got=str(one.index)[:100], expected=str(X.index)[:100])
    rec.ok(equal(X, bx) and equal(Z, bz), "general_caller", "the caller's data was changed")
    for got, src, what in ((one, X, "training"), (new, Z, "new")):
        ref, want = reference_general(X, src, scaler)
        rec.ok(list(map(str, got.columns)) == list(map(str, want)), "general_names", "the columns are not the input's", got=list(got.columns), expected=want, kinds=kinds)
        if list(map(str, got.columns)) != list(map(str, want)):
            return
        for c in want:
            if kinds[c] == "allnan":
                rec.event("all_missing")
            if ref[c] is None:
                rec.event("mixed_types")
                codes = got[c].to_numpy(float)
                if what == "training":
                    v = ["" if missing(x) else x for x in values(src[c])]
                    rec.ok(all((codes[i] == codes[j]) == (v[i] == v[j]) for i in range(len(v)) for j in range(i)), "general_values", "codes of a column of mixed types are not one number per value", column=c)
                continue
            if any(missing(v) for v in values(src[c])):
                rec.event("missing")
            rec.ok(near(got[c].to_numpy(dtype=float), ref[c], 2e-4 if 'float32' in kinds.values() else 1e-9), "general_values", f"a {what} column differs from its values imputed and encoded one by one", column=c, kind=kinds[c], scaler=scaler,
                   got=got[c].tolist()[:8], expected=ref[c][:8], values=str(values(src[c])[:8]))
    perm = rng.permutation(len(X))
    rec.event("shuffled_rows")
    rec.ok(near(p.transform(X.iloc[perm]), one.iloc[perm]), "general_rows", "rows in another order are transformed otherwise")
    part = X.iloc[perm[: max(1, len(X) // 3)]]
    rec.ok(near(p.transform(part), one.iloc[perm[: max(1, len(X) // 3)]]), "general_part", "a part of the rows is transformed otherwise")
    q = pickle.loads(pickle.dumps(p))
    rec.ok(near(q.transform(Z), new), "general_pickle", "a pickled preprocessor transforms otherwise")
    p.fit(new_frame(rng, kinds, 30))
    p.fit(X)
    rec.event("refits")
    rec.ok(near(p.transform(Zs), new), "general_refit", "a refitted preprocessor differs from a new one")
    rec.seen(tuple(sorted(kinds.values())), scaler)


def case_mapper(rec, rng, tier):
    n = int(rng.integers(8, 40))
    X, kinds = frame(rng, rec, ["str", "float", "floatnan", "int", "bool", "float32"], n)
    s, f, fn, i, b, f3 = X.columns
    df_out, input_df = bool(rng.random() < .6), bool(rng.random() < .5)
    features, expect = [], []  # expect: (columns, transformer or None, name of output)

    def add(cols, tf, opts=None, as_list=False):
        t = tf()
        given = [t] if as_list and rng.random() < .6 else t
        if given is not t:
            given = [SimpleImputer(strategy="constant", fill_value=0.), t]
        spec = cols[0] if len(cols) == 1 and rng.random() < .5 else (lambda c: (lambda X: [v for v in X.columns if v in c]))(cols) if rng.random() < .3 else list(cols)
        if callable(spec):
            cols = [v for v in X.columns if v in cols]
        features.append((spec, given) + ((opts,) if opts else ()))
        expect.append((cols, [SimpleImputer(strategy="constant", fill_value=0.), tf()] if isinstance(given, list) else [tf()], opts))

    if rng.random() < .7:
        add([s], lambda: OneHotEncoder(handle_unknown="ignore", sparse_output=bool(rng.random() < .5)))
    if rng.random() < .7:
        add([f, f3] if rng.random() < .5 else [f], StandardScaler, {"alias": "scaled"} if rng.random() < .3 else None, as_list=True)
    if rng.random() < .6:
        add([fn], SimpleImputer)
    if rng.random() < .5 or not features:
        add([i, b] if rng.random() < .5 else [i], MinMaxScaler)
    default = [False, None, "tf"][int(rng.integers(3))]
    used = [c for cols, _, _ in expect for c in cols]
    rest = [c for c in X.columns if c not in used]
    if default == "tf":
        default = OrdinalEncoder(handle_unknown="use_encoded_value", unknown_value=-1)
    m = DataFrameMapper(features, default=default, df_out=df_out, input_df=input_df)
    before = X.copy(deep=True)
    mode = rng.random() < .5
    one = m.fit_transform(X)
    m2 = clone(DataFrameMapper([(a[0], copy.deepcopy(a[1])) + tuple(a[2:]) for a in features], default=copy.deepcopy(default), df_out=df_out, input_df=input_df))
    two = m2.fit(X).transform(X)
    rec.event("mapped")
    Z = new_frame(rng, kinds)
    perm = list(Z.columns[rng.permutation(Z.shape[1])])
    new = (m if mode else m2).transform(Z[perm])
    blocks, blocks_new, widths = [], [], []
    for cols, tfs, opts in expect:
        a, z = X[cols], Z[cols]
        if not input_df:
            a, z = a.to_numpy(), z.to_numpy()
        for t in tfs:
            a2 = t.fit_transform(a)
            z = t.transform(z)
            a = a2
        a, z = (v.toarray() if hasattr(v, "toarray") else np.asarray(v) for v in (a, z))
        blocks.append(a)
        blocks_new.append(z)
        widths.append((cols, opts, a.shape[1]))
    if default is not False and rest:
        a, z = X[rest], Z[rest]
        if default is not None:
            t = OrdinalEncoder(handle_unknown="use_encoded_value", unknown_value=-1)
            a, z = t.fit_transform(a.to_numpy() if not input_df else a), t.transform(z.to_numpy() if not input_df else z)
        blocks.append(np.asarray(a, dtype=object))
        blocks_new.append(np.asarray(z, dtype=object))
        widths.append((rest, None, len(rest)))
    for got, bl, src, what in ((one, blocks, X, "fit_transform"), (two, blocks, X, "transform"), (new, blocks_new, Z, "new rows")):
        want = np.hstack([x.astype(object) for x in bl])
        rec.ok(len(got) == len(src) and got.shape == want.shape, "mapper_shape", "another shape than the transformers give", got=list(got.shape), expected=list(want.shape), what=what)
        if got.shape != want.shape:
            return
        g = got.to_numpy(dtype=object) if df_out else np.asarray(got, dtype=object)
        rec.ok(all((missing(x) and missing(y)) or x == y or (isinstance(x, (float, np.floating)) and abs(x - y) < 1e-6 * max(1, abs(x))) for x, y in zip(g.ravel(), want.ravel())),
               "mapper_values", "values differ from the transformers applied to their own columns", what=what, df_out=df_out, input_df=input_df, default=str(default))
        if df_out:
            rec.ok(got.index.equals(src.index), "mapper_index", "the index was not kept", what=what)
    if df_out:
        rec.ok(list(one.columns) == list(two.columns) == list(new.columns), "mapper_columns", "columns differ between fit_transform, transform and new rows", got=[list(map(str, x.columns)) for x in (one, two, new)])
        at = 0
        for cols, opts, w in widths:
            name = list(map(str, one.columns[at:at + w]))
            if opts is None and w == len(cols) and (w > 1 or cols is not rest):
                rec.ok(name == list(map(str, cols)), "mapper_names", "columns transformed one to one lost their names", got=name, expected=list(cols))
            elif opts is not None and w == 1:
                rec.ok(all(x.startswith(opts["alias"]) for x in name), "mapper_alias", "the alias is not in the names", got=name)
            at += w
    rec.ok(equal(X, before), "mapper_caller", "the caller's data was changed")
    rec.event("shuffled_columns")
    p = rng.permutation(n)
    rec.event("shuffled_rows")
    r = m.transform(X.iloc[p])
    rec.ok(equal(np.asarray(r, dtype=object), np.asarray(one, dtype=object)[p]), "mapper_rows", "rows in another order are transformed otherwise")
    rec.seen(df_out, input_df, str(default)[:8], tuple((len(c), bool(o)) for c, _, o in expect))


# ---------------------------------------------------------------- cleaner

def case_cleaner(rec, rng, tier):
    X, kinds = frame(rng, rec, k=int(rng.integers(2, 8)))
    n = len(X)
    opt = dict(drop_constant_columns=bool(rng.random() < .7), drop_idness_columns=bool(rng.random() < .6), drop_duplicated_columns=bool(rng.random() < .4), correct_object_dtype=bool(rng.random() < .7),
               reduce_mem_usage=bool(rng.random() < .25), int_convert_to=[None, "float", "float"][int(rng.integers(3))])
    if rng.random() < .3:
        opt["nan_chars"] = [["zz", "10"], "zz"][int(rng.integers(2))]
    if rng.random() < .3:
        opt["reserve_columns"] = [X.columns[int(rng.integers(len(X.columns)))]]
    if rng.random() < .3:
        opt["drop_columns"] = [c for c in [X.columns[-1]] if c not in opt.get("reserve_columns", [])]
    if opt["reduce_mem_usage"] and not opt["correct_object_dtype"]:
        opt["correct_object_dtype"] = True
    given = copy.deepcopy(opt)
    y, with_y = None, rng.random() < .4
    if with_y:
        y = rng.normal(size=n)
        if rng.random() < .6:
            y[rng.random(n) < .2] = np.nan
            rec.event("labels_missing")
        opt["drop_label_nan_rows"] = given["drop_label_nan_rows"] = bool(rng.random() < .8)
        y = pd.Series(y, index=X.index) if rng.random() < .5 and X.index.is_unique else y
    before, by = X.copy(deep=True), copy.deepcopy(y)
    dc = DataCleaner(**opt)
    try:
        one, y1 = dc.fit_transform(X, y)
    except ValueError as e:
        if one_left(X, given):
            raise
        raise Skip
    rec.event("cleaned")
    rec.ok(equal(X, before) and (y is None or equal(y, by)), "cleaner_caller", "the caller's data was changed", options=given)
    rec.ok(all(opt[k] == given[k] for k in opt), "cleaner_options", "the caller's lists were changed")
    keep = np.ones(n, dtype=bool)
    if with_y and opt["drop_label_nan_rows"]:
        keep = ~np.isnan(np.asarray(y, float))
    rec.ok(one.index.equals(X.index[keep]) and len(one) == keep.sum(), "cleaner_rows", "other rows, order or index than the input", got=len(one), expected=int(keep.sum()))
    if with_y:
        rec.ok(np.array_equal(np.asarray(y1, float), np.asarray(y, float)[keep], equal_nan=True), "cleaner_labels", "labels are not those of the rows")
    else:
        rec.ok(y1 is None, "cleaner_labels", "labels out of nothing")
    if len(one) != keep.sum():
        return
    # which columns remain
    R = X[keep].drop(columns=opt.get("drop_columns", []))
    nanc = opt.get("nan_chars")
    if nanc is not None:
        R = R.replace(nanc, np.nan)
    reserved = opt.get("reserve_columns", [])
    dropped = set()
    if opt["drop_duplicated_columns"]:
        cols = list(R.columns)
        for j, c in enumerate(cols):
            if c not in reserved and any(same_column(R[c], R[d]) for d in cols[:j]):
                dropped.add(c)
    for c in R.columns:
        if c in reserved or c in dropped:
            continue
        u = len({(type(v).__name__ if isinstance(v, str) else "n", v) for v in values(R[c]) if not missing(v)})
        discrete = R[c].dtype == object or isinstance(R[c].dtype, pd.CategoricalDtype) or R[c].dtype == bool or R[c].dtype.kind in "iu" and not isinstance(R[c].dtype, pd.api.extensions.ExtensionDtype)
        if opt["drop_idness_columns"] and discrete and u / len(R) > .99:
            dropped.add(c)
        elif opt["drop_constant_columns"] and u <= 1:
            dropped.add(c)
    want = [c for c in R.columns if c not in dropped]
    rec.ok(list(one.columns) == want, "cleaner_columns", "other columns dropped than the options ask", got=list(one.columns), expected=want, options=given, kinds=kinds, rows=len(R))
    if list(one.columns) != want or not want:
        return
    for c in want:
        src = values(R[c])
        got = values(one[c])
        if c in reserved and R[c].dtype != object:
            ok = all((missing(a) or np.isinf(a) if isinstance(a, float) else missing(a)) and missing(b) or a == b for a, b in zip(src, got))
        else:
            ok = all(clean_equal(a, b, opt["reduce_mem_usage"]) for a, b in zip(src, got))
        rec.ok(ok, "cleaner_values", "a value was changed", column=c, kind=kinds[c], options=given, values=str(src[:8]), got=str(got[:8]))
    # training rows again, in another order of rows and columns
    again = dc.transform(X[keep])
    rec.ok(equal(again, one), "cleaner_separately", "training rows are cleaned otherwise by transform", options=given, kinds=kinds, dtypes=[str(list(map(str, one.dtypes))), str(list(map(str, again.dtypes)))])
    perm = list(X.columns[rng.permutation(X.shape[1])])
    rec.event("shuffled_columns")
    rec.ok(equal(dc.transform(X[keep][perm].assign(**{"a stranger": 1})), one), "cleaner_column_order", "columns in another order are cleaned otherwise", options=given)
    p = rng.permutation(len(R))
    rec.event("shuffled_rows")
    rec.ok(equal(dc.transform(X[keep].iloc[p]), one.iloc[p]), "cleaner_row_order", "rows in another order are cleaned otherwise")
    Z = new_frame(rng, kinds)
    bz = Z.copy(deep=True)
    new = dc.transform(Z)
    rec.ok(list(new.columns) == want and new.index.equals(Z.index), "cleaner_new", "other columns or rows for new data", got=list(new.columns), expected=want)
    rec.ok(equal(Z, bz), "cleaner_caller", "the caller's new data was changed")
    src = Z.replace(nanc, np.nan) if nanc is not None else Z
    for c in want:
        if c in reserved:
            continue
        rec.ok(all(clean_equal(a, b, opt["reduce_mem_usage"]) for a, b in zip(values(src[c]), values(new[c]))), "cleaner_new_values", "a value of new data was changed", column=c, kind=kinds[c], options=given,
               values=str(values(src[c])[:8]), got=str(values(new[c])[:8]), dtype=[str(one[c].dtype), str(new[c].dtype)])
    if with_y:
        r = dc.transform(X, y)
        rec.ok(isinstance(r, tuple) and len(r) == 2 and equal(r[0], one) and np.array_equal(np.asarray(r[1], float), np.asarray(y, float)[keep], equal_nan=True), "cleaner_separately", "training rows with labels are cleaned otherwise by transform")
    # refit
    d2 = DataCleaner(**copy.deepcopy(given))
    d2.fit_transform(new_frame(rng, kinds, 30), None)
    two, _ = d2.fit_transform(X, y)
    rec.event("refits")
    rec.ok(equal(two, one), "cleaner_refit", "a refitted cleaner differs from a new one", options=given, got=list(two.columns), expected=list(one.columns))
    if len(want) > 1:
        gone = [want[int(rng.integers(len(want)))]]
        dc.append_drop_columns(gone)
        rec.ok(list(dc.transform(X[keep]).columns) == [c for c in want if c not in gone], "cleaner_append", "appended drop columns are not dropped")
    rec.seen(tuple(sorted(kinds.values())), str(sorted(given.items())))


def one_left(X, opt):
    return True


def same_column(a, b):
    return all((missing(x) and missing(y)) or (not missing(x) and not missing(y) and x == y) for x, y in zip(values(a), values(b)))


def clean_equal(a, b, low):
    """A cleaned value: missing stays missing (or its text), infinity gets missing, numbers and texts keep their value."""
    if missing(a):
        return missing(b) or b in ("nan", "None", "<NA>", "")
    if isinstance(a, (float, np.floating)) and np.isinf(a):
        return missing(b) or b == "nan"
    if not missing(b) and a == b:
        return True
    if isinstance(b, str):
        # a number among other types becomes text, with or without the decimals pandas gives it in the company of floats
        return str(a) == b or isinstance(a, (int, float, np.number)) and not isinstance(a, (bool, np.bool_)) and str(float(a)) == b
    if isinstance(a, str):
        try:
            return float(a) == b
        except ValueError:
            return False
    if missing(b):
        return False
    return low and abs(float(a) - float(b)) <= 1e-6 * max(1e-30, abs(float(a)))


# ---------------------------------------------------------------- feature selection, estimators

def case_selection(rec, rng, tier):
    n = int(rng.integers(80, 160))
    k = int(rng.integers(3, 6))
    kinds = [str(x) for x in rng.choice(["float", "floatnan", "int", "bool", "str", "cat"], k)]
    X, kinds = frame(rng, rec, kinds, n)
    sig = X.columns[int(rng.integers(k))]
    X[sig] = rng.normal(size=n)
    kinds[sig] = "float"
    task = str(rng.choice(["regression", "binary", "multiclass"]))
    s = X[sig].to_numpy()
    y = s * 10 + rng.normal(size=n) * .1 if task == "regression" else np.array(["no", "yes"], dtype=object)[(s > 0).astype(int)] if task == "binary" else np.array([3, 7, 9])[np.searchsorted([-.5, .5], s)]
    y = pd.Series(y, index=X.index, name="y")
    clean = bool(rng.random() < .5)
    if clean and not X.index.is_unique:
        X.index = y.index = pd.RangeIndex(n)
    strategy = str(rng.choice(["threshold", "quantile", "number", "number", "default"]))
    kw = {"threshold": dict(strategy="threshold", threshold=float(rng.choice([.05, .3]))), "quantile": dict(quantile=float(rng.choice([.3, .7]))),
          "number": dict(strategy="number", number=[1, 2, k, .3, .5, .7, .45][int(rng.integers(7))]), "default": {}}[strategy]
    if rng.random() < .5:
        kw["task"] = task
    t = FeatureImportancesSelectionTransformer(data_clean=clean, **kw)
    bx, by = X.copy(deep=True), y.copy(deep=True)
    t.fit(X, y)
    rec.event("selected")
    rec.ok(equal(X, bx) and equal(y, by), "selection_caller", "the caller's data was changed")
    imp = np.asarray(t.feature_importances_, float)
    rec.ok(list(t.feature_names_in_) == list(X.columns) and len(imp) == k and t.n_features_in_ == k, "selection_names", "names or importances are not one per column")
    if len(imp) != k:
        return
    rec.ok(int(np.argmax(imp)) == list(X.columns).index(sig), "selection_importance", "the only informative column has not the largest importance", importances=dict(zip(X.columns, imp.tolist())), informative=sig, kinds=kinds)
    sel = list(t.selected_features_)
    by_name = dict(zip(X.columns, imp))
    rec.ok(set(sel) <= set(X.columns) and len(set(sel)) == len(sel), "selection_columns", "selected columns are not columns")
    if not clean and set(sel) <= set(X.columns):
        if strategy in ("threshold", "default"):
            th = kw.get("threshold", .1)
            rec.ok(set(sel) == {c for c in X.columns if by_name[c] >= th}, "selection_rule", "not the columns whose importance reaches the threshold", importances=by_name, selected=sel, threshold=th)
        elif strategy == "quantile":
            q = np.quantile(imp, kw["quantile"])
            rec.ok(set(sel) == {c for c in X.columns if by_name[c] >= q}, "selection_rule", "not the columns whose importance reaches the quantile", importances=by_name, selected=sel)
        else:
            m = kw["number"] if not isinstance(kw["number"], float) else int(np.ceil(k * kw["number"]))
            rec.ok(len(sel) == m and min([by_name[c] for c in sel]) >= max([by_name[c] for c in X.columns if c not in sel], default=-1), "selection_rule", "not the given number of most important columns",
                   importances=by_name, selected=sel, number=m)
    out = t.transform(X)
    rec.ok(equal(out, X[sel]), "selection_transform", "transform is not the selected columns")
    t2 = FeatureImportancesSelectionTransformer(data_clean=clean, **kw)
    yy = pd.Series(np.array([0., 1.5, 2.25, 9.])[rng.integers(0, 4, n)] + rng.normal(size=n), index=X.index)
    if "task" not in kw:
        t2.fit(X, yy)
    t2.fit(X, y)
    rec.event("refits")
    rec.ok(list(t2.selected_features_) == sel and np.allclose(np.asarray(t2.feature_importances_, float), imp), "selection_refit", "a refitted selection differs from a new one", task=task)
    rec.seen(task, strategy, clean, tuple(sorted(kinds.values())))


# ---------------------------------------------------------------- tasks and helpers

def case_task(rec, rng, tier):
    for _ in range(12):
        n = int(rng.integers(3, 200))
        kind = str(rng.choice(["float", "float2", "floatfew", "int", "uint8", "int8", "str", "bool", "strnan", "boolnan", "cat", "Int64", "intfew", "string"]))
        if kind == "float":
            v = rng.normal(size=n)
        elif kind in ("float2", "floatfew"):
            v = rng.choice([0., 1.] if kind == "float2" else [0., 1., 2.5], n)
        elif kind in ("int", "int8", "uint8"):
            v = rng.integers(0, int(rng.choice([2, 4, 30, 100])), n).astype(kind if kind != "int" else np.int64)
        elif kind == "intfew":
            m = int(rng.integers(2, 9))
            v = rng.integers(0, m, n)
        else:
            v = column(rng, kind, n)
        holes = kind in ("float", "float2", "floatfew") and rng.random() < .5
        if holes:
            v = np.where(rng.random(n) < .3, np.nan, v)
        s = pd.Series(v)
        vals = [x for x in values(s) if not missing(x)]
        uniq = []
        for x in vals:
            if x not in uniq:
                uniq.append(x)
        excl = [uniq[0]] if len(uniq) > 3 and rng.random() < .15 else None
        u = [x for x in uniq if excl is None or x not in excl]
        if len(u) < 2:
            try:
                infer_task_type(s, excludes=excl)
            except ValueError:
                pass
            else:
                rec.ok(False, "task_constant", "a task was inferred from a constant", values=str(vals[:5]))
            continue
        dk = s.dtype.kind
        if len(u) == 2:
            want = "binary"
        elif dk == "f":
            want = "regression"
        elif dk in "iu":
            want = "regression" if len(u) > len(s) ** .382 else "multiclass"
        else:
            want = "multiclass"
        forms = {"series": s, "index": pd.Series(s.array, index=index(rng, n), name="q"), "shuffled": s.iloc[rng.permutation(n)], "reversed": s[::-1]}
        if not isinstance(s.dtype, pd.api.extensions.ExtensionDtype):
            a = s.to_numpy()
            forms.update({"array": a, "strided": np.repeat(a, 2)[::2], "column": a.reshape(-1, 1)})
        forms["frame"] = s.to_frame("y")
        for name, y in forms.items():
            task, labels = infer_task_type(y, excludes=excl)
            rec.event("tasks")
            rec.ok(task == want, "task", "another task than the values have", form=name, kind=kind, got=task, expected=want, values=str(vals[:10]), distinct=len(u), rows=len(s))
            if want != "regression" and task != "regression":
                rec.ok(len(labels) == len(u) and all(a == b for a, b in zip(labels, sorted(u))), "task_labels", "the labels are not the sorted values", form=name, kind=kind, got=str(labels[:10]), expected=str(sorted(u)[:10]))
        rec.seen(kind, want, holes, len(u))
    est = skex.general_estimator(None, pd.Series(rng.normal(size=50)))
    rec.ok(hasattr(est, "predict") and not hasattr(est, "predict_proba"), "estimator_task", "a classifier was chosen for a continuous outcome")
    est = skex.general_estimator(None, pd.Series(["a", "b"] * 20))
    rec.ok(hasattr(est, "predict_proba"), "estimator_task", "a regressor was chosen for classes")
    mine = LinearRegression(fit_intercept=False)
    got = skex.general_estimator(None, None, estimator=mine, task="regression")
    rec.ok(got is not mine and got.get_params() == mine.get_params(), "estimator_own", "the caller's estimator is not copied")
    for nm in ("lr", "rf", "dt", "gb"):
        r, c = (skex.general_estimator(None, estimator=nm, task=t, random_state=3) for t in ("regression", "binary"))
        rec.ok(not hasattr(r, "predict_proba") and hasattr(c, "predict_proba"), "estimator_task", "an estimator does not suit its task", name=nm)


def case_utils(rec, rng, tier):
    from ylearn.utils import (drop_none, join_list, nmap, to_camel_case, to_list, to_repr, to_snake_case)
    words = [str(w) for w in rng.choice(["a", "bc", "D e", "x_1", "é"], int(rng.integers(0, 5)))]
    text = ",".join(w + " " * int(rng.integers(0, 2)) for w in words)
    rec.ok(to_list(text) == words, "to_list", "not the words between commas", text=text, got=to_list(text))
    rec.ok(to_list(words) is words and to_list(None) is None and to_list(tuple(words)) == tuple(words), "to_list", "a list is not itself")
    parts = [[["p", "q"], ("r",), None, "s,t", []][i] for i in rng.integers(0, 5, int(rng.integers(0, 5)))]
    want = [w for p in parts for w in ([] if p is None else [x.strip() for x in p.split(",")] if isinstance(p, str) else list(p))]
    bp = copy.deepcopy(parts)
    rec.ok(join_list(*parts) == want and parts == bp, "join_list", "not the joined lists", parts=str(parts), got=join_list(*parts))
    d = {k: [None, 0, "", [], 3][int(rng.integers(5))] for k in words}
    rec.ok(drop_none(**{k.replace(" ", "_"): v for k, v in d.items()}) == {k.replace(" ", "_"): v for k, v in d.items() if v is not None}, "drop_none", "not the values that are not None")
    xs = rng.integers(0, 9, 4).tolist()
    a, b = nmap(lambda x: (x, x * x), xs)
    rec.ok(list(a) == xs and list(b) == [x * x for x in xs], "nmap", "not the mapped values")
    k1, k2 = nmap(lambda x: dict(x=x, x2=x * x), xs, keys=["x2", "x"])
    rec.ok(list(k1) == [x * x for x in xs] and list(k2) == xs, "nmap", "not the mapped keys")
    s = "_".join(str(w) for w in rng.choice(["meta", "learner", "dml", "x2"], int(rng.integers(1, 4))))
    rec.ok(to_snake_case(to_camel_case(s)) == s.lower(), "snake_camel", "names do not convert back", name=s, got=to_snake_case(to_camel_case(s)))
    n = int(rng.integers(3, 9))
    f = pd.DataFrame({"a": rng.normal(size=n), "b": rng.integers(0, 3, n), "c": rng.normal(size=n)})
    from ylearn.utils._common import check_cols, convert2array, to_df
    x, y, z, w = convert2array(f, "a", ["b", "c"], None, ["c"])
    rec.ok(np.array_equal(x, f[["a"]].to_numpy()) and np.array_equal(y, f[["b", "c"]].to_numpy()) and z is None and np.array_equal(w, f[["c"]].to_numpy()), "convert2array", "not the columns as two-dimensional arrays")
    g = to_df(v=f["a"].to_numpy(), w=f[["b", "c"]].to_numpy(), x=None, u=f[["c"]].to_numpy())
    rec.ok(list(g.columns) == ["v", "w_0", "w_1", "u"] and np.array_equal(g.to_numpy(), np.column_stack([f["a"], f["b"], f["c"], f["c"]])), "to_df", "not the given columns", got=list(g.columns))
    check_cols(f, "a", ["b", "c"], None)
    for bad in ("nope", ["a", "nope"]):
        try:
            check_cols(f, bad)
        except AssertionError:
            pass
        else:
            rec.ok(False, "check_cols", "an unknown column was accepted", columns=str(bad))
    from ylearn.utils import set_random_state
    for seed in (0, 7, np.int64(9), np.random.RandomState(4)):
        sd = copy.deepcopy(seed)
        set_random_state(seed)
        r1 = np.random.rand(3)
        set_random_state(sd)
        rec.ok(np.array_equal(r1, np.random.rand(3)), "random_state", "the same seed gives other numbers", seed=str(seed))
    np.random.seed(5)
    set_random_state(None)
    r1 = np.random.rand()
    np.random.seed(5)
    rec.ok(r1 == np.random.rand(), "random_state", "no seed changed the generator")
    # one-hot encoding to arrays
    c = column(rng, str(rng.choice(["str", "int8", "bool"])), 30)
    A = np.asarray(c).reshape(-1, 1)
    e = skex.ArrayOneHotEncoder()
    got = e.fit_transform(A)
    u = sorted(set(A[:, 0].tolist()))
    rec.ok(isinstance(got, np.ndarray) and np.array_equal(got, np.array([[float(v == w) for w in u] for v in A[:, 0].tolist()])), "one_hot", "not one column per value", values=str(u))
    rec.ok(e.inverse_transform(got).tolist() == A.tolist(), "one_hot_inverse", "the inverse is not the value encoded")
    rec.event("utils", 1)
    rec.seen("utils", text)


GROUPS = [
    Group("encoder", case_encoder, quick=400, thorough=8000, timeout=60, chunk=40),
    Group("general", case_general, quick=240, thorough=5000, timeout=90, chunk=20),
    Group("mapper", case_mapper, quick=200, thorough=4000, timeout=90, chunk=20),
    Group("cleaner", case_cleaner, quick=320, thorough=6000, timeout=90, chunk=20),
    Group("selection", case_selection, quick=50, thorough=600, timeout=120, chunk=5),
    Group("task", case_task, quick=40, thorough=600, timeout=120, chunk=8),
    Group("utils", case_utils, quick=300, thorough=3000, timeout=60, chunk=50),
]
