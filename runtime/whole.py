"""Properties of every converted model, on random fitted models (bounded)."""
import copy
import math

from pyvc.api import Reject, runtime
from runtime import _zoo as z

PLAIN = (int, float, str, bool, type(None))


def walk(o, path, seen, depth=0):
    """The first thing that is neither plain Python data nor a converted object."""
    t = type(o)
    if t in PLAIN:
        return None
    if isinstance(o, type):
        return None if o.__module__ == "builtins" else "%s: the class %r" % (path, o)
    if id(o) in seen:
        return None
    seen.add(id(o))
    if t in (list, tuple):
        for i, v in enumerate(o):
            r = walk(v, "%s[%d]" % (path, i), seen)
            if r:
                return r
        return None
    if t is dict:
        for k, v in o.items():
            r = walk(k, path + " key", seen) or walk(v, "%s[%r]" % (path, k), seen)
            if r:
                return r
        return None
    if t.__module__.startswith("pure_") and hasattr(o, "__dict__"):
        for k, v in vars(o).items():
            r = walk(v, "%s.%s" % (path, k), seen)
            if r:
                return r
        return None
    return "%s: %r of type %s" % (path, o, t)


KINDS = sorted(z.MODELS)


def pick(rng):
    return z.MODELS[rng.choice(KINDS)](rng)


@runtime("C15", "converted models hold plain data", trials=250)
def c15(rng):
    import pickle

    est, T = pick(rng)
    k, p = z.call(z.pure, est)
    if k == "raise":
        return None
    r = walk(p, type(p).__name__, set())
    if r:
        return "%s\n  %r" % (r, est)
    b = pickle.dumps(p)
    for m in (b"numpy", b"sklearn.", b"pandas", b"scipy", b"xgboost."):
        if m in b.replace(b"pure_sklearn.", b"").replace(b"xgboost._classes", b""):
            return "the pickle names %r\n  %r" % (m, est)


def setting(rng):
    """An estimator with an attribute that holds a foreign object."""
    import numpy as np

    est, T = pick(rng)
    for name, vals in rng.sample(FOREIGN, len(FOREIGN)):
        if name in vars(est):
            setattr(est, name, rng.choice(vals)(np))
            return est, name
    raise Reject()


FOREIGN = [
    ("loss", [lambda np: np.array([1.0]), lambda np: object(), lambda np: np.str_("hinge")]),
    ("multi_class", [lambda np: np.str_("ovr"), lambda np: np.float64(1)]),
    ("solver", [lambda np: np.str_("liblinear")]),
    ("norm", [lambda np: np.str_("l2")]),
    ("separator", [lambda np: np.str_("="), lambda np: np.array(["="])]),
    ("strategy", [lambda np: np.str_("mean")]),
    ("feature_names_", [lambda np: np.array(["n", "m"]), lambda np: [np.str_("n")]]),
    ("vocabulary_", [lambda np: {np.str_("a"): 0}, lambda np: {"a": np.int64(0)}]),
    ("stop_words", [lambda np: np.array(["a"]), lambda np: [np.str_("a")]]),
    ("ngram_range", [lambda np: (np.int64(1), 1), lambda np: np.array([1, 1])]),
    ("tokenizer", [lambda np: np.array, lambda np: len]),
    ("sparse", [lambda np: np.bool_(True)]),
    ("with_mean", [lambda np: np.bool_(True)]),
    ("with_std", [lambda np: np.bool_(True)]),
    ("add_indicator", [lambda np: np.bool_(True)]),
    ("n_features", [lambda np: np.int64(16)]),
    ("learning_rate", [lambda np: np.float64(0.5)]),
    ("feature_range", [lambda np: (np.float64(0), 1)]),
    ("n_estimators", [lambda np: np.int64(1)]),
]


@runtime("C15", "foreign settings are converted or refused", trials=200)
def c15b(rng):
    est, name = setting(rng)
    k, p = z.call(z.pure, est)
    if k == "raise":
        return None
    r = walk(p, type(p).__name__, set())
    return r and "%s (setting %s = %r)\n  %r" % (r, name, getattr(est, name), est)


def fresh(v):
    return copy.deepcopy(v)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b) or a != a and b != b
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a) and same_vars(a, b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)) and same_vars(a, b)
    if type(a).__module__.startswith("pure_"):
        return same_vars(a, b)
    return a == b


def same_vars(a, b):
    va, vb = getattr(a, "__dict__", {}), getattr(b, "__dict__", {})
    return set(va) == set(vb) and all(same(va[k], vb[k]) for k in va)


def calls(p):
    out = []
    for m in z.METHODS:
        if z.call(getattr, p, m)[0] == "ok":
            out.append(m)
    return out


def takes_sparse(p, m, T):
    if T and isinstance(T[0], (str, dict)):
        return False
    return isinstance(T[0][0], float) and z.call(getattr(p, m), z.sparse(T))[0] == "ok"


@runtime("C16", "conversion leaves the original unchanged and is repeatable", trials=150)
def c16(rng):
    import pickle

    est, T = pick(rng)
    before = pickle.dumps(est)
    k, p = z.call(z.pure, est)
    k2, p2 = z.call(z.pure, est)
    if k != k2:
        return "two conversions differ: %r, %r" % (p, p2)
    names = {"raise": None, "ok": type(est).__name__ + "Pure"}
    if k == "ok" and type(p).__name__ != names["ok"]:
        return "%s converted to %s" % (type(est).__name__, type(p).__name__)
    if type(est).__name__ != "XGBClassifier" and pickle.dumps(pickle.loads(before)) != pickle.dumps(pickle.loads(pickle.dumps(est))):
        return "conversion changed the original %r" % est
    if k == "ok" and not same(p, p2):
        return "two conversions of %r differ" % est


@runtime("C16", "unfitted and unsupported estimators are refused")
def c16b(rng):
    import sklearn.base
    from sklearn import cluster, decomposition, ensemble, neighbors, svm, linear_model, tree, naive_bayes, preprocessing, impute, neural_network
    from sklearn.feature_extraction import text, DictVectorizer

    if rng.random() < 0.5:
        cls = rng.choice([cluster.KMeans, decomposition.PCA, ensemble.RandomForestRegressor, ensemble.AdaBoostClassifier, neighbors.KNeighborsClassifier,
                          svm.SVC, linear_model.LinearRegression, linear_model.SGDRegressor, naive_bayes.BernoulliNB, preprocessing.RobustScaler,
                          preprocessing.LabelEncoder, impute.KNNImputer, neural_network.MLPClassifier, ensemble.GradientBoostingRegressor])
        k, v = z.call(z.pure, cls())
        return "%s was converted: %r" % (cls.__name__, v) if k == "ok" else None
    est, T = pick(rng)
    name = type(est).__name__
    if name in ("Normalizer", "HashingVectorizer"):
        return None
    if name == "TfidfTransformer" and not est.use_idf:
        return None
    if name in ("Pipeline", "FeatureUnion"):
        return None
    k, v = z.call(z.pure, sklearn.base.clone(est))
    return "an unfitted %s was converted: %r" % (name, vars(v)) if k == "ok" else None


@runtime("C17", "calls change nothing, rows are independent", trials=200)
def c17(rng):
    est, T = pick(rng)
    k, p = z.call(z.pure, est)
    if k == "raise":
        raise Reject()
    model = fresh(p)
    ms = calls(p)
    seen = []
    for _ in range(4):
        m = rng.choice(ms)
        A = fresh(T)
        if takes_sparse(p, m, T) and rng.random() < 0.5:
            A = z.stored(rng, T) if not getattr(est, "sublinear_tf", False) else z.sparse(T)
        elif type(est).__name__ == "TfidfTransformer":
            A = z.sparse(T)
        keep = fresh(A)
        k, v = z.call(getattr(p, m), A)
        if not same(A, keep):
            return "%s.%s changed its input %r to %r" % (type(p).__name__, m, keep, A)
        if not same(p, model):
            return "%s.%s changed the model" % (type(p).__name__, m)
        if k == "ok":
            for m0, v0, keep0 in seen:
                if not same(v0, keep0):
                    return "%s.%s changed an earlier result of %s" % (type(p).__name__, m, m0)
            k2, v2 = z.call(getattr(p, m), A)
            if k2 != "ok" or not same(v, v2):
                return "%s.%s repeated: %r, then %r" % (type(p).__name__, m, v, v2)
            seen.append((m, v, fresh(v)))
            # row by row
            for i in range(len(A)):
                if hasattr(A, "size") and hasattr(A, "dtype"):
                    one = type(A)([A[i]], size=A.size, dtype=A.dtype)
                else:
                    one = [A[i]]
                k3, v3 = z.call(getattr(p, m), fresh(one))
                if k3 != "ok":
                    return "%s.%s of row %d alone: %r" % (type(p).__name__, m, i, v3)
                r = z.diff(list(z.dense(v3)), [z.dense(v)[i]], 1e-12)
                if r:
                    return "%s.%s of row %d alone %s" % (type(p).__name__, m, i, r)


BAD = [lambda T: tuple(T), lambda T: z.np().array(T, dtype=object), lambda T: "abc", lambda T: {0: T[0]}, lambda T: 3, lambda T: None, lambda T: [],
       lambda T: 2.5, lambda T: iter(T), lambda T: set(), lambda T: z.np().array(T)]
NOT_MATRIX = ("CountVectorizer", "TfidfVectorizer", "HashingVectorizer", "DictVectorizer", "Pipeline", "FeatureUnion")


@runtime("C18", "what is not a non-empty list is refused", trials=200)
def c18(rng):
    est, T = pick(rng)
    k, p = z.call(z.pure, est)
    name = type(est).__name__
    if k == "raise" or name in NOT_MATRIX + ("DummyClassifier",):
        raise Reject()
    for m in calls(p):
        for b in BAD:
            A = b(T)
            k, v = z.call(getattr(p, m), A)
            if k == "ok":
                return "%s.%s accepts %r: %r" % (name, m, A, v)
        if name not in z.SPARSE_OK and name not in ("StandardScaler", "BaggingClassifier", "MinMaxScaler") and isinstance(T[0][0], float):
            k, v = z.call(getattr(p, m), z.sparse(T))
            if k == "ok":
                return "%s.%s accepts sparse input: %r" % (name, m, v)
        if name == "TfidfTransformer":
            continue
        k, v = z.call(getattr(p, m), T)
        k0, v0 = z.call(getattr(est, m), z.rows_of(est, T)) if hasattr(est, m) else ("raise", None)
        if k == "raise" and k0 == "ok":
            return "%s.%s refuses %r: %r" % (name, m, T, v)


@runtime("C18", "a different number of features is refused where it is checked", trials=100)
def c18b(rng):
    est, T = rng.choice([z.linear, z.encoder, z.imputer])(rng)
    p = z.pure(est)
    extra = rng.choice([1, 2])
    A = [list(r) + [r[0]] * extra for r in T]
    if len(T[0]) > 1 and rng.random() < 0.5:
        A = [list(r)[:-1] for r in T]
    for m in calls(p):
        k, v = z.call(getattr(p, m), A)
        if k == "ok":
            return "%s.%s accepts %d features instead of %d: %r" % (type(est).__name__, m, len(A[0]), len(T[0]), v)


@runtime("C21", "probabilities are well-formed for extreme rows", trials=250)
def c21(rng):
    est, T = rng.choice([z.linear, z.linear, z.tree, z.forest, z.boosting, z.xgb, z.bayes, z.dummy, z.bayes])(rng)
    p = z.pure(est)
    if "predict_proba" not in calls(p):
        raise Reject()
    d = len(T[0])
    big = [1e3, -1e3, 1e5, -1e6, 1e9, -1e12, 1e100, -1e100, 1e-300, 0.0, 1.0, -745.2, 709.9]
    count = type(est).__name__ in ("MultinomialNB", "ComplementNB")
    A = [[abs(rng.choice(big)) if count else rng.choice(big) for _ in range(d)] for _ in range(4)] + T
    classes = p.classes_
    for row in A:
        sc = None
        try:
            if hasattr(p, "decision_function"):
                sc = p.decision_function([row])[0]
            elif hasattr(p, "_joint_log_likelihood"):
                sc = p._joint_log_likelihood([row])[0]
        except Exception as e:
            return "scores of %r: %r" % (row, e)
        sc = sc if isinstance(sc, list) else [sc]
        if any(isinstance(s, float) and not math.isfinite(s) for s in sc):
            continue
        k, v = z.call(p.predict_proba, [row])
        if k != "ok":
            return "predict_proba(%r): %s\n  %r" % (row, v, est)
        if len(v) != 1 or len(v[0]) != len(classes):
            return "predict_proba(%r) has shape %d x %d, %d classes" % (row, len(v), len(v[0]), len(classes))
        if any(x != x for x in v[0]):
            if not any(s > -700 for s in sc if s is not None) and type(est).__name__ in ("LogisticRegression", "SGDClassifier") and len(classes) > 2:
                continue
            return "predict_proba(%r) = %r\n  %r" % (row, v, est)
        if any(not -1e-12 <= x <= 1 + 1e-12 for x in v[0]) or abs(sum(v[0]) - 1) > 1e-6:
            return "predict_proba(%r) = %r\n  %r" % (row, v, est)
        k, v = z.call(p.predict, [row])
        if k != "ok" or v[0] not in classes:
            return "predict(%r): %r" % (row, v)
        if "predict_log_proba" in calls(p):
            k, v = z.call(p.predict_log_proba, [row])
            if k != "ok":
                return "predict_log_proba(%r): %r" % (row, v)
