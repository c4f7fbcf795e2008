"""Fitted original estimators and inputs for the concrete comparisons with the real
libraries (bounded: they validate the contracts' idea of 'the original', and find inputs)."""
import copy
import math

from pyvc.api import Reject


def np():
    import numpy

    return numpy


def pure(est):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(est)


def fit(est, *a, **k):
    try:
        return est.fit(*a, **k)
    except Exception:  # the original cannot be fitted on this sample
        raise Reject()


def labels(rng, k):
    kind = rng.choice(["int", "str", "neg", "bool"] if k == 2 else ["int", "str", "neg"])
    if kind == "int":
        return list(range(k))
    if kind == "bool":
        return [False, True]
    if kind == "neg":
        return sorted(rng.sample(range(-5, 6), k))
    return sorted(rng.sample(["a", "b", "B", "zz", "é", "no", "yes", ""], k))


def cell(rng, mode):
    if mode == "dyadic":
        return rng.randint(-8, 8) / 4.0
    if mode == "small":
        return float(rng.randint(0, 3))
    if mode == "sparse":
        return 0.0 if rng.random() < 0.6 else rng.randint(-8, 8) / 4.0
    if mode == "count":
        return float(rng.choice([0, 0, 1, 2, 5]))
    if mode == "normal":
        return float(np().float32(rng.gauss(0, 2)))
    return float(np().float32(rng.gauss(0, 1) * 10 ** rng.randint(-3, 3)))


def matrix(rng, n, d, mode=None):
    mode = mode or rng.choice(["dyadic", "small", "sparse", "normal", "wide"])
    return [[cell(rng, mode) for _ in range(d)] for _ in range(n)], mode


def data(rng, k=None, mode=None, d=None, n=None):
    """Training rows, labels (every class present), test rows."""
    k = k or rng.choice([2, 2, 3, 4])
    d = d or rng.choice([1, 2, 3, 5, 12])
    n = n or rng.choice([2 * k + 2, 20, 40])
    X, mode = matrix(rng, n, d, mode)
    names = labels(rng, k)
    y = [names[i % k] if i < k else rng.choice(names) for i in range(n)]
    if rng.random() < 0.5:  # a learnable target
        order = sorted(range(n), key=lambda i: X[i][0])
        for q, i in enumerate(order):
            y[i] = names[min(q * k // n, k - 1)]
    T, _ = matrix(rng, rng.choice([1, 2, 5]), d, mode if rng.random() < 0.7 else None)
    if mode == "count":
        T = [[abs(v) for v in r] for r in T]
    T += [X[0], [0.0] * d, X[-1]]
    rng.shuffle(T)
    return X, y, T


def sparse(X):
    from pure_sklearn.utils import sparse_list

    return sparse_list([{j: v for j, v in enumerate(r) if v != 0} for r in X], size=len(X[0]), dtype=float)


def stored(rng, X):
    """A sparse matrix with some zeros stored."""
    from pure_sklearn.utils import sparse_list

    return sparse_list([{j: v for j, v in enumerate(r) if v != 0 or rng.random() < 0.3} for r in X], size=len(X[0]), dtype=float)


def dense(A):
    return A.todense() if hasattr(A, "todense") and hasattr(A, "size") and isinstance(A, list) else A


def orig(A):
    return A.toarray().tolist() if hasattr(A, "toarray") else np().asarray(A).tolist()


def diff(a, b, tol=1e-6, path=""):
    """None if equal up to rounding."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d, original %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, tol, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a and b != b or a == b:
            return None
        if a != a or b != b or math.isinf(a) or math.isinf(b) or abs(a - b) > tol * max(1.0, abs(a), abs(b)):
            return "%s: %r, original %r" % (path, a, b)
        return None
    return None if a == b else "%s: %r, original %r" % (path, a, b)


def call(f, *a, **k):
    try:
        return "ok", f(*a, **k)
    except RecursionError:
        raise
    except Exception as e:
        return "raise", "%s: %s" % (type(e).__name__, e)


def check_labels(got, want, scores, classes, tol=1e-7):
    """Labels equal, except where the original's two best scores nearly tie."""
    if len(got) != len(want):
        return "%d labels for %d rows" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if g == w:
            continue
        s = scores[i]
        if not isinstance(s, (list, tuple)):
            s = [0.0, s]
        t = sorted(s)
        if t[-1] - t[-2] > tol * max(1.0, abs(t[-1])):
            return "row %d: label %r, original %r (scores %r)" % (i, g, w, s)
        if g not in classes:
            return "row %d: %r is no class" % (i, g)
    return None


# -- original estimators
def linear(rng, k=None):
    from sklearn import linear_model as lm, svm

    X, y, T = data(rng, k)
    fi = rng.random() < 0.8
    c = rng.choice(["lr", "lr", "lr", "ridge", "sgd", "sgd", "perc", "pa", "svc"])
    if c == "lr":
        mc = rng.choice(["ovr", "multinomial", "auto"])
        kw = rng.choice([{"max_iter": 1000}, {"C": 100.0, "solver": "newton-cg"}, {"penalty": "l1", "solver": "saga"}])
        est = lm.LogisticRegression(multi_class=mc, fit_intercept=fi, **kw)
        if rng.random() < 0.2 and mc != "multinomial":
            est = lm.LogisticRegression(solver="liblinear", multi_class=rng.choice(["ovr", "auto"]), fit_intercept=fi)
    elif c == "ridge":
        est = lm.RidgeClassifier(fit_intercept=fi, class_weight=rng.choice([None, "balanced"]))
    elif c == "sgd":
        est = lm.SGDClassifier(loss=rng.choice(["log", "log", "hinge", "perceptron", "squared_hinge"]), fit_intercept=fi, max_iter=20, random_state=0,
                               average=rng.random() < 0.2)
    elif c == "perc":
        est = lm.Perceptron(fit_intercept=fi, random_state=0)
    elif c == "pa":
        est = lm.PassiveAggressiveClassifier(fit_intercept=fi, random_state=0)
    else:
        est = svm.LinearSVC(fit_intercept=fi, random_state=0, max_iter=200, multi_class=rng.choice(["ovr", "ovr", "crammer_singer"]))
    return fit(est, np().array(X), np().array(y)), T


def tree(rng, classifier=None):
    from sklearn import tree as t

    classifier = rng.random() < 0.6 if classifier is None else classifier
    X, y, T = data(rng)
    kw = dict(max_depth=rng.choice([None, 1, 3, 6]), min_samples_leaf=rng.choice([1, 1, 5]), random_state=rng.randrange(100))
    if classifier:
        cls = rng.choice([t.DecisionTreeClassifier, t.ExtraTreeClassifier])
        kw["criterion"] = rng.choice(["gini", "entropy"])
        kw["class_weight"] = rng.choice([None, "balanced"])
        if rng.random() < 0.1:
            y = [y[0]] * len(y)
    else:
        cls = rng.choice([t.DecisionTreeRegressor, t.ExtraTreeRegressor])
        y = [cell(rng, "normal") for _ in X]
        if rng.random() < 0.1:
            y = [1.5] * len(y)
    est = cls(**kw).fit(np().array(X), np().array(y))
    tr = est.tree_
    # rows exactly on thresholds
    for i in range(tr.node_count):
        if tr.children_left[i] >= 0:
            r = list(rng.choice(T))
            v = float(np().float32(tr.threshold[i]))
            r[tr.feature[i]] = v
            T.append(r)
            if len(T) > 12:
                break
    return est, T


def forest(rng):
    from sklearn import ensemble as e
    from sklearn import linear_model as lm, tree as t
    from sklearn.svm import LinearSVC

    X, y, T = data(rng)
    c = rng.choice(["rf", "et", "bag", "bag", "bag"])
    n = rng.choice([1, 2, 3, 7])
    if c in ("rf", "et"):
        cls = e.RandomForestClassifier if c == "rf" else e.ExtraTreesClassifier
        est = cls(n_estimators=n, max_depth=rng.choice([None, 2]), random_state=rng.randrange(100))
    else:
        base = rng.choice([None, t.DecisionTreeClassifier(max_depth=2), lm.LogisticRegression(), LinearSVC(), lm.RidgeClassifier()])
        est = e.BaggingClassifier(base, n_estimators=n, random_state=rng.randrange(100), max_features=rng.choice([1.0, 0.6]),
                                  max_samples=rng.choice([1.0, 0.5, 0.3]), bootstrap_features=rng.random() < 0.3)
    return fit(est, np().array(X), np().array(y)), T


def boosting(rng):
    from sklearn import ensemble as e, dummy

    k = rng.choice([2, 2, 3])
    X, y, T = data(rng, k)
    loss = rng.choice(["deviance", "deviance", "exponential"]) if k == 2 else "deviance"
    init = rng.choice([None, None, None, "dummy"])
    if init == "dummy":
        init = dummy.DummyClassifier(strategy="prior")
    est = e.GradientBoostingClassifier(loss=loss, init=init, n_estimators=rng.choice([1, 2, 5]), learning_rate=rng.choice([0.1, 1.0, 0.5]),
                                       max_depth=rng.choice([1, 2, 3]), subsample=rng.choice([1.0, 0.7]), random_state=rng.randrange(100))
    return fit(est, np().array(X), np().array(y)), T


def xgb(rng):
    from xgboost import XGBClassifier

    k = rng.choice([2, 2, 3, 4])
    X, y, T = data(rng, k, n=rng.choice([30, 60]))
    names = sorted(set(y))
    y = [names.index(v) for v in y]
    kw = dict(booster="gbtree", n_estimators=rng.choice([1, 2, 6]), max_depth=rng.choice([1, 3, 6]), tree_method=rng.choice(["exact", "hist"]),
              learning_rate=rng.choice([0.3, 1.0]), min_child_weight=0, n_jobs=1, random_state=rng.randrange(100))
    if k == 2 and rng.random() < 0.5:
        kw["base_score"] = rng.choice([0.5, 0.2, 0.9])
    if rng.random() < 0.3:
        kw["gamma"] = rng.choice([0.1, 1.0])
    A = np().array(X)
    if rng.random() < 0.5:
        for r in range(0, len(X), 3):
            A[r, rng.randrange(A.shape[1])] = float("nan")
    if rng.random() < 0.5:
        for r in T[::2]:
            r = list(r)
        T = [[float("nan") if rng.random() < 0.2 else v for v in r] for r in T]
    if rng.random() < 0.2:
        est = XGBClassifier(early_stopping_rounds=1, **dict(kw, n_estimators=20)).fit(A[::2], np().array(y)[::2], eval_set=[(A[1::2], np().array(y)[1::2])], verbose=False) \
            if len(set(y[::2])) == k else XGBClassifier(**kw).fit(A, np().array(y))
    else:
        est = XGBClassifier(**kw).fit(A, np().array(y))
    df = est.get_booster().trees_to_dataframe()
    for f, s in list(zip(df["Feature"], df["Split"]))[:6]:
        if f != "Leaf":
            r = list(rng.choice(T))
            r[int(f[1:])] = float(np().float32(s))
            T.append(r)
    return est, T


def bayes(rng):
    from sklearn import naive_bayes as nb

    c = rng.choice(["g", "m", "c"])
    k = rng.choice([1, 2, 2, 3]) if rng.random() < 0.4 else None
    if k == 1:
        X, y, T = data(rng, 2, "count" if c != "g" else None)
        y = [y[0]] * len(y)
    else:
        X, y, T = data(rng, k, "count" if c != "g" else rng.choice(["dyadic", "normal", "small"]))
    if c == "g":
        est = nb.GaussianNB()
        est.fit(np().array(X), np().array(y))
    else:
        est = (nb.MultinomialNB if c == "m" else nb.ComplementNB)(alpha=rng.choice([1.0, 0.1]))
        if c == "m":
            est.set_params(fit_prior=rng.random() < 0.7)
        else:
            est.set_params(norm=rng.random() < 0.4)
        est.fit(np().array(X), np().array(y))
        if not np().isfinite(est.feature_log_prob_).all():
            raise Reject()
    return est, T


def scaler(rng):
    from sklearn import preprocessing as p
    from scipy import sparse as sp

    X, y, T = data(rng)
    c = rng.choice(["std", "mm", "ma", "norm"])
    sparse_fit = False
    if c == "std":
        est = p.StandardScaler(with_mean=rng.random() < 0.5, with_std=rng.random() < 0.7)
    elif c == "mm":
        est = p.MinMaxScaler(feature_range=rng.choice([(0, 1), (-1, 1), (2, 5)]))
    elif c == "ma":
        est = p.MaxAbsScaler()
    else:
        est = p.Normalizer(norm=rng.choice(["l1", "l2", "max"]))
    return fit(est, np().array(X)), T


def encoder(rng):
    from sklearn import preprocessing as p

    d = rng.choice([1, 2, 3, 4])
    pools = [rng.choice([["a", "b", "c", "d"], ["x", "a"], ["é", "", "B", "b", "10"]]) for _ in range(d)]
    num = rng.random() < 0.3
    if num:
        pools = [rng.choice([[1, 2, 3], [-1, 0, 7, 10], [5]]) for _ in range(d)]
    X = [[rng.choice(p_) for p_ in pools] for _ in range(rng.choice([3, 8, 20]))]
    A = np().array(X, dtype=int if num else object)
    if rng.random() < 0.4:
        est = p.OrdinalEncoder(dtype=rng.choice([np().float64, np().int64, float]))
    else:
        est = p.OneHotEncoder(handle_unknown=rng.choice(["error", "ignore", "ignore"]), sparse=rng.random() < 0.5,
                              dtype=rng.choice([np().float64, np().int64, float]))
    est.fit(A)
    unk = 99 if num else "unknown"
    T = [list(rng.choice(X)) for _ in range(rng.choice([1, 3, 5]))]
    if rng.random() < 0.5:
        for r in T:
            for j in range(d):
                if rng.random() < 0.2:
                    r[j] = rng.choice([unk, rng.choice(rng.choice(pools))])
    return est, T


def imputer(rng):
    from sklearn import impute as im

    miss = rng.choice([float("nan"), float("nan"), -1.0, 0.0, -1])
    d = rng.choice([1, 2, 3, 5])

    def rows(n, p):
        return [[miss if rng.random() < q else cell(rng, "small") + 1.0 for q in p] for _ in range(n)]

    p = [rng.choice([0.0, 0.3, 0.5, 1.0 if rng.random() < 0.3 else 0.1]) for _ in range(d)]
    X = rows(rng.choice([4, 10]), p)
    T = rows(rng.choice([1, 4]), [rng.choice([q, q, 0.3]) for q in p])
    if rng.random() < 0.4:
        est = im.MissingIndicator(missing_values=miss, features=rng.choice(["missing-only", "all"]), sparse=False, error_on_new=rng.random() < 0.5)
    else:
        est = im.SimpleImputer(missing_values=miss, strategy=rng.choice(["mean", "median", "most_frequent", "constant"]),
                               add_indicator=rng.random() < 0.5, fill_value=rng.choice([None, 7.5]))
    return fit(est, np().array(X)), T


WORDS = ["the", "cat", "sat", "on", "Mat", "été", "naïve", "a1", "x", "foo_bar", "don't", "C++", "ﬁn", "mat", "Straße", "10", "The", "I"]


def text(rng):
    n = rng.choice([0, 1, 2, 4, 8])
    sep = rng.choice([" ", " ", "  ", ", ", "\n", " - ", "\t"])
    return sep.join(rng.choice(WORDS) for _ in range(n))


def vectorizer(rng, kinds=("count", "tfidf", "hash", "tt")):
    from sklearn.feature_extraction import text as t

    docs = [text(rng) for _ in range(rng.choice([3, 6]))] + ["the cat sat", "Été mat mat mat foo_bar"]
    T = [text(rng) for _ in range(rng.choice([1, 2, 4]))] + [rng.choice(docs)]
    an = rng.choice(["word", "word", "word", "char", "char_wb"])
    kw = dict(analyzer=an, ngram_range=rng.choice([(1, 1), (1, 2), (2, 2), (2, 3), (1, 4), (3, 5)]), lowercase=rng.random() < 0.7,
              strip_accents=rng.choice([None, None, "ascii", "unicode"]), binary=rng.random() < 0.3)
    if an == "word":
        if rng.random() < 0.3:
            kw["stop_words"] = rng.choice([["the"], ["cat", "on", "mat"], []])
        if rng.random() < 0.3:
            kw["token_pattern"] = rng.choice([r"(?u)\b\w+\b", r"\S+", r"(?u)(\w)\w*"])
    c = rng.choice(list(kinds))
    norm = rng.choice(["l2", "l1", None, "max"]) if c == "tt" else rng.choice(["l2", "l1", None])
    if c == "hash":
        est = t.HashingVectorizer(n_features=rng.choice([1, 2, 7, 16, 1000]), norm=norm, alternate_sign=rng.random() < 0.6, **kw)
        return fit(est, docs), T
    if rng.random() < 0.2:
        kw["dtype"] = np().float64
    idf = dict(use_idf=rng.random() < 0.7, smooth_idf=rng.random() < 0.7, sublinear_tf=rng.random() < 0.4)
    try:
        if c == "count":
            return t.CountVectorizer(**kw).fit(docs), T
        if c == "tfidf":
            kw.pop("dtype", None)
            return t.TfidfVectorizer(norm=norm, **idf, **kw).fit(docs), T
        est = t.TfidfTransformer(norm=norm if norm != "max" else "l2", **idf)
        d = rng.choice([1, 3, 6])
        X, _ = matrix(rng, 6, d, "count")
        X[0] = [1.0] * d
        T, _ = matrix(rng, 4, d, "count")
        return fit(est, np().array(X)), T
    except ValueError as e:
        if "empty vocabulary" in str(e):
            return vectorizer(rng, kinds)
        raise


def dictvec(rng):
    from sklearn.feature_extraction import DictVectorizer

    def rec():
        r = {}
        for f in ["n", "m", "s", "t", "s=x"]:
            if rng.random() < 0.5:
                r[f] = rng.choice([1, 2.5, -3, 0]) if f in "nm" else rng.choice(["x", "y", "é", ""]) if f in "st" else 4.0
        if "s" in r and "s=x" in r:
            r.pop("s=x")
        return r

    est = DictVectorizer(sparse=rng.random() < 0.5, separator=rng.choice(["=", ":"]), dtype=rng.choice([np().float64, float]))
    D = [rec() for _ in range(6)] + [{"n": 1, "s": "x", "t": "y"}]
    T = [rec() for _ in range(rng.choice([1, 3]))]
    T[0]["unknown"] = rng.choice([1.0, "q"])
    if rng.random() < 0.3:
        T.append({})
    return fit(est, D), T


def dummy(rng):
    from sklearn.dummy import DummyClassifier

    X, y, T = data(rng)
    if rng.random() < 0.2:
        y = [y[0]] * len(y)
    return DummyClassifier(strategy="prior").fit(np().array(X), np().array(y)), T


def pipeline(rng):
    from sklearn.pipeline import Pipeline, FeatureUnion
    from sklearn import preprocessing as p, linear_model as lm, tree as t, naive_bayes as nb
    from sklearn.impute import SimpleImputer
    from sklearn.feature_extraction import text as tx

    if rng.random() < 0.3:
        docs = [text(rng) + " cat" for _ in range(10)]
        y = [i % 2 for i in range(10)]
        tr = [("c", tx.CountVectorizer()), ("t", tx.TfidfVectorizer(analyzer="char", ngram_range=(1, 2))), ("h", tx.HashingVectorizer(n_features=8))]
        rng.shuffle(tr)
        tr = tr[: rng.choice([1, 2, 3])]
        u = FeatureUnion(tr, transformer_weights=rng.choice([None, {tr[0][0]: 2.5}, {tr[-1][0]: 0.5}]))
        if rng.random() < 0.4:
            return u.fit(docs), [text(rng) for _ in range(3)]
        return Pipeline([("u", u), ("lr", lm.LogisticRegression())]).fit(docs, y), [text(rng) for _ in range(3)]
    X, y, T = data(rng, mode=rng.choice(["dyadic", "small"]))

    def trans():
        return rng.choice([p.StandardScaler(), p.MinMaxScaler(), p.MaxAbsScaler(), p.Normalizer(), SimpleImputer(),
                           p.OneHotEncoder(handle_unknown="ignore", sparse=rng.random() < 0.5)])

    def union(depth):
        n = rng.choice([1, 2, 3])
        ts = []
        for i in range(n):
            v = trans() if depth == 0 or rng.random() < 0.6 else rng.choice([union(depth - 1), Pipeline([("q", p.StandardScaler()), ("r", p.MinMaxScaler())])])
            ts.append(("t%d" % i, v))
        w = None
        if rng.random() < 0.5:
            w = {"t%d" % i: rng.choice([0.5, 2.0, -1.0, 3]) for i in range(n) if rng.random() < 0.6}
        return FeatureUnion(ts, transformer_weights=w)

    steps = []
    for i in range(rng.choice([0, 1, 2])):
        steps.append(("s%d" % i, rng.choice([p.StandardScaler(), p.MinMaxScaler(), p.MaxAbsScaler(), SimpleImputer()])))
    if rng.random() < 0.5:
        steps.append(("u", union(1)))
    fin = rng.choice([lm.LogisticRegression(), lm.RidgeClassifier(), lm.SGDClassifier(random_state=0), None])
    if fin is not None:
        steps.append(("f", fin))
    if not steps:
        steps = [("u", union(1))]
    est = Pipeline(steps) if len(steps) > 1 or rng.random() < 0.8 else steps[0][1]
    return fit(est, np().array(X), np().array(y)), T


def rows_of(est, T):
    """The rows as the original takes them."""
    if T and isinstance(T[0], (str, dict)):
        return T
    name = type(est).__name__
    if name in ("OneHotEncoder", "OrdinalEncoder"):
        return np().array(T, dtype=object if isinstance(T[0][0], str) else None)
    return np().array(T, dtype=float)


SPARSE_OK = {"LogisticRegression", "RidgeClassifier", "SGDClassifier", "Perceptron", "PassiveAggressiveClassifier", "LinearSVC",
             "DecisionTreeClassifier", "DecisionTreeRegressor", "ExtraTreeClassifier", "ExtraTreeRegressor", "RandomForestClassifier",
             "ExtraTreesClassifier", "MaxAbsScaler", "Normalizer", "TfidfTransformer"}
MODELS = {"linear": linear, "tree": tree, "forest": forest, "boosting": boosting, "xgb": xgb, "bayes": bayes, "scaler": scaler, "encoder": encoder,
          "imputer": imputer, "vectorizer": vectorizer, "dictvec": dictvec, "dummy": dummy, "pipeline": pipeline}
METHODS = ["predict", "predict_proba", "predict_log_proba", "decision_function", "transform"]


def compare(est, T, rng, tol=1e-6, methods=METHODS, allow_sparse=True):
    """The converted estimator against the original, method by method."""
    p = pure(est)
    R = rows_of(est, T)
    inputs = [("dense", T)]
    name = type(est).__name__
    if name == "TfidfTransformer":
        inputs = []
    if allow_sparse and name in SPARSE_OK:
        inputs += [("sparse", sparse(T))]
        if not getattr(est, "sublinear_tf", False):  # the original takes the logarithm of a stored zero
            inputs += [("sparse with stored zeros", stored(rng, T))]
    for m in methods:
        if not hasattr(est, m):
            if hasattr(p, m) and m in ("predict_proba",):
                k, v = call(getattr(p, m), T)
                if k == "ok":
                    return "%s.%s answers, the original has no such method" % (name, m)
            continue
        if not hasattr(p, m):
            if name in ("ComplementNB",) or m in ("decision_function", "predict_log_proba"):
                continue
            return "%s.%s is missing" % (name, m)
        ko, o = call(getattr(est, m), R)
        for how, A in inputs:
            kp, v = call(getattr(p, m), copy.deepcopy(A))
            if ko != kp:
                return "%s.%s on %s: %s, original %s\n  input %r\n  %r" % (name, m, how, (kp, v), (ko, o), A, est)
            if ko == "raise":
                continue
            v = dense(v)
            if not isinstance(v, list):
                return "%s.%s returns %s" % (name, m, type(v))
            o2 = orig(o)
            if m == "predict" and hasattr(est, "classes_"):
                s = None
                for sm in ("decision_function", "predict_proba"):
                    k_, s = call(getattr, est, sm)
                    k_, s = call(s, R) if k_ == "ok" else (k_, None)
                    s = orig(s) if k_ == "ok" else None
                    if s is not None:
                        break
                r = check_labels(v, o2, s, list(est.classes_.tolist())) if s is not None else diff(v, o2)
            else:
                r = diff(v, o2, tol)
            if r:
                return "%s.%s on %s: %s\n  input %r\n  %r" % (name, m, how, r, A, est)
    return None
