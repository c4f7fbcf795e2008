"""Converted models against the originals, on random fitted models (bounded)."""
from pyvc.api import runtime
from runtime import _zoo as z


@runtime("C01", "linear models against scikit-learn")
def c01(rng):
    est, T = z.linear(rng)
    r = z.compare(est, T, rng, methods=["decision_function", "predict"])
    if r:
        return r
    p = z.pure(est)
    for A in ([t + [1.0] for t in T], z.sparse([t + [1.0] for t in T])) + (([t[:-1] for t in T],) if len(T[0]) > 1 else ()):
        k, v = z.call(p.predict, A)
        if k == "ok" or not v.startswith("ValueError"):
            return "a matrix of another width: %r\n  %r %r" % ((k, v), A, est)


@runtime("C02", "linear probabilities against scikit-learn")
def c02(rng):
    est, T = z.linear(rng)
    return z.compare(est, T, rng, methods=["predict_proba", "predict_log_proba"])


@runtime("C03", "trees against scikit-learn")
def c03(rng):
    est, T = z.tree(rng)
    return z.compare(est, T, rng, methods=["predict", "predict_proba", "predict_log_proba"])


@runtime("C04", "forests and bagging against scikit-learn")
def c04(rng):
    est, T = z.forest(rng)
    return z.compare(est, T, rng, methods=["predict", "predict_proba", "predict_log_proba"])


@runtime("C05", "gradient boosting against scikit-learn")
def c05(rng):
    est, T = z.boosting(rng)
    return z.compare(est, T, rng, methods=["predict", "predict_proba"])


@runtime("C06", "xgboost models against xgboost")
def c06(rng):
    est, T = z.xgb(rng)
    p = z.pure(est)
    want = est.predict_proba(z.np().array(T, dtype=float)).tolist()
    got = p.predict_proba(T)
    r = z.diff(got, want, 2e-5)
    if r:
        return "predict_proba: %s\n  input %r" % (r, T)
    r = z.check_labels(p.predict(T), est.predict(z.np().array(T, dtype=float)).tolist(), want, est.classes_.tolist(), 1e-4)
    if r:
        return "predict: %s\n  input %r" % (r, T)


@runtime("C07", "naive Bayes against scikit-learn")
def c07(rng):
    est, T = z.bayes(rng)
    if len(est.classes_) == 1 and type(est).__name__ != "GaussianNB":
        p = z.pure(est)
        if p.predict(T) != [est.classes_.tolist()[0]] * len(T):
            return "single class: %r" % (p.predict(T),)
        return z.diff(p.predict_proba(T), [[1.0]] * len(T)) or z.diff(p.predict_log_proba(T), [[0.0]] * len(T))
    return z.compare(est, T, rng, methods=["predict", "predict_proba", "predict_log_proba"])


@runtime("C08", "scalers and normaliser against scikit-learn")
def c08(rng):
    est, T = z.scaler(rng)
    r = z.compare(est, T, rng, methods=["transform"])
    if r:
        return r
    if type(est).__name__ == "StandardScaler":
        p = z.pure(est)
        k, v = z.call(p.transform, z.sparse(T))
        if est.with_mean:
            if k == "ok":
                return "sparse input was centred: %r" % (v,)
        elif k != "ok":
            return "sparse input: %r" % (v,)
        else:
            r = z.diff(z.dense(v), z.orig(est.transform(z.np().array(T))))
            if r:
                return "StandardScaler on sparse: %s\n  %r\n  %r" % (r, T, est)


@runtime("C09", "encoders against scikit-learn")
def c09(rng):
    est, T = z.encoder(rng)
    return z.compare(est, T, rng, methods=["transform"])


@runtime("C10", "imputers against scikit-learn")
def c10(rng):
    est, T = z.imputer(rng)
    return z.compare(est, T, rng, methods=["transform"])


@runtime("C11", "dict vectoriser against scikit-learn")
def c11(rng):
    est, T = z.dictvec(rng)
    return z.compare(est, T, rng, methods=["transform"])


@runtime("C11", "feature hashing against scikit-learn")
def c11b(rng):
    from pure_sklearn.feature_extraction._hash import _FeatureHasherPure, _hash
    from sklearn.feature_extraction import FeatureHasher
    from sklearn.utils import murmurhash3_32

    s = "".join(chr(rng.choice([rng.randrange(32, 127), rng.randrange(0, 0x2FF), rng.randrange(0x10000, 0x10FFF)])) for _ in range(rng.randrange(0, 20)))
    for seed in (0, rng.randrange(2 ** 31)):
        if _hash(s, seed) != murmurhash3_32(s, seed):
            return "hash of %r seed %d: %d, original %d" % (s, seed, _hash(s, seed), murmurhash3_32(s, seed))
    n = rng.choice([1, 2, 3, 10, 1000])
    alt = rng.random() < 0.5
    if rng.random() < 0.5:
        X = [[rng.choice(z.WORDS) for _ in range(rng.randrange(0, 9))] for _ in range(3)]
        kind = "string"
    else:
        kind = "pair"
        X = [[(rng.choice(z.WORDS), rng.choice([1, 2.5, -1, 0, "v", "w"])) for _ in range(rng.randrange(0, 9))] for _ in range(3)]
    a = _FeatureHasherPure(n, kind, float, alt).transform(X)
    b = FeatureHasher(n, input_type=kind, alternate_sign=alt).transform(X)
    if any(not (0 <= k < n) for r in a for k in r):
        return "a column outside the width %d: %r" % (n, a)
    r = z.diff(a.todense(), b.toarray().tolist())
    return r and "%s\n  input %r, n %d, %s" % (r, X, n, kind)


@runtime("C12", "text vectorisers against scikit-learn", trials=200)
def c12(rng):
    est, T = z.vectorizer(rng)
    return z.compare(est, T, rng, methods=["transform"])


@runtime("C12", "the English stop list is refused")
def c12b(rng):
    from sklearn.feature_extraction import text as t

    cls = rng.choice([t.CountVectorizer, t.TfidfVectorizer, t.HashingVectorizer])
    est = cls(stop_words="english").fit(["a cat sat", "on the mat"])

    def run():
        return z.pure(est).transform(["a cat"])

    k, v = z.call(run)
    return "english stop list: %r" % (v,) if k == "ok" else None


@runtime("C13", "pipelines and unions against scikit-learn")
def c13(rng):
    est, T = z.pipeline(rng)
    return z.compare(est, T, rng)


@runtime("C19", "pairwise functions against scikit-learn")
def c19(rng):
    from pure_sklearn.metrics import pairwise as pw
    from sklearn.metrics import pairwise as o

    d = rng.choice([1, 2, 5])
    X, _ = z.matrix(rng, rng.choice([1, 2, 4]), d, rng.choice(["dyadic", "sparse", "normal"]))
    Y, _ = z.matrix(rng, rng.choice([1, 2, 3]), d, rng.choice(["dyadic", "sparse", "normal"]))
    if rng.random() < 0.3:
        X[0] = [0.0] * d
    if rng.random() < 0.3:
        Y[-1] = [0.0] * d
    name = rng.choice(["cosine_similarity", "cosine_distances", "linear_kernel"])
    f, g = getattr(pw, name + "_pure"), getattr(o, name)
    A = rng.choice([X, z.sparse(X), z.stored(rng, X)])
    if rng.random() < 0.3 and A is X:
        got, want = f(X), g(X)
    else:
        got, want = f(A, Y), g(X, Y)
    r = z.diff(got, want.tolist())
    return r and "%s: %s\n  %r %r" % (name, r, A, Y)


@runtime("C22", "dummy classifier against scikit-learn")
def c22(rng):
    est, T = z.dummy(rng)
    return z.compare(est, T, rng, methods=["predict", "predict_proba", "predict_log_proba"])
