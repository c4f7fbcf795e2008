"""Fitted estimators of every supported class."""
from contracts import c01_linear, c03_trees, c04_forests, c05_boosting, c06_xgboost, c07_bayes, c08_scaling, c10_impute, c11_features, c12_text, c22_dummy
from contracts._lib import version


def linear(S):
    name = S.choice("cls", c01_linear.NAMES)
    kw = dict(multi_class="ovr", solver="lbfgs") if name == "LogisticRegression" else dict(loss="log") if name == "SGDClassifier" else {}
    return c01_linear.model(S, name, **kw)[0]


def tree(S):
    return c03_trees.classifier(S)[0]


def regressor(S):
    return S.stub(S.choice("cls", c03_trees.REG), tree_=S.tree("tree", S.dim("d"), 1), __getstate__=version(S))


def forest(S):
    return c04_forests.forest(S)[0]


def bagging(S):
    return c04_forests.bagging(S)[0]


def boosting(S):
    return c05_boosting.boosted(S)[0]


def xgb(S):
    return c06_xgboost.model(S, S.choice("multi", [False, True]), nan=False)[0]


def bayes(S):
    return c07_bayes.bayes(S)[0]


def dummy(S):
    return c22_dummy.dummy(S)[0]


def scaler(S):
    name = S.choice("cls", ["StandardScaler", "MinMaxScaler", "MaxAbsScaler", "Normalizer"])
    if name == "StandardScaler":
        return c08_scaling.scaler(S)[0]
    return {"MinMaxScaler": c08_scaling.MinMax, "MaxAbsScaler": c08_scaling.MaxAbs, "Normalizer": c08_scaling.Normalize}[name].build(S)[0]


def encoder(S):
    name = S.choice("cls", ["OrdinalEncoder", "OneHotEncoder"])
    cats = S.each("cats", S.dim("d"), lambda S: S.ndarray("cat", S.dim("m"), "obj", tag="cat", distinct=True))
    dtype = S.dtype(S.choice("dtype", ["float64", "float", "int", "int64"]))
    kw = {} if name == "OrdinalEncoder" else dict(drop=None, handle_unknown="error", sparse=True)
    return S.stub(name, categories_=cats, dtype=dtype, __getstate__=version(S), **kw)


def imputer(S):
    d = S.dim("d")
    marker = S.choice("marker", ["nan", "number"])
    marker = float("nan") if marker == "nan" else S.float("marker value")
    kw = dict(add_indicator=False, indicator_=None)
    if S.choice("indicator", [False, True]):
        kw = dict(add_indicator=True, indicator_=indicator(S))
    return S.stub("SimpleImputer", missing_values=marker, strategy="mean", fill_value=None, verbose=0, copy=True, statistics_=S.ndarray("statistics", d, "nanfloat"),
                  __getstate__=version(S), **kw)


def indicator(S):
    return c10_impute.indicator(S, S.dim("width"), float("nan"), "missing-only", True)[1]


def records(S):
    names = S.list("names", S.dim("V"), "obj", tag="str", distinct=True)
    return S.stub("DictVectorizer", vocabulary_=S.make(c11_features.positions, names), feature_names_=names, sparse=True,
                  dtype=S.dtype(S.choice("dtype", ["float64", "float", "int"])), separator="=", __getstate__=version(S))


def counts(S):
    names = S.list("names", S.dim("V"), "obj", tag="str", distinct=True)
    return S.stub("CountVectorizer", vocabulary_=S.make(c12_text.positions, names), dtype=S.dtype("int64"), __getstate__=version(S), **c12_text.COUNT)


def weights(S):
    d = S.dim("words")
    return S.stub("TfidfTransformer", norm="l2", use_idf=True, smooth_idf=True, sublinear_tf=False, idf_=S.ndarray("idf", d), _idf_diag=S.stub("diags", shape=(d, d)),
                  __getstate__=version(S))


def documents(S):
    names = S.list("names", S.dim("V"), "obj", tag="str", distinct=True)
    return S.stub("TfidfVectorizer", vocabulary_=S.make(c12_text.positions, names), dtype=S.dtype("float64"), _tfidf=weights(S), __getstate__=version(S), **c12_text.COUNT)


def hashing(S):
    return S.stub("HashingVectorizer", dtype=S.dtype("float64"), norm="l2", n_features=S.dim("width"), alternate_sign=True, __getstate__=version(S), **c12_text.COUNT)


def steps(S):
    return S.pylist([S.pylist([S.obj("first", tag="str"), scaler_step(S)], "tuple"), S.pylist([S.obj("last", tag="str"), bayes(S)], "tuple")])


def scaler_step(S, more=""):
    d = S.dim("columns" + more)
    return S.stub("MinMaxScaler", feature_range=(0, 1), scale_=S.ndarray("scale" + more, d), min_=S.ndarray("min" + more, d), copy=True,
                  __getstate__=version(S))


def pipeline(S):
    return S.stub("Pipeline", steps=steps(S), __getstate__=version(S))


def union(S):
    first = S.obj("first", tag="str")
    return S.stub("FeatureUnion", transformer_list=S.pylist([S.pylist([first, scaler_step(S)], "tuple")]),
                  transformer_weights=S.choice("weighted", [None, True]) and S.make(weighted, first, S.float("weight")), __getstate__=version(S))


def weighted(name, weight):
    return {name: weight}


FAMILIES = {f.__name__: f for f in [linear, tree, regressor, forest, bagging, boosting, xgb, bayes, dummy, scaler, encoder, imputer, indicator, records,
                                    counts, weights, documents, hashing, pipeline, union]}


class First:
    """The world, with only the first of each choice but these."""

    def __init__(self, S, *but):
        self.S, self.but = S, but

    def choice(self, name, options):
        return self.S.choice(name, options) if name in self.but else options[0]

    def either(self, name, n, d):
        return self.S.rows(name, n, d)

    def __getattr__(self, name):
        return getattr(self.S, name)
