"""C17: calls change nothing; a batch gets what its rows get alone."""
from pyvc.api import contract
from contracts import c01_linear, c03_trees, c04_forests, c05_boosting, c06_xgboost, c07_bayes, c08_scaling, c09_encoders, c10_impute, c11_features, c12_text, c20_fasttext, c22_dummy
from contracts._lib import version

UTILS = ["pure_sklearn.utils"]
PROBA = ["predict", "predict_proba", "predict_log_proba"]


def on(model, method, X):
    return getattr(model, method)(X)


def batch(est, method, X):
    """Two calls on the whole batch, and the model they leave."""
    from pure_sklearn.map import convert_estimator

    model = convert_estimator(est)
    first = on(model, method, X)
    again = on(model, method, X)
    return first, again, model


def table(X, x):
    """The row x of X as a table of its own."""
    from pure_sklearn.utils import sparse_list

    return sparse_list([x], size=X.size, dtype=X.dtype) if isinstance(x, dict) else [x]


def alone(est, method, X):
    """What the rows get one by one, and the model no one has called."""
    from pure_sklearn.map import convert_estimator

    model = convert_estimator(est)
    rows = [on(model, method, table(X, x))[0] for x in X]
    return rows, rows, convert_estimator(est)


def alone_rows(est, method, X):
    """The same where the result can be a sparse matrix."""
    from pure_sklearn.map import convert_estimator
    from pure_sklearn.utils import issparse, sparse_list

    model = convert_estimator(est)
    outs = [on(model, method, table(X, x)) for x in X]
    rows = [out[0] for out in outs]
    if issparse(outs[0]):
        rows = sparse_list(rows, size=outs[0].size, dtype=outs[0].dtype)
    return rows, rows, convert_estimator(est)


def linear(S):
    name = S.choice("cls", c01_linear.NAMES)
    multi = S.choice("multi_class", ["ovr", "multinomial"]) if name == "LogisticRegression" else "ovr"
    est, X, d = c01_linear.model(S, name, multi_class=multi, solver="lbfgs", loss="log")
    proba = PROBA if name in ("LogisticRegression", "SGDClassifier") else ["predict"]
    return est, S.choice("method", ["decision_function"] + proba), X


@contract("C17", "linear models", covers=UTILS)
class Linear:
    build = linear
    code = batch
    spec = alone


def tree(S):
    est, X = c03_trees.classifier(S)
    return est, S.choice("method", PROBA), X


@contract("C17", "decision trees", covers=UTILS)
class Tree:
    build = tree
    code = batch
    spec = alone


def regressor(S):
    n, d = S.dim("n"), S.dim("d")
    est = S.stub(S.choice("cls", ["DecisionTreeRegressor", "ExtraTreeRegressor"]), tree_=S.tree("tree", d, 1), n_features_=d, __getstate__=version(S))
    return est, "predict", S.either("X", n, d)


@contract("C17", "regression trees", covers=UTILS)
class Regressor:
    build = regressor
    code = batch
    spec = alone


def forest(S):
    est, X, K = c04_forests.forest(S)
    return est, S.choice("method", PROBA), X


@contract("C17", "forests", covers=UTILS)
class Forest:
    build = forest
    code = batch
    spec = alone


def bagging(S):
    est, X, K = c04_forests.bagging(S)
    return est, S.choice("method", PROBA), X


@contract("C17", "bagging", covers=UTILS)
class Bagging:
    build = bagging
    code = batch
    spec = alone


def boosting(S):
    est, X = c05_boosting.boosted(S)
    return est, S.choice("method", PROBA), X


@contract("C17", "boosting", covers=UTILS)
class Boosting:
    build = boosting
    code = batch
    spec = alone


def xgb(S):
    out = c06_xgboost.model(S, S.choice("multi", [False, True]))
    return out[0], S.choice("method", ["predict", "predict_proba"]), out[1]


@contract("C17", "xgboost", covers=UTILS)
class Xgb:
    build = xgb
    code = batch
    spec = alone


def bayes(S):
    est, X = c07_bayes.bayes(S)
    return est, S.choice("method", PROBA), X


@contract("C17", "naive Bayes", covers=UTILS)
class Bayes:
    build = bayes
    code = batch
    spec = alone


def dummy(S):
    est, X = c22_dummy.dummy(S)
    return est, S.choice("method", PROBA), X


@contract("C17", "dummy classifier", covers=UTILS)
class Dummy:
    build = dummy
    code = batch
    spec = alone


def scaler(S):
    name = S.choice("cls", ["StandardScaler", "MinMaxScaler", "MaxAbsScaler", "Normalizer"])
    if name == "StandardScaler":
        est, X, d = c08_scaling.scaler(S)
    else:
        build = {"MinMaxScaler": c08_scaling.MinMax, "MaxAbsScaler": c08_scaling.MaxAbs, "Normalizer": c08_scaling.Normalize}[name].build
        est, X, d = build(S)
    return est, "transform", X


@contract("C17", "scalers", covers=UTILS, any_exception=True)
class Scaler:
    build = scaler
    code = batch
    spec = alone_rows


def encoder(S):
    est, X, d = c09_encoders.encoder(S, S.choice("cls", ["OrdinalEncoder", "OneHotEncoder"]), S.choice("unknown", ["error", "ignore"]))
    return est, "transform", X


@contract("C17", "encoders", covers=UTILS, any_exception=True)
class Encoder:
    build = encoder
    code = batch
    spec = alone_rows


def imputer(S):
    name = S.choice("cls", ["SimpleImputer", "MissingIndicator"])
    out = c10_impute.Impute.build(S) if name == "SimpleImputer" else c10_impute.Indicator.build(S)
    return out[0], "transform", out[1]


@contract("C17", "imputers", covers=UTILS, any_exception=True)
class Imputer:
    build = imputer
    code = batch
    spec = alone


@contract("C17", "records", covers=UTILS)
class Records:
    def build(S):
        est, X = c11_features.vectorizer(S, S.choice("strings", [False, True]))
        return est, "transform", X

    code = batch

    def spec(est, method, X):
        from pure_sklearn.map import convert_estimator
        from pure_sklearn.utils import issparse, sparse_list

        model = convert_estimator(est)
        outs = [on(model, method, [x]) for x in X]
        rows = [out[0] for out in outs]
        if issparse(outs[0]):
            rows = sparse_list(rows, size=outs[0].size, dtype=outs[0].dtype)
        return rows, rows, convert_estimator(est)


def documents_twice(est, X):
    from pure_sklearn.map import convert_estimator

    model = convert_estimator(est)
    return model.transform(X).todense(), model.transform(X).todense(), model


def documents_alone(est, X):
    from pure_sklearn.map import convert_estimator

    model = convert_estimator(est)
    rows = [model.transform([x]).todense()[0] for x in X]
    return rows, rows, convert_estimator(est)


@contract("C17", "documents", covers=UTILS)
class Documents:
    def build(S):
        est, names, X = c12_text.text_model(S, token_pattern=c12_text.PATTERNS[0], binary=S.choice("binary", [False, True]))
        return est, X

    code = documents_twice
    spec = documents_alone


@contract("C17", "tf-idf weighting", covers=UTILS)
class Weights:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        idf = S.choice("idf", [True, False])
        est = S.stub("TfidfTransformer", norm=S.choice("norm", ["l1", "l2", None]), use_idf=idf, smooth_idf=True, sublinear_tf=False,
                     __getstate__=version(S), **({"idf_": S.ndarray("weights", d), "_idf_diag": S.stub("diags", shape=(d, d))} if idf else {}))
        return est, "transform", S.sparse("X", n, d)

    code = batch
    spec = alone_rows


@contract("C17", "weighted documents", covers=UTILS)
class WeightedDocuments:
    def build(S):
        est, names, X = c12_text.Weighted.build(S)
        return est, X

    code = documents_twice
    spec = documents_alone


@contract("C17", "hashed documents", covers=UTILS, given=c12_text.GIVEN)
class HashedDocuments:
    build = c12_text.Hashing.build
    code = documents_twice
    spec = documents_alone


class AnyRows:
    """The counterpart of an arbitrary transformer that treats every row on its own: what it
    makes of a row depends on the row's first entry. It may hand its input through."""

    __module__ = "pure_sklearn.any"  # counts as one of the library

    def __init__(self, est):
        self.table = est.table
        self.width = est.width
        self.kind = est.kind

    def transform(self, X):
        from pure_sklearn.utils import sparse_list

        if self.kind == "same":
            return X
        if self.kind == "rows":
            return [x for x in X]
        if self.kind == "sparse":
            return sparse_list([{j: self.table[x[0]][j] for j in range(self.width) if self.table[x[0]][j] != 0} for x in X],
                               size=self.width, dtype=float)
        return [[self.table[x[0]][j] for j in range(self.width)] for x in X]


def register():
    from pure_sklearn.map import MAPPING

    MAPPING["AnyRowwise"] = "contracts.c17_rows.AnyRows"


def rowwise(S, name, m, kinds):
    w = S.dim("width " + name)
    return S.stub("AnyRowwise", width=w, kind=S.choice("kind " + name, kinds), table=S.list("table " + name, (m, w)))


def registered(est, method, X):
    register()
    return batch(est, method, X)


def registered_alone(est, method, X):
    register()
    return alone_rows(est, method, X)


@contract("C17", "unions", covers=UTILS)
class Unions:
    def build(S):
        n, m = S.dim("n"), S.dim("m")
        parts = S.pylist([S.pylist([name, rowwise(S, name, m, ["new", "sparse", "same", "rows"])], "tuple") for name in ["a", "b"]])
        weights = S.choice("weighted", [False, True])
        est = S.stub("FeatureUnion", transformer_list=parts, transformer_weights=S.dict({"a": S.float("weight")}) if weights else None, __getstate__=version(S))
        return est, "transform", S.list("X", (n, 1), "int", bound=(0, m))

    code = registered
    spec = registered_alone


@contract("C17", "pipelines", covers=UTILS)
class Pipelines:
    def build(S):
        n, m = S.dim("n"), S.dim("m")
        first = S.stub("AnyRowwise", width=1, kind=S.choice("kind first", ["same", "rows", "new"]), table=S.list("codes", (m, 1), "int", bound=(0, m)))
        last = rowwise(S, "last", m, ["new", "sparse", "same"])
        est = S.stub("Pipeline", steps=S.pylist([S.pylist(["a", first], "tuple"), S.pylist(["b", last], "tuple")]), __getstate__=version(S))
        return est, "transform", S.list("X", (n, 1), "int", bound=(0, m))

    code = registered
    spec = registered_alone


def all_of(X, k, threshold, p, sentences):
    return [p.get_sentence_vector(x) for x in X] if sentences else p.predict(X, k, threshold)


@contract("C17", "texts", covers=["pure_fasttext.FastText"])
class Texts:
    def build(S):
        sentences = S.choice("sentences", [True, False])
        m = c20_fasttext.model(S, not sentences or S.choice("supervised", [True, False]))[0]
        return m, S.each("X", S.dim("n", 0), lambda S: c20_fasttext.text(S)), S.int("k", -3), S.float("threshold", "unit"), sentences

    def code(m, X, k, threshold, sentences):
        from pure_fasttext import FastText

        p = FastText(m)
        first = all_of(X, k, threshold, p, sentences)
        return first, all_of(X, k, threshold, p, sentences), p

    def spec(m, X, k, threshold, sentences):
        from pure_fasttext import FastText

        p = FastText(m)
        if sentences:
            out = [p.get_sentence_vector(x) for x in X]
        else:
            pairs = [p.predict(x, k, threshold) for x in X]
            out = [a for a, b in pairs], [b for a, b in pairs]
        return out, out, FastText(m)
