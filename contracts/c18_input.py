"""C18: only non-empty lists of rows (and sparse rows, where supported) are input."""
from pyvc.api import contract
from contracts import c01_linear, c03_trees, c04_forests, c05_boosting, c06_xgboost, c07_bayes, c08_scaling, c09_encoders, c10_impute
from contracts._lib import version

UTILS = ["pure_sklearn.utils"]
PROBA = ("predict", "predict_proba", "predict_log_proba")


def bad(S, d, sparse_refused=False):
    """What is no non-empty list: any contents, of every kind of value."""
    kinds = ["array", "tuple", "text", "bytes", "dict", "number", "integer", "flag", "none", "no rows", "iterator of nothing", "object", "type"]
    kind = S.choice("input", kinds + (["sparse"] if sparse_refused else []))
    n = S.dim("rows")
    if kind == "array":
        return S.ndarray("A", (n, d))
    if kind == "tuple":
        return S.list("A", (n, d), kind="tuple") if S.choice("inner", [False, True]) else S.make(as_tuple, S.rows("A", n, d))
    if kind == "text":
        return S.obj("A", tag="str")
    if kind == "bytes":
        return b"ab"
    if kind == "dict":
        return S.make(numbered, S.rows("A", n, d))
    if kind == "number":
        return S.float("A")
    if kind == "integer":
        return S.int("A")
    if kind == "flag":
        return S.bool("A")
    if kind == "none":
        return None
    if kind == "no rows":
        return S.pylist([])
    if kind == "iterator of nothing":
        return S.pylist([], "tuple")
    if kind == "object":
        return S.stub("DataFrame", "pandas", values=S.ndarray("A", (n, d)))
    if kind == "type":
        return S.dtype("float")
    return S.sparse("A", n, d)


def as_tuple(rows):
    return tuple(rows)


def numbered(rows):
    return {i: rows[i] for i in range(len(rows))}


def answers(est, methods, A):
    from pure_sklearn.map import convert_estimator

    model = convert_estimator(est)
    out = []
    for m in methods:
        f = getattr(model, m)
        try:
            f(A)
            out.append("accepted")
        except Exception:
            out.append("refused")
    return out


@contract("C18", "check_array", covers=UTILS, any_exception=True)
class Check:
    def build(S):
        d = S.dim("d")
        if S.choice("good", [True, False]):
            return S.either("X", S.dim("n"), d), S.choice("sparse rows", ["allow", "error", "other"])
        return bad(S, d), S.choice("sparse rows", ["allow", "error", "other"])

    def code(A, handle):
        from pure_sklearn.utils import check_array

        return check_array(A, handle)

    def spec(A, handle):
        from pure_sklearn.utils import issparse

        if not isinstance(A, list) or len(A) == 0 or issparse(A) and handle != "allow":
            raise ValueError
        return A


def refused(est, methods, A):
    return ["refused" for m in methods]


def linear(S):
    name = S.choice("cls", c01_linear.NAMES)
    est, X, d = c01_linear.model(S, name, multi_class="ovr", solver="lbfgs", loss="log")
    proba = PROBA if name in ("LogisticRegression", "SGDClassifier") else ("predict",)
    return est, ("decision_function",) + proba, bad(S, d)


@contract("C18", "linear models refuse it", covers=UTILS)
class LinearRefuses:
    build = linear
    code = answers
    spec = refused


def linear_width(S):
    est, X, d = c01_linear.model(S, S.choice("cls", c01_linear.NAMES), multi_class="ovr", solver="lbfgs", loss="log")
    e = S.dim("e")
    S.assume(c10_impute.differ, d, e)
    return est, ("decision_function", "predict"), S.either("A", S.dim("rows"), e)


@contract("C18", "linear models refuse another width", covers=UTILS)
class LinearWidthRefuses:
    build = linear_width
    code = answers
    spec = refused


def other_width(est, e):
    return est.n_features_ != e


def other_columns(est, e):
    return len(est.statistics_) != e


def other_features(est, e):
    return est._n_features != e


def boosting_width(S):
    est, X = c05_boosting.boosted(S)
    e = S.dim("e")
    S.assume(other_width, est, e)
    return est, PROBA, S.rows("A", S.dim("rows"), e)


@contract("C18", "boosting refuses another width", covers=UTILS)
class BoostingWidthRefuses:
    build = boosting_width
    code = answers
    spec = refused


def encoder_width(S):
    est, X, d = c09_encoders.encoder(S, S.choice("cls", ["OrdinalEncoder", "OneHotEncoder"]), S.choice("unknown", ["error", "ignore"]))
    e = S.dim("e")
    S.assume(c10_impute.differ, d, e)
    return est, ("transform",), S.list("A", (S.dim("rows"), e), "obj", tag="cat")


@contract("C18", "encoders refuse another width", covers=UTILS)
class EncoderWidthRefuses:
    build = encoder_width
    code = answers
    spec = refused


def imputer_width(S):
    name = S.choice("cls", ["SimpleImputer", "MissingIndicator"])
    build = c10_impute.Impute.build if name == "SimpleImputer" else c10_impute.Indicator.build
    est, e = build(S)[0], S.dim("e")
    S.assume(other_columns if name == "SimpleImputer" else other_features, est, e)
    return est, ("transform",), S.list("A", (S.dim("rows"), e), "nanfloat")


@contract("C18", "imputers refuse another width", covers=UTILS)
class ImputerWidthRefuses:
    build = imputer_width
    code = answers
    spec = refused


def weights_width(S):
    d, e = S.dim("d"), S.dim("e")
    S.assume(c10_impute.differ, d, e)
    est = S.stub("TfidfTransformer", norm="l2", use_idf=True, smooth_idf=True, sublinear_tf=S.choice("sublinear", [True, False]),
                 idf_=S.ndarray("weights", d), _idf_diag=S.stub("diags", shape=(d, d)), __getstate__=version(S))
    return est, ("transform",), S.sparse("A", S.dim("rows"), e)


@contract("C18", "tf-idf weighting refuses another width", covers=UTILS)
class WeightsWidthRefuses:
    build = weights_width
    code = answers
    spec = refused


def tree(S):
    est, X = c03_trees.classifier(S)
    return est, PROBA, bad(S, S.dim("w"))


@contract("C18", "decision trees refuse it", covers=UTILS)
class TreeRefuses:
    build = tree
    code = answers
    spec = refused


def regressor(S):
    d = S.dim("d")
    est = S.stub(S.choice("cls", ["DecisionTreeRegressor", "ExtraTreeRegressor"]), tree_=S.tree("tree", d, 1), n_features_=d, __getstate__=version(S))
    return est, ("predict",), bad(S, d)


@contract("C18", "regression trees refuse it", covers=UTILS)
class RegressorRefuses:
    build = regressor
    code = answers
    spec = refused


def forest(S):
    est, X, K = c04_forests.forest(S)
    return est, PROBA, bad(S, S.dim("w"))


@contract("C18", "forests refuse it", covers=UTILS)
class ForestRefuses:
    build = forest
    code = answers
    spec = refused


def bagging(S):
    est, X, K = c04_forests.bagging(S)
    return est, PROBA, bad(S, S.dim("w"))


@contract("C18", "bagging refuses it", covers=UTILS)
class BaggingRefuses:
    build = bagging
    code = answers
    spec = refused


def boosting(S):
    est, X = c05_boosting.boosted(S)
    return est, PROBA, bad(S, S.dim("w"), True)


@contract("C18", "boosting refuses it", covers=UTILS)
class BoostingRefuses:
    build = boosting
    code = answers
    spec = refused


def xgb(S):
    est = c06_xgboost.model(S, S.choice("multi", [False, True]), nan=False)[0]
    return est, ("predict", "predict_proba"), bad(S, S.dim("w"), True)


@contract("C18", "xgboost refuses it", covers=UTILS)
class XgbRefuses:
    build = xgb
    code = answers
    spec = refused


def bayes(S):
    est, X = c07_bayes.bayes(S)
    return est, PROBA, bad(S, S.dim("w"), True)


@contract("C18", "naive Bayes refuses it", covers=UTILS)
class BayesRefuses:
    build = bayes
    code = answers
    spec = refused


def scaler(S):
    name = S.choice("cls", ["StandardScaler", "MinMaxScaler", "MaxAbsScaler", "Normalizer"])
    if name == "StandardScaler":
        est, X, d = c08_scaling.scaler(S)
    else:
        build = {"MinMaxScaler": c08_scaling.MinMax, "MaxAbsScaler": c08_scaling.MaxAbs, "Normalizer": c08_scaling.Normalize}[name].build
        est, X, d = build(S)
    return est, ("transform",), bad(S, d, name == "MinMaxScaler")


@contract("C18", "scalers refuse it", covers=UTILS)
class ScalerRefuses:
    build = scaler
    code = answers
    spec = refused


def encoder(S):
    est, X, d = c09_encoders.encoder(S, S.choice("cls", ["OrdinalEncoder", "OneHotEncoder"]), S.choice("unknown", ["error", "ignore"]))
    return est, ("transform",), bad(S, d, True)


@contract("C18", "encoders refuse it", covers=UTILS)
class EncoderRefuses:
    build = encoder
    code = answers
    spec = refused


def imputer(S):
    name = S.choice("cls", ["SimpleImputer", "MissingIndicator"])
    est = c10_impute.Impute.build(S)[0] if name == "SimpleImputer" else c10_impute.Indicator.build(S)[0]
    return est, ("transform",), bad(S, S.dim("w"), True)


@contract("C18", "imputers refuse it", covers=UTILS)
class ImputerRefuses:
    build = imputer
    code = answers
    spec = refused


def weights(S):
    d = S.dim("d")
    idf = S.choice("idf", [True, False])
    est = S.stub("TfidfTransformer", norm="l2", use_idf=idf, smooth_idf=True, sublinear_tf=S.choice("sublinear", [True, False]),
                 __getstate__=version(S), **({"idf_": S.ndarray("weights", d), "_idf_diag": S.stub("diags", shape=(d, d))} if idf else {}))
    return est, ("transform",), bad(S, d)


@contract("C18", "tf-idf weighting refuses it", covers=UTILS)
class WeightsRefuses:
    build = weights
    code = answers
    spec = refused
