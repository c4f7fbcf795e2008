"""C10: the simple imputer and the missing indicator."""
from pyvc.api import contract
from contracts._lib import version

COVERS = ["pure_sklearn.impute._base"]


def missing(v, marker):
    from math import isnan

    return isnan(v) if isnan(marker) else v == marker


def flagged(flags, d):
    return [j for j in range(d) if flags[j]]


def some(flags, d):
    return any([flags[j] for j in range(d)])


def marker_and_rows(S, n, d, name="X"):
    """The marker, and a matrix that may hold it."""
    if S.choice("marker", ["nan", "number"]) == "nan":
        return float("nan"), S.rows(name, n, d, elem="nanfloat")
    return S.float("marker value"), S.rows(name, n, d)


def indicator(S, d, marker, features, error_on_new):
    flags = S.list("had missing", d, "bool")
    if features == "all":
        idx = S.make(every, d)
    else:
        idx = S.make(flagged, flags, d)
    return flags, S.stub("MissingIndicator", missing_values=marker, features=features, sparse=False, error_on_new=error_on_new,
                         features_=S.arr(idx), _n_features=d, __getstate__=version(S))


def every(d):
    return [j for j in range(d)]


def masks(X, marker, flags, d, only):
    return [[1.0 if missing(x[j], marker) else 0.0 for j in range(d) if not only or flags[j]] for x in X]


def unexpected(X, marker, flags, d):
    return any([any([missing(x[j], marker) and not flags[j] for j in range(d)]) for x in X])


@contract("C10", "missing indicator", covers=COVERS)
class Indicator:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        features = S.choice("features", ["missing-only", "all"])
        marker, X = marker_and_rows(S, n, d)
        flags, est = indicator(S, d, marker, features, S.choice("error_on_new", [True, False]))
        return est, X, marker, flags, d

    def code(est, X, marker, flags, d):
        from pure_sklearn.map import convert_estimator

        return [[float(v) for v in row] for row in convert_estimator(est).transform(X)]

    def spec(est, X, marker, flags, d):
        only = est.features == "missing-only"
        if only and est.error_on_new and unexpected(X, marker, flags, d):
            raise ValueError("missing values in a feature that had none")
        return masks(X, marker, flags, d, only)


@contract("C10", "indicator widths", covers=COVERS)
class IndicatorWidth:
    def build(S):
        n, d, e = S.dim("n"), S.dim("d"), S.dim("e")
        S.assume(differ, d, e)
        marker, X = marker_and_rows(S, n, e)
        flags, est = indicator(S, d, marker, S.choice("features", ["missing-only", "all"]), True)
        return est, X

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).transform(X)

    def spec(est, X):
        raise ValueError("width")


def differ(a, b):
    return a != b


def fill(X, marker, stats, d, strategy):
    from math import isnan

    return [[stats[j] if missing(x[j], marker) else x[j] for j in range(d) if strategy == "constant" or not isnan(stats[j])] for x in X]


@contract("C10", "imputation", covers=COVERS)
class Impute:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        strategy = S.choice("strategy", ["mean", "median", "most_frequent", "constant"])
        marker, X = marker_and_rows(S, n, d)
        stats = S.list("statistics", d, "nanfloat")
        est = S.stub("SimpleImputer", missing_values=marker, strategy=strategy, fill_value=None, verbose=0, copy=True,
                     add_indicator=False, indicator_=None, statistics_=S.arr(stats), __getstate__=version(S))
        return est, X, marker, stats, d

    def code(est, X, marker, stats, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).transform(X)

    def spec(est, X, marker, stats, d):
        return fill(X, marker, stats, d, est.strategy)


@contract("C10", "imputation with indicators", covers=COVERS)
class ImputeIndicate:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        strategy = S.choice("strategy", ["median", "constant"])
        marker, X = marker_and_rows(S, n, d)
        flags, ind = indicator(S, d, marker, "missing-only", False)
        stats = S.list("statistics", d, "nanfloat")
        est = S.stub("SimpleImputer", missing_values=marker, strategy=strategy, fill_value=None, verbose=0, copy=True,
                     add_indicator=True, indicator_=ind, statistics_=S.arr(stats), __getstate__=version(S))
        return est, X, marker, stats, flags, d

    def code(est, X, marker, stats, flags, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).transform(X)

    def spec(est, X, marker, stats, flags, d):
        a = fill(X, marker, stats, d, est.strategy)
        b = masks(X, marker, flags, d, True)
        return [a[i] + b[i] for i in range(len(X))]


@contract("C10", "imputer widths", covers=COVERS)
class ImputeWidth:
    def build(S):
        n, d, e = S.dim("n"), S.dim("d"), S.dim("e")
        S.assume(differ, d, e)
        marker, X = marker_and_rows(S, n, e)
        stats = S.list("statistics", d, "nanfloat")
        est = S.stub("SimpleImputer", missing_values=marker, strategy=S.choice("strategy", ["mean", "constant"]), fill_value=None, verbose=0,
                     copy=True, add_indicator=False, indicator_=None, statistics_=S.arr(stats), __getstate__=version(S))
        return est, X

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).transform(X)

    def spec(est, X):
        raise ValueError("width")
