"""C08: scalers and row normalisation."""
from pyvc.api import contract
from contracts._lib import version
from contracts.c01_linear import cell

COVERS = ["pure_sklearn.preprocessing._data"]


def dense(X, d):
    return [[cell(x, j) for j in range(d)] for x in X]


def scaler(S):
    n, d = S.dim("n"), S.dim("d")
    X = S.either("X", n, d)
    mean, std = S.choice("with_mean", [True, False]), S.choice("with_std", [True, False])
    est = S.stub("StandardScaler", with_mean=mean, with_std=std, mean_=S.ndarray("mean", d),
                 scale_=S.ndarray("scale", d, where="pos") if std else None, copy=True, __getstate__=version(S))
    return est, X, d


@contract("C08", "standardisation", covers=COVERS)
class Standard:
    build = scaler

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator
        from pure_sklearn.utils import issparse

        out = convert_estimator(est).transform(X)
        return issparse(out), dense(out, d)

    def spec(est, X, d):
        from pure_sklearn.utils import issparse

        if issparse(X) and est.with_mean:
            raise ValueError("centring needs dense data")
        m, s = est.mean_.tolist(), est.scale_.tolist() if est.with_std else [1.0] * d
        return issparse(X), [[(cell(x, j) - (m[j] if est.with_mean else 0.0)) / s[j] for j in range(d)] for x in X]


@contract("C08", "min-max scaling", covers=COVERS)
class MinMax:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        est = S.stub("MinMaxScaler", feature_range=(0, 1), scale_=S.ndarray("scale", d), min_=S.ndarray("min", d), copy=True, __getstate__=version(S))
        return est, S.either("X", n, d), d

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).transform(X)

    def spec(est, X, d):
        from pure_sklearn.utils import issparse

        if issparse(X):
            raise TypeError("dense only")
        s, m = est.scale_.tolist(), est.min_.tolist()
        return [[x[j] * s[j] + m[j] for j in range(d)] for x in X]


@contract("C08", "scaling by the largest absolute value", covers=COVERS)
class MaxAbs:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        est = S.stub("MaxAbsScaler", scale_=S.ndarray("scale", d, where="pos"), max_abs_=S.ndarray("max", d, where="nonneg"), copy=True, __getstate__=version(S))
        return est, S.either("X", n, d), d

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator
        from pure_sklearn.utils import issparse

        out = convert_estimator(est).transform(X)
        return issparse(out), dense(out, d)

    def spec(est, X, d):
        from pure_sklearn.utils import issparse

        s = est.scale_.tolist()
        return issparse(X), [[cell(x, j) / s[j] for j in range(d)] for x in X]


def norm_of(row, norm):
    from math import sqrt

    if norm == "l1":
        return sum([abs(v) for v in row])
    if norm == "l2":
        return sqrt(sum([v * v for v in row]))
    return max([abs(v) for v in row])


def unit(row, norm):
    z = norm_of(row, norm)
    return [v / z for v in row] if z != 0 else row


@contract("C08", "rows are scaled to unit norm", covers=COVERS)
class Normalize:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        norm = S.choice("norm", ["l1", "l2", "max"])
        est = S.stub("Normalizer", norm=norm, copy=S.choice("copy", [True, False]), __getstate__=version(S))
        return est, S.either("X", n, d), d

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator
        from pure_sklearn.utils import issparse

        out = convert_estimator(est).transform(X)
        return issparse(out), dense(out, d)

    def spec(est, X, d):
        from pure_sklearn.utils import issparse

        return issparse(X), [unit([cell(x, j) for j in range(d)], est.norm) for x in X]


@contract("C08", "columns are scaled to unit norm", covers=COVERS)
class NormalizeColumns:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        return S.rows("X", n, d), S.choice("norm", ["l1", "l2", "max"]), n, d

    def code(X, norm, n, d):
        from pure_sklearn.preprocessing import normalize_pure

        return normalize_pure(X, norm, axis=0)

    def spec(X, norm, n, d):
        z = [norm_of([X[i][j] for i in range(n)], norm) for j in range(d)]
        return [[X[i][j] / (z[j] if z[j] != 0 else 1.0) for j in range(d)] for i in range(n)]


@contract("C08", "unknown norms and sparse columns are refused", covers=COVERS)
class NormalizeRefused:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        norm, axis, sp = S.choice("bad", [("l3", 1, 0), ("l1", 2, 0), ("l2", 0, 1), ("", 0, 0), ("max", 0, 1)])
        return S.sparse("X", n, d) if sp else S.rows("X", n, d), norm, axis

    def code(X, norm, axis):
        from pure_sklearn.preprocessing import normalize_pure

        return normalize_pure(X, norm, axis=axis)

    def spec(X, norm, axis):
        raise ValueError("refused")
