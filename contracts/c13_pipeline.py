"""C13: pipelines and unions."""
from pyvc.api import contract, opaque
from contracts._lib import version

COVERS = ["pure_sklearn.pipeline", "pure_sklearn.map"]


class AnyStep:
    """The counterpart of an arbitrary estimator. What it computes is left uninterpreted:
    only which call on what."""

    __module__ = "pure_sklearn.any"  # counts as one of the library

    def __init__(self, est):
        self.number = est.number
        self.classes_ = est.number + 100

    def transform(self, X):
        return opaque("transform", self.number, X)

    def predict(self, X):
        return opaque("predict", self.number, X)

    def predict_proba(self, X):
        return opaque("predict_proba", self.number, X)

    def predict_log_proba(self, X):
        return opaque("predict_log_proba", self.number, X)


def register():
    from pure_sklearn.map import MAPPING

    MAPPING["AnyEstimator"] = "contracts.c13_pipeline.AnyStep"


def pipeline(S, method):
    T = S.dim("T")
    steps = S.each("steps", T, lambda S: S.pylist([S.obj("name", tag="str"), S.stub("AnyEstimator", number=S.int("number", 0))], "tuple"))
    return S.stub("Pipeline", steps=steps, __getstate__=version(S)), method, S.obj("X", tag="opaque")


def applied(est, method, X):
    for k in range(len(est.steps) - 1):
        X = opaque("transform", est.steps[k][1].number, X)
    return opaque(method, est.steps[-1][1].number, X)


@contract("C13", "every transformer in order, then the final step", covers=COVERS)
class Methods:
    def build(S):
        return pipeline(S, S.choice("method", ["predict", "predict_proba", "predict_log_proba", "transform"]))

    def code(est, method, X):
        from pure_sklearn.map import convert_estimator

        register()
        p = convert_estimator(est)
        if method == "predict":
            return p.predict(X)
        if method == "predict_proba":
            return p.predict_proba(X)
        if method == "predict_log_proba":
            return p.predict_log_proba(X)
        return p.transform(X)

    spec = applied


class AnyRows:
    """The counterpart of an arbitrary transformer that treats every row on its own: row
    number i of its table is what it makes of the i-th possible input row."""

    __module__ = "pure_sklearn.any"  # counts as one of the library

    def __init__(self, est):
        self.table = est.table
        self.width = est.width
        self.sparse = est.sparse

    def transform(self, X):
        from pure_sklearn.utils import sparse_list

        if self.sparse:
            return sparse_list([{j: self.table[x[0]][j] for j in range(self.width) if self.table[x[0]][j] != 0} for x in X],
                               size=self.width, dtype=float)
        return [[self.table[x[0]][j] for j in range(self.width)] for x in X]


def register_rows():
    from pure_sklearn.map import MAPPING

    MAPPING["AnyTransformer"] = "contracts.c13_pipeline.AnyRows"


def union(S, T, sparse, weighted=False):
    n, m = S.dim("n"), S.dim("m")

    def step(S):
        w = S.dim("w")
        return S.pylist([S.obj("name", tag="str"), S.stub("AnyTransformer", width=w, sparse=sparse, table=S.list("table", (m, w)))], "tuple")

    steps = S.each("steps", T, step)
    est = S.stub("FeatureUnion", transformer_list=steps, transformer_weights=None, __getstate__=version(S))
    X = S.list("X", (n, 1), "int", bound=(0, m))
    return est, X, T


def concat_code(est, X, T):
    from pure_sklearn.map import convert_estimator
    from pure_sklearn.utils import issparse

    register_rows()
    out = convert_estimator(est).transform(X)
    sp = issparse(out)
    width = out.size if sp else len(out[0])
    if sp:
        out = out.todense()
    size = [est.transformer_list[k][1].width for k in range(T)]
    start = [sum(size[:k]) for k in range(T)]
    return sp, width, [[[row[start[k] + q] for q in range(size[k])] for k in range(T)] for row in out]


def concat_spec(est, X, T):
    ts = [t[1] for t in est.transformer_list]
    return ts[0].sparse, sum([t.width for t in ts]), [[[t.table[x[0]][q] for q in range(t.width)] for t in ts] for x in X]


@contract("C13", "union of any number of transformers", covers=COVERS)
class Union:
    def build(S):
        return union(S, S.dim("T"), S.choice("sparse", [False, True]))

    code = concat_code
    spec = concat_spec


@contract("C13", "weights, and outputs of both kinds", covers=COVERS)
class Weighted:
    def build(S):
        n, m = S.dim("n"), S.dim("m")
        steps, weights = [], {}
        weighted = S.choice("weighted", ["none", "all", "second"])
        for name in ["a", "b"]:
            sp = S.choice("sparse " + name, [False, True])
            w = S.dim("w " + name)
            t = S.stub("AnyTransformer", width=w, sparse=sp, table=S.list("table " + name, (m, w)))
            steps.append(S.pylist([name, t], "tuple"))
            if weighted == "all" or weighted == "second" and name == "b":
                weights[name] = S.float("weight " + name)
        if weighted == "all":
            weights["c"] = 2.0
        est = S.stub("FeatureUnion", transformer_list=S.pylist(steps), transformer_weights=S.dict(weights) if weights else None,
                     __getstate__=version(S))
        return est, S.list("X", (n, 1), "int", bound=(0, m)), 2

    code = concat_code

    def spec(est, X, T):
        ts = [t[1] for t in est.transformer_list]
        ws = [(est.transformer_weights or {}).get(t[0], 1.0) for t in est.transformer_list]
        out = [[[ts[k].table[x[0]][q] * ws[k] for q in range(ts[k].width)] for k in range(2)] for x in X]
        return ts[0].sparse or ts[1].sparse, ts[0].width + ts[1].width, out


@contract("C13", "a pipeline in a union in a pipeline", covers=COVERS)
class Nested:
    def build(S):
        n, m = S.dim("n"), S.dim("m")

        def rows(name, w, sparse=False):
            return S.stub("AnyTransformer", width=w, sparse=sparse, table=S.list("table " + name, (m, w)))

        w, v = S.dim("w"), S.dim("v")
        one = S.stub("AnyTransformer", width=1, sparse=False, table=S.list("codes", (m, 1), "int", bound=(0, m)))
        sp = S.choice("sparse", [False, True])
        inner = S.stub("Pipeline", steps=S.pylist([S.pylist(["p", one], "tuple"), S.pylist(["q", rows("q", w, sp)], "tuple")]),
                       __getstate__=version(S))
        un = S.stub("FeatureUnion", transformer_list=S.pylist([S.pylist(["r", rows("r", v)], "tuple"), S.pylist(["s", inner], "tuple")]),
                    transformer_weights=None, __getstate__=version(S))
        outer = S.stub("Pipeline", steps=S.pylist([S.pylist(["t", one], "tuple"), S.pylist(["u", un], "tuple")]), __getstate__=version(S))
        return outer, S.list("X", (n, 1), "int", bound=(0, m))

    def code(est, X):
        from pure_sklearn.map import convert_estimator
        from pure_sklearn.utils import issparse

        register_rows()
        out = convert_estimator(est).transform(X)
        return issparse(out), out.todense() if issparse(out) else out

    def spec(est, X):
        one, un = est.steps[0][1], est.steps[1][1]
        r, inner = un.transformer_list[0][1], un.transformer_list[1][1]
        q = inner.steps[1][1]
        code = [one.table[x[0]][0] for x in X]
        return q.sparse, [[r.table[c][j] for j in range(r.width)] + [q.table[one.table[c][0]][j] for j in range(q.width)] for c in code]


class AnyOnly:
    """The counterpart of an estimator that only transforms."""

    __module__ = "pure_sklearn.any"  # counts as one of the library

    def __init__(self, est):
        self.number = est.number

    def transform(self, X):
        return opaque("transform", self.number, X)


class AnyLabels:
    """The counterpart of an estimator that only predicts."""

    __module__ = "pure_sklearn.any"  # counts as one of the library

    def __init__(self, est):
        self.number = est.number

    def predict(self, X):
        return opaque("predict", self.number, X)


@contract("C13", "a method the final step lacks", covers=COVERS)
class Missing:
    def build(S):
        last = S.stub(S.choice("last", ["AnyOnly", "AnyLabels"]), number=S.int("number", 0))
        first = S.stub("AnyOnly", number=S.int("first", 0))
        steps = S.pylist([S.pylist(["a", first], "tuple"), S.pylist(["b", last], "tuple")])
        return S.stub("Pipeline", steps=steps, __getstate__=version(S)), S.choice("method", ["predict", "predict_proba", "transform"]), S.obj("X", tag="opaque")

    def code(est, method, X):
        from pure_sklearn.map import MAPPING, convert_estimator

        MAPPING["AnyOnly"] = "contracts.c13_pipeline.AnyOnly"
        MAPPING["AnyLabels"] = "contracts.c13_pipeline.AnyLabels"
        p = convert_estimator(est)
        if hasattr(p, method):
            return getattr(p, method)(X)
        return getattr(p, method)

    def spec(est, method, X):
        if method == ("transform" if est.steps[1][1].__class__.__name__ == "AnyOnly" else "predict"):
            return opaque(method, est.steps[1][1].number, opaque("transform", est.steps[0][1].number, X))
        raise AttributeError("no such method")
