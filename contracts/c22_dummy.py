"""C22: the baseline classifier."""
from pyvc.api import contract
from contracts._lib import version

COVERS = ["pure_sklearn.dummy.DummyClassifierPure"]


def dummy(S, strategy="prior"):
    C, n = S.dim("C"), S.dim("n")
    new = S.choice("new_style", [True, False])
    kw = dict(strategy=strategy, class_prior_=S.ndarray("prior", C, where="unit"), n_classes_=C, n_outputs_=1,
              classes_=S.ndarray("classes", C, "obj", tag="label", distinct=True), __getstate__=version(S))
    if new:
        kw["_strategy"] = strategy
    return S.stub("DummyClassifier", **kw), S.rows("X", n, 2)


@contract("C22", "prior class for every row", covers=COVERS)
class Predict:
    build = dummy

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X):
        p = est.class_prior_.tolist()
        return [est.classes_.tolist()[p.index(max(p))] for x in X]


@contract("C22", "prior probabilities for every row", covers=COVERS)
class Proba:
    build = dummy

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X):
        return [est.class_prior_.tolist() for x in X]


@contract("C22", "prior log probabilities for every row", covers=COVERS)
class LogProba:
    build = dummy

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_log_proba(X)

    def spec(est, X):
        from math import log

        return [[log(p) if p > 0 else -float("inf") for p in est.class_prior_.tolist()] for x in X]


@contract("C22", "other strategies are refused", covers=COVERS)
class Refused:
    def build(S):
        return dummy(S, S.choice("strategy", ["stratified", "uniform", "constant", "most_frequent"]))

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X):
        raise ValueError("not supported")
