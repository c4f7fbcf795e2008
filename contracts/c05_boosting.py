"""C05: gradient boosting."""
from pyvc.api import contract
from contracts._lib import version
from contracts.c01_linear import expit
from contracts.c03_trees import counts

EPS = 1.1920929e-07  # of single precision, as in the fitted library
COVERS = ["pure_sklearn.ensemble._gb.GradientBoostingClassifierPure"]


def clip(p):
    return min(max(p, EPS), 1 - EPS)


def argmax(v):
    return v.index(max(v))


def raw(est, x):
    """Initial score plus the learning rate times every stage's tree, per output."""
    from math import log

    prior = est.init_.class_prior_.tolist()
    if len(est.classes_) > 2:
        init = [log(clip(p)) for p in prior]
    elif est.loss == "deviance":
        init = [log(clip(prior[1]) / (1 - clip(prior[1])))]
    else:
        init = [0.5 * log(clip(prior[1]) / (1 - clip(prior[1])))]
    T = len(est.estimators_)
    return [init[k] + sum([counts(est.estimators_[t][k], x)[0] * est.learning_rate for t in range(T)]) for k in range(len(init))]


def proba(est, x):
    from math import exp

    r = raw(est, x)
    if len(est.classes_) > 2:
        top = max(r)
        total = sum([exp(v - top) for v in r])
        return [exp(v - top) / total for v in r]
    p = expit(r[0] if est.loss == "deviance" else 2.0 * r[0])
    return [1 - p, p]


def boosted(S):
    n, d, T = S.dim("n"), S.dim("d"), S.dim("T")
    loss = S.choice("loss", ["deviance", "deviance3", "exponential"])
    if loss == "deviance3":
        C = S.dim("C", 3)
        K = C
    else:
        C, K = 2, 1
    classes = S.ndarray("classes", C, "obj", tag="label", distinct=True)
    init = S.stub("DummyClassifier", _strategy="prior", strategy="prior", class_prior_=S.ndarray("prior", C, where="unit"),
                  classes_=classes, n_classes_=C, n_outputs_=1, __getstate__=version(S))

    def tree(S):
        return S.stub("DecisionTreeRegressor", tree_=S.tree("tree", d, 1), __getstate__=version(S))

    stages = S.each("stages", T, lambda S: S.each("trees", K, tree))
    est = S.stub("GradientBoostingClassifier", estimators_=stages, classes_=classes, init_=init, loss="deviance" if loss == "deviance3" else loss,
                 learning_rate=S.float("rate"), n_features_=d, n_classes_=C, __getstate__=version(S))
    return est, S.rows("X", n, d)


def tie(est, X):
    for x in X:
        s = sorted(proba(est, x))
        if s[-1] - s[-2] < 1e-9:
            return True
    return False


@contract("C05", "boosted probabilities", covers=COVERS)
class Proba:
    build = boosted

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X):
        return [proba(est, x) for x in X]


@contract("C05", "boosted labels", covers=COVERS)
class Predict:
    build = boosted

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X):
        out = []
        for x in X:
            if est.loss == "exponential":
                k = 1 if raw(est, x)[0] >= 0 else 0
            else:
                k = argmax(proba(est, x))
            out.append(est.classes_.tolist()[k])
        return out

    ambiguous = tie
