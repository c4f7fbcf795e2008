"""C01, C02: linear classifiers."""
from pyvc.api import contract
from contracts._lib import version

COVERS = ["pure_sklearn.linear_model._base.LinearClassifierMixinPure"]


def cell(row, j):
    if isinstance(row, dict):
        return row.get(j, 0.0)
    return row[j]


def expit(t):
    from math import exp

    if -t > 709.782712893384:  # exp overflows: the limit
        return 0.0
    return 1.0 / (1.0 + exp(-t))


def linear_scores(coef, intercept, X, d):
    """One score per row of coef."""
    return [[sum([cell(x, k) * coef[r][k] for k in range(d)]) + intercept[r] for r in range(len(coef))] for x in X]


def labels(scores, classes):
    if len(scores[0]) == 1:
        return [classes[1] if s[0] > 0 else classes[0] for s in scores]
    return [classes[s.index(max(s))] for s in scores]


def model(S, name, **kw):
    """A fitted linear classifier with any coefficients."""
    n, d = S.dim("n"), S.dim("d")
    if S.choice("binary", [True, False]):
        C, R = 2, 1
    else:
        C = S.dim("C", 3)
        R = C
    coef = S.ndarray("coef", (R, d))
    if S.choice("float_intercept", [False, True]):
        b = S.float("b")
        inter = b
        blist = [b] if R == 1 else None
    else:
        inter = S.ndarray("intercept", R)
        blist = None
    classes = S.ndarray("classes", C, "obj", tag="label", distinct=True)
    est = S.stub(name, coef_=coef, intercept_=inter, classes_=classes, __getstate__=version(S), **kw)
    return est, S.either("X", n, d), d


def intercepts(est):
    if isinstance(est.intercept_, float):
        return [est.intercept_] * len(est.coef_)
    return est.intercept_.tolist()


def near_tie(est, X, d, *rest):
    for s in linear_scores(est.coef_.tolist(), intercepts(est), X, d):
        t = sorted(s)
        if len(s) == 1 and 0 < abs(s[0]) < 1e-6:
            return True
        if len(s) > 1 and t[-1] - t[-2] < 1e-6:
            return True
    return False


NAMES = ["LogisticRegression", "RidgeClassifier", "SGDClassifier", "Perceptron", "PassiveAggressiveClassifier", "LinearSVC"]


@contract("C01", "decision_function", covers=COVERS)
class Decision:
    def build(S):
        name = S.choice("cls", NAMES)
        return model(S, name, multi_class="ovr", solver="lbfgs", loss="hinge")

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).decision_function(X)

    def spec(est, X, d):
        s = linear_scores(est.coef_.tolist(), intercepts(est), X, d)
        return [row[0] for row in s] if len(s[0]) == 1 else s


@contract("C01", "predict", covers=COVERS)
class Predict:
    def build(S):
        name = S.choice("cls", NAMES)
        return model(S, name, multi_class="ovr", solver="lbfgs", loss="hinge")

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X, d):
        return labels(linear_scores(est.coef_.tolist(), intercepts(est), X, d), est.classes_.tolist())

    ambiguous = near_tie


@contract("C02", "LogisticRegression one-vs-rest", covers=COVERS + ["pure_sklearn.linear_model._logistic.LogisticRegressionPure"])
class LogRegOvr:
    def build(S):
        mc, solver = S.choice("config", [("ovr", "lbfgs"), ("auto", "liblinear"), ("warn", "lbfgs")])
        return model(S, "LogisticRegression", multi_class=mc, solver=solver)

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X, d):
        s = linear_scores(est.coef_.tolist(), intercepts(est), X, d)
        p = [[expit(v) for v in row] for row in s]
        if len(s[0]) == 1:
            return [[1 - row[0], row[0]] for row in p]
        return [[v / sum(row) if sum(row) != 0 else float("nan") for v in row] for row in p]


@contract("C02", "LogisticRegression softmax", covers=COVERS + ["pure_sklearn.linear_model._logistic.LogisticRegressionPure"])
class LogRegSoftmax:
    def build(S):
        mc, solver = S.choice("config", [("multinomial", "lbfgs"), ("multinomial", "saga"), ("auto", "lbfgs")])
        est, X, d = model(S, "LogisticRegression", multi_class=mc, solver=solver)
        return est, X, d

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X, d):
        from math import exp

        s = linear_scores(est.coef_.tolist(), intercepts(est), X, d)
        if len(s[0]) == 1:
            if est.multi_class == "auto":  # two classes: binary logistic
                return [[1 - expit(row[0]), expit(row[0])] for row in s]
            s = [[-row[0], row[0]] for row in s]
        out = []
        for row in s:
            top = max(row)
            total = sum([exp(v - top) for v in row])
            out.append([exp(v - top) / total for v in row])
        return out


@contract("C02", "SGDClassifier log loss", covers=COVERS + ["pure_sklearn.linear_model._stochastic_gradient.SGDClassifierPure"])
class SgdProba:
    def build(S):
        loss = S.choice("loss", ["log", "hinge", "modified_huber"])
        name = S.choice("cls", ["SGDClassifier", "Perceptron"])
        return model(S, name, loss=loss)

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X, d):
        if est.loss != "log":
            raise AttributeError("not available")
        s = linear_scores(est.coef_.tolist(), intercepts(est), X, d)
        p = [[expit(v) for v in row] for row in s]
        if len(s[0]) == 1:
            return [[1 - row[0], row[0]] for row in p]
        return [[v / sum(row) if sum(row) != 0 else float("nan") for v in row] for row in p]


@contract("C02", "log probabilities are logarithms of the probabilities", covers=COVERS + ["pure_sklearn.linear_model._logistic.LogisticRegressionPure", "pure_sklearn.linear_model._stochastic_gradient.SGDClassifierPure"])
class LogProba:
    def build(S):
        name = S.choice("cls", ["LogisticRegression", "SGDClassifier"])
        return model(S, name, multi_class="ovr", solver="lbfgs", loss="log")

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_log_proba(X)

    def spec(est, X, d):
        from math import log
        from pure_sklearn.map import convert_estimator

        def ln(p):
            if p != p or p < 0:
                return float("nan")
            if p == 0:
                return -float("inf")
            return log(p)

        return [[ln(p) for p in row] for row in convert_estimator(est).predict_proba(X)]
