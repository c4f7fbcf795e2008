"""C07: naive Bayes."""
from pyvc.api import contract
from contracts._lib import version

COVERS = ["pure_sklearn.naive_bayes"]


def ln(v):
    from math import log

    return log(v) if v > 0 else -float("inf")


def logsumexp(row):
    from math import exp, log

    top = max(row)
    return top + log(sum([exp(v - top) for v in row]))


def gaussian(est, x, c):
    """log P(c) + sum of the log densities of the features under class c."""
    from math import log, pi

    s, t = est.sigma_.tolist(), est.theta_.tolist()
    d = len(x)
    return ln(est.class_prior_.tolist()[c]) - 0.5 * sum([log(2.0 * pi * v) for v in s[c]]) - 0.5 * sum(
        [(x[j] - t[c][j]) ** 2 / s[c][j] for j in range(d)])


def multinomial(est, x, c):
    w = est.feature_log_prob_.tolist()
    return est.class_log_prior_.tolist()[c] + sum([x[j] * w[c][j] for j in range(len(x))])


def complement(est, x, c):
    w = est.feature_log_prob_.tolist()
    v = sum([x[j] * w[c][j] for j in range(len(x))])
    return v + est.class_log_prior_.tolist()[0] if len(est.classes_) == 1 else v


def joint(est, x):
    f = {"GaussianNB": gaussian, "MultinomialNB": multinomial, "ComplementNB": complement}[type(est).__name__]
    return [f(est, x, c) for c in range(len(est.classes_))]


def bayes(S):
    name = S.choice("cls", ["GaussianNB", "MultinomialNB", "ComplementNB"])
    n, d = S.dim("n"), S.dim("d")
    if S.choice("one_class", [False, True]):
        C = 1
    else:
        C = S.dim("C", 2)
    classes = S.ndarray("classes", C, "obj", tag="label", distinct=True)
    if name == "GaussianNB":
        kw = dict(class_prior_=S.ndarray("prior", C, where="prob"), sigma_=S.ndarray("sigma", (C, d), where="pos"), theta_=S.ndarray("theta", (C, d)))
    else:
        kw = dict(class_log_prior_=S.ndarray("prior", C), feature_log_prob_=S.ndarray("weights", (C, d)))
    return S.stub(name, classes_=classes, __getstate__=version(S), **kw), S.rows("X", n, d)


def tie(est, X):
    for x in X:
        s = sorted(joint(est, x))
        if len(s) > 1 and not s[-1] - s[-2] > 1e-7 * max(1, abs(s[-1])):
            return True
    return False


@contract("C07", "labels maximise the joint likelihood", covers=COVERS)
class Predict:
    build = bayes

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X):
        out = []
        for x in X:
            j = joint(est, x)
            out.append(est.classes_.tolist()[j.index(max(j))])
        return out

    ambiguous = tie


@contract("C07", "log posteriors", covers=COVERS)
class LogProba:
    build = bayes

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_log_proba(X)

    def spec(est, X):
        out = []
        for x in X:
            j = joint(est, x)
            z = logsumexp(j)
            out.append([v - z for v in j])
        return out


@contract("C07", "posteriors", covers=COVERS)
class Proba:
    build = bayes

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X):
        from math import exp

        out = []
        for x in X:
            j = joint(est, x)
            z = logsumexp(j)
            out.append([exp(v - z) for v in j])
        return out
