"""C21: probabilities are well-formed, labels are classes, and nothing fails."""
from pyvc.api import contract
from contracts import c01_linear, c03_trees, c04_forests, c05_boosting, c06_xgboost, c07_bayes, c22_dummy
from contracts._lib import version

MAP = ["pure_sklearn.map"]


def probabilities(est, X):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(est).predict_proba(X)


def logs(est, X):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(est).predict_log_proba(X)


def labels(est, X):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(est).predict(X)


def formed(out, est, X):
    return [len(out) == len(X), [len(row) == len(est.classes_) for row in out], [[0 <= p for p in row] for row in out], [[p <= 1 for p in row] for row in out],
            [abs(sum(row) - 1) <= 1e-6 for row in out]]


def formed_or_nan(out, est, X):
    return [len(out) == len(X), [len(row) == len(est.classes_) for row in out], [[not p < 0 for p in row] for row in out], [[not p > 1 for p in row] for row in out],
            [not abs(sum(row) - 1) > 1e-6 for row in out]]


def negative(out, est, X):
    return [len(out) == len(X), [len(row) == len(est.classes_) for row in out], [[not p > 0 for p in row] for row in out]]


def members(out, est, X):
    classes = est.classes_.tolist()
    return [len(out) == len(X), [y in classes for y in out]]


def linear_ovr(S):
    name = S.choice("cls", ["LogisticRegression", "SGDClassifier"])
    est, X, d = c01_linear.model(S, name, multi_class="ovr", solver="lbfgs", loss="log")
    return est, X


@contract("C21", "one-vs-rest linear models, probabilities", covers=MAP, shares=True)
class LinearOvrProba:
    build = linear_ovr
    code = probabilities
    ensures = formed_or_nan


@contract("C21", "one-vs-rest linear models, log probabilities", covers=MAP, shares=True)
class LinearOvrLogs:
    build = linear_ovr
    code = logs
    ensures = negative


@contract("C21", "one-vs-rest linear models, labels", covers=MAP, shares=True)
class LinearOvrLabels:
    build = linear_ovr
    code = labels
    ensures = members


def multinomial(S):
    est, X, d = c01_linear.model(S, "LogisticRegression", multi_class="multinomial", solver="lbfgs")
    return est, X


@contract("C21", "multinomial models, probabilities", covers=MAP, shares=True)
class MultinomialProba:
    build = multinomial
    code = probabilities
    ensures = formed


@contract("C21", "multinomial models, log probabilities", covers=MAP, shares=True)
class MultinomialLogs:
    build = multinomial
    code = logs
    ensures = negative


@contract("C21", "multinomial models, labels", covers=MAP, shares=True)
class MultinomialLabels:
    build = multinomial
    code = labels
    ensures = members


def tree(S):
    return c03_trees.classifier(S, where="counts")


@contract("C21", "decision trees, probabilities", covers=MAP, shares=True)
class TreeProba:
    build = tree
    code = probabilities
    ensures = formed


@contract("C21", "decision trees, log probabilities", covers=MAP, shares=True)
class TreeLogs:
    build = tree
    code = logs
    ensures = negative


@contract("C21", "decision trees, labels", covers=MAP, shares=True)
class TreeLabels:
    build = tree
    code = labels
    ensures = members


def forest(S):
    return c04_forests.forest(S)[:2]


@contract("C21", "forests, probabilities", covers=MAP, shares=True)
class ForestProba:
    build = forest
    code = probabilities
    ensures = formed


@contract("C21", "forests, log probabilities", covers=MAP, shares=True)
class ForestLogs:
    build = forest
    code = logs
    ensures = negative


@contract("C21", "forests, labels", covers=MAP, shares=True)
class ForestLabels:
    build = forest
    code = labels
    ensures = members


def bagging(S):
    return c04_forests.bagging(S)[:2]


@contract("C21", "bagging, probabilities", covers=MAP, shares=True)
class BaggingProba:
    build = bagging
    code = probabilities
    ensures = formed


@contract("C21", "bagging, log probabilities", covers=MAP, shares=True)
class BaggingLogs:
    build = bagging
    code = logs
    ensures = negative


@contract("C21", "bagging, labels", covers=MAP, shares=True)
class BaggingLabels:
    build = bagging
    code = labels
    ensures = members


def boosting(S):
    return c05_boosting.boosted(S)


@contract("C21", "boosting, probabilities", covers=MAP, shares=True)
class BoostingProba:
    build = boosting
    code = probabilities
    ensures = formed


@contract("C21", "boosting, log probabilities", covers=MAP, shares=True)
class BoostingLogs:
    build = boosting
    code = logs
    ensures = negative


@contract("C21", "boosting, labels", covers=MAP, shares=True)
class BoostingLabels:
    build = boosting
    code = labels
    ensures = members


def xgb(S):
    out = c06_xgboost.model(S, S.choice("multi", [False, True]), nan=False)
    return out[0], out[1]


@contract("C21", "xgboost, probabilities", covers=MAP, shares=True)
class XgbProba:
    build = xgb
    code = probabilities
    ensures = formed



@contract("C21", "xgboost, labels", covers=MAP, shares=True)
class XgbLabels:
    build = xgb
    code = labels
    ensures = members


def bayes(S):
    return c07_bayes.bayes(S)


@contract("C21", "naive Bayes, probabilities", covers=MAP, shares=True)
class BayesProba:
    build = bayes
    code = probabilities
    ensures = formed


@contract("C21", "naive Bayes, log probabilities", covers=MAP, shares=True)
class BayesLogs:
    build = bayes
    code = logs
    ensures = negative


@contract("C21", "naive Bayes, labels", covers=MAP, shares=True)
class BayesLabels:
    build = bayes
    code = labels
    ensures = members


def dummy(S):
    est, X = c22_dummy.dummy(S)
    S.attrs(est, class_prior_=S.arr(S.make(shares, S.list("weights", S.get(est, "n_classes_"), where="pos"))))
    return est, X


def shares(weights):
    return [w / sum(weights) for w in weights]


@contract("C21", "dummy classifier, probabilities", covers=MAP, shares=True)
class DummyProba:
    build = dummy
    code = probabilities
    ensures = formed


@contract("C21", "dummy classifier, log probabilities", covers=MAP, shares=True)
class DummyLogs:
    build = dummy
    code = logs
    ensures = negative


@contract("C21", "dummy classifier, labels", covers=MAP, shares=True)
class DummyLabels:
    build = dummy
    code = labels
    ensures = members
