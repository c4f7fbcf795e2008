"""C03: decision trees."""
from pyvc.api import contract
from contracts._lib import version

CLS = ["DecisionTreeClassifier", "ExtraTreeClassifier"]
REG = ["DecisionTreeRegressor", "ExtraTreeRegressor"]


def cell(row, j):
    if isinstance(row, dict):
        return row.get(j, 0.0)
    return row[j]


def leaf(t, x):
    """The leaf that the split rule `feature <= threshold goes left` leads to."""
    k = 0
    while t.children_left[k] != -1:
        if cell(x, t.feature[k]) <= t.threshold[k]:
            k = t.children_left[k]
        else:
            k = t.children_right[k]
    return k


def argmax(v):
    return v.index(max(v))


def counts(est, x):
    return est.tree_.value.tolist()[leaf(est.tree_, x)][0]


def classifier(S, where="nonneg"):
    name = S.choice("cls", CLS)
    n, d, K = S.dim("n"), S.dim("d"), S.dim("K")
    t = S.tree("tree", d, K, where=where)
    classes = S.ndarray("classes", K, "obj", tag="label", distinct=True)
    est = S.stub(name, tree_=t, classes_=classes, n_classes_=K, n_features_=d, __getstate__=version(S))
    return est, S.either("X", n, d)


def near_tie(est, X, *rest):
    for x in X:
        s = sorted(counts(est, x))
        if len(s) > 1 and 0 < s[-1] - s[-2] < 1e-9:
            return True
    return False


@contract("C03", "classifier labels")
class Predict:
    build = classifier

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X):
        return [est.classes_.tolist()[argmax(counts(est, x))] for x in X]

    ambiguous = near_tie


@contract("C03", "class probabilities")
class Proba:
    build = classifier

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X):
        out = []
        for x in X:
            v = counts(est, x)
            out.append([a / sum(v) for a in v])
        return out


@contract("C03", "regressor")
class Regress:
    def build(S):
        name = S.choice("cls", REG)
        n, d = S.dim("n"), S.dim("d")
        t = S.tree("tree", d, 1)
        est = S.stub(name, tree_=t, n_features_=d, __getstate__=version(S))
        return est, S.either("X", n, d)

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X):
        return [counts(est, x)[0] for x in X]
