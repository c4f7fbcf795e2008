"""C04: forests and bagging average the member probabilities."""
from pyvc.api import contract
from contracts._lib import version
from contracts.c03_trees import counts
from contracts.c01_linear import cell, expit


def tree_proba(est, x):
    v = counts(est, x)
    return [a / sum(v) for a in v]


def mean_proba(est, member, x, K):
    T = len(est.estimators_)
    ps = [member(e, x) for e in est.estimators_]
    return [sum([p[k] for p in ps]) / T for k in range(K)]


def argmax(v):
    return v.index(max(v))


def forest(S):
    name = S.choice("cls", ["RandomForestClassifier", "ExtraTreesClassifier"])
    n, d, K, T = S.dim("n"), S.dim("d"), S.dim("K"), S.dim("T")
    member = "DecisionTreeClassifier" if name == "RandomForestClassifier" else "ExtraTreeClassifier"
    codes = S.arr(S.list("codes", K, "float"))

    def tree(S):
        return S.stub(member, predict_proba=S.method(None), tree_=S.tree("tree", d, K, where="counts"), classes_=codes, __getstate__=version(S))

    est = S.stub(name, estimators_=S.each("trees", T, tree), classes_=S.ndarray("classes", K, "obj", tag="label", distinct=True),
                 n_classes_=K, __getstate__=version(S))
    return est, S.either("X", n, d), K


def forest_tie(est, X, K):
    for x in X:
        s = sorted(mean_proba(est, tree_proba, x, K))
        if len(s) > 1 and s[-1] - s[-2] < 1e-9:
            return True
    return False


@contract("C04", "forest probabilities")
class ForestProba:
    build = forest

    def code(est, X, K):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X, K):
        return [mean_proba(est, tree_proba, x, K) for x in X]


@contract("C04", "forest labels")
class ForestPredict:
    build = forest

    def code(est, X, K):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X, K):
        return [est.classes_.tolist()[argmax(mean_proba(est, tree_proba, x, K))] for x in X]

    ambiguous = forest_tie


def sub_row(x, feats):
    """The columns a member was fitted on, as a row."""
    if isinstance(x, dict):
        return [x.get(f, 0.0) for f in feats]
    return [x[f] for f in feats]


def bag_proba(est, x, K):
    T = len(est.estimators_)
    ps = [tree_proba(est.estimators_[t], sub_row(x, est.estimators_features_[t].tolist())) for t in range(T)]
    return [sum([ps[t][k] for t in range(T)]) / T for k in range(K)]


def bagging(S):
    n, d, K, T = S.dim("n"), S.dim("d"), S.dim("K"), S.dim("T")
    M = S.dim("max_features")
    codes = S.arr(S.list("codes", K, "float"))

    def tree(S):
        return S.stub("DecisionTreeClassifier", predict_proba=S.method(None), tree_=S.tree("tree", M, K, where="counts"), classes_=codes, __getstate__=version(S))

    def feats(S):
        return S.ndarray("features", M, "int", bound=(0, d))

    est = S.stub("BaggingClassifier", estimators_=S.each("trees", T, tree), estimators_features_=S.each("subsets", T, feats),
                 classes_=S.ndarray("classes", K, "obj", tag="label", distinct=True), n_classes_=K, __getstate__=version(S))
    return est, S.either("X", n, d), K


def bag_tie(est, X, K):
    for x in X:
        s = sorted(bag_proba(est, x, K))
        if len(s) > 1 and s[-1] - s[-2] < 1e-9:
            return True
    return False


@contract("C04", "bagging over feature subsets, probabilities")
class BagProba:
    build = bagging

    def code(est, X, K):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X, K):
        return [bag_proba(est, x, K) for x in X]


@contract("C04", "bagging over feature subsets, labels")
class BagPredict:
    build = bagging

    def code(est, X, K):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X, K):
        return [est.classes_.tolist()[argmax(bag_proba(est, x, K))] for x in X]

    ambiguous = bag_tie


@contract("C04", "members not fitted on every class count as 0 there")
class BagMissing:
    def build(S):
        n, d, K, T = S.dim("n"), S.dim("d"), S.dim("K", 2), S.dim("T")
        m = S.dim("m", 1, S.plus(K, -1))
        codes = S.arr(S.list("codes", m, "int", bound=(0, K), distinct=True))

        def tree(S):
            return S.stub("DecisionTreeClassifier", predict_proba=S.method(None), tree_=S.tree("tree", d, m, where="counts"), classes_=codes, __getstate__=version(S))

        est = S.stub("BaggingClassifier", estimators_=S.each("trees", T, tree),
                     classes_=S.ndarray("classes", K, "obj", tag="label", distinct=True), n_classes_=K, __getstate__=version(S))
        return est, S.either("X", n, d), K

    def code(est, X, K):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X, K):
        T = len(est.estimators_)
        codes = est.estimators_[0].classes_.tolist()
        out = []
        for x in X:
            ps = [tree_proba(e, x) for e in est.estimators_]
            out.append([sum([p[codes.index(k)] if k in codes else 0.0 for p in ps]) / T for k in range(K)])
        return out
