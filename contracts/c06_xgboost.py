"""C06: xgboost classifiers."""
from pyvc.api import contract
from contracts.c01_linear import expit

COVERS = ["pure_sklearn.xgboost", "pure_sklearn.tree"]


class Column:
    """The column of tree numbers; compared with one it selects that tree's rows."""

    def __eq__(self, idx):
        return ("rows", idx)


class Part:
    """The rows of one tree; a booster numbers its trees stage by stage, class by class."""

    def __init__(self, stages, K, idx):
        self.stages = stages
        self.K = K
        self.idx = idx

    def to_dict(self, orient):
        assert orient == "list"
        cols = self.stages[self.idx // self.K][self.idx % self.K].columns
        return {name: list(col) for name, col in cols.items()}


class Table:
    """What trees_to_dataframe returns, as far as it is used (trusted: pandas)."""

    def __init__(self, stages, K):
        self.stages = stages
        self.K = K

    def __getitem__(self, key):
        if isinstance(key, str):
            assert key == "Tree"
            return Column()
        return Part(self.stages, self.K, key[1])


def columns(q, t, ids, left, gain, names):
    """One tree as the data frame lists it."""
    N = t.node_count
    L, R = t.children_left.tolist(), t.children_right.tolist()
    F, T = t.feature.tolist(), t.threshold.tolist()
    nan = float("nan")

    def name(j):
        return "f{}".format(j) if names is None else names[j]

    def node(k):
        return "{}-{}".format(q, ids[k])

    return {
        "Tree": [q for k in range(N)],
        "Node": [ids[k] for k in range(N)],
        "ID": [node(k) for k in range(N)],
        "Feature": ["Leaf" if L[k] == -1 else name(F[k]) for k in range(N)],
        "Split": [nan if L[k] == -1 else T[k] for k in range(N)],
        "Yes": [nan if L[k] == -1 else node(L[k]) for k in range(N)],
        "No": [nan if L[k] == -1 else node(R[k]) for k in range(N)],
        "Missing": [nan if L[k] == -1 else node(L[k] if left[k] else R[k]) for k in range(N)],
        "Gain": gain,
    }


def single(v):
    """v in single precision."""
    from struct import pack, unpack

    try:
        return unpack("f", pack("f", v))[0]
    except OverflowError:
        return float("inf") if v > 0 else -float("inf")


def leaf(t, x):
    from math import isnan

    k = 0
    while t.tree_.children_left[k] != -1:
        v = single(x[t.tree_.feature[k]])
        if isnan(v):
            k = t.tree_.children_left[k] if t.left[k] else t.tree_.children_right[k]
        elif v < single(t.tree_.threshold[k]):
            k = t.tree_.children_left[k]
        else:
            k = t.tree_.children_right[k]
    return k


def score(t, x):
    return t.gain[leaf(t, x)]


def unlike_leaf(i, names):
    return names[i] != "Leaf"


def inside(base):
    return 0 < base < 1


def minus(a, b):
    return a - b


def model(S, multi, named=False, stopped=False, nan=True):
    n, d, T = S.dim("n"), S.dim("d"), S.dim("T")
    K = S.dim("K", 3) if multi else 1
    names = None
    if named:
        names = S.list("names", d, "obj", tag="str", distinct=True)
        S.forall("names", d, unlike_leaf, names)

    def tree(S):
        t = S.tree("tree", d, 1)
        N = S.get(t, "node_count")
        ids = S.list("ids", N, "int", where="nonneg", distinct=True)
        left = S.list("missing left", N, "bool")
        gain = S.list("gain", N)
        q = S.int("number", 0)
        return S.stub("Tree", tree_=t, left=left, gain=gain, columns=S.make(columns, q, t, ids, left, gain, names))

    trees = S.each("stages", T, lambda S: S.each("trees", K, tree))
    base = S.float("base", where="unit")
    S.assume(inside, base)
    booster = S.stub("Booster", feature_names=names, trees_to_dataframe=S.method(S.new(Table, trees, K)),
                     save_config=S.method(S.json({"learner": {"learner_model_param": {"base_score": S.text(base)}}})))
    used = T
    if stopped:
        used = S.int("used", 1, T)
        S.attrs(booster, best_iteration=S.make(minus, used, 1))
    classes = S.ndarray("classes", K if multi else 2, "obj", tag="label", distinct=True)
    est = S.stub("XGBClassifier", objective="multi:softprob" if multi else "binary:logistic", booster="gbtree", classes_=classes,
                 n_classes_=K if multi else 2, n_estimators=T, get_booster=S.method(booster))
    X = S.list("X", (n, d), "nanfloat" if nan else "float")
    return est, X, trees, base, used


def raw(trees, base, used, x):
    from math import log

    return -log(1.0 / base - 1.0) + sum([score(trees[t][0], x) for t in range(used)])


def binary(S):
    return model(S, False, S.choice("named", [False, True]), S.choice("stopped", [False, True]))


@contract("C06", "binary probabilities", covers=COVERS)
class BinaryProba:
    build = binary

    def code(est, X, trees, base, used):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X, trees, base, used):
        out = []
        for x in X:
            p = expit(raw(trees, base, used, x))
            out.append([1 - p, p])
        return out


@contract("C06", "binary labels", covers=COVERS)
class BinaryLabels:
    def build(S):
        return model(S, False)

    def code(est, X, trees, base, used):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X, trees, base, used):
        out = []
        for x in X:
            p = expit(raw(trees, base, used, x))
            out.append(est.classes_.tolist()[1 if p > 1 - p else 0])
        return out

    def ambiguous(est, X, trees, base, used):
        return any([abs(raw(trees, base, used, x)) < 1e-9 for x in X])


def several(S):
    return model(S, True, stopped=S.choice("stopped", [False, True]))


def softmax(r):
    from math import exp

    top = max(r)
    total = sum([exp(v - top) for v in r])
    return [exp(v - top) / total for v in r]


def margins(est, trees, used, x):
    """The sum of every class's own trees; a constant base score cancels out."""
    K = est.n_classes_
    return [sum([score(trees[t][k], x) for t in range(used)]) for k in range(K)]


@contract("C06", "multi-class probabilities", covers=COVERS)
class MultiProba:
    build = several

    def code(est, X, trees, base, used):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X, trees, base, used):
        return [softmax(margins(est, trees, used, x)) for x in X]


@contract("C06", "multi-class labels", covers=COVERS)
class MultiLabels:
    def build(S):
        return model(S, True)

    def code(est, X, trees, base, used):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict(X)

    def spec(est, X, trees, base, used):
        out = []
        for x in X:
            p = softmax(margins(est, trees, used, x))
            out.append(est.classes_.tolist()[p.index(max(p))])
        return out

    def ambiguous(est, X, trees, base, used):
        for x in X:
            m = sorted(margins(est, trees, used, x))
            if m[-1] - m[-2] < 1e-9:
                return True
        return False


@contract("C06", "models that cannot be represented are refused", covers=COVERS, any_exception=True)
class Refused:
    def build(S):
        est, X, trees, base, used = model(S, False)
        what = S.choice("what", ["parallel", "booster", "objective", "no objective", "sparse"])
        if what == "parallel":
            S.attrs(est, num_parallel_tree=S.int("parallel", 2))
        elif what == "booster":
            S.attrs(est, booster=S.choice("other booster", ["gblinear", "dart", None]))
        elif what == "objective":
            S.attrs(est, objective=S.choice("other objective", ["multi:softmax", "binary:hinge", "rank:pairwise", "binary:logitraw", "reg:squarederror"]))
        elif what == "no objective":
            S.attrs(est, objective=None)
        else:
            X = S.sparse("Z", S.dim("rows"), S.dim("columns"))
        return est, X

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).predict_proba(X)

    def spec(est, X):
        raise ValueError("refused")
