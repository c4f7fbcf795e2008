"""C09: one-hot and ordinal encoding."""
from pyvc.api import contract
from contracts._lib import version

COVERS = ["pure_sklearn.preprocessing._encoders", "pure_sklearn.preprocessing._label"]


def encoder(S, name, unknown="error", width=0):
    n, d = S.dim("n"), S.dim("d")
    cats = S.each("cats", d, lambda S: S.ndarray("cat", S.dim("m"), "obj", tag="cat", distinct=True))
    dtype = S.dtype(S.choice("dtype", ["float64", "float", "int"]))
    kw = {} if name == "OrdinalEncoder" else dict(drop=None, handle_unknown=unknown, sparse=S.choice("sparse", [True, False]))
    est = S.stub(name, categories_=cats, dtype=dtype, __getstate__=version(S), **kw)
    return est, S.list("X", (n, S.plus(d, width)), "obj", tag="cat"), d


def known(est, X, d):
    cats = [c.tolist() for c in est.categories_]
    return not any([any([x[j] not in cats[j] for x in X]) for j in range(d)])


@contract("C09", "ordinal codes", covers=COVERS)
class Ordinal:
    def build(S):
        return encoder(S, "OrdinalEncoder")

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).transform(X)

    def spec(est, X, d):
        if not known(est, X, d):
            raise ValueError("unknown category")
        cats = [c.tolist() for c in est.categories_]
        return [[cats[j].index(x[j]) for j in range(d)] for x in X]


def blocks(est, out, d):
    """The encoded matrix, cut into the blocks of the features."""
    size = [len(c) for c in est.categories_]
    start = [sum(size[:j]) for j in range(d)]
    return [[[row[start[j] + q] for q in range(size[j])] for j in range(d)] for row in out]


def one_hot_code(est, X, d):
    from pure_sklearn.map import convert_estimator
    from pure_sklearn.utils import issparse

    out = convert_estimator(est).transform(X)
    sp = issparse(out)
    width = out.size if sp else len(out[0])
    if sp:
        out = out.todense()
    return sp, width, blocks(est, out, d)


def one_hot_spec(est, X, d):
    cats = [c.tolist() for c in est.categories_]
    ind = [[[1 if cats[j][q] == x[j] else 0 for q in range(len(cats[j]))] for j in range(d)] for x in X]
    return est.sparse, sum([len(c) for c in cats]), ind


@contract("C09", "one-hot, unknown categories refused", covers=COVERS)
class OneHotError:
    def build(S):
        return encoder(S, "OneHotEncoder", "error")

    code = one_hot_code

    def spec(est, X, d):
        if not known(est, X, d):
            raise ValueError("unknown category")
        return one_hot_spec(est, X, d)


@contract("C09", "one-hot, unknown categories ignored", covers=COVERS)
class OneHotIgnore:
    def build(S):
        return encoder(S, "OneHotEncoder", "ignore")

    code = one_hot_code
    spec = one_hot_spec


@contract("C09", "a different number of features is refused", covers=COVERS)
class Width:
    def build(S):
        name = S.choice("cls", ["OrdinalEncoder", "OneHotEncoder"])
        return encoder(S, name, "ignore", width=1)

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).transform(X)

    def spec(est, X, d):
        raise ValueError("width")
