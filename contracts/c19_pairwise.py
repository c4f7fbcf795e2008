"""C19: cosine similarity, cosine distance and the linear kernel."""
from pyvc.api import contract
from contracts.c01_linear import cell

COVERS = ["pure_sklearn.metrics.pairwise", "pure_sklearn.preprocessing._data.normalize_pure"]
NAMES = ["cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure"]


def length(row):
    from math import sqrt

    z = sqrt(sum([v * v for v in row]))
    return z if z != 0 else 1.0


def scaled(row):
    z = length(row)
    return [v / z for v in row]


def kernel(name, X, Y, d, same):
    A = [[cell(x, k) for k in range(d)] for x in X]
    B = [[y[k] for k in range(d)] for y in Y]
    if name != "linear_kernel_pure":
        A, B = [scaled(a) for a in A], [scaled(b) for b in B]
    K = [[sum([a[k] * b[k] for k in range(d)]) for b in B] for a in A]
    if name != "cosine_distances_pure":
        return K
    return [[0.0 if same and i == j else min(max(1 - K[i][j], 0), 2) for j in range(len(B))] for i in range(len(A))]


def call(name, X, Y):
    from pure_sklearn.metrics import pairwise

    if name == "cosine_similarity_pure":
        return pairwise.cosine_similarity_pure(X, Y)
    if name == "cosine_distances_pure":
        return pairwise.cosine_distances_pure(X, Y)
    return pairwise.linear_kernel_pure(X, Y)


@contract("C19", "two matrices", covers=COVERS)
class Two:
    def build(S):
        n, m, d = S.dim("n"), S.dim("m"), S.dim("d")
        return S.choice("name", NAMES), S.either("X", n, d), S.rows("Y", m, d), d

    def code(name, X, Y, d):
        return call(name, X, Y)

    def spec(name, X, Y, d):
        return kernel(name, X, Y, d, False)


@contract("C19", "a matrix with itself", covers=COVERS)
class Itself:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        return S.choice("name", NAMES), S.rows("X", n, d), S.choice("given", [False, True]), d

    def code(name, X, given, d):
        return call(name, X, X if given else None)

    def spec(name, X, given, d):
        return kernel(name, X, X, d, True)


@contract("C19", "refused matrices", covers=COVERS)
class Refused:
    def build(S):
        n, m, d, e = S.dim("n"), S.dim("m"), S.dim("d"), S.dim("e")
        how = S.choice("how", ["width", "sparse", "flat left", "flat right"])
        if how == "width":
            S.assume(differ, d, e)
            return S.choice("name", NAMES), S.either("X", n, d), S.rows("Y", m, e)
        if how == "sparse":
            return S.choice("name", NAMES), S.either("X", n, d), S.sparse("Y", m, d)
        if how == "flat left":
            return S.choice("name", NAMES), S.list("v", d), S.rows("Y", m, d)
        return S.choice("name", NAMES), S.rows("X", n, d), S.list("v", d)

    def code(name, X, Y):
        return call(name, X, Y)

    def spec(name, X, Y):
        raise ValueError("refused")


def differ(a, b):
    return a != b
