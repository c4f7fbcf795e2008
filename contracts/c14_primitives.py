"""C14: the matrix primitives compute their mathematical definition, dense and sparse."""
from pyvc.api import contract


def cell(row, j):
    """Element j of a dense or sparse row."""
    if isinstance(row, dict):
        return row.get(j, 0.0)
    return row[j]


@contract("C14", "dot", covers=["pure_sklearn.base.dot"])
class Dot:
    def build(S):
        m, d = S.dim("m"), S.dim("d")
        n = S.dim("n")
        X = S.either("X", n, d)
        return X, S.rows("B", m, d), S.int("i", 0, S.plus(n, -1)), d

    def code(X, B, i, d):
        from pure_sklearn.base import dot

        return dot(X[i], B)

    def spec(X, B, i, d):
        return [sum([cell(X[i], k) * B[r][k] for k in range(d)]) for r in range(len(B))]


@contract("C14", "dot_2d", covers=["pure_sklearn.base.dot_2d", "pure_sklearn.base.dot"])
class Dot2d:
    def build(S):
        n, m, d = S.dim("n"), S.dim("m"), S.dim("d")
        return S.either("X", n, d), S.rows("B", m, d), d

    def code(X, B, d):
        from pure_sklearn.base import dot_2d

        return dot_2d(X, B)

    def spec(X, B, d):
        return [[sum([cell(x, k) * b[k] for k in range(d)]) for b in B] for x in X]


@contract("C14", "transpose", covers=["pure_sklearn.base.transpose"])
class Transpose:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        return S.rows("A", n, d), d

    def code(A, d):
        from pure_sklearn.base import transpose

        return transpose(A)

    def spec(A, d):
        return [[A[i][j] for i in range(len(A))] for j in range(d)]


@contract("C14", "operate_2d", covers=["pure_sklearn.base.operate_2d"])
class Operate:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        n2, d2 = S.dim("n2"), S.dim("d2")
        return S.rows("A", n, d), S.rows("B", n2, d2), d, d2

    def code(A, B, d, d2):
        from pure_sklearn.base import operate_2d

        return operate_2d(A, B, lambda x, y: 2 * x + y)

    def spec(A, B, d, d2):
        if len(A) != len(B) or d != d2:
            raise ValueError("shapes")
        return [[2 * A[i][j] + B[i][j] for j in range(d)] for i in range(len(A))]


@contract("C14", "apply_2d", covers=["pure_sklearn.base.apply_2d", "pure_sklearn.base.apply_2d_sparse"])
class Apply:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        return S.either("A", n, d), d

    def code(A, d):
        from pure_sklearn.base import apply_2d, apply_2d_sparse
        from pure_sklearn.utils import issparse

        if issparse(A):
            return apply_2d_sparse(A, lambda x: 3 * x).todense()
        return apply_2d(A, lambda x: 3 * x)

    def spec(A, d):
        return [[3 * cell(a, j) for j in range(d)] for a in A]


@contract("C14", "slice_column", covers=["pure_sklearn.base.slice_column"])
class SliceColumn:
    def build(S):
        n, d, m = S.dim("n"), S.dim("d"), S.dim("m")
        return S.either("A", n, d), S.list("idx", m, "int", bound=(0, d)), d

    def code(A, idx, d):
        from pure_sklearn.base import slice_column
        from pure_sklearn.utils import issparse

        r = slice_column(A, idx)
        return r.todense() if issparse(r) else r

    def spec(A, idx, d):
        return [[cell(a, j) for j in idx] for a in A]


@contract("C14", "slice_column one", covers=["pure_sklearn.base.slice_column"])
class SliceColumnOne:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        return S.either("A", n, d), S.int("j", 0, S.plus(d, -1))

    def code(A, j):
        from pure_sklearn.base import slice_column

        return slice_column(A, j)

    def spec(A, j):
        return [cell(a, j) for a in A]


@contract("C14", "matmult_same_dim", covers=["pure_sklearn.base.matmult_same_dim"])
class MatMult:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        sp = S.choice("sparse", [False, True])
        if sp:
            return S.sparse("A", n, d), S.sparse("B", n, d), d
        return S.rows("A", n, d), S.rows("B", n, d), d

    def code(A, B, d):
        from pure_sklearn.base import matmult_same_dim
        from pure_sklearn.utils import issparse

        r = matmult_same_dim(A, B)
        return r.todense() if issparse(r) else r

    def spec(A, B, d):
        return [[cell(A[i], j) * cell(B[i], j) for j in range(d)] for i in range(len(A))]


@contract("C14", "sparse_list", covers=["pure_sklearn.utils.sparse_list.__init__", "pure_sklearn.utils.sparse_list.todense", "pure_sklearn.utils.tosparse", "pure_sklearn.utils.todense"])
class SparseList:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        return S.rows("A", n, d), d

    def code(A, d):
        from pure_sklearn.utils import tosparse, todense

        s = tosparse(A)
        return s.size, todense(s), [[j in row for j in range(d)] for row in s]

    def spec(A, d):
        return d, [[a[j] for j in range(d)] for a in A], [[a[j] != 0 for j in range(d)] for a in A]


@contract("C14", "shape", covers=["pure_sklearn.utils.shape", "pure_sklearn.utils.ndim"])
class Shape:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        return S.either("A", n, d), n, d

    def code(A, n, d):
        from pure_sklearn.utils import shape, ndim

        return shape(A), ndim(A)

    def spec(A, n, d):
        return (n, d), 2


@contract("C14", "softmax", covers=["pure_sklearn.base.sfmax", "pure_sklearn.base.safe_exp"])
class Softmax:
    def build(S):
        m = S.dim("m")
        return S.list("a", m)

    def code(a):
        from pure_sklearn.base import sfmax

        return sfmax(a)

    def spec(a):
        from math import exp

        top = max(a)
        total = sum([exp(x - top) for x in a])
        return [exp(x - top) / total for x in a]


@contract("C14", "accumu", covers=["pure_sklearn.base.accumu"])
class Accumu:
    def build(S):
        m = S.dim("m", 0)
        return S.list("a", m)

    def code(a):
        from pure_sklearn.base import accumu

        return list(accumu(a))

    def spec(a):
        return [sum(a[: k + 1]) for k in range(len(a))]


@contract("C14", "ravel", covers=["pure_sklearn.base.ravel"])
class Ravel:
    def build(S):
        n, d = S.dim("n"), S.dim("d")
        return S.rows("A", n, d)

    def code(A):
        from pure_sklearn.base import ravel

        return ravel(A)

    def spec(A):
        return [a[0] for a in A]
