"""C11: dict vectoriser and feature hashing."""
from pyvc.api import contract
from contracts._lib import version

COVERS = ["pure_sklearn.feature_extraction._hash"]


# MurmurHash3_x86_32, after Appleby's reference code
def rotl(x, r):
    return ((x << r) | (x >> (32 - r))) & 0xFFFFFFFF


def murmur3(data, seed):
    h = seed
    n = len(data)
    for b in range(n // 4):
        k = data[4 * b] | data[4 * b + 1] << 8 | data[4 * b + 2] << 16 | data[4 * b + 3] << 24
        k = rotl(k * 0xCC9E2D51 & 0xFFFFFFFF, 15) * 0x1B873593 & 0xFFFFFFFF
        h = (rotl(h ^ k, 13) * 5 + 0xE6546B64) & 0xFFFFFFFF
    t = 4 * (n // 4)
    k = 0
    if n % 4 == 3:
        k = k ^ data[t + 2] << 16
    if n % 4 >= 2:
        k = k ^ data[t + 1] << 8
    if n % 4 >= 1:
        k = k ^ data[t]
        h = h ^ (rotl(k * 0xCC9E2D51 & 0xFFFFFFFF, 15) * 0x1B873593 & 0xFFFFFFFF)
    h = h ^ n
    h = (h ^ h >> 16) * 0x85EBCA6B & 0xFFFFFFFF
    h = (h ^ h >> 13) * 0xC2B2AE35 & 0xFFFFFFFF
    h = h ^ h >> 16
    return h - (1 << 32) if h >= 1 << 31 else h


@contract("C11", "MurmurHash3 of every string", covers=COVERS)
class Murmur:
    def build(S):
        return S.obj("key", tag="str"), S.int("seed", 0, 1 << 32)

    def code(key, seed):
        from pure_sklearn.feature_extraction._hash import _hash

        return _hash(key, seed)

    def spec(key, seed):
        return murmur3(bytearray(key.encode()), seed)


GIVEN = {"pure_sklearn.feature_extraction._hash._hash": ("murmur3", -(1 << 31), 1 << 31),
         "contracts.c11_features.hash_of": ("murmur3", -(1 << 31), 1 << 31)}


def hash_of(key, seed):
    return murmur3(bytearray(key.encode()), seed)


def column(h, width):
    """Where the original puts a hash (the absolute value of -2**31 does not fit)."""
    return (2147483647 - (width - 1)) % width if h == -2147483648 else abs(h) % width


@contract("C11", "hashed counts and pairs", covers=COVERS, given=GIVEN)
class Hashed:
    def build(S):
        docs = S.each("docs", S.dim("n"), lambda S: S.each("features", S.dim("m", 0), lambda S: S.pylist(
            [S.obj("name", tag="str"), S.float("value")], "tuple")))
        return S.choice("kind", ["string", "pair"]), docs, S.dim("width", 1, (1 << 31) - 1), S.choice("signed", [True, False])

    def code(kind, docs, width, signed):
        from pure_sklearn.feature_extraction._hash import _FeatureHasherPure

        h = _FeatureHasherPure(n_features=width, input_type=kind, dtype=float, alternate_sign=signed)
        out = h.transform([[f[0] for f in doc] for doc in docs] if kind == "string" else docs)
        return len(out), out.size, [[row.get(j, 0) for j in range(width)] for row in out]

    def spec(kind, docs, width, signed):
        def value(f):
            h = hash_of(f[0], 0)
            return (1 if h >= 0 or not signed else -1) * (1 if kind == "string" else f[1])

        return len(docs), width, [[sum([value(f) for f in doc if column(hash_of(f[0], 0), width) == j]) for j in range(width)] for doc in docs]


DICT = ["pure_sklearn.feature_extraction._dict_vectorizer"]


def positions(names):
    return {names[j]: j for j in range(len(names))}


def record(keys, values):
    return {keys[k]: values[k] for k in range(len(keys))}


def vectorizer(S, strings):
    names = S.list("names", S.dim("V"), "obj", tag="str", distinct=True)
    est = S.stub("DictVectorizer", vocabulary_=S.make(positions, names), feature_names_=names, sparse=S.choice("sparse", [True, False]),
                 dtype=S.dtype(S.choice("dtype", ["float64", "float", "int"])), separator=S.choice("separator", ["=", ": "]), __getstate__=version(S))

    def row(S):
        m = S.dim("m", 0)
        keys = S.list("keys", m, "obj", tag="str", distinct=True)
        return S.make(record, keys, S.list("values", m, "obj", tag="str") if strings else S.list("values", m))

    return est, S.each("X", S.dim("n"), row)


def vectorized(est, X):
    from pure_sklearn.map import convert_estimator
    from pure_sklearn.utils import issparse

    out = convert_estimator(est).transform(X)
    return issparse(out), out.todense() if issparse(out) else out


@contract("C11", "numbers of a record", covers=DICT)
class Numbers:
    def build(S):
        return vectorizer(S, False)

    code = vectorized

    def spec(est, X):
        kind = int if "int" in str(est.dtype) else float
        return est.sparse, [[kind(x[f]) if f in x else 0 for f in est.feature_names_] for x in X]


@contract("C11", "strings of a record", covers=DICT)
class Strings:
    def build(S):
        return vectorizer(S, True)

    code = vectorized

    def spec(est, X):
        return est.sparse, [[1 if any([k + est.separator + v == f for k, v in x.items()]) else 0 for f in est.feature_names_] for x in X]
