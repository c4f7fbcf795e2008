"""C12: text documents to counts, weights and hashed features."""
from pyvc.api import contract
from contracts._lib import version
from contracts.c11_features import GIVEN, column, hash_of

TEXT = ["pure_sklearn.feature_extraction.text"]
COUNT = dict(binary=False, analyzer="word", preprocessor=None, tokenizer=None, stop_words=None, token_pattern=r"(?u)\b\w\w+\b", ngram_range=(1, 1),
             strip_accents=None, decode_error="strict", encoding="utf-8", lowercase=True, input="content")

PATTERNS = [r"(?u)\b\w+\b", r"(?u)\b\w\w+\b"]


def spaced(tokens):
    return " ".join(tokens)


def words(doc, pattern):
    """The default analysis of a document."""
    import re

    return re.compile(pattern).findall(doc.lower())


def positions(names):
    return {names[j]: j for j in range(len(names))}


def documents(S, n="n"):
    return S.each("X", S.dim(n), lambda S: S.make(spaced, S.list("tokens", S.dim("m", 0), "obj", tag="str")))


def vocabulary(S):
    return S.make(positions, S.list("names", S.dim("V"), "obj", tag="str", distinct=True))


def columns(counts, vocabulary):
    return [counts(f) for f in vocabulary]


@contract("C12", "counts of tokens", covers=TEXT)
class Counts:
    def build(S):
        names = S.list("names", S.dim("V"), "obj", tag="str", distinct=True)
        est = S.stub("CountVectorizer", vocabulary_=S.make(positions, names), dtype=S.dtype(S.choice("dtype", ["int64", "float64"])), __getstate__=version(S),
                     **{**COUNT, "binary": S.choice("binary", [True, False]), "token_pattern": S.choice("pattern", PATTERNS)})
        return est, names, documents(S)

    def code(est, names, X):
        from pure_sklearn.map import convert_estimator
        from pure_sklearn.utils import issparse

        out = convert_estimator(est).transform(X)
        return issparse(out), out.todense()

    def spec(est, names, X):
        def count(doc, f):
            n = sum([1 for t in words(doc, est.token_pattern) if t == f])
            return min(n, 1) if est.binary else n

        return True, [[count(x, f) for f in names] for x in X]


@contract("C12", "inverse document frequencies", covers=TEXT, any_exception=True)
class Weights:
    def build(S):
        d = S.dim("d")
        idf = S.choice("idf", [True, False])
        est = S.stub("TfidfTransformer", norm=S.choice("norm", ["l1", "l2", None]), use_idf=idf, smooth_idf=True, sublinear_tf=S.choice("sublinear", [True, False]),
                     __getstate__=version(S), **({"idf_": S.ndarray("weights", d), "_idf_diag": S.stub("diags", shape=(d, d))} if idf else {}))
        shape = (S.dim("n"), d)
        return est, (S.sparse("X", *shape, where="pos") if S.choice("sparse", [True, False]) else S.list("X", shape, where="nonneg")), d

    def code(est, X, d):
        from pure_sklearn.map import convert_estimator
        from pure_sklearn.utils import issparse

        out = convert_estimator(est).transform(X)
        return issparse(out), out.todense() if issparse(out) else out

    def spec(est, X, d):
        from math import log, sqrt
        from pure_sklearn.utils import issparse

        def weight(x, j):
            tf = (log(x) + 1 if x else 0) if est.sublinear_tf else x
            return tf * float(est.idf_[j]) if est.use_idf else tf

        def normed(row):
            size = sum([abs(v) for v in row]) if est.norm == "l1" else sqrt(sum([v * v for v in row])) if est.norm == "l2" else 1
            return [v / size if size else v for v in row]

        if not issparse(X) and (est.use_idf or est.sublinear_tf):
            raise ValueError("term counts are expected sparse")
        return issparse(X), [normed([weight(x, j) for j, x in enumerate(row)]) for row in (X.todense() if issparse(X) else X)]


def text_model(S, **kw):
    names = S.list("names", S.dim("V"), "obj", tag="str", distinct=True)
    est = S.stub("CountVectorizer", vocabulary_=S.make(positions, names), dtype=S.dtype("int64"), __getstate__=version(S), **{**COUNT, **kw})
    return est, names, documents(S)


def counted(est, names, X):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(est).transform(X).todense()


@contract("C12", "n-grams of words", covers=TEXT)
class Words:
    def build(S):
        stop = S.list("stop", S.dim("k", 0), "obj", tag="str") if S.choice("stopping", [True, False]) else None
        ranges = [(1, 1), (1, 2), (2, 2)] + ([(2, 3), (1, 3)] if stop is None else [])
        return text_model(S, ngram_range=S.choice("range", ranges), stop_words=stop, token_pattern=PATTERNS[0])

    code = counted

    def spec(est, names, X):
        lo, hi = est.ngram_range

        def grams(doc):
            t = [w for w in words(doc, est.token_pattern) if est.stop_words is None or w not in est.stop_words]
            return [g for n in range(lo, hi + 1) for g in (t if n == 1 else [" ".join(t[i:i + n]) for i in range(len(t) - n + 1)])]

        return [[sum([1 for g in grams(x) if g == f]) for f in names] for x in X]


@contract("C12", "n-grams of characters", covers=TEXT)
class Characters:
    def build(S):
        return text_model(S, analyzer="char", ngram_range=S.choice("range", [(1, 1), (1, 2), (2, 2), (2, 3), (1, 3)]))

    code = counted

    def spec(est, names, X):
        import re

        lo, hi = est.ngram_range

        def grams(doc):
            t = re.compile(r"\s\s+").sub(" ", doc.lower())
            return [t[i:i + n] for n in range(lo, hi + 1) for i in range(len(t) - n + 1)]

        return [[sum([1 for g in grams(x) if g == f]) for f in names] for x in X]


@contract("C12", "n-grams of characters within words", covers=TEXT)
class Bounded:
    def build(S):
        return text_model(S, analyzer="char_wb", ngram_range=S.choice("range", [(1, 1), (1, 2), (2, 2), (2, 3), (3, 4)]))

    code = counted

    def spec(est, names, X):
        import re

        lo, hi = est.ngram_range

        def grams(doc):
            t = re.compile(r"\s\s+").sub(" ", doc.lower())
            padded = [" " + w + " " for w in t.split()]
            # a word shorter than n counts as a whole, once
            return [w[i:i + n] for w in padded for n in range(lo, hi + 1) if n == lo or len(w) >= n for i in range(max(len(w) - n, 0) + 1)]

        return [[sum([1 for g in grams(x) if g == f]) for f in names] for x in X]


@contract("C12", "preparation of documents", covers=TEXT)
class Prepared:
    def build(S):
        strip = S.choice("strip", [None, "ascii", "unicode"])
        kw = dict(COUNT, lowercase=S.choice("lower", [True, False]), strip_accents=strip, token_pattern=PATTERNS[0], encoding=S.choice("encoding", ["utf-8", "latin-1"]),
                  decode_error=S.choice("errors", ["strict", "ignore"]))
        names = S.list("names", S.dim("V"), "obj", tag="str", distinct=True)
        est = S.stub("CountVectorizer", vocabulary_=S.make(positions, names), dtype=S.dtype("int64"), __getstate__=version(S), **kw)
        raw = S.choice("raw", [True, False])

        def document(S):
            text = S.make(spaced, S.list("tokens", S.dim("m", 0), "obj", tag="str"))
            return S.make(encoded, text) if raw else text

        return est, names, S.each("X", S.dim("n"), document)

    code = counted

    def spec(est, names, X):
        import re
        import unicodedata

        def ascii(s):
            return unicodedata.normalize("NFKD", s).encode("ASCII", "ignore").decode("ASCII")

        def unicode(s):
            try:
                s.encode("ASCII", errors="strict")
                return s
            except UnicodeEncodeError:
                return "".join([c for c in unicodedata.normalize("NFKD", s) if not unicodedata.combining(c)])

        def tokens(doc):
            s = doc.decode(est.encoding, est.decode_error) if isinstance(doc, bytes) else doc
            s = s.lower() if est.lowercase else s
            s = ascii(s) if est.strip_accents == "ascii" else unicode(s) if est.strip_accents == "unicode" else s
            return re.compile(est.token_pattern).findall(s)

        return [[sum([1 for t in tokens(x) if t == f]) for f in names] for x in X]


def encoded(text):
    return text.encode("utf-8")


@contract("C12", "weighted counts", covers=TEXT)
class Weighted:
    def build(S):
        V = S.dim("V")
        names = S.list("names", V, "obj", tag="str", distinct=True)
        idf = S.choice("idf", [True, False])
        inner = S.stub("TfidfTransformer", norm=S.choice("norm", ["l1", "l2", None]), use_idf=idf, smooth_idf=True, sublinear_tf=S.choice("sublinear", [True, False]),
                       __getstate__=version(S), **({"idf_": S.ndarray("weights", V), "_idf_diag": S.stub("diags", shape=(V, V))} if idf else {}))
        est = S.stub("TfidfVectorizer", vocabulary_=S.make(positions, names), dtype=S.dtype("float64"), _tfidf=inner, __getstate__=version(S),
                     **{**COUNT, "token_pattern": PATTERNS[0], "binary": S.choice("binary", [True, False])})
        return est, names, documents(S)

    code = counted

    def spec(est, names, X):
        from math import log, sqrt

        t = est._tfidf

        def weight(x, j):
            ws = words(x, est.token_pattern)
            if not any([w == names[j] for w in ws]):
                return 0
            n = 1 if est.binary else sum([1 for w in ws if w == names[j]])
            tf = log(n) + 1 if t.sublinear_tf else n
            return tf * float(t.idf_[j]) if t.use_idf else tf

        def normed(row):
            size = sum([abs(v) for v in row]) if t.norm == "l1" else sqrt(sum([v * v for v in row])) if t.norm == "l2" else 1
            return [v / size if size else v for v in row]

        return [normed([weight(x, j) for j in range(len(names))]) for x in X]


@contract("C12", "hashed documents", covers=TEXT + ["pure_sklearn.feature_extraction._hash"], given=GIVEN)
class Hashing:
    def build(S):
        est = S.stub("HashingVectorizer", dtype=S.dtype("float64"), norm=S.choice("norm", ["l1", "l2", None]), n_features=S.dim("width", 1, (1 << 31) - 1),
                     alternate_sign=S.choice("signed", [True, False]), __getstate__=version(S),
                     **{**COUNT, "token_pattern": PATTERNS[0], "binary": S.choice("binary", [True, False])})
        return est, documents(S)

    def code(est, X):
        from pure_sklearn.map import convert_estimator

        return convert_estimator(est).transform(X).todense()

    def spec(est, X):
        from math import sqrt

        def value(x, j):
            ws = [w for w in words(x, est.token_pattern) if column(hash_of(w, 0), est.n_features) == j]
            if est.binary:
                return 1 if ws else 0
            return sum([1 if hash_of(w, 0) >= 0 or not est.alternate_sign else -1 for w in ws])

        def normed(row):
            size = sum([abs(v) for v in row]) if est.norm == "l1" else sqrt(sum([v * v for v in row])) if est.norm == "l2" else 1
            return [v / size if size else v for v in row]

        return [normed([value(x, j) for j in range(est.n_features)]) for x in X]
