"""C20: fastText models."""
from pyvc.api import contract

FILES = ["pure_fasttext.FastText"]
EOS = "</s>"


def line(pieces):
    return "".join(pieces)


def text(S, m="m"):
    return S.make(line, S.list("pieces", S.dim(m, 0), "obj", tag="piece"))


def labels(S, K):
    return S.each("labels", K, lambda S: S.make(lambda w: "__label__" + w, S.obj("label", "word")))


def model(S, supervised, loss="softmax", maxn=0, ngrams=1):
    """A trained model: V words with a vector each, K labels."""
    V, D, K = S.dim("V"), S.dim("D"), S.dim("K")
    words = S.list("words", V, "obj", tag="word", distinct=True)
    names = S.list("names", K, "obj", tag="word")
    labels = S.make(labelled, names) if supervised else words
    M, O = S.rows("M", V, D), S.rows("O", K, D)
    m = S.stub("_FastText", "fasttext.FastText", label="__label__", maxn=maxn, wordNgrams=ngrams, loss=S.stub("loss_name", "fasttext_pybind", name=loss),
               get_words=S.method(words), get_labels=S.method(labels), get_dimension=S.method(D), get_input_matrix=S.method(S.arr(M)),
               get_output_matrix=S.method(S.arr(O)), is_quantized=S.method(False))
    S.assume(marked if supervised else plain, labels)
    return m, words, labels, M, O, D


def labelled(names):
    return ["__label__" + n for n in names]


def marked(labels):
    return "__label__" in labels[0]


def plain(labels):
    return "__label__" not in labels[0]


def vectors_of(tokens, words, M):
    return [M[words.index(t)] for t in tokens if t in words]


def mean(vs, D):
    return [sum([v[j] for v in vs]) / len(vs) if vs else 0.0 for j in range(D)]


def tokens(x):
    """What the original reads from one line: up to the end-of-sentence word, which counts."""
    import re

    ts = re.split("[ \n\t\v\r\f\0]+", x + "\n") + [EOS]
    return ts[: ts.index(EOS) + 1]


def sentence(x, words, M, D):
    return mean(vectors_of(tokens(x), words, M), D)


@contract("C20", "word vectors", covers=FILES)
class Words:
    def build(S):
        m, words, labels, M, O, D = model(S, S.choice("supervised", [True, False]))
        return m, words, M, D, S.obj("w", "word")

    def code(m, words, M, D, w):
        from pure_fasttext import FastText

        p = FastText(m)
        return p.get_word_id(w), p.get_word_vector(w)

    def spec(m, words, M, D, w):
        if w in words:
            return words.index(w), M[words.index(w)]
        return -1, [0.0 for j in range(D)]


@contract("C20", "sentence vectors, supervised", covers=FILES)
class Sentences:
    def build(S):
        return model(S, True) + (text(S),)

    def code(m, words, labels, M, O, D, x):
        from pure_fasttext import FastText

        return FastText(m).get_sentence_vector(x)

    def spec(m, words, labels, M, O, D, x):
        if "\n" in x:
            raise ValueError
        return sentence(x, words, M, D)


@contract("C20", "sentence vectors, unsupervised", covers=FILES)
class Unsupervised:
    def build(S):
        return model(S, False) + (text(S),)

    def code(m, words, labels, M, O, D, x):
        from pure_fasttext import FastText

        return FastText(m).get_sentence_vector(x)

    def spec(m, words, labels, M, O, D, x):
        import re
        from math import sqrt

        if "\n" in x:
            raise ValueError
        vs = vectors_of(re.split("[ \n\t\v\r\f]+", x + "\n"), words, M)
        long = [v for v in vs if sqrt(sum([a * a for a in v])) > 0]
        return mean([[a / sqrt(sum([b * b for b in v])) for a in v] for v in long], D)


def probabilities(x, words, M, O, D):
    from math import exp

    v = sentence(x, words, M, D)
    z = [sum([v[j] * o[j] for j in range(D)]) for o in O]
    e = [exp(s - max(z)) for s in z]
    return [a / sum(e) for a in e]


def best(ps, labels, k, threshold):
    """Label and probability of the k most probable classes above the threshold."""
    order = sorted(range(len(ps)), key=lambda i: ps[i])[::-1]
    kept = [i for i in order if ps[i] >= threshold]
    kept = kept if k == -1 else kept[:k]
    return tuple([labels[i] for i in kept]), [ps[i] for i in kept]


@contract("C20", "labels and probabilities", covers=FILES)
class Predict:
    def build(S):
        return model(S, True) + (text(S), S.int("k", -3), S.float("threshold", "unit"))

    def code(m, words, labels, M, O, D, x, k, threshold):
        from pure_fasttext import FastText

        return FastText(m).predict(x, k, threshold)

    def spec(m, words, labels, M, O, D, x, k, threshold):
        if k < 1 and k != -1 or "\n" in x:
            raise ValueError
        return best(probabilities(x, words, M, O, D), labels, k, threshold)


@contract("C20", "lists of texts", covers=FILES)
class Many:
    """Every text of a list gets what it gets alone (that is the contract above)."""

    def build(S):
        m, words, labels, M, O, D = model(S, True)
        return m, S.each("X", S.dim("n", 0), lambda S: text(S)), S.int("k", -3), S.float("threshold", "unit")

    def code(m, X, k, threshold):
        from pure_fasttext import FastText

        return FastText(m).predict(X, k, threshold)

    def spec(m, X, k, threshold):
        from pure_fasttext import FastText

        out = [FastText(m).predict(x, k, threshold) for x in X]
        return [a for a, b in out], [b for a, b in out]


@contract("C20", "unsupervised models give no labels", covers=FILES)
class NoLabels:
    def build(S):
        return model(S, False)[0], text(S)

    def code(m, x):
        from pure_fasttext import FastText

        return FastText(m).predict(x)

    def spec(m, x):
        raise ValueError


@contract("C20", "models refused", covers=FILES, any_exception=True)
class Refused:
    def build(S):
        sup = S.choice("supervised", [True, False])
        m = model(S, sup, S.choice("loss", ["softmax", "hs", "ns", "ova"]), S.int("maxn", 0), S.int("ngrams", 0))[0]
        return m, sup

    def code(m, sup):
        from pure_fasttext import FastText

        FastText(m)
        return True

    def spec(m, sup):
        if m.maxn != 0 or sup and (m.loss.name != "softmax" or m.wordNgrams > 1):
            raise ValueError
        return True
