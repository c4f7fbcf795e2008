"""fastText models against the original library (bounded)."""
import os
import tempfile

from pyvc.api import Reject, runtime
from runtime import _zoo as z

VOCAB = ["the", "cat", "sat", "on", "mat", "été", "a1", "foo", "bar", "x"]
CACHE = {}


def model(rng, kind):
    import fasttext

    fasttext.FastText.eprint = lambda *a: None
    key = (kind, rng.randrange(4))
    if key in CACHE:
        return CACHE[key]
    n = rng.choice([2, 3, 5])
    lines = []
    for i in range(30):
        words = [rng.choice(VOCAB) for _ in range(rng.choice([1, 3, 6]))]
        lines.append(("__label__%d " % (i % n) if kind == "sup" else "") + " ".join(words))
    fd, path = tempfile.mkstemp(prefix="pyvc-ft-")
    with os.fdopen(fd, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    try:
        if kind == "sup":
            m = fasttext.train_supervised(path, dim=rng.choice([1, 4, 7]), lr=1.0, epoch=rng.choice([5, 30]), thread=1, verbose=0)
        else:
            m = fasttext.train_unsupervised(path, model=rng.choice(["skipgram", "cbow"]), dim=rng.choice([2, 6]), minn=0, maxn=0, minCount=1, thread=1, verbose=0)
    finally:
        os.unlink(path)
    from pure_fasttext import FastText

    CACHE[key] = (m, FastText(m))
    return CACHE[key]


def text(rng):
    sep = rng.choice([" ", " ", "  ", "\t", "\v", "\f", "\r", "\0", "\u00a0", "\u2003", ",", " </s> ", "\x1f", "\x85"])
    t = sep.join(rng.choice(VOCAB + ["unknown", "The", "__label__0"]) for _ in range(rng.choice([0, 1, 2, 5])))
    return rng.choice(["", "", " ", "\t"]) + t + rng.choice(["", "", " "])


def near(a, b, tol=1e-5):
    a = [float(v) for v in a]
    b = [float(v) for v in b]
    return len(a) == len(b) and all(abs(x - y) <= tol * max(1.0, abs(y)) for x, y in zip(a, b))


@runtime("C20", "vectors against fasttext", trials=150)
def vectors(rng):
    m, p = model(rng, rng.choice(["sup", "uns"]))
    t = text(rng)
    w = rng.choice(VOCAB + ["unknown", ""])
    for f, a in (("get_sentence_vector", t), ("get_word_vector", w)):
        k, v = z.call(getattr(p, f), a)
        k0, v0 = z.call(getattr(m, f), a)
        if k != k0 or k == "ok" and not near(v, v0):
            return "%s(%r): %r, original %r" % (f, a, v, v0)
    if p.get_word_id(w) != m.get_word_id(w):
        return "get_word_id(%r): %r, original %r" % (w, p.get_word_id(w), m.get_word_id(w))
    if "\n" not in t:
        k, v = z.call(p.get_sentence_vector, t + "\n" + t)
        if k == "ok":
            return "a text of two lines is accepted"


@runtime("C20", "labels and probabilities against fasttext", trials=150)
def predictions(rng):
    m, p = model(rng, "sup")
    k = rng.choice([1, 1, 2, 3, 10, -1, 0, -2])
    th = rng.choice([0.0, 0.0, 0.1, 0.33, 0.45])
    t = text(rng)
    full = sorted([pr for pr, _ in m.f.predict(t + "\n", 100, 0.0, "strict")], reverse=True)
    if any(abs(a - b) < 1e-4 for a, b in zip(full, full[1:])) or any(abs(a - th) < 1e-4 for a in full):
        raise Reject()  # order or cut decided by rounding
    if k < 1 and k != -1:
        kk, v = z.call(p.predict, t, k, th)
        return "k=%d is accepted: %r" % (k, v) if kk == "ok" else None
    want = m.f.predict(t + "\n", len(full) if k == -1 else k, th, "strict")
    labels, probs = p.predict(t, k, th)
    if list(labels) != [lab for _, lab in want] or not near(probs, [q for q, _ in want], 5e-5):
        return "predict(%r, k=%d, threshold=%r): %r, original %r" % (t, k, th, (labels, probs), want)
    many = [t, text(rng), ""]
    a, b = p.predict(many, k, th)
    for i, one in enumerate(many):
        if (a[i], b[i]) != p.predict(one, k, th):
            return "predict of a list differs at %r" % one


@runtime("C20", "unsupported fastText models are refused", trials=6)
def refused(rng):
    import fasttext
    from pure_fasttext import FastText

    fasttext.FastText.eprint = lambda *a: None
    kw = rng.choice([dict(wordNgrams=2), dict(minn=2, maxn=3), dict(loss="hs"), dict(loss="ova"), dict(loss="ns"), None])
    fd, path = tempfile.mkstemp(prefix="pyvc-ft-")
    with os.fdopen(fd, "w") as fh:
        for i in range(12):
            fh.write("__label__%d %s\n" % (i % 2, " ".join(VOCAB)))
    try:
        if kw is None:
            kw = dict(minn=3, maxn=4)
            m = fasttext.train_unsupervised(path, minCount=1, epoch=1, dim=2, thread=1, verbose=0, bucket=100, **kw)
        else:
            m = fasttext.train_supervised(path, epoch=1, dim=2, thread=1, verbose=0, bucket=100, **kw)
    finally:
        os.unlink(path)
    k, v = z.call(FastText, m)
    return "a model with %r is accepted" % kw if k == "ok" else None
