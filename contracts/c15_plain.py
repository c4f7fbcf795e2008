"""C15: a converted model holds plain Python data only, or the conversion is refused."""
from pyvc.api import contract
from contracts import _fitted


def plain(o):
    """Plain data, at any depth."""
    if isinstance(o, type):
        return o.__module__ == "builtins"
    if o is None:
        return True
    if isinstance(o, (int, float, str, bool)):
        return type(o).__module__ == "builtins"
    if type(o) in (list, tuple):
        return all([plain(x) for x in o])
    if type(o) is dict:
        return all([plain(k) for k in o]) and all([plain(o[k]) for k in o])
    if type(o).__module__.startswith("pure_sklearn"):
        return all([plain(v) for v in vars(o).values()])
    return False


INDUCTIVE = {"pure_sklearn.utils.check_types": "raises", "contracts.c15_plain.plain": "holds"}


class Held:
    """Stands for a converted object."""

    __module__ = "pure_sklearn.any"

    def __init__(self, a, b, c):
        self.a = a
        self.b_ = b
        self._c = c


@contract("C15", "check_types accepts exactly the plain data", inductive=INDUCTIVE)
class CheckTypes:
    def build(S):
        kind = S.choice("kind", ["leaf", "list", "tuple", "dict", "dict key", "held", "type", "numpy type", "set", "array", "pair"])
        if kind in ("list", "tuple"):
            return (S.list("items", S.dim("n", 0), "obj", tag="any", kind=kind),)
        if kind == "dict":
            n = S.dim("n", 0)
            keys = S.list("keys", n, "obj", tag="label", distinct=True)
            return (S.make(zipped, keys, S.list("values", n, "obj", tag="any")),)
        if kind == "dict key":
            return (S.dict({S.np("a", "str_"): 1}),)
        if kind == "held":
            return (S.make(held, S.obj("a", "any"), S.obj("b", "any"), S.obj("c", "any")),)
        if kind == "type":
            return (S.dtype("float"),)
        if kind == "numpy type":
            return (S.dtype("float64"),)
        if kind == "set":
            return (S.make(as_set, S.list("items", S.dim("n", 0), "int")),)
        if kind == "array":
            return (S.ndarray("items", S.dim("n", 0), "float"),)
        if kind == "pair":
            return (S.pylist([S.obj("a", "any"), S.pylist([S.obj("b", "any"), S.dict({"k": S.obj("c", "any")})])], kind="tuple"),)
        return (S.obj("item", "leaf"),)

    def code(o):
        from pure_sklearn.utils import check_types

        check_types(o)
        return True

    def spec(o):
        if not plain(o):
            raise ValueError()
        return True


def held(a, b, c):
    return Held(a, b, c)


def as_set(v):
    return set(v)


def zipped(keys, values):
    return dict(zip(keys, values))


def kept(est):
    """Plain data is kept, if anything."""
    from pure_sklearn.map import convert_estimator

    try:
        model = convert_estimator(est)
    except Exception:
        return True
    return plain(model)


def yes(est):
    return True


def converted(est):
    from pure_sklearn.map import convert_estimator

    return plain(convert_estimator(est))


@contract("C15", "every converted model holds plain data", covers=["pure_sklearn.map", "pure_sklearn.utils"])
class Converted:
    def build(S):
        family = S.choice("family", sorted(_fitted.FAMILIES))
        return (_fitted.FAMILIES[family](S),)

    code = converted
    spec = yes


def value(S):
    return S.obj("value", "leaf")


def array(S):
    return S.ndarray("values", S.dim("length"), "obj", tag="leaf")


def items(S):
    return S.list("values", S.dim("length", 0), "obj", tag="leaf")


def pair(S):
    return S.pylist([S.obj("value", "leaf"), 1], "tuple")


def word(S):
    return S.np(S.choice("text", ["deviance", "prior", "multi:softprob", "gbtree", "l2", "="]), "str_")


def rate(S):
    return S.np(0.5, "float64")


def whole(S):
    return S.np(2, "int64")


def matrix(S):
    return S.ndarray("values", (S.dim("length"), S.dim("width")), "obj", tag="number")


def listed(S):
    return S.each("lists", S.dim("length"), lambda S: S.ndarray("values", S.dim("height"), "obj", tag="number"))



def names(S):
    return S.dict({S.np("a", "str_"): 0, "b": 1})


# what may be foreign: attributes that the counterparts read
FOREIGN = {
    "linear": {"coef_": matrix, "intercept_": array, "classes_": array, "multi_class": value, "solver": value, "loss": value},
    "tree": {"classes_": array},
    "forest": {"classes_": array},
    "bagging": {"classes_": array},
    "boosting": {"classes_": array, "loss": word, "n_features_": value, "learning_rate": rate},
    "xgb": {"classes_": array, "n_classes_": whole, "objective": word, "booster": word},
    "bayes": {"classes_": array},
    "dummy": {"classes_": array, "class_prior_": array, "n_classes_": value, "n_outputs_": value, "_strategy": word, "strategy": word},
    "scaler": {"scale_": array, "mean_": array, "min_": array, "max_abs_": array, "norm": value, "copy": value, "with_mean": value, "with_std": value, "feature_range": pair},
    "encoder": {"categories_": listed, "sparse": value, "handle_unknown": value},
    "imputer": {"statistics_": array, "strategy": value, "add_indicator": value, "missing_values": word},
    "indicator": {"features": value, "features_": array, "_n_features": value, "error_on_new": value, "missing_values": word},
    "records": {"vocabulary_": names, "feature_names_": items, "sparse": value, "separator": value},
    "counts": {"binary": value, "analyzer": value, "preprocessor": value, "tokenizer": value, "stop_words": items, "token_pattern": value, "ngram_range": pair,
               "strip_accents": value, "decode_error": value, "encoding": value, "lowercase": value, "input": value, "vocabulary_": names},
    "documents": {"binary": value, "analyzer": value, "preprocessor": value, "tokenizer": value, "stop_words": items, "token_pattern": value, "ngram_range": pair,
                  "strip_accents": value, "decode_error": value, "encoding": value, "lowercase": value, "input": value},
    "hashing": {"norm": value, "n_features": value, "alternate_sign": value, "binary": value, "analyzer": value, "preprocessor": value, "tokenizer": value,
                "stop_words": items, "token_pattern": value, "ngram_range": pair, "strip_accents": value, "decode_error": value, "encoding": value, "lowercase": value,
                "input": value},
    "weights": {"norm": value, "use_idf": value, "smooth_idf": value, "sublinear_tf": value, "idf_": array},
    "pipeline": {"steps": lambda S: S.pylist([S.pylist([S.obj("value", "leaf"), _fitted.scaler_step(S, "more")], "tuple")])},
    "union": {"transformer_list": lambda S: S.pylist([S.pylist([S.obj("value", "leaf"), _fitted.scaler_step(S, "more")], "tuple")])},
}


@contract("C15", "foreign attributes are made plain or refused", covers=["pure_sklearn.map", "pure_sklearn.utils"])
class Foreign:
    def build(S):
        family = S.choice("family", sorted(FOREIGN))
        options = FOREIGN[family]
        name = S.choice("attribute", sorted(options))
        est = _fitted.FAMILIES[family](_fitted.First(S, "cls"))
        S.attrs(est, **{name: options[name](S)})
        return (est,)

    code = kept
    spec = yes
