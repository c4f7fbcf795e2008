"""C16: every estimator is converted to its own counterpart, or refused."""
from pyvc.api import contract
from contracts import _fitted
from contracts._lib import version

COVERS = ["pure_sklearn.map", "pure_sklearn.utils"]
NAMES = ["LogisticRegression", "RidgeClassifier", "SGDClassifier", "Perceptron", "PassiveAggressiveClassifier", "LinearSVC", "DecisionTreeClassifier",
         "DecisionTreeRegressor", "ExtraTreeClassifier", "ExtraTreeRegressor", "RandomForestClassifier", "BaggingClassifier", "GradientBoostingClassifier",
         "XGBClassifier", "ExtraTreesClassifier", "GaussianNB", "MultinomialNB", "ComplementNB", "SimpleImputer", "MissingIndicator", "DummyClassifier",
         "Pipeline", "FeatureUnion", "OneHotEncoder", "OrdinalEncoder", "StandardScaler", "MinMaxScaler", "MaxAbsScaler", "Normalizer", "DictVectorizer",
         "TfidfVectorizer", "CountVectorizer", "TfidfTransformer", "HashingVectorizer"]


def convert(est):
    from pure_sklearn.map import convert_estimator

    return convert_estimator(est)


def refused(est):
    raise ValueError()


@contract("C16", "every supported estimator becomes its own counterpart", covers=COVERS)
class Counterpart:
    def build(S):
        family = S.choice("family", sorted(_fitted.FAMILIES))
        return (_fitted.FAMILIES[family](_fitted.First(S, "cls", "loss", "multi", "indicator", "weighted")),)

    def code(est):
        from pure_sklearn.map import convert_estimator

        a, b = convert_estimator(est), convert_estimator(est)
        return type(a).__name__, type(b).__name__, type(a).__module__.split(".")[0], a

    def spec(est):
        from pure_sklearn.map import convert_estimator

        name = type(est).__name__ + "Pure"
        return name, name, "pure_sklearn", convert_estimator(est)


@contract("C16", "an estimator without fitted state is refused, whatever its class", covers=COVERS, any_exception=True)
class Unfitted:
    def build(S):
        if S.choice("supported", [False, True]):
            name = S.choice("cls", NAMES)
        else:
            name = S.choice("cls", ["KMeans", "SVC", "RandomForestRegressor", "logisticregression", "LogisticRegressionPure", "LogisticRegressionCV", ""])
        return (S.stub(name, __getstate__=version(S)),)

    code = convert
    spec = refused


# attributes without which a counterpart cannot answer
NEEDED = {
    "linear": ["coef_", "classes_"],
    "tree": ["tree_"],
    "regressor": ["tree_"],
    "forest": ["estimators_", "classes_"],
    "bagging": ["estimators_", "classes_"],
    "boosting": ["estimators_", "classes_", "loss", "learning_rate", "n_features_"],
    "xgb": ["classes_", "n_classes_", "n_estimators", "get_booster", "objective", "booster"],
    "bayes": ["classes_"],
    "dummy": ["class_prior_", "classes_", "n_classes_", "n_outputs_"],
    "encoder": ["categories_", "dtype"],
    "imputer": ["statistics_", "strategy", "missing_values"],
    "indicator": ["features_", "features", "_n_features", "missing_values", "error_on_new"],
    "records": ["vocabulary_", "feature_names_", "sparse", "dtype", "separator"],
    "counts": ["vocabulary_", "dtype", "binary", "analyzer", "ngram_range", "lowercase", "token_pattern"],
    "weights": ["norm", "use_idf", "idf_", "sublinear_tf"],
    "documents": ["vocabulary_", "_tfidf", "binary", "analyzer", "ngram_range", "lowercase"],
    "hashing": ["n_features", "norm", "alternate_sign", "binary", "analyzer", "ngram_range"],
    "pipeline": ["steps"],
    "union": ["transformer_list"],
}


@contract("C16", "an estimator that lacks part of its state is refused", covers=COVERS, any_exception=True)
class Partial:
    def build(S):
        family = S.choice("family", sorted(NEEDED))
        est = _fitted.FAMILIES[family](_fitted.First(S, "cls"))
        return (S.drop(est, S.choice("attribute", NEEDED[family])),)

    code = convert
    spec = refused


@contract("C16", "settings without a counterpart are refused", covers=COVERS, any_exception=True)
class Settings:
    def build(S):
        kind = S.choice("kind", ["strategy", "_strategy", "loss", "objective", "booster", "forests", "drop", "step", "transformer", "init"])
        if kind in ("strategy", "_strategy"):
            est = _fitted.dummy(_fitted.First(S))
            other = S.obj("other", "str")
            S.assume(differs, other, "prior")
            if kind == "strategy":
                S.drop(est, "_strategy")
            S.attrs(est, **{kind: other})
        elif kind == "loss":
            est = _fitted.boosting(_fitted.First(S, "loss"))
            other = S.obj("other", "str")
            S.assume(differs, other, "deviance")
            S.assume(differs, other, "exponential")
            S.attrs(est, loss=other)
        elif kind in ("objective", "booster"):
            est = _fitted.xgb(_fitted.First(S, "multi"))
            other = S.obj("other", "str")
            for known in ["binary:logistic", "multi:softprob"] if kind == "objective" else ["gbtree"]:
                S.assume(differs, other, known)
            S.attrs(est, **{kind: other})
        elif kind == "forests":
            est = _fitted.xgb(_fitted.First(S, "multi"))
            S.attrs(est, num_parallel_tree=S.int("parallel", 2))
        elif kind == "drop":
            est = S.attrs(_fitted.encoder(_fitted.First(S)), drop=S.choice("dropped", ["first", "if_binary"]))
        elif kind == "step":
            last = S.pylist([S.obj("last", tag="str"), S.choice("other", ["passthrough", None])], "tuple")
            est = S.stub("Pipeline", steps=S.pylist([S.pylist([S.obj("first", tag="str"), _fitted.scaler_step(S)], "tuple"), last]), __getstate__=version(S))
        elif kind == "transformer":
            est = S.stub("FeatureUnion", transformer_list=S.pylist([S.pylist([S.obj("first", tag="str"), S.stub("PCA", __getstate__=version(S))], "tuple")]),
                         transformer_weights=None, __getstate__=version(S))
        else:
            est = S.attrs(_fitted.boosting(_fitted.First(S, "loss")), init_=S.choice("other", ["zero", None]))
        return (est,)

    code = convert
    spec = refused


def differs(a, b):
    return a != b


def dotted(a, b, c):
    return "%d.%d.%d" % (a, b, c)


def state(text):
    return {"_sklearn_version": text}


def numbers(S, name):
    return S.int(name + "0", 0), S.int(name + "1", 0), S.int(name + "2", 0)


@contract("C16", "versions are compared number by number", covers=COVERS)
class Versions:
    def build(S):
        mine = numbers(S, "version")
        least = numbers(S, "least") if S.choice("needed", [False, True]) else None
        known = S.choice("known", [True, False])
        est = S.stub("Any", **({"__getstate__": S.method(S.make(state, S.make(dotted, *mine)))} if known else {}))
        return est, S.make(dotted, *least) if least else None, S.pylist(mine), S.pylist(least) if least else None, known

    def code(est, least, mine, least_numbers, known):
        import warnings
        from pure_sklearn.utils import check_version

        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            warnings.filterwarnings("ignore", category=DeprecationWarning)
            check_version(est, least)
        return len(log) > 0

    def spec(est, least, mine, least_numbers, known):
        if not known:
            return True
        if least_numbers is not None and tuple(mine) < tuple(least_numbers):
            raise Exception()
        return tuple(mine) < (0, 20)


@contract("C16", "estimators of old versions raise a warning or are refused", covers=COVERS, any_exception=True)
class Old:
    def build(S):
        family = S.choice("family", [f for f in sorted(_fitted.FAMILIES) if f != "xgb"])
        est = _fitted.FAMILIES[family](_fitted.First(S, "cls"))
        mine = numbers(S, "version")
        return S.attrs(est, __getstate__=S.method(S.make(state, S.make(dotted, *mine)))), S.pylist(mine)

    def code(est, mine):
        import warnings
        from pure_sklearn.map import convert_estimator

        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            warnings.filterwarnings("ignore", category=DeprecationWarning)
            convert_estimator(est)
        return len(log) > 0

    def spec(est, mine):
        if type(est).__name__ == "GradientBoostingClassifier" and tuple(mine) < (0, 21, 0):
            raise Exception()
        return tuple(mine) < (0, 20)
