"""Builders and specification helpers shared by the contracts."""


def version(S):
    return S.method(S.dict({"_sklearn_version": "0.23.2"}))
