"""Contracts that stand for functions at call sites."""


def install(interp):
    pass
