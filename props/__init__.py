"""The checks, one function per property."""
REGISTRY = {}


def prop(pid):
    def f(fn):
        REGISTRY[pid] = fn
        return fn
    return f


from . import values_, eval_, scope_, vars_, effects_, print_, program_, commands_, globals_, front_, lexer_, unparse_, lists_, maps_, inplace_, regex_, shell_, input_, terms_, random_, literals_  # noqa
