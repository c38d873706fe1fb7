"""Bounded harnesses (never counted as proved) shared by the specifications."""
SRC = "$REPO/libclingo-dl/src/"


def graph(**kw):
    return dict(src="h_graph.cc", extra=[SRC + "parsing.cc", SRC + "theory.cc"], jobs=kw.pop("jobs", 4), **kw)


def parse(**kw):
    return dict(src="h_parse.cc", extra=[SRC + "theory.cc"], jobs=kw.pop("jobs", 4), **kw)


def opt(**kw):
    return dict(src="h_opt.cc", extra=[SRC + "graph.cc", SRC + "parsing.cc", SRC + "theory.cc"], jobs=kw.pop("jobs", 4), **kw)


def e2e(**kw):
    return dict(src="h_e2e.cc", extra=[SRC + "graph.cc", SRC + "parsing.cc", SRC + "theory.cc"], jobs=kw.pop("jobs", 4), **kw)


def heap(**kw):
    return dict(src="h_heap.cc", jobs=kw.pop("jobs", 4), **kw)
