"""C18: the priority queue always returns a vertex of minimal cost."""
from . import har, hp

PROP = "C18"
LEVEL = "proof"


def modules(tier):
    # the queue is only used with the two views of the graph
    return [hp.module("From", "queue-original"), hp.module("To", "queue-transposed")]


HARNESS = [har.heap()]
SECS = (10, 90)
SEARCH_SECS = 40
ASSUMPTIONS = ["only the instantiation with graphs over int is covered", "costs do not overflow", "a queue holds fewer than 2^30 vertices", "termination is not shown"]
BOUNDED_SCOPE = "random operation sequences on up to 90 elements compared with a reference set"
RULE = "random episodes of growing size; see the harness for what counts as non-trivial"
EXPLANATION = "The array is ordered as heap, positions are inverse to it, and pop returns an element that no other element of the queue precedes; push, decrease and increase keep the set of elements otherwise."
