"""C11: option values are parsed exactly or rejected without effect."""
from cxxwp.prove import Module
from . import har
from . import opts

PROP = "C11"
LEVEL = "proof"



def modules(tier):
    return [Module("options", "libclingo-dl/src/clingo-dl.cc", opts.base_contracts() + opts.option_contracts() + [opts.configure()], externals=opts.EXTS,
                   filters=("ClingoDL", "(anonymo", "clingodl"), lemmas=opts.num_lemmas()), opts.registration_module()]


HARNESS = [har.opt()]
SECS = (4, 60)
SEARCH_SECS = 20
ASSUMPTIONS = ["tolower behaves as in the C locale", "memory allocation does not fail"]
BOUNDED_SCOPE = "random option values derived from the documented ones by mutation, compared with an independent parser"
RULE = "random keys and values; non-trivial: accepted values"
EXPLANATION = "Parsers are specified over the characters of the text: a value is accepted if and only if it matches the grammar of the option and fits its type, the settings afterwards are those given by the text, and rejected texts leave the configuration as is."
