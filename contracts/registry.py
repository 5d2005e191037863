"""Which contracts, lemmas and replay effort decide which property."""
from . import blocks as BL
from . import edits as ED
from . import files as FI
from . import intf as IN
from . import ip as IP
from . import junos as J
from . import lines as L
from . import parse as PA
from . import trunk as TR
from . import values as VA

# cases per quick run of the executable oracle
REPLAY = {k: dict(n=v) for k, v in {
    "C01": 20000, "C02": 20000, "C03": 20000, "C04": 20000, "C05": 20000, "C06": 20000, "C07": 20000, "C08": 20000, "C09": 20000, "C10": 20000,
    "C11": 20000, "C12": 16000, "C13": 60000, "C14": 16000, "C15": 80000, "C16": 50000, "C17": 80000, "C18": 60000, "C19": 50000, "C20": 100000,
    "C21": 20000, "C22": 30000, "C23": 30000, "C24": 40000, "C25": 20000, "C26": 20000}.items()}

DROPPED = [
    "docstrings, comments, decorators of loguru (logger.catch) and calls on logger: taken as having no effect on the result",
    "type annotations: not used",
]


def line_prop(contracts, **kw):
    d = dict(contracts=contracts, folds=list(dict.fromkeys(f for c in contracts for f in c.folds)), fields=L.FIELDS,
             ref_class=(L.ABC, "BaseCfgLine"), hooks=getattr(L, "HOOKS", None), trusted=list(L.TRUSTED),
             lemmas=lems())
    d.update(kw)
    return d


def ip_prop(contracts, **kw):
    d = dict(contracts=contracts, folds=[], fields={}, ref_class=None, hooks=IP.HOOKS, models=IP.MODELS, trusted=list(IP.TRUSTED), lemmas=[],
             theorems=IP.order_theorems,
             bounded="construction from text (regular expressions and ipaddress parsing), comparison with objects of other types: executed by the "
                     "replay oracle only",
             assumptions=["class invariant of the object under test (address and prefix length in range, network = block of the address): established by "
                          "the __init__ contracts and preserved by every setter contract for integers and objects; for text input by the replay oracle only"])
    d.update(kw)
    return d


def parse_prop(contracts, **kw):
    d = dict(contracts=contracts, folds=list(PA.FOLDS), fields=PA.FIELDS, ref_class=PA.REF_CLASS, hooks=PA.HOOKS, models=PA.MODELS,
             trusted=list(L.TRUSTED) + list(PA.TRUSTED), lemmas=[(lm, PA.lem_hyps) for lm in PA.LEMMAS])
    d.update(kw)
    return d


def edit_prop(contracts, **kw):
    d = dict(contracts=contracts, folds=list(ED.FOLDS), fields=PA.FIELDS, ref_class=PA.REF_CLASS, hooks=ED.HOOKS, models=ED.MODELS, trusted=list(L.TRUSTED) + list(ED.TRUSTED),
             lemmas=[(lm, ED.lem_hyps) for lm in ED.LEMMAS])
    d.update(kw)
    return d


def value_prop(contracts, **kw):
    d = dict(contracts=contracts, folds=[], fields={}, ref_class=None, hooks=VA.HOOKS, models=VA.MODELS, trusted=[], lemmas=[])
    d.update(kw)
    return d


def prop(pid):
    return PROPS[pid]()


def known_match(entry, failure):
    """does this known-findings line describe this failure?  entries name the class and the message they stand for"""
    return f"class={failure['class']} " in entry and entry.split("message=")[-1] in failure["msg"]


PROPS = {
    "C01": lambda: parse_prop(PA.C01, bounded=PA.BOUNDED),
    "C02": lambda: parse_prop(PA.C01, bounded=PA.BOUNDED + "; the parent rule in configurations with banners, macros or brace lines"),
    "C03": lambda: parse_prop(PA.C01, bounded=PA.BOUNDED),
    "C04": lambda: line_prop(L.C04, lemmas=lems() + [(lm, L.lem04_hyps) for lm in L.LEM04], theorems=L.c04_theorems,
                             assumptions=[L.LINK_ASSUMPTION + " (established for parses by C03; here assumed)"]),
    "C05": lambda: line_prop(L.C05),
    "C06": lambda: line_prop(L.C06, assumptions=[L.LINK_ASSUMPTION], theorems=L.c06_theorems,
                             bounded="find_parent_objects called with a list of expressions: executed by the replay oracle only"),
    "C07": lambda: line_prop(L.C07, assumptions=[L.LINK_ASSUMPTION],
                             bounded="find_child_objects called with a list of expressions: executed by the replay oracle only"),
    "C08": lambda: line_prop(L.C08, hooks=L.HOOKSC08, lemmas=lems() + [(lm, L.lem08_hyps) for lm in L.LEM08],
                             bounded="regex_groups=True: executed by the replay oracle only",
                             assumptions=["an inner list taken out of a list of branches and extended in place is not read again through the outer "
                                          "list (the outer variable is rebound after the loop)"]),
    "C09": lambda: edit_prop(ED.C09, bounded="atomic=True and factory=True (re-parse after the insertion), insertion of a ready-made line object, junos: executed by the "
                             "replay oracle only",
                             assumptions=["expression arguments are non-empty; the configuration holds no line twice (established by the parse, C01, and kept by "
                                          "every insertion contract)"]),
    "C10": lambda: edit_prop(ED.C10, folds=list(ED.FOLDS) + list(ED.DEL_FOLDS) + [L.DescF], lemmas=[(lm, ED.lem_hyps) for lm in ED.LEMMAS] + [(lm, ED.del_hyps) for lm in ED.DEL_LEMMAS],
                             theorems=lambda: ED.tree_theorems() + ED.pruning_theorems(),
                             bounded="delete_children_matching, delete(recurse=False), deletion by position, atomic re-parse afterwards, a line object that equals a line of the "
                                     "configuration without being one: executed by the replay oracle only",
                             assumptions=[L.LINK_ASSUMPTION, "only lines of the configuration are reached through children lists (precondition 'a tree', kept by every "
                                          "deletion), so all_children may be read with the line numbers of the configuration's own lines"]),
    "C11": lambda: edit_prop(ED.C11, folds=list(ED.FOLDS) + list(ED.DEL_FOLDS) + list(ED.C11_FOLDS) + [L.DescF],
                             lemmas=[(lm, ED.lem_hyps) for lm in ED.LEMMAS] + [(lm, ED.del_hyps) for lm in ED.DEL_LEMMAS] + [(lm, ED.c11_hyps) for lm in ED.C11_LEMMAS],
                             theorems=lambda: ED.tree_theorems() + ED.pruning_theorems(),
                             bounded="replace_children, replace_all_children, atomic re-parse with factory=True: executed by the replay oracle only",
                             assumptions=[L.LINK_ASSUMPTION, "re.sub, re.search are functions of their arguments"]),
    "C12": lambda: edit_prop(ED.C12, folds=list(ED.FOLDS) + [ED.NonEmptyT], theorems=ED.c12_theorems,
                             lemmas=[(lm, PA.lem_hyps) for lm in PA.LEMMAS] + [(lm, ED.lem_hyps) for lm in ED.LEMMAS] + [(lm, ED.c12_hyps) for lm in ED.C12_LEMMAS],
                             bounded="a second commit when blank lines are ignored, reading from a file, factory=True: executed by the replay oracle only",
                             assumptions=["bootstrap_obj_init_ng is a function of its input and the settings of the object (no other state is read): equal "
                                          "input gives equal lines"]),
    "C13": lambda: value_prop(J.C13, hooks=J.HOOKS, models=J.MODELS, trusted=J.TRUSTED, lemmas=[(lm, J.block_hyps) for lm in J.C13_LEMMAS], theorems=J.c13_theorems,
                              bounded="the parse of the converted lines (parent and child links) and lines with several braces or a brace pair: executed by the replay "
                                      "oracle only",
                              assumptions=["each line is, up to blanks around it, a statement without braces (with or without ';'), such a statement and '{', '}' (with or "
                                           "without ';'), a comment that begins with #, or blank; one line per element",
                                           "the parent of a converted line is the one C02 proves for indented lines"]),
    "C14": lambda: line_prop(L.C14, theorems=L.c14_theorems),
    "C15": lambda: ip_prop(IP.C15),
    "C16": lambda: ip_prop(IP.C16),
    "C17": lambda: ip_prop(IP.C17),
    "C18": lambda: value_prop(VA.C18, trusted=VA.C18_TRUSTED, lemmas=VA.C18_LEMMAS, theorems=VA.c18_theorems, folds=[VA.Members, VA.Copy, VA.Drop],
                              bounded="as_compressed_str, ranges of interfaces, strings: executed by the replay oracle only",
                              assumptions=["class invariant of the object under test (members are integers, ascending, each once): established by the "
                                           "constructor, preserved by append, remove, + and - (all under contract)"]),
    "C19": lambda: value_prop(IN.C19, hooks=IN.HOOKS, models=IN.MODELS, trusted=IN.TRUSTED, theorems=IN.c19_theorems,
                              bounded="construction from a dictionary or another interface, IOS-XR interfaces, number/number_list of objects changed after construction: "
                                      "executed by the replay oracle only",
                              assumptions=["a name is a prefix (letters and dashes, at least one letter at either end), one to three numbers separated by '/', optional "
                                           ".subinterface, :channel and a class word; blanks only after the prefix and before the class",
                                           "objects compared have the components their public setters were given"]),
    "C20": lambda: value_prop(VA.C20, trusted=VA.C20_TRUSTED, theorems=VA.c20_theorems,
                              bounded="texts that are not well formed: executed by the replay oracle only"),
    "C22": lambda: value_prop(VA.C22, trusted=VA.C22_TRUSTED, lemmas=VA.C22_LEMMAS,
                              bounded="specifications outside the six forms (further words, no blank after the operator): executed by the replay oracle only"),
    "C23": lambda: value_prop(TR.C23, folds=[TR.Switch, TR.Access, VA.Members, VA.Copy, VA.Drop], fields=L.FIELDS, ref_class=TR.REF_CLASS, hooks=TR.HOOKS, models=TR.MODELS,
                              trusted=TR.TRUSTED, lemmas=VA.C18_LEMMAS, theorems=VA.c18_theorems,
                              bounded="VLAN lists with blanks inside, tab-separated words: executed by the replay oracle only",
                              assumptions=["every child line about allowed VLANs is well formed: its words, then a list of numbers and ranges, or all / none; no child line is blank",
                                           "CiscoRange construction, + and - as C18 proves them"]),
    "C25": lambda: edit_prop(FI.C25, hooks=FI.HOOKS, models=FI.MODELS, folds=list(ED.FOLDS) + [ED.NonEmptyT, FI.Ended, FI.HasNl], theorems=FI.file_theorems,
                             trusted=list(L.TRUSTED) + list(ED.TRUSTED) + FI.TRUSTED,
                             lemmas=[(lm, PA.lem_hyps) for lm in PA.LEMMAS] + [(lm, ED.lem_hyps) for lm in ED.LEMMAS] + [(lm, FI.c25_hyps) for lm in FI.C25_LEMMAS],
                             bounded="files that begin with an empty line while empty lines are dropped, pathlib.Path arguments, brace syntaxes: executed by the replay oracle only",
                             assumptions=["file content decodes and encodes losslessly in the encoding of the configuration",
                                          "the contract of the parse (bootstrap_obj_init_ng) is the one C01 proves"]),
    "C26": lambda: parse_prop(BL.C26, lemmas=[(lm, PA.lem_hyps) for lm in PA.LEMMAS] + [(lm, BL.block_hyps) for lm in BL.BLOCK_LEMMAS], theorems=BL.block_theorems,
                              bounded="factory=True, the constructors around the parse, and what a line drawn in by a block is when blank lines are dropped: executed by the replay "
                                      "oracle only",
                              assumptions=["which lines are banner headers is decided by the expression _build_banner_re_ios compiles (taken as it is)",
                                           "single-character delimiters ('^C' banners use '^'), as the expression for the delimiter has them"]),
    "C21": lambda: line_prop(L.C21, models=L.MODELS21, assumptions=[L.LINK_ASSUMPTION, "result_type is any total function of the group text"],
                             bounded="groupdict results and get_typed_dict: executed by the replay oracle only"),
}


def lems():
    return [(lm, L.lemma_hyps) for lm in L.LEMMAS]


NOTES = {}


def note(pid):
    base = ("All obligations of the listed functions are generated from /repo's source and discharged for all inputs and all loop iterations; "
            "assumes the contracts on the standard library named in the evidence (trusted_base). ")
    return base + NOTES.get(pid, "")
