"""Contracts: machine-checked specifications attached to functions of the repository by qualified name."""
SCHEMA = {}
CONTRACTS = []
LEMMAS = []


class Contract:
    """base class; a contract states what holds before and after every call of one function"""

    target = None  # "module:Class.method"
    props = ()
    params = {}
    modifies = ()
    modifies_elems = {}  # class -> attributes that may change on instances reached through lists
    returns = None
    value = None  # pure functions: the value itself, as a function of the arguments
    call_value = None  # the result as callers see it, when the postcondition determines it
    raises = {}  # kind -> (mode 'iff'/'only', condition or None)
    ghost = {}
    merge_ifs = False
    hasty = False  # obligations inside a loop not yet explored to its end are given up early; they come again
    draws = True
    seeds = False  # may seed the generator
    havoc_sorts = {}
    sets = {}  # modified attribute -> the argument stored there, as a function of the arguments
    inline = False  # verified, but callers use the body instead of the contract
    inline_calls = ()  # functions whose body, not contract, is used at calls (arguments outside every case of the contract)
    setup = None
    note = ""
    tags = {}  # part of an obligation's name -> the properties it decides (default: all of props)
    budget_s = 240
    assumed = False  # not verified: an assumption at calls

    def __init__(self):
        self.short = self.target.split(":")[1] + (f"[{self.case}]" if getattr(self, "case", None) else "")

    def requires(self, S, c):
        return []

    def definitions(self, S, c):
        """defining equations of functions used by the specification only (recursive sums and the like)"""
        return []

    def ensures(self, S, c):
        return []

    def ensures_exc(self, S, c):
        return []

    def lemmas(self, S, c):
        """instances of facts of pure arithmetic; each is proved on its own, without the program"""
        return []

    def invariants(self, S, L):
        return []

    def on_draw(self, S, draw, ghost):
        return ()

    def on_call(self, S, c, callee, ghost):
        return ()


def contract(cls):
    obj = cls()
    CONTRACTS.append(obj)
    return cls


def lemma(name, props):
    def deco(fn):
        LEMMAS.append((name, tuple(props), fn))
        return fn

    return deco
