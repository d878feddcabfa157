"""Helpers shared by the clause sets."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from terms import *
from rules import Spec, ident, no, tm, is_, SpecError, UNIT, V, tbase
import dump


def SOME(x):
    return agg("Option", "Some", None, (tm(x),))


def valid(m, acc, tags, nm="account id is valid"):
    if isinstance(acc, V) and tbase(acc.ty) == "ValidAccountId":
        return              # decoding the argument establishes it
    m.require(T("valid_account", tm(acc)), tags, nm)


def no_deposit(m):
    """near_bindgen: a non-payable method that can change state rejects an attached deposit."""
    m.require(m.deposit.eq(0), "X03", "no deposit is attached")


def loaded(m):
    """the contract state exists."""
    m.require(is_(T("state"), "Option", "Some"), "X05", "the contract is initialised")


def uninit(m):
    m.require(no(is_(T("state"), "Option", "Some")), "X05", "the contract is not initialised yet")


def private(m, tags):
    m.require(ident(m.caller, m.me), "X04 " + tags, "only the contract itself calls this")


def result(m):
    """success of the single promise this callback is chained to."""
    m.assume(eqn(A("promise_results_count"), I(1)))
    return is_(T("presult", I(0)), "PromiseResult", "Successful")


def code(crate, name):
    """the bytes of the contract that a factory embeds."""
    try:
        with open(os.path.join(dump.REPO, crate, "res", name), "rb") as f:
            return S(f.read().decode("latin1"))
    except OSError:
        raise SpecError("no embedded contract %s/res/%s" % (crate, name))
