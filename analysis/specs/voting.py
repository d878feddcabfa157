"""Reference clauses of the voting contract."""
from specs.common import *
from rules import V

SPEC = Spec("voting", "VotingContract", {
    "VotingContract": ["votes", "total_voted_stake", "result", "last_epoch_height"],
}, field_tags={"votes": "V02 V03 V01", "total_voted_stake": "V02 V03 V01", "result": "V01", "last_epoch_height": "V03"}, new_export="V01")
e = SPEC.entry
TOTAL = A("total_stake")


def stake(a):
    return T("vstake", tm(a))


@e("new", "X05 V01 V02", live="V01")
def new(m):
    uninit(m); no_deposit(m)
    m.init(tags="V01 V02", votes=T("mempty"), total_voted_stake=0, result=agg("Option", "None", None, ()), last_epoch_height=0)


def settle(m, total):
    """the poll ends exactly when the voted stake exceeds two thirds of the total stake."""
    if m.test(lt(div(mul(I(2), TOTAL), I(3)), total)):
        m.set("result", agg("Option", "Some", None, (m.now.t,)), "V01")
        return True
    return False


def refresh(m):
    """ping: (votes, total, ended)"""
    m.require(m.S.result.is_none, "V01", "the poll is still open")
    votes, total = m.S.votes.t, m.S.total_voted_stake.t
    if m.test(m.epoch.eq(m.S.last_epoch_height)):
        return votes, total, False

    def tot(mm, x, acc):
        return add(acc, stake(fld(x.t, None, 0)))

    def keep(mm, x):
        a = fld(x.t, None, 0)
        return (a, stake(a)) if mm.test(lt(I(0), stake(a))) else None
    total = m.fold(votes, I(0), tot)
    votes = m.gather(votes, keep)
    m.set("votes", votes, "V03 V02"); m.set("total_voted_stake", total, "V03 V02 V01")
    m.set("last_epoch_height", m.epoch, "V03 V02")
    return votes, total, settle(m, total)


@e("ping", "V01 V02 V03", live="V01 V03")
def ping(m):
    loaded(m); no_deposit(m)
    refresh(m)


@e("vote", "V01 V02 V03", live="V01 V02")
def vote(m):
    loaded(m); no_deposit(m)
    votes, total, ended = refresh(m)
    if ended:
        return
    me = m.caller.t
    isv = m.arg("is_vote").t
    if m.test(isv):
        w = stake(me)
        m.require(lt(I(0), w), "V02", "the voter is a validator with positive stake")
    else:
        w = I(0)
    old = T("lookup", votes, me)
    o = fld(old, "Some", 0) if m.test(is_(old, "Option", "Some")) else I(0)
    if m.mode == "panic":
        m.require(le(o, total), "V02", "recorded votes never exceed the total")
    total = sub(add(total, w), o)
    m.set("total_voted_stake", total, "V02 V01")
    if m.test(lt(I(0), w)):
        m.set("votes", T("mput", votes, me, w), "V02")
        settle(m, total)
    else:
        m.set("votes", T("mdel", votes, me), "V02")


@e("get_result", "V01 V05", live="V01 V05")
def get_result(m):
    loaded(m)
    m.ret(m.S.result)


@e("get_total_voted_stake", "V02 V05", live="V02 V05")
def get_total_voted_stake(m):
    loaded(m)
    m.ret(agg("()", None, None, (m.S.total_voted_stake.t, TOTAL)))


@e("get_votes", "V02 V05", live="V02 V05")
def get_votes(m):
    loaded(m)
    m.ret(m.S.votes)
