"""Reference clauses of the multisig factory."""
from specs.common import *
import rules

SPEC = Spec("multisig-factory", "MultisigFactory", {"MultisigFactory": []}, new_export="F05")
e = SPEC.entry
TGAS = 10 ** 12


@e("create", "F05", live="F05")
def create(m):
    acc = T("cat", m.arg("name").t, S("."), m.me.t)
    m.promise(acc, ("create_account",), ("deploy_contract", code("multisig2", "multisig2.wasm")),
              ("transfer", m.deposit.t),
              ("function_call", "new", {"members": m.arg("members"), "num_confirmations": m.arg("num_confirmations")},
               0, sub(A("prepaid_gas"), I(50 * TGAS))), tags="F05")
    if m.mode == "panic":
        m.require(le(I(50 * TGAS), A("prepaid_gas")), "F05", "gas")
    elif not any(p.after is not None for p in m.path.proms):
        m.fail("F05", "no-refund", "a failed creation leaves the attached deposit with the factory: nothing is chained "
               "after the creation to return it")
