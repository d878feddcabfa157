"""Reference clauses of the multisig contract (members are access keys of the account)."""
from specs.common import *
from specs.msig import Multisig, STRUCTS, TAGS

SPEC = Spec("multisig", "MultiSigContract", dict(STRUCTS, **{
    "MultiSigContract": ["num_confirmations", "request_nonce", "requests", "confirmations", "num_requests_pk",
                         "active_requests_limit"],
    "MultiSigRequestWithSigner": ["request", "signer_pk", "added_timestamp"],
}), field_tags=TAGS, new_export="M01 M05")
M = Multisig(False)
M.install(SPEC)


@SPEC.entry("new", "M01 M06 X05", live="M01")
def new(m):
    uninit(m); no_deposit(m)
    m.init(tags="M01 M03", num_confirmations=m.arg("num_confirmations"), request_nonce=0, requests=T("coll", "UnorderedMap", S("r")),
           confirmations=T("coll", "UnorderedMap", S("c")), num_requests_pk=T("coll", "UnorderedMap", S("k")),
           active_requests_limit=12)
