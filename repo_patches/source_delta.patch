From 495ab996bf850318c1b85f99c0596ba278a5acb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 1/4] fix: lockup: reject an invalid explicit vesting schedule
 at initialization

The getters divide by (end - start) and subtract timestamps relying on the schedule having
been checked at initialization, but VestingSchedule::assert_valid was never called.
---
 lockup/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lockup/src/lib.rs b/lockup/src/lib.rs
index 22db413..92c3357 100644
--- a/lockup/src/lib.rs
+++ b/lockup/src/lib.rs
@@ -223,6 +223,7 @@ impl LockupContract {
             }
             Some(VestingScheduleOrHash::VestingHash(hash)) => VestingInformation::VestingHash(hash),
             Some(VestingScheduleOrHash::VestingSchedule(vs)) => {
+                vs.assert_valid();
                 VestingInformation::VestingSchedule(vs)
             }
         };
-- 
2.43.0


From a57199edcad6be6a40079e6c6764d62790a83d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:14 +0000
Subject: [PATCH 2/4] fix: multisig2: member access keys name the existing
 add_request_and_confirm method

The default method list named add_and_confirm_request, which the contract does not export, so a
member key could never call add_request_and_confirm.
---
 multisig2/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 052bfab..fbc73b0 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -20,7 +20,7 @@ const REQUEST_COOLDOWN: u64 = 900_000_000_000;
 const ACTIVE_REQUESTS_LIMIT: u32 = 12;
 
 /// Default set of methods that access key should have.
-const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_and_confirm_request";
+const MULTISIG_METHOD_NAMES: &str = "add_request,delete_request,confirm,add_request_and_confirm";
 
 pub type RequestId = u32;
 
-- 
2.43.0


From 6205835e81b89cea1bee651ba94bfc8fcdac55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 3/4] fix: multisig2: confirmations required never exceed the
 distinct members

---
 multisig2/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index fbc73b0..44e8f7f 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -163,6 +163,11 @@ impl MultiSigContract {
         for member in members {
             promise = multisig.add_member(promise, member);
         }
+        // the list may name the same member more than once
+        assert(
+            multisig.members.len() >= num_confirmations as u64,
+            "Members list must be equal or larger than number of confirmations",
+        );
         multisig
     }
 
@@ -274,6 +279,10 @@ impl MultiSigContract {
                 // the following methods must be a single action
                 MultiSigRequestAction::SetNumConfirmations { num_confirmations } => {
                     self.assert_one_action_only(receiver_id, num_actions);
+                    assert(
+                        self.members.len() >= num_confirmations as u64,
+                        "Number of confirmations can't be larger than the number of members",
+                    );
                     self.num_confirmations = num_confirmations;
                     return PromiseOrValue::Value(true);
                 }
-- 
2.43.0


From 3aee83302d241f893690f2e086f9fb4e8e4c45fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:34 +0000
Subject: [PATCH 4/4] fix: multisig, multisig2: a removed member's
 confirmations no longer count

---
 multisig/src/lib.rs  | 21 ++++++++++++++-------
 multisig2/src/lib.rs | 19 +++++++++++++------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/multisig/src/lib.rs b/multisig/src/lib.rs
index 510bc2c..abd1395 100644
--- a/multisig/src/lib.rs
+++ b/multisig/src/lib.rs
@@ -199,16 +199,23 @@ impl MultiSigContract {
                     self.assert_self_request(receiver_id.clone());
                     let pk: PublicKey = public_key.into();
                     // delete outstanding requests by public_key
-                    let request_ids: Vec<u32> = self
+                    let requests: Vec<(RequestId, PublicKey)> = self
                         .requests
                         .iter()
-                        .filter(|(_k, r)| r.signer_pk == pk)
-                        .map(|(k, _r)| k)
+                        .map(|(k, r)| (k, r.signer_pk))
                         .collect();
-                    for request_id in request_ids {
-                        // remove confirmations for this request
-                        self.confirmations.remove(&request_id);
-                        self.requests.remove(&request_id);
+                    for (request_id, signer_pk) in requests {
+                        if signer_pk == pk {
+                            // remove confirmations for this request
+                            self.confirmations.remove(&request_id);
+                            self.requests.remove(&request_id);
+                        } else if let Some(mut confirmations) = self.confirmations.get(&request_id)
+                        {
+                            // the deleted key no longer counts towards other requests
+                            if confirmations.remove(&pk) {
+                                self.confirmations.insert(&request_id, &confirmations);
+                            }
+                        }
                     }
                     // remove num_requests_pk entry for public_key
                     self.num_requests_pk.remove(&pk);
diff --git a/multisig2/src/lib.rs b/multisig2/src/lib.rs
index 44e8f7f..da05e61 100644
--- a/multisig2/src/lib.rs
+++ b/multisig2/src/lib.rs
@@ -368,15 +368,22 @@ impl MultiSigContract {
             "Removing given member will make total number of members below number of confirmations",
         );
         // delete outstanding requests by public_key
-        let request_ids: Vec<u32> = self
+        let requests: Vec<(RequestId, MultisigMember)> = self
             .requests
             .iter()
-            .filter_map(|(k, r)| if r.member == member { Some(k) } else { None })
+            .map(|(k, r)| (k, r.member))
             .collect();
-        for request_id in request_ids {
-            // remove confirmations for this request
-            self.confirmations.remove(&request_id);
-            self.requests.remove(&request_id);
+        for (request_id, requester) in requests {
+            if requester == member {
+                // remove confirmations for this request
+                self.confirmations.remove(&request_id);
+                self.requests.remove(&request_id);
+            } else if let Some(mut confirmations) = self.confirmations.get(&request_id) {
+                // the removed member no longer counts towards other requests
+                if confirmations.remove(&member.to_string()) {
+                    self.confirmations.insert(&request_id, &confirmations);
+                }
+            }
         }
         // remove num_requests_pk entry for member
         self.num_requests_pk.remove(&member.to_string());
-- 
2.43.0

