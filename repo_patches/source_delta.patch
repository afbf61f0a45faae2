From ba6baac84b758b1c48de811d248b1f453fe2a856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 01/20] fix: identify failing hooks independently of their
 position

Several failing proposal or vote hooks in one transaction (or one hook
failing twice) removed an unrelated subscriber or reverted the
transaction, as removing the first one shifted the indexes of the rest.
---
 .../dao-proposal-multiple/src/contract.rs     | 11 +++--
 .../dao-proposal-single/src/contract.rs       | 11 +++--
 packages/cw-hooks/src/lib.rs                  | 42 +++++++++++++++++++
 packages/dao-hooks/src/proposal.rs            |  6 +--
 packages/dao-hooks/src/vote.rs                |  4 +-
 5 files changed, 61 insertions(+), 13 deletions(-)

diff --git a/contracts/proposal/dao-proposal-multiple/src/contract.rs b/contracts/proposal/dao-proposal-multiple/src/contract.rs
index 6fc42f8..96fb54f 100644
--- a/contracts/proposal/dao-proposal-multiple/src/contract.rs
+++ b/contracts/proposal/dao-proposal-multiple/src/contract.rs
@@ -1003,12 +1003,15 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
                 ))
         }
         TaggedReplyId::FailedProposalHook(idx) => {
-            let addr = PROPOSAL_HOOKS.remove_hook_by_index(deps.storage, idx)?;
-            Ok(Response::new().add_attribute("removed_proposal_hook", format!("{addr}:{idx}")))
+            let removed = PROPOSAL_HOOKS.remove_failed_hook(deps.storage, idx)?;
+            Ok(Response::new().add_attributes(
+                removed.map(|addr| ("removed_proposal_hook", format!("{addr}:{idx}"))),
+            ))
         }
         TaggedReplyId::FailedVoteHook(idx) => {
-            let addr = VOTE_HOOKS.remove_hook_by_index(deps.storage, idx)?;
-            Ok(Response::new().add_attribute("removed vote hook", format!("{addr}:{idx}")))
+            let removed = VOTE_HOOKS.remove_failed_hook(deps.storage, idx)?;
+            Ok(Response::new()
+                .add_attributes(removed.map(|addr| ("removed vote hook", format!("{addr}:{idx}")))))
         }
         TaggedReplyId::PreProposeModuleInstantiation => {
             let res = parse_reply_instantiate_data(msg)?;
diff --git a/contracts/proposal/dao-proposal-single/src/contract.rs b/contracts/proposal/dao-proposal-single/src/contract.rs
index 1943081..2db9945 100644
--- a/contracts/proposal/dao-proposal-single/src/contract.rs
+++ b/contracts/proposal/dao-proposal-single/src/contract.rs
@@ -1087,12 +1087,15 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
                 ))
         }
         TaggedReplyId::FailedProposalHook(idx) => {
-            let addr = PROPOSAL_HOOKS.remove_hook_by_index(deps.storage, idx)?;
-            Ok(Response::new().add_attribute("removed_proposal_hook", format!("{addr}:{idx}")))
+            let removed = PROPOSAL_HOOKS.remove_failed_hook(deps.storage, idx)?;
+            Ok(Response::new().add_attributes(
+                removed.map(|addr| ("removed_proposal_hook", format!("{addr}:{idx}"))),
+            ))
         }
         TaggedReplyId::FailedVoteHook(idx) => {
-            let addr = VOTE_HOOKS.remove_hook_by_index(deps.storage, idx)?;
-            Ok(Response::new().add_attribute("removed_vote_hook", format!("{addr}:{idx}")))
+            let removed = VOTE_HOOKS.remove_failed_hook(deps.storage, idx)?;
+            Ok(Response::new()
+                .add_attributes(removed.map(|addr| ("removed_vote_hook", format!("{addr}:{idx}")))))
         }
         TaggedReplyId::PreProposeModuleInstantiation => {
             let res = parse_reply_instantiate_data(msg)?;
diff --git a/packages/cw-hooks/src/lib.rs b/packages/cw-hooks/src/lib.rs
index fdbf435..9321419 100644
--- a/packages/cw-hooks/src/lib.rs
+++ b/packages/cw-hooks/src/lib.rs
@@ -23,6 +23,26 @@ pub enum HookError {
     HookNotRegistered {},
 }
 
+const FAILED_HOOK_INDEX_BITS: u32 = 16;
+
+/// Checksum (FNV-1a) of a hook's address. Never zero and at most 45 bits long.
+fn hook_tag(addr: &Addr) -> u64 {
+    let hash = addr
+        .as_bytes()
+        .iter()
+        .fold(0xcbf29ce484222325u64, |hash, byte| {
+            (hash ^ u64::from(*byte)).wrapping_mul(0x100000001b3)
+        });
+    (hash >> 19).max(1)
+}
+
+/// An ID that can be used to identify the hook in the reply to its failed
+/// execution. The index alone is not sufficient: if more than one hook fails in
+/// a transaction, removing the first one changes the index of those behind it.
+pub fn failed_hook_id(index: u64, addr: &Addr) -> u64 {
+    (hook_tag(addr) << FAILED_HOOK_INDEX_BITS) | index
+}
+
 // store all hook addresses in one item. We cannot have many of them before the contract becomes unusable anyway.
 pub struct Hooks<'a>(Item<'a, Vec<Addr>>);
 
@@ -62,6 +82,28 @@ impl<'a> Hooks<'a> {
         Ok(hook)
     }
 
+    /// Removes the hook identified by ID, as returned by [`failed_hook_id`]
+    /// when the hook was dispatched. Returns `None` if the hook is no longer
+    /// registered, for example because an earlier message of the same
+    /// transaction already removed it.
+    pub fn remove_failed_hook(
+        &self,
+        storage: &mut dyn Storage,
+        id: u64,
+    ) -> Result<Option<Addr>, HookError> {
+        let tag = id >> FAILED_HOOK_INDEX_BITS;
+        let mut hooks = self.0.may_load(storage)?.unwrap_or_default();
+        let position = if tag == 0 {
+            // only an index is known
+            Some(id as usize).filter(|i| *i < hooks.len())
+        } else {
+            hooks.iter().position(|h| hook_tag(h) == tag)
+        };
+        let removed = position.map(|p| hooks.remove(p));
+        self.0.save(storage, &hooks)?;
+        Ok(removed)
+    }
+
     pub fn prepare_hooks<F: FnMut(Addr) -> StdResult<SubMsg>>(
         &self,
         storage: &dyn Storage,
diff --git a/packages/dao-hooks/src/proposal.rs b/packages/dao-hooks/src/proposal.rs
index c98cfdc..e0ecee5 100644
--- a/packages/dao-hooks/src/proposal.rs
+++ b/packages/dao-hooks/src/proposal.rs
@@ -1,6 +1,6 @@
 use cosmwasm_schema::cw_serde;
 use cosmwasm_std::{to_json_binary, Empty, StdResult, Storage, SubMsg, WasmMsg};
-use cw_hooks::Hooks;
+use cw_hooks::{failed_hook_id, Hooks};
 use dao_voting::{
     pre_propose::ProposalCreationPolicy,
     reply::{failed_pre_propose_module_hook_id, mask_proposal_hook_index},
@@ -46,7 +46,7 @@ pub fn new_proposal_hooks(
             msg: msg.clone(),
             funds: vec![],
         };
-        let masked_index = mask_proposal_hook_index(index);
+        let masked_index = mask_proposal_hook_index(failed_hook_id(index, &a));
         let tmp = SubMsg::reply_on_error(execute, masked_index);
         index += 1;
         Ok(tmp)
@@ -83,7 +83,7 @@ pub fn proposal_status_changed_hooks(
             msg: msg.clone(),
             funds: vec![],
         };
-        let masked_index = mask_proposal_hook_index(index);
+        let masked_index = mask_proposal_hook_index(failed_hook_id(index, &a));
         let tmp = SubMsg::reply_on_error(execute, masked_index);
         index += 1;
         Ok(tmp)
diff --git a/packages/dao-hooks/src/vote.rs b/packages/dao-hooks/src/vote.rs
index 9d5dedf..2e60991 100644
--- a/packages/dao-hooks/src/vote.rs
+++ b/packages/dao-hooks/src/vote.rs
@@ -1,6 +1,6 @@
 use cosmwasm_schema::cw_serde;
 use cosmwasm_std::{to_json_binary, StdResult, Storage, SubMsg, WasmMsg};
-use cw_hooks::Hooks;
+use cw_hooks::{failed_hook_id, Hooks};
 use dao_voting::reply::mask_vote_hook_index;
 
 /// An enum representing vote hooks, fired when new votes are cast.
@@ -35,7 +35,7 @@ pub fn new_vote_hooks(
             msg: msg.clone(),
             funds: vec![],
         };
-        let masked_index = mask_vote_hook_index(index);
+        let masked_index = mask_vote_hook_index(failed_hook_id(index, &a));
         let tmp = SubMsg::reply_on_error(execute, masked_index);
         index += 1;
         Ok(tmp)
-- 
2.43.0


From e27127b20334853bd76dba25a521f6495394363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:34 +0000
Subject: [PATCH 02/20] fix: run the pre-propose completion hook before the
 proposal's messages

A proposal replacing a broken pre-propose module had the replacement
removed when the old module's hook failed, and a proposal removing it
could not be executed at all.
---
 contracts/proposal/dao-proposal-multiple/src/contract.rs | 8 ++++++--
 contracts/proposal/dao-proposal-single/src/contract.rs   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/contracts/proposal/dao-proposal-multiple/src/contract.rs b/contracts/proposal/dao-proposal-multiple/src/contract.rs
index 96fb54f..00d6581 100644
--- a/contracts/proposal/dao-proposal-multiple/src/contract.rs
+++ b/contracts/proposal/dao-proposal-multiple/src/contract.rs
@@ -572,9 +572,13 @@ pub fn execute_execute(
             let proposal_completed_hooks =
                 proposal_completed_hooks(proposal_creation_policy, proposal_id, prop.status)?;
 
-            Ok(response
-                .add_submessages(proposal_status_changed_hooks)
+            // Notify the pre-propose module before running the proposal's messages, as
+            // they may replace it. If its hook fails, it is the module that was notified
+            // that needs to be removed, not its replacement.
+            Ok(Response::default()
                 .add_submessages(proposal_completed_hooks)
+                .add_submessages(response.messages)
+                .add_submessages(proposal_status_changed_hooks)
                 .add_attribute("action", "execute")
                 .add_attribute("sender", info.sender)
                 .add_attribute("proposal_id", proposal_id.to_string())
diff --git a/contracts/proposal/dao-proposal-single/src/contract.rs b/contracts/proposal/dao-proposal-single/src/contract.rs
index 2db9945..fa78e6b 100644
--- a/contracts/proposal/dao-proposal-single/src/contract.rs
+++ b/contracts/proposal/dao-proposal-single/src/contract.rs
@@ -460,9 +460,13 @@ pub fn execute_execute(
     let proposal_completed_hooks =
         proposal_completed_hooks(proposal_creation_policy, proposal_id, prop.status)?;
 
-    Ok(response
-        .add_submessages(proposal_status_changed_hooks)
+    // Notify the pre-propose module before running the proposal's messages, as
+    // they may replace it. If its hook fails, it is the module that was notified
+    // that needs to be removed, not its replacement.
+    Ok(Response::default()
         .add_submessages(proposal_completed_hooks)
+        .add_submessages(response.messages)
+        .add_submessages(proposal_status_changed_hooks)
         .add_attribute("action", "execute")
         .add_attribute("sender", info.sender)
         .add_attribute("proposal_id", proposal_id.to_string())
-- 
2.43.0


From eea28b9a91c2b291ccc5cb2ce085ef0dc42af5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 03/20] fix: a vetoed approval vote rejects the submission
 instead of leaving it pending forever

The approver's completion hook refused the vetoed status, so the proposal
module dropped its pre-propose contract and the submission (and its deposit)
stayed pending.
---
 .../pre-propose/dao-pre-propose-approver/src/contract.rs      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
index 268d3ba..e2d306c 100644
--- a/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
+++ b/contracts/pre-propose/dao-pre-propose-approver/src/contract.rs
@@ -170,7 +170,7 @@ pub fn execute_proposal_completed(
 
     // On completion send rejection or approval message
     let msg = match new_status {
-        Status::Closed => Some(WasmMsg::Execute {
+        Status::Closed | Status::Vetoed => Some(WasmMsg::Execute {
             contract_addr: approval_contract.into_string(),
             msg: to_json_binary(&PreProposeApprovalExecuteMsg::Extension {
                 msg: ApprovalExt::Reject { id: pre_propose_id },
@@ -187,7 +187,7 @@ pub fn execute_proposal_completed(
         _ => None,
     };
 
-    // If Status is not Executed or Closed, throw error
+    // If Status is not Executed, Closed or Vetoed, throw error
     match msg {
         Some(msg) => Ok(Response::default()
             .add_message(msg)
-- 
2.43.0


From 992dacabf1e13fa108637b3652af1fc99926f970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:32 +0000
Subject: [PATCH 04/20] fix: let the pending owner of a role NFT collection
 accept ownership

---
 contracts/external/cw721-roles/src/contract.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index e3f0719..98611c0 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -55,8 +55,12 @@ pub fn execute(
     info: MessageInfo,
     msg: ExecuteMsg,
 ) -> Result<Response, ContractError> {
-    // Only owner / minter can execute
-    cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    // Only owner / minter can execute. Ownership updates are authorized by
+    // cw_ownable, as it is the pending (not the current) owner that accepts a
+    // transfer of ownership.
+    if !matches!(msg, ExecuteMsg::UpdateOwnership(_)) {
+        cw_ownable::assert_owner(deps.storage, &info.sender)?;
+    }
 
     match msg {
         ExecuteMsg::Mint {
-- 
2.43.0


From 771585007151acd6fdad4f923c07a849ec143275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:08 +0000
Subject: [PATCH 05/20] fix: tell hooks the new weight when a role NFT's weight
 decreases

---
 contracts/external/cw721-roles/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 98611c0..46f0eaa 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -410,6 +410,8 @@ pub fn execute_update_token_weight(
 
                     // Subtract difference from the total
                     total = total.checked_sub(Uint64::from(weight_difference))?;
+                    // Set the diff for use in hooks
+                    diff = MemberDiff::new(token.clone().owner, old, Some(new_total_weight));
                 }
                 Ordering::Equal => return Err(ContractError::NoWeightChange {}),
             }
-- 
2.43.0


From 53b54b850818b0738e53022594ee38ba3a5de623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:09 +0000
Subject: [PATCH 06/20] fix: let a role NFT without weight be burned when its
 owner is no member

---
 contracts/external/cw721-roles/src/contract.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 46f0eaa..00f5d16 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -181,10 +181,11 @@ pub fn execute_burn(
 
     // Update member weights and total
     let owner_addr = deps.api.addr_validate(&owner.owner)?;
-    let old_weight = MEMBERS.load(deps.storage, &owner_addr)?;
+    let old_weight = MEMBERS.may_load(deps.storage, &owner_addr)?;
 
     // Subtract the nft weight from the member's old weight
     let new_weight = old_weight
+        .unwrap_or_default()
         .checked_sub(nft_info.extension.weight)
         .ok_or(ContractError::CannotBurn {})?;
 
@@ -194,7 +195,7 @@ pub fn execute_burn(
     // Check if the new weight is now zero
     if new_weight == 0 {
         // New weight is now None
-        diff = MemberDiff::new(owner.owner, Some(old_weight), None);
+        diff = MemberDiff::new(owner.owner, old_weight, None);
         // Remove owner from list of members
         MEMBERS.remove(deps.storage, &owner_addr, env.block.height)?;
     } else {
-- 
2.43.0


From 9359bd168de21ed7987fc7e42234253b073b71f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 07/20] fix: move a role NFT's weight to its new owner when it
 is transferred or sent

---
 .../external/cw721-roles/src/contract.rs      | 57 +++++++++++++++++--
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/contracts/external/cw721-roles/src/contract.rs b/contracts/external/cw721-roles/src/contract.rs
index 00f5d16..664e533 100644
--- a/contracts/external/cw721-roles/src/contract.rs
+++ b/contracts/external/cw721-roles/src/contract.rs
@@ -1,8 +1,8 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    from_json, to_json_binary, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order, Response,
-    StdResult, SubMsg, Uint64,
+    from_json, to_json_binary, Addr, Binary, Deps, DepsMut, Empty, Env, MessageInfo, Order,
+    Response, StdResult, SubMsg, Uint64,
 };
 use cw4::{
     Member, MemberChangedHookMsg, MemberDiff, MemberListResponse, MemberResponse,
@@ -233,9 +233,50 @@ pub fn execute_burn(
         .add_submessages(msgs))
 }
 
+/// Moves the weight of a token from its old to its new owner and prepares the
+/// messages telling hooks about it.
+fn move_weight(
+    deps: DepsMut,
+    env: &Env,
+    from: &Addr,
+    to: &Addr,
+    weight: u64,
+) -> Result<Vec<SubMsg>, ContractError> {
+    if from == to {
+        return Ok(vec![]);
+    }
+
+    let from_old = MEMBERS.may_load(deps.storage, from)?;
+    let from_new = from_old
+        .unwrap_or_default()
+        .checked_sub(weight)
+        .ok_or(ContractError::NegativeValue {})?;
+    // A member without weight left is removed, as when burning
+    let from_new = (from_new > 0).then_some(from_new);
+    match from_new {
+        Some(new) => MEMBERS.save(deps.storage, from, &new, env.block.height)?,
+        None => MEMBERS.remove(deps.storage, from, env.block.height)?,
+    }
+
+    let to_old = MEMBERS.may_load(deps.storage, to)?;
+    let to_new = to_old.unwrap_or_default() + weight;
+    MEMBERS.save(deps.storage, to, &to_new, env.block.height)?;
+
+    let diffs = MemberChangedHookMsg {
+        diffs: vec![
+            MemberDiff::new(from.to_string(), from_old, from_new),
+            MemberDiff::new(to.to_string(), to_old, Some(to_new)),
+        ],
+    };
+
+    Ok(HOOKS.prepare_hooks(deps.storage, |h| {
+        diffs.clone().into_cosmos_msg(h).map(SubMsg::new)
+    })?)
+}
+
 pub fn execute_transfer(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     recipient: String,
     token_id: String,
@@ -244,11 +285,15 @@ pub fn execute_transfer(
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
     // set owner and remove existing approvals
+    let old_owner = token.owner;
     token.owner = deps.api.addr_validate(&recipient)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_weight(deps, &env, &old_owner, &token.owner, token.extension.weight)?;
+
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_attribute("action", "transfer_nft")
         .add_attribute("sender", info.sender)
         .add_attribute("recipient", recipient)
@@ -257,7 +302,7 @@ pub fn execute_transfer(
 
 pub fn execute_send(
     deps: DepsMut,
-    _env: Env,
+    env: Env,
     info: MessageInfo,
     token_id: String,
     recipient_contract: String,
@@ -267,10 +312,13 @@ pub fn execute_send(
 
     let mut token = contract.tokens.load(deps.storage, &token_id)?;
     // set owner and remove existing approvals
+    let old_owner = token.owner;
     token.owner = deps.api.addr_validate(&recipient_contract)?;
     token.approvals = vec![];
     contract.tokens.save(deps.storage, &token_id, &token)?;
 
+    let msgs = move_weight(deps, &env, &old_owner, &token.owner, token.extension.weight)?;
+
     let send = Cw721ReceiveMsg {
         sender: info.sender.to_string(),
         token_id: token_id.clone(),
@@ -278,6 +326,7 @@ pub fn execute_send(
     };
 
     Ok(Response::new()
+        .add_submessages(msgs)
         .add_message(send.into_cosmos_msg(recipient_contract.clone())?)
         .add_attribute("action", "send_nft")
         .add_attribute("sender", info.sender)
-- 
2.43.0


From 665ac1bc621055f2bc49ecce3b4b01a33a20d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:13 +0000
Subject: [PATCH 08/20] fix: compute a staker's value without overflowing on
 large amounts

---
 contracts/staking/cw20-stake/src/contract.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index 64af748..b7cc351 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -398,11 +398,8 @@ pub fn query_staked_value(
             value: Uint128::zero(),
         })
     } else {
-        let value = staked
-            .checked_mul(balance)
-            .map_err(StdError::overflow)?
-            .checked_div(total)
-            .map_err(StdError::divide_by_zero)?;
+        // The intermediate product may not fit into a u128.
+        let value = balance.multiply_ratio(staked, total);
         Ok(StakedValueResponse { value })
     }
 }
-- 
2.43.0


From 6a2af13609f9bf57b9a0ed833d44182780ce8587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 09/20] fix: keep the time passed in a linear emission's
 current duration when rewards are updated

---
 .../dao-rewards-distributor/src/state.rs      | 46 +++++++++++++++----
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/contracts/distribution/dao-rewards-distributor/src/state.rs b/contracts/distribution/dao-rewards-distributor/src/state.rs
index 9095e91..afa05c0 100644
--- a/contracts/distribution/dao-rewards-distributor/src/state.rs
+++ b/contracts/distribution/dao-rewards-distributor/src/state.rs
@@ -152,20 +152,48 @@ impl Epoch {
     /// the missed space, last_updated can never be greater than ends_at. if
     /// ends_at is never, the epoch must be paused, so it should never be
     /// updated.
+    ///
+    /// a linear emission is only distributed once its whole duration has
+    /// passed, so last_updated only advances by whole durations. otherwise, the
+    /// time passed in the current duration would be lost on every update.
     pub fn bump_last_updated(&mut self, current_block: &BlockInfo) {
-        match self.ends_at {
-            Expiration::Never {} => {
-                self.last_updated_total_earned_puvp = Expiration::Never {};
-            }
+        let last_updated = self.last_updated_total_earned_puvp;
+
+        self.last_updated_total_earned_puvp = match self.ends_at {
+            Expiration::Never {} => Expiration::Never {},
             Expiration::AtHeight(ends_at_height) => {
-                self.last_updated_total_earned_puvp =
-                    Expiration::AtHeight(std::cmp::min(current_block.height, ends_at_height));
+                let latest = min(current_block.height, ends_at_height);
+                match (&self.emission_rate, last_updated) {
+                    (
+                        EmissionRate::Linear {
+                            duration: Duration::Height(duration),
+                            ..
+                        },
+                        Expiration::AtHeight(last),
+                    ) if *duration > 0 => {
+                        let passed = latest.saturating_sub(last);
+                        Expiration::AtHeight(last + passed - passed % duration)
+                    }
+                    _ => Expiration::AtHeight(latest),
+                }
             }
             Expiration::AtTime(ends_at_time) => {
-                self.last_updated_total_earned_puvp =
-                    Expiration::AtTime(std::cmp::min(current_block.time, ends_at_time));
+                let latest = min(current_block.time, ends_at_time);
+                match (&self.emission_rate, last_updated) {
+                    (
+                        EmissionRate::Linear {
+                            duration: Duration::Time(duration),
+                            ..
+                        },
+                        Expiration::AtTime(last),
+                    ) if *duration > 0 => {
+                        let passed = latest.seconds().saturating_sub(last.seconds());
+                        Expiration::AtTime(last.plus_seconds(passed - passed % duration))
+                    }
+                    _ => Expiration::AtTime(latest),
+                }
             }
-        }
+        };
     }
 }
 
-- 
2.43.0


From 26a0d0523bf68b543daf19688ccecc52abed87e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 10/20] fix: take the total power at the distribution height,
 also when redistributing

---
 .../cw-fund-distributor/src/contract.rs       | 53 +++++++++++++++----
 .../cw-fund-distributor/src/error.rs          |  3 ++
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index c5539d1..ec1b68c 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -44,22 +44,44 @@ pub fn instantiate(
     let voting_contract = deps.api.addr_validate(&msg.voting_contract)?;
     VOTING_CONTRACT.save(deps.storage, &voting_contract)?;
 
+    let total_power = query_total_power_at_distribution_height(
+        deps.as_ref(),
+        &env,
+        &voting_contract,
+        msg.distribution_height,
+    )?;
+    TOTAL_POWER.save(deps.storage, &total_power)?;
+
+    Ok(Response::default()
+        .add_attribute("distribution_height", env.block.height.to_string())
+        .add_attribute("voting_contract", voting_contract)
+        .add_attribute("total_power", total_power))
+}
+
+/// Returns the total voting power at the distribution height, which members'
+/// shares are relative to. The height cannot be in the future, since voting
+/// power can still change until then, and there must be some voting power.
+fn query_total_power_at_distribution_height(
+    deps: Deps,
+    env: &Env,
+    voting_contract: &Addr,
+    distribution_height: u64,
+) -> Result<Uint128, ContractError> {
+    if distribution_height > env.block.height {
+        return Err(ContractError::FutureDistributionHeight {});
+    }
+
     let total_power: voting::TotalPowerAtHeightResponse = deps.querier.query_wasm_smart(
-        voting_contract.clone(),
+        voting_contract,
         &voting::Query::TotalPowerAtHeight {
-            height: Some(env.block.height),
+            height: Some(distribution_height),
         },
     )?;
-    // validate the total power and store it
     if total_power.power.is_zero() {
         return Err(ContractError::ZeroVotingPower {});
     }
-    TOTAL_POWER.save(deps.storage, &total_power.power)?;
 
-    Ok(Response::default()
-        .add_attribute("distribution_height", env.block.height.to_string())
-        .add_attribute("voting_contract", voting_contract)
-        .add_attribute("total_power", total_power.power))
+    Ok(total_power.power)
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
@@ -548,21 +570,30 @@ pub fn query_cw20_entitlements(
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
+pub fn migrate(deps: DepsMut, env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
     match msg {
         MigrateMsg::RedistributeUnclaimedFunds {
             distribution_height,
-        } => execute_redistribute_unclaimed_funds(deps, distribution_height),
+        } => execute_redistribute_unclaimed_funds(deps, env, distribution_height),
     }
 }
 
 // only cw_admin can call this
 fn execute_redistribute_unclaimed_funds(
     deps: DepsMut,
+    env: Env,
     distribution_height: u64,
 ) -> Result<Response, ContractError> {
-    // update the distribution height
+    // update the distribution height and the total power at that height
+    let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
+    let total_power = query_total_power_at_distribution_height(
+        deps.as_ref(),
+        &env,
+        &voting_contract,
+        distribution_height,
+    )?;
     DISTRIBUTION_HEIGHT.save(deps.storage, &distribution_height)?;
+    TOTAL_POWER.save(deps.storage, &total_power)?;
 
     // get performed claims of cw20 and native tokens
     let performed_cw20_claims: Vec<Cw20ClaimEntry> = CW20_CLAIMS
diff --git a/contracts/distribution/cw-fund-distributor/src/error.rs b/contracts/distribution/cw-fund-distributor/src/error.rs
index 9193ced..113df8e 100644
--- a/contracts/distribution/cw-fund-distributor/src/error.rs
+++ b/contracts/distribution/cw-fund-distributor/src/error.rs
@@ -12,6 +12,9 @@ pub enum ContractError {
     #[error("Zero voting power")]
     ZeroVotingPower {},
 
+    #[error("Distribution height cannot be in the future")]
+    FutureDistributionHeight {},
+
     #[error("Zero funds")]
     ZeroFunds {},
 
-- 
2.43.0


From c505430739f2c78c425e46b2d02915108cfe22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 11/20] fix: round a member's share of distributed funds only
 once

---
 .../cw-fund-distributor/src/contract.rs           | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/contracts/distribution/cw-fund-distributor/src/contract.rs b/contracts/distribution/cw-fund-distributor/src/contract.rs
index ec1b68c..8eeb858 100644
--- a/contracts/distribution/cw-fund-distributor/src/contract.rs
+++ b/contracts/distribution/cw-fund-distributor/src/contract.rs
@@ -10,7 +10,7 @@ use crate::state::{
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    to_json_binary, Addr, BankMsg, Binary, Coin, Decimal, Deps, DepsMut, Env, Fraction,
+    to_json_binary, Addr, BankMsg, Binary, Coin, Deps, DepsMut, Env, Fraction,
     MessageInfo, Order, Response, StdError, StdResult, Uint128, WasmMsg,
 };
 use cw2::set_contract_version;
@@ -178,7 +178,7 @@ pub fn execute_fund_native(
 
 fn get_entitlement(
     distributor_funds: Uint128,
-    relative_share: Decimal,
+    relative_share: (Uint128, Uint128),
     previous_claim: Uint128,
 ) -> Result<Uint128, ContractError> {
     let total_share =
@@ -189,7 +189,7 @@ fn get_entitlement(
     }
 }
 
-fn get_relative_share(deps: &Deps, sender: Addr) -> Result<Decimal, StdError> {
+fn get_relative_share(deps: &Deps, sender: Addr) -> Result<(Uint128, Uint128), StdError> {
     let voting_contract = VOTING_CONTRACT.load(deps.storage)?;
     let dist_height = DISTRIBUTION_HEIGHT.load(deps.storage)?;
     let total_power = TOTAL_POWER.load(deps.storage)?;
@@ -202,8 +202,9 @@ fn get_relative_share(deps: &Deps, sender: Addr) -> Result<Decimal, StdError> {
             height: Some(dist_height),
         },
     )?;
-    // return senders share
-    Ok(Decimal::from_ratio(voting_power.power, total_power))
+    // return senders share as an exact fraction, so that it is rounded only
+    // once when applied to the funds
+    Ok((voting_power.power, total_power))
 }
 
 pub fn execute_claim_cw20s(
@@ -237,7 +238,7 @@ fn get_cw20_claim_wasm_messages(
     tokens: Vec<String>,
     deps: DepsMut,
     sender: Addr,
-    relative_share: Decimal,
+    relative_share: (Uint128, Uint128),
 ) -> Result<Vec<WasmMsg>, ContractError> {
     let mut messages: Vec<WasmMsg> = vec![];
     for addr in tokens {
@@ -314,7 +315,7 @@ fn get_native_claim_bank_messages(
     denoms: Vec<String>,
     deps: DepsMut,
     sender: Addr,
-    relative_share: Decimal,
+    relative_share: (Uint128, Uint128),
 ) -> Result<Vec<BankMsg>, ContractError> {
     let mut messages: Vec<BankMsg> = vec![];
 
-- 
2.43.0


From 184dde8ac1faac9e0fa4a380afb042ab223fe1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 12/20] fix: count a validator with new delegations besides a
 full unbonding as staked to later

---
 packages/cw-stake-tracker/src/lib.rs | 68 ++++++++++++++++------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/packages/cw-stake-tracker/src/lib.rs b/packages/cw-stake-tracker/src/lib.rs
index b9c6339..5ba8e41 100644
--- a/packages/cw-stake-tracker/src/lib.rs
+++ b/packages/cw-stake-tracker/src/lib.rs
@@ -58,16 +58,7 @@ impl<'a> StakeTracker<'a> {
     ) -> StdResult<()> {
         self.total_staked
             .increment(storage, (), t.seconds(), amount)?;
-        let old = self
-            .validators
-            .load(storage, validator.clone(), t.seconds())?
-            .unwrap_or_default();
-        if old.is_zero() && !amount.is_zero() {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        self.validators
-            .increment(storage, validator, t.seconds(), amount)?;
-        Ok(())
+        self.update_validator(storage, validator, t.seconds(), &mut |v| v + amount)
     }
 
     /// Makes note of a redelegation. Note, this only supports
@@ -83,19 +74,8 @@ impl<'a> StakeTracker<'a> {
         dst: String,
         amount: Uint128,
     ) -> StdResult<()> {
-        let new = self
-            .validators
-            .decrement(storage, src, t.seconds(), amount)?;
-        if new.is_zero() {
-            self.cardinality.decrement(storage, (), t.seconds(), 1)?;
-        }
-        let new = self
-            .validators
-            .increment(storage, dst, t.seconds(), amount)?;
-        if new == amount {
-            self.cardinality.increment(storage, (), t.seconds(), 1)?;
-        }
-        Ok(())
+        self.update_validator(storage, src, t.seconds(), &mut |v| v - amount)?;
+        self.update_validator(storage, dst, t.seconds(), &mut |v| v + amount)
     }
 
     pub fn on_undelegate(
@@ -112,15 +92,45 @@ impl<'a> StakeTracker<'a> {
             t.seconds() + unbonding_duration_seconds,
             amount,
         )?;
-        let new = self.validators.decrement(
+        self.update_validator(
             storage,
             validator,
             t.seconds() + unbonding_duration_seconds,
-            amount,
-        )?;
-        if new.is_zero() && !amount.is_zero() {
-            self.cardinality
-                .decrement(storage, (), t.seconds() + unbonding_duration_seconds, 1)?;
+            &mut |v| v - amount,
+        )
+    }
+
+    /// Updates the tokens staked with `validator` at `t` and later,
+    /// and the cardinality at every time at which the validator gains
+    /// its first or loses its last token as a result.
+    fn update_validator(
+        &self,
+        storage: &mut dyn Storage,
+        validator: String,
+        t: u64,
+        update: &mut dyn FnMut(Uint128) -> Uint128,
+    ) -> StdResult<()> {
+        // for `t` and every later time on record: by how much the
+        // cardinality at that time changes.
+        let mut changes = vec![];
+        self.validators
+            .update(storage, validator, t, &mut |staked, time| {
+                let new = update(staked);
+                changes.push((time, i8::from(!new.is_zero()) - i8::from(!staked.is_zero())));
+                new
+            })?;
+
+        // a change of the cardinality at `time` carries over to all
+        // later times.
+        let mut applied = 0;
+        for (time, change) in changes {
+            for _ in applied..change {
+                self.cardinality.increment(storage, (), time, 1)?;
+            }
+            for _ in change..applied {
+                self.cardinality.decrement(storage, (), time, 1)?;
+            }
+            applied = change;
         }
         Ok(())
     }
-- 
2.43.0


From e327df5b10c8b8d721933f53aaf7261472237ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 13/20] fix: take slashes before cancelation off the liquid
 tokens of a canceled vest

---
 contracts/external/cw-vesting/src/vesting.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index 50b9d7d..f03b0d2 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -146,8 +146,11 @@ impl<'a> Payment<'a> {
                 // `owner_withdrawable`. We don't count slashes that
                 // occured during the Funded state as those are
                 // considered when computing `owner_withdrawable`
-                // initially.
-                owner_withdrawable + (vesting.total() - vesting.claimed) - staked
+                // initially, when the vestee's
+                // remaining entitlement is reduced by them.
+                owner_withdrawable
+                    + (vesting.total() - vesting.claimed).saturating_sub(vesting.slashed)
+                    - staked
             }
         }
     }
-- 
2.43.0


From 0e6c2fdfae871b7b647a37b5211d0d6fd0b0a50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:51 +0000
Subject: [PATCH 14/20] fix: let the vestee delegate no more than the vest's
 own liquid tokens

---
 contracts/external/cw-vesting/src/contract.rs | 7 +++++++
 contracts/external/cw-vesting/src/error.rs    | 3 +++
 contracts/external/cw-vesting/src/vesting.rs  | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/contracts/external/cw-vesting/src/contract.rs b/contracts/external/cw-vesting/src/contract.rs
index 78180b2..794cebd 100644
--- a/contracts/external/cw-vesting/src/contract.rs
+++ b/contracts/external/cw-vesting/src/contract.rs
@@ -267,6 +267,13 @@ pub fn execute_delegate(
         return Err(ContractError::NotStakeable);
     }
 
+    // If more tokens were staked than are part of the vest, it could
+    // not be settled when canceled.
+    let liquid = PAYMENT.delegatable(deps.storage, env.block.time)?;
+    if amount > liquid {
+        return Err(ContractError::InvalidDelegation { amount, liquid });
+    }
+
     PAYMENT.on_delegate(deps.storage, env.block.time, validator.clone(), amount)?;
 
     let msg = StakingMsg::Delegate {
diff --git a/contracts/external/cw-vesting/src/error.rs b/contracts/external/cw-vesting/src/error.rs
index c29989f..2aca92e 100644
--- a/contracts/external/cw-vesting/src/error.rs
+++ b/contracts/external/cw-vesting/src/error.rs
@@ -79,6 +79,9 @@ pub enum ContractError {
         claimable: Uint128,
     },
 
+    #[error("can't delegate more than the liquid tokens of the vest. !({amount} <= {liquid})")]
+    InvalidDelegation { amount: Uint128, liquid: Uint128 },
+
     #[error("can't register a slash event occuring in the future")]
     FutureSlash,
 }
diff --git a/contracts/external/cw-vesting/src/vesting.rs b/contracts/external/cw-vesting/src/vesting.rs
index f03b0d2..c97eb13 100644
--- a/contracts/external/cw-vesting/src/vesting.rs
+++ b/contracts/external/cw-vesting/src/vesting.rs
@@ -155,6 +155,15 @@ impl<'a> Payment<'a> {
         }
     }
 
+    /// Gets the number of the vest's tokens that are liquid at `t`,
+    /// which is the most that may be delegated. Tokens sent to the
+    /// contract besides are not part of the vest.
+    pub fn delegatable(&self, storage: &dyn Storage, t: Timestamp) -> StdResult<Uint128> {
+        let vesting = self.vesting.load(storage)?;
+        let staked = self.staking.total_staked(storage, t)?;
+        Ok(self.liquid(&vesting, staked))
+    }
+
     /// Gets the current number tokens that may be distributed to the
     /// vestee.
     pub fn distributable(
-- 
2.43.0


From 3e44333420085823ebd35d1064b74115e2ec9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 15/20] fix: cw-payroll-factory: require a vest to be funded
 with the token that it vests

---
 contracts/external/cw-payroll-factory/src/contract.rs | 11 ++++++++++-
 contracts/external/cw-payroll-factory/src/error.rs    |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/contracts/external/cw-payroll-factory/src/contract.rs b/contracts/external/cw-payroll-factory/src/contract.rs
index ff03317..7b8b278 100644
--- a/contracts/external/cw-payroll-factory/src/contract.rs
+++ b/contracts/external/cw-payroll-factory/src/contract.rs
@@ -9,7 +9,7 @@ use cosmwasm_std::{Addr, Coin};
 use cw2::set_contract_version;
 use cw20::Cw20ExecuteMsg;
 use cw20::Cw20ReceiveMsg;
-use cw_denom::CheckedDenom;
+use cw_denom::{CheckedDenom, UncheckedDenom};
 use cw_storage_plus::Bound;
 use cw_utils::{nonpayable, parse_reply_instantiate_data};
 use cw_vesting::msg::{
@@ -87,6 +87,10 @@ pub fn execute_receive_cw20(
             instantiate_msg,
             label,
         } => {
+            // the vest must be funded with the tokens that were just received
+            if instantiate_msg.denom != UncheckedDenom::Cw20(info.sender.to_string()) {
+                return Err(ContractError::WrongFundDenom {});
+            }
             if receive_msg.amount != instantiate_msg.total {
                 return Err(ContractError::WrongFundAmount {
                     sent: receive_msg.amount,
@@ -104,6 +108,11 @@ pub fn execute_instantiate_native_payroll_contract(
     instantiate_msg: PayrollInstantiateMsg,
     label: String,
 ) -> Result<Response, ContractError> {
+    // cw20 vests are funded by sending the tokens to this contract
+    if !matches!(instantiate_msg.denom, UncheckedDenom::Native(_)) {
+        return Err(ContractError::WrongFundDenom {});
+    }
+
     // Save instantiator info for use in reply
     TMP_INSTANTIATOR_INFO.save(deps.storage, &info.sender)?;
 
diff --git a/contracts/external/cw-payroll-factory/src/error.rs b/contracts/external/cw-payroll-factory/src/error.rs
index e251a2a..4efb49b 100644
--- a/contracts/external/cw-payroll-factory/src/error.rs
+++ b/contracts/external/cw-payroll-factory/src/error.rs
@@ -28,4 +28,7 @@ pub enum ContractError {
 
     #[error("vesting contract vests ({expected}) tokens, funded with ({sent})")]
     WrongFundAmount { sent: Uint128, expected: Uint128 },
+
+    #[error("vesting contract must be funded with the token that it vests")]
+    WrongFundDenom {},
 }
-- 
2.43.0


From 5a9383693320f7fe3740d960227b155f64cf5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:12 +0000
Subject: [PATCH 16/20] fix: cw-admin-factory: keep the expected address of
 every instantiate2 in progress

---
 .../external/cw-admin-factory/src/contract.rs | 24 +++++++++++++------
 .../external/cw-admin-factory/src/state.rs    |  5 ++--
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/contracts/external/cw-admin-factory/src/contract.rs b/contracts/external/cw-admin-factory/src/contract.rs
index d0ac8fc..1cd8207 100644
--- a/contracts/external/cw-admin-factory/src/contract.rs
+++ b/contracts/external/cw-admin-factory/src/contract.rs
@@ -106,10 +106,13 @@ pub fn instantiate2_contract(
         }
     }
 
-    if let Some(expect) = expect {
-        let expect = deps.api.addr_validate(&expect)?;
-        EXPECT.save(deps.storage, &expect)?;
-    }
+    // Save the expected address, if any, for use in the reply. This contract
+    // may be called again while the contract is being instantiated, so every
+    // instantiation in progress needs an entry of its own.
+    let expect = expect.map(|e| deps.api.addr_validate(&e)).transpose()?;
+    let mut expected = EXPECT.may_load(deps.storage)?.unwrap_or_default();
+    expected.push(expect);
+    EXPECT.save(deps.storage, &expected)?;
 
     // Instantiate the specified contract with factory as the admin.
     let instantiate = WasmMsg::Instantiate2 {
@@ -145,10 +148,17 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
             let contract_addr = deps.api.addr_validate(&res.contract_address)?;
 
             if msg_id == INSTANTIATE2_CONTRACT_REPLY_ID {
-                // If saved an expected address, verify it matches and clear it.
-                let expect = EXPECT.may_load(deps.storage)?;
-                if let Some(expect) = expect {
+                // Take the entry of the instantiation that just finished, which
+                // is the one that started last. If it has an expected address,
+                // verify it matches.
+                let mut expected = EXPECT.load(deps.storage)?;
+                let expect = expected.pop().flatten();
+                if expected.is_empty() {
                     EXPECT.remove(deps.storage);
+                } else {
+                    EXPECT.save(deps.storage, &expected)?;
+                }
+                if let Some(expect) = expect {
                     if contract_addr != expect {
                         return Err(ContractError::UnexpectedContractAddress {
                             expected: expect.to_string(),
diff --git a/contracts/external/cw-admin-factory/src/state.rs b/contracts/external/cw-admin-factory/src/state.rs
index 9957a96..138ff9e 100644
--- a/contracts/external/cw-admin-factory/src/state.rs
+++ b/contracts/external/cw-admin-factory/src/state.rs
@@ -4,5 +4,6 @@ use cw_storage_plus::Item;
 /// The account allowed to execute the contract. If None, anyone is allowed.
 pub const ADMIN: Item<Option<Addr>> = Item::new("admin");
 
-/// The expected instantiate2 address to validate in the reply.
-pub const EXPECT: Item<Addr> = Item::new("expect");
+/// The expected instantiate2 addresses, if any, to validate in the replies. The
+/// instantiation that started last, which is the first to finish, is at the end.
+pub const EXPECT: Item<Vec<Option<Addr>>> = Item::new("expect");
-- 
2.43.0


From c368f4d5c6af92c59de1a3ebcfc30a1ebec281d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 17/20] fix: let cw20-stake v1 contracts upgrade before
 anything was staked

The v1 contract only wrote its totals on the first stake or funding, so a
contract upgraded before that had no staked total or balance and could not
be used any more.
---
 contracts/staking/cw20-stake/src/contract.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/contracts/staking/cw20-stake/src/contract.rs b/contracts/staking/cw20-stake/src/contract.rs
index b7cc351..47a71a0 100644
--- a/contracts/staking/cw20-stake/src/contract.rs
+++ b/contracts/staking/cw20-stake/src/contract.rs
@@ -453,7 +453,7 @@ pub fn query_list_stakers(
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
+pub fn migrate(deps: DepsMut, env: Env, msg: MigrateMsg) -> Result<Response, ContractError> {
     use cw20_stake_v1 as v1;
 
     let ContractVersion { version, .. } = get_contract_version(deps.storage)?;
@@ -480,6 +480,15 @@ pub fn migrate(deps: DepsMut, _env: Env, msg: MigrateMsg) -> Result<Response, Co
             };
             CONFIG.save(deps.storage, &config)?;
 
+            // v1 only stored these once tokens had been staked or
+            // funded. They are expected to be set from here on.
+            if STAKED_TOTAL.may_load(deps.storage)?.is_none() {
+                STAKED_TOTAL.save(deps.storage, &Uint128::zero(), env.block.height)?;
+            }
+            if BALANCE.may_load(deps.storage)?.is_none() {
+                BALANCE.save(deps.storage, &Uint128::zero())?;
+            }
+
             Ok(Response::default())
         }
     }
-- 
2.43.0


From de049cbb49d2e3211834291890bb4abfa11c0d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 18/20] fix: run module callbacks when the voting module is
 replaced

Modules created with the DAO and added proposal modules have their
ModuleInstantiateCallback executed; a replacing voting module's was dropped,
leaving e.g. the ownership of its new token or collection pending.
---
 contracts/dao-dao-core/src/contract.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/contracts/dao-dao-core/src/contract.rs b/contracts/dao-dao-core/src/contract.rs
index 1ee52a1..43a4349 100644
--- a/contracts/dao-dao-core/src/contract.rs
+++ b/contracts/dao-dao-core/src/contract.rs
@@ -1015,7 +1015,17 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
 
             VOTING_MODULE.save(deps.storage, &vote_module_addr)?;
 
-            Ok(Response::default().add_attribute("voting_module", vote_module_addr))
+            // Check for module instantiation callbacks
+            let callback_msgs = match res.data {
+                Some(data) => from_json::<ModuleInstantiateCallback>(&data)
+                    .map(|m| m.msgs)
+                    .unwrap_or_else(|_| vec![]),
+                None => vec![],
+            };
+
+            Ok(Response::default()
+                .add_attribute("voting_module", vote_module_addr)
+                .add_messages(callback_msgs))
         }
         _ => Err(ContractError::UnknownReplyID {}),
     }
-- 
2.43.0


From 02b64f8aad3ff20d702eb9a2974bed7194051a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:23 +0000
Subject: [PATCH 19/20] fix: have the DAO accept ownership of a new roles
 collection

dao-voting-cw721-roles proposed the DAO as owner of the collection it
created but nothing ever accepted, so the collection stayed owned by the
voting module, which cannot execute anything.
---
 .../dao-voting-cw721-roles/src/contract.rs    | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/contracts/voting/dao-voting-cw721-roles/src/contract.rs b/contracts/voting/dao-voting-cw721-roles/src/contract.rs
index d44bf10..cc7e554 100644
--- a/contracts/voting/dao-voting-cw721-roles/src/contract.rs
+++ b/contracts/voting/dao-voting-cw721-roles/src/contract.rs
@@ -12,6 +12,7 @@ use cw721_base::{
 use cw_ownable::Action;
 use cw_utils::parse_reply_instantiate_data;
 use dao_cw721_extensions::roles::{ExecuteExt, MetadataExt, QueryExt};
+use dao_interface::state::ModuleInstantiateCallback;
 
 use crate::msg::{ExecuteMsg, InstantiateMsg, NftContract, QueryMsg};
 use crate::state::{Config, CONFIG, DAO, INITIAL_NFTS};
@@ -218,11 +219,28 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
                         funds: vec![],
                     };
 
+                    // On setup success, have the DAO complete the second part
+                    // of ownership transfer by accepting ownership in a
+                    // ModuleInstantiateCallback.
+                    let callback = to_json_binary(&ModuleInstantiateCallback {
+                        msgs: vec![WasmMsg::Execute {
+                            contract_addr: nft_contract.clone(),
+                            msg: to_json_binary(
+                                &Cw721ExecuteMsg::<MetadataExt, ExecuteExt>::UpdateOwnership(
+                                    Action::AcceptOwnership {},
+                                ),
+                            )?,
+                            funds: vec![],
+                        }
+                        .into()],
+                    })?;
+
                     Ok(Response::default()
                         .add_attribute("method", "instantiate")
                         .add_attribute("nft_contract", nft_contract)
                         .add_message(update_minter_msg)
-                        .add_submessages(mint_submessages))
+                        .add_submessages(mint_submessages)
+                        .set_data(callback))
                 }
                 Err(_) => Err(ContractError::NftInstantiateError {}),
             }
-- 
2.43.0


From d274e5de75d3ee115fce5e885a03784815505938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:43 +0000
Subject: [PATCH 20/20] fix: dao-voting-cw20-staked accepted an active count
 out of reach of a new token's holders

The check made once the token exists counts the tokens minted to the DAO
itself, which nobody can stake before a proposal passes, so a DAO could be
created that would never become active.
---
 contracts/voting/dao-voting-cw20-staked/src/contract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/voting/dao-voting-cw20-staked/src/contract.rs b/contracts/voting/dao-voting-cw20-staked/src/contract.rs
index 47913a5..9d3dbfa 100644
--- a/contracts/voting/dao-voting-cw20-staked/src/contract.rs
+++ b/contracts/voting/dao-voting-cw20-staked/src/contract.rs
@@ -125,6 +125,15 @@ pub fn instantiate(
                 return Err(ContractError::InitialBalancesError {});
             }
 
+            // Tokens minted to the DAO cannot be staked before a proposal
+            // passes, so an absolute count that needs them would lock
+            // the DAO as well.
+            if let Some(ActiveThreshold::AbsoluteCount { count }) = msg.active_threshold {
+                if count > initial_supply {
+                    return Err(ContractError::InvalidAbsoluteCount {});
+                }
+            }
+
             // Add DAO initial balance to initial_balances vector if defined.
             if let Some(initial_dao_balance) = initial_dao_balance {
                 if initial_dao_balance > Uint128::zero() {
-- 
2.43.0

