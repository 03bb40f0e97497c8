From 6392b464d1423bb655ffeefd139ab6e86c033f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 01/12] fix: InstructionHolder owns its account metas and
 indexes

The iterator returned slices into stack arrays of parse_next_instruction,
so a holder kept beyond the next call read overwritten memory.
---
 instructions/src/lib.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/instructions/src/lib.rs b/instructions/src/lib.rs
index 1bea396..171b33b 100644
--- a/instructions/src/lib.rs
+++ b/instructions/src/lib.rs
@@ -8,7 +8,7 @@
 /// - Restricted key handling
 /// - Memory-efficient instruction processing
 mod compact_instructions;
-use core::{marker::PhantomData, mem::MaybeUninit};
+use core::marker::PhantomData;
 
 pub use compact_instructions::*;
 use pinocchio::{
@@ -49,8 +49,8 @@ impl From<InstructionError> for ProgramError {
 pub struct InstructionHolder<'a> {
     pub program_id: &'a Pubkey,
     pub cpi_accounts: Vec<Account<'a>>,
-    pub indexes: &'a [usize],
-    pub accounts: &'a [AccountMeta<'a>],
+    pub indexes: Vec<usize>,
+    pub accounts: Vec<AccountMeta<'a>>,
     pub data: &'a [u8],
     pub uses_swig_signer: bool,
 }
@@ -65,7 +65,10 @@ impl<'a> InstructionHolder<'a> {
         if self.program_id == &pinocchio_system::ID
             && self.data.len() >= 12
             && unsafe { self.data.get_unchecked(0..4) == [2, 0, 0, 0] }
-            && unsafe { self.accounts.get_unchecked(0).pubkey == swig_key }
+            && self
+                .accounts
+                .first()
+                .is_some_and(|account| account.pubkey == swig_key)
         {
             // Check if the "from" account (swig_key) is system-owned or program-owned
             let from_account_index = unsafe { *self.indexes.get_unchecked(0) };
@@ -150,7 +153,7 @@ impl<'a> InstructionHolder<'a> {
     pub fn borrow(&'a self) -> Instruction<'a, 'a, 'a, 'a> {
         Instruction {
             program_id: self.program_id,
-            accounts: self.accounts,
+            accounts: self.accounts.as_slice(),
             data: self.data,
         }
     }
@@ -283,24 +286,26 @@ where
         let (num_accounts, cursor) = self.read_u8()?;
         self.cursor = cursor;
         let num_accounts = num_accounts as usize;
-        const AM_UNINIT: MaybeUninit<AccountMeta> = MaybeUninit::uninit();
-        let mut accounts = [AM_UNINIT; MAX_ACCOUNTS];
+        if num_accounts > MAX_ACCOUNTS {
+            return Err(InstructionError::MissingAccountInfo);
+        }
+        // The holder outlives this function, so it must own what it refers to.
+        let mut accounts = Vec::with_capacity(num_accounts);
         let mut infos = Vec::with_capacity(num_accounts);
-        const INDEX_UNINIT: MaybeUninit<usize> = MaybeUninit::uninit();
-        let mut indexes = [INDEX_UNINIT; MAX_ACCOUNTS];
+        let mut indexes = Vec::with_capacity(num_accounts);
         let mut uses_swig_signer = false;
-        for i in 0..num_accounts {
+        for _ in 0..num_accounts {
             let (pubkey_index, cursor) = self.read_u8()?;
             self.cursor = cursor;
             let account = self.accounts.get_account(pubkey_index as usize)?;
-            indexes[i].write(pubkey_index as usize);
+            indexes.push(pubkey_index as usize);
             let pubkey = account.pubkey();
             let is_signer = (pubkey == self.signer || account.signer())
                 && !self.restricted_keys.is_restricted(pubkey);
             if is_signer && pubkey == self.signer {
                 uses_swig_signer = true;
             }
-            accounts[i].write(AccountMeta {
+            accounts.push(AccountMeta {
                 pubkey,
                 is_signer,
                 is_writable: account.writable(),
@@ -317,8 +322,8 @@ where
         Ok(InstructionHolder {
             program_id,
             cpi_accounts: infos,
-            accounts: unsafe { core::slice::from_raw_parts(accounts.as_ptr() as _, num_accounts) },
-            indexes: unsafe { core::slice::from_raw_parts(indexes.as_ptr() as _, num_accounts) },
+            accounts,
+            indexes,
             data,
             uses_swig_signer,
         })
-- 
2.43.0


From 38be70272e2d5bfcc15e4e874ed2dcb53a0db8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:20 +0000
Subject: [PATCH 02/12] fix: walk submitted actions by length when looking for
 a root permission

find_action followed the boundary field of client-supplied bytes: it looped
forever on a self-referencing boundary and could take permission payload
bytes for an All or ManageAuthority action, so a wallet could be created
without a managing root role.
---
 state/src/action/mod.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/state/src/action/mod.rs b/state/src/action/mod.rs
index d86f2e5..af673ef 100644
--- a/state/src/action/mod.rs
+++ b/state/src/action/mod.rs
@@ -352,14 +352,22 @@ impl ActionLoader {
     ) -> Result<Option<&'a T>, ProgramError> {
         let mut cursor = 0;
 
+        // Boundaries of client-supplied actions are not trusted (`add_role` ignores
+        // and rewrites them), so walk by the declared lengths.
         while cursor < bytes.len() {
-            let action = unsafe { Action::load_unchecked(&bytes[cursor..cursor + Action::LEN])? };
+            let data_start = cursor + Action::LEN;
+            let header = bytes
+                .get(cursor..data_start)
+                .ok_or(ProgramError::InvalidInstructionData)?;
+            let action = unsafe { Action::load_unchecked(header)? };
+            let data_end = data_start + action.length() as usize;
+            let data = bytes
+                .get(data_start..data_end)
+                .ok_or(ProgramError::InvalidInstructionData)?;
             if action.permission() == Ok(T::TYPE) {
-                return Ok(Some(unsafe {
-                    T::load_unchecked(&bytes[cursor..cursor + action.length() as usize])?
-                }));
+                return Ok(Some(unsafe { T::load_unchecked(data)? }));
             }
-            cursor = action.boundary() as usize;
+            cursor = data_end;
         }
         Ok(None)
     }
-- 
2.43.0


From aab0ec5054d2514aca38d7c54f292beb72e83809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:48 +0000
Subject: [PATCH 03/12] fix: program-exec authority counts the preceding
 instruction's accounts

The account count was read from the instruction data, so instructions with
a small leading u16 were refused and ones with fewer than two accounts were
read past their account list.
---
 state/src/authority/programexec/mod.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/state/src/authority/programexec/mod.rs b/state/src/authority/programexec/mod.rs
index 13cb511..e513dcc 100644
--- a/state/src/authority/programexec/mod.rs
+++ b/state/src/authority/programexec/mod.rs
@@ -293,15 +293,6 @@ pub fn program_exec_authenticate(
 
     // Get the target instruction
     let preceding_ix = unsafe { ixs.deserialize_instruction_unchecked(verify_ix_index) };
-    let num_accounts = u16::from_le_bytes(unsafe {
-        *(preceding_ix.get_instruction_data().as_ptr() as *const [u8; 2])
-    });
-    if num_accounts < 2 {
-        return Err(
-            SwigAuthenticateError::PermissionDeniedProgramExecInvalidInstructionData.into(),
-        );
-    }
-
     // Verify the instruction is calling the expected program
     if !sol_assert_bytes_eq(preceding_ix.get_program_id(), expected_program_id, 32) {
         return Err(SwigAuthenticateError::PermissionDeniedProgramExecInvalidProgram.into());
@@ -327,8 +318,12 @@ pub fn program_exec_authenticate(
 
     // Verify the first two accounts of the preceding instruction are config and
     // wallet Get account meta at index 0 (should be config)
-    let account_0 = unsafe { preceding_ix.get_account_meta_at_unchecked(0) };
-    let account_1 = unsafe { preceding_ix.get_account_meta_at_unchecked(1) };
+    let account_0 = preceding_ix
+        .get_account_meta_at(0)
+        .map_err(|_| SwigAuthenticateError::PermissionDeniedProgramExecInvalidConfigAccount)?;
+    let account_1 = preceding_ix
+        .get_account_meta_at(1)
+        .map_err(|_| SwigAuthenticateError::PermissionDeniedProgramExecInvalidWalletAccount)?;
 
     // Verify the accounts match the config and wallet keys
     if !sol_assert_bytes_eq(account_0.key.as_ref(), config_account.key(), 32) {
-- 
2.43.0


From 5b000f77f1cc1c1a443e462d83bf53f1fc9a24a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 04/12] fix: recurring destination limits tolerate a reset slot
 in the future

A reset slot after the current slot underflowed and was taken for an
elapsed window; the other recurring limits saturate.
---
 state/src/action/sol_recurring_destination_limit.rs   | 2 +-
 state/src/action/token_recurring_destination_limit.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/state/src/action/sol_recurring_destination_limit.rs b/state/src/action/sol_recurring_destination_limit.rs
index 8a3fade..ae7170e 100644
--- a/state/src/action/sol_recurring_destination_limit.rs
+++ b/state/src/action/sol_recurring_destination_limit.rs
@@ -49,7 +49,7 @@ impl SolRecurringDestinationLimit {
     pub fn run(&mut self, lamport_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && lamport_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window && lamport_diff <= self.recurring_amount {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
diff --git a/state/src/action/token_recurring_destination_limit.rs b/state/src/action/token_recurring_destination_limit.rs
index a3639aa..9748a57 100644
--- a/state/src/action/token_recurring_destination_limit.rs
+++ b/state/src/action/token_recurring_destination_limit.rs
@@ -54,7 +54,7 @@ impl TokenRecurringDestinationLimit {
     pub fn run(&mut self, token_diff: u64, current_slot: u64) -> Result<(), ProgramError> {
         // Reset the limit if the time window has expired and the operation would fit in
         // a fresh window
-        if current_slot - self.last_reset > self.window && token_diff <= self.recurring_amount {
+        if current_slot.saturating_sub(self.last_reset) > self.window && token_diff <= self.recurring_amount {
             self.current_amount = self.recurring_amount;
             self.last_reset = current_slot;
         }
-- 
2.43.0


From 34ee262d5937cee826161c6327df35ea02c485ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 05/12] fix: refuse recurring limits with a zero window

The first spend after the reset slot divided by the window, so such a
permission could be stored but every use of it aborted the program; the
recurring destination limits already refuse it. Lengths are checked before
the fields are sliced.
---
 state/src/action/program_scope.rs         | 12 ++++++++++++
 state/src/action/sol_recurring_limit.rs   |  7 ++++++-
 state/src/action/stake_recurring_limit.rs |  7 ++++++-
 state/src/action/token_recurring_limit.rs |  7 ++++++-
 4 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/state/src/action/program_scope.rs b/state/src/action/program_scope.rs
index 8e1a5a7..9fa2107 100644
--- a/state/src/action/program_scope.rs
+++ b/state/src/action/program_scope.rs
@@ -431,4 +431,16 @@ impl<'a> Actionable<'a> for ProgramScope {
     fn match_data(&self, data: &[u8]) -> bool {
         data.len() >= 32 && data[0..32] == self.target_account
     }
+
+    fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
+        // a recurring scope with a zero window could never be reset (division by
+        // zero)
+        let window_at = core::mem::offset_of!(Self, window);
+        let window = &data[window_at..window_at + 8];
+        let scope_type = data[core::mem::offset_of!(Self, scope_type)];
+        Ok(scope_type != ProgramScopeType::RecurringLimit as u8 || window != &[0u8; 8])
+    }
 }
diff --git a/state/src/action/sol_recurring_limit.rs b/state/src/action/sol_recurring_limit.rs
index 5ef62b3..9eed76c 100644
--- a/state/src/action/sol_recurring_limit.rs
+++ b/state/src/action/sol_recurring_limit.rs
@@ -77,6 +77,11 @@ impl<'a> Actionable<'a> for SolRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
+        // a zero window could never be reset (division by zero)
+        let window = &data[8..16];
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
@@ -85,7 +90,7 @@ impl<'a> Actionable<'a> for SolRecurringLimit {
         Ok(
             current_amount == recurring_amount
                 && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
+                && window != &[0u8; 8],
         )
     }
 }
diff --git a/state/src/action/stake_recurring_limit.rs b/state/src/action/stake_recurring_limit.rs
index 055c6da..ad388cf 100644
--- a/state/src/action/stake_recurring_limit.rs
+++ b/state/src/action/stake_recurring_limit.rs
@@ -79,6 +79,11 @@ impl<'a> Actionable<'a> for StakeRecurringLimit {
     const REPEATABLE: bool = false;
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
+        // a zero window could never be reset (division by zero)
+        let window = &data[8..16];
         // current amount needs to be equal to recurring amount
         let current_amount = &data[24..32];
         let recurring_amount = &data[0..8];
@@ -87,7 +92,7 @@ impl<'a> Actionable<'a> for StakeRecurringLimit {
         Ok(
             current_amount == recurring_amount
                 && last_reset == &[0u8; 8]
-                && data.len() == Self::LEN,
+                && window != &[0u8; 8],
         )
     }
 }
diff --git a/state/src/action/token_recurring_limit.rs b/state/src/action/token_recurring_limit.rs
index 14810c0..298505c 100644
--- a/state/src/action/token_recurring_limit.rs
+++ b/state/src/action/token_recurring_limit.rs
@@ -87,11 +87,16 @@ impl<'a> Actionable<'a> for TokenRecurringLimit {
     }
 
     fn valid_layout(data: &'a [u8]) -> Result<bool, ProgramError> {
+        if data.len() != Self::LEN {
+            return Ok(false);
+        }
+        // a zero window could never be reset (division by zero)
+        let window = &data[32..40];
         // current amount needs to be equal to limit
         let current = &data[48..56];
         let limit = &data[40..48];
         // last reset needs to be 0
         let last_reset = &data[56..64];
-        Ok(current == limit && last_reset == &[0u8; 8] && data.len() == Self::LEN)
+        Ok(current == limit && last_reset == &[0u8; 8] && window != &[0u8; 8])
     }
 }
-- 
2.43.0


From 9c4a755363bd5947b80489c31670b9869abc7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 06/12] fix: refuse to migrate a wallet that already has its
 wallet address

The guard compared the eight bytes that contain the wallet bump with zero and
the bump with non-zero, so it never fired; migrating again reset the
sub-account counter and made further sub-accounts impossible.
---
 program/src/actions/migrate_to_wallet_address_v1.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/program/src/actions/migrate_to_wallet_address_v1.rs b/program/src/actions/migrate_to_wallet_address_v1.rs
index dcf39dc..64c84a1 100644
--- a/program/src/actions/migrate_to_wallet_address_v1.rs
+++ b/program/src/actions/migrate_to_wallet_address_v1.rs
@@ -25,6 +25,7 @@ use crate::{
         accounts::{Context, MigrateToWalletAddressV1Accounts},
         SwigInstruction,
     },
+    is_swig_v2,
 };
 
 /// Arguments for migrating a Swig account to wallet address feature.
@@ -158,12 +159,9 @@ pub fn migrate_to_wallet_address_v1(
         }
 
         // Check if this account is already migrated (has wallet_bump field)
-        // We can detect this by checking if reserved_lamports field is 0 and if the
-        // 41st byte (wallet_bump position) is non-zero
         let old_swig = unsafe { OldSwig::load_unchecked(&swig_data[..OldSwig::LEN])? };
-        let potential_wallet_bump = swig_data[40]; // Position where wallet_bump would be
 
-        if old_swig.reserved_lamports == 0 && potential_wallet_bump != 0 {
+        if unsafe { is_swig_v2(swig_data) } {
             msg!("Account appears to already be migrated");
             return Err(SwigError::StateError.into());
         }
-- 
2.43.0


From 9e8562dc5a30bebdfeaf24289db1d73bf86d9243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 07/12] fix: SignV2 refuses to hand over the wallet address
 itself

A limited role allowed to call the system program could assign the wallet
address to another program or allocate data in it.
---
 program/src/actions/sign_v2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 178bb8c..5f2bb93 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -304,6 +304,7 @@ pub fn sign_v2(
         [UNINIT_HASH; MAX_ACCOUNT_SNAPSHOTS];
 
     let mut total_sol_spent: u64 = 0;
+    let wallet_data_len = ctx.accounts.swig_wallet_address.data_len();
 
     // Build exclusion ranges for each account type for snapshots
     for (index, account_classifier) in account_classifiers.iter().enumerate() {
@@ -529,6 +530,14 @@ pub fn sign_v2(
                     }
                 }
 
+                // The wallet address signed the inner instructions, so they could have
+                // assigned it to another program or allocated data in it
+                if ctx.accounts.swig_wallet_address.owner() != &SYSTEM_PROGRAM_ID
+                    || ctx.accounts.swig_wallet_address.data_len() != wallet_data_len
+                {
+                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                }
+
                 let swig_wallet_balance = ctx.accounts.swig_wallet_address.lamports();
                 let swig_wallet_rent_exempt_minimum = pinocchio::sysvars::rent::Rent::get()?
                     .minimum_balance(ctx.accounts.swig_wallet_address.data_len());
-- 
2.43.0


From 7f4d71d22e3893b19077ebf711bc0a135620370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 08/12] fix: measure a role's program scope spending from its
 own balance field

The starting balance came from the first scope any role has for the account,
so a role scoped to another field of it spent unmeasured amounts.
---
 program/src/actions/sign_v2.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 5f2bb93..074e10a 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -307,7 +307,7 @@ pub fn sign_v2(
     let wallet_data_len = ctx.accounts.swig_wallet_address.data_len();
 
     // Build exclusion ranges for each account type for snapshots
-    for (index, account_classifier) in account_classifiers.iter().enumerate() {
+    for (index, account_classifier) in account_classifiers.iter_mut().enumerate() {
         let account = unsafe { all_accounts.get_unchecked(index) };
 
         // Only check writable accounts as read-only accounts won't modify data
@@ -339,7 +339,7 @@ pub fn sign_v2(
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
                 Some(hash)
             },
-            AccountClassification::ProgramScope { .. } => {
+            AccountClassification::ProgramScope { balance, .. } => {
                 let data = unsafe { account.borrow_data_unchecked() };
                 // For program scope, we need to get the actual program scope to know what to
                 // exclude, and include owner in hash
@@ -347,6 +347,11 @@ pub fn sign_v2(
                 if let Some(program_scope) =
                     RoleMut::get_action_mut::<ProgramScope>(role.actions, account_key.as_ref())?
                 {
+                    // The classifier read the balance through the first scope any role has
+                    // for this account; spending is measured with this role's own field
+                    if let Ok(own_balance) = program_scope.read_account_balance(data) {
+                        *balance = own_balance;
+                    }
                     let start = program_scope.balance_field_start as usize;
                     let end = program_scope.balance_field_end as usize;
                     if start < end && end <= data.len() {
-- 
2.43.0


From 15c13aaddbcf1614ca0b5f5e8f459b8c4a0f9b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 09/12] fix: SignV2 charges tokens spent from an account closed
 in the same transaction

A role with the close permission could empty a token account past its token
limits by closing it afterwards: the closed account skipped the limits.
---
 program/src/actions/sign_v2.rs | 84 +++++++++++++++++++---------------
 1 file changed, 48 insertions(+), 36 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index 074e10a..c111a66 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -304,6 +304,8 @@ pub fn sign_v2(
         [UNINIT_HASH; MAX_ACCOUNT_SNAPSHOTS];
 
     let mut total_sol_spent: u64 = 0;
+    // Mints of the writable token accounts; an account's data is gone once closed
+    let mut token_mints: Vec<(usize, [u8; 32])> = Vec::new();
     let wallet_data_len = ctx.accounts.swig_wallet_address.data_len();
 
     // Build exclusion ranges for each account type for snapshots
@@ -327,6 +329,9 @@ pub fn sign_v2(
             },
             AccountClassification::SwigTokenAccount { .. } => {
                 let data = unsafe { account.borrow_data_unchecked() };
+                let mut mint = [0u8; 32];
+                mint.copy_from_slice(unsafe { data.get_unchecked(TOKEN_MINT_RANGE) });
+                token_mints.push((index, mint));
                 // Exclude token balance field (bytes 64-72) but include owner
                 let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
                 let hash = hash_except(&data, account.owner(), &exclude_ranges);
@@ -419,15 +424,16 @@ pub fn sign_v2(
                     AccountClassification::SwigTokenAccount { balance, spent } => {
                         let data = unsafe { account.borrow_data_unchecked() };
 
-                        if data.len() < TOKEN_BALANCE_RANGE.end {
-                            continue;
-                        }
-
-                        let current = u64::from_le_bytes(unsafe {
-                            data.get_unchecked(TOKEN_BALANCE_RANGE)
-                                .try_into()
-                                .unwrap_or([0; 8])
-                        });
+                        // A closed account holds nothing any more
+                        let current = if data.len() < TOKEN_BALANCE_RANGE.end {
+                            0
+                        } else {
+                            u64::from_le_bytes(unsafe {
+                                data.get_unchecked(TOKEN_BALANCE_RANGE)
+                                    .try_into()
+                                    .unwrap_or([0; 8])
+                            })
+                        };
 
                         if current < *balance {
                             *spent = spent.saturating_add(*balance - current);
@@ -629,7 +635,7 @@ pub fn sign_v2(
                 // The on-chain token program resizes closed accounts to zero bytes,
                 // while its native test processor retains zeroed data. Both forms
                 // drain the account's lamports and assign it to the system program.
-                if data.is_empty() || account_info.lamports() == 0 {
+                let mint: &[u8] = if data.is_empty() || account_info.lamports() == 0 {
                     let has_close_permission =
                         RoleMut::get_action_mut::<CloseSwigAuthority>(actions, &[])?.is_some();
                     if !has_close_permission {
@@ -639,36 +645,42 @@ pub fn sign_v2(
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
 
-                    continue;
-                }
-
-                if data.len() < TOKEN_ACCOUNT_BASE_DATA_LEN {
-                    return Err(SwigError::AccountDataModifiedUnexpectedly.into());
-                }
-
-                if account_info.is_writable() {
-                    let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
-                    let current_hash = hash_except(&data, account_info.owner(), &exclude_ranges);
-                    let snapshot_hash = unsafe { account_snapshots[index].assume_init_ref() };
-                    if *snapshot_hash != current_hash {
+                    // What left the account before it was closed is still charged
+                    token_mints
+                        .iter()
+                        .find(|(token_index, _)| *token_index == index)
+                        .map(|(_, mint)| &mint[..])
+                        .ok_or(SwigError::AccountDataModifiedUnexpectedly)?
+                } else {
+                    if data.len() < TOKEN_ACCOUNT_BASE_DATA_LEN {
                         return Err(SwigError::AccountDataModifiedUnexpectedly.into());
                     }
-                }
 
-                let mint = unsafe { data.get_unchecked(TOKEN_MINT_RANGE) };
-                let state = unsafe { *data.get_unchecked(TOKEN_STATE_INDEX) };
-                let authority = unsafe { data.get_unchecked(TOKEN_AUTHORITY_RANGE) };
+                    if account_info.is_writable() {
+                        let exclude_ranges = [TOKEN_BALANCE_EXCLUDE_RANGE];
+                        let current_hash = hash_except(&data, account_info.owner(), &exclude_ranges);
+                        let snapshot_hash = unsafe { account_snapshots[index].assume_init_ref() };
+                        if *snapshot_hash != current_hash {
+                            return Err(SwigError::AccountDataModifiedUnexpectedly.into());
+                        }
+                    }
+
+                    let state = unsafe { *data.get_unchecked(TOKEN_STATE_INDEX) };
+                    let authority = unsafe { data.get_unchecked(TOKEN_AUTHORITY_RANGE) };
 
-                if authority != ctx.accounts.swig_wallet_address.key() {
-                    return Err(
-                        SwigAuthenticateError::PermissionDeniedTokenAccountAuthorityNotSwig.into(),
-                    );
-                }
-                if state != TOKEN_ACCOUNT_INITIALIZED_STATE {
-                    return Err(
-                        SwigAuthenticateError::PermissionDeniedTokenAccountNotInitialized.into(),
-                    );
-                }
+                    if authority != ctx.accounts.swig_wallet_address.key() {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedTokenAccountAuthorityNotSwig.into(),
+                        );
+                    }
+                    if state != TOKEN_ACCOUNT_INITIALIZED_STATE {
+                        return Err(
+                            SwigAuthenticateError::PermissionDeniedTokenAccountNotInitialized.into(),
+                        );
+                    }
+
+                    unsafe { data.get_unchecked(TOKEN_MINT_RANGE) }
+                };
 
                 let total_token_spent = *spent;
                 if total_token_spent == 0 {
-- 
2.43.0


From 7a2eeb0ec56ae4cb34a9c7359ddbc428e50517a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 10/12] fix: editing a role keeps actions that are already in
 use

---
 program/src/actions/update_authority_v1.rs | 52 ++++++++++++++++++----
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/program/src/actions/update_authority_v1.rs b/program/src/actions/update_authority_v1.rs
index 180210d..33e20ef 100644
--- a/program/src/actions/update_authority_v1.rs
+++ b/program/src/actions/update_authority_v1.rs
@@ -35,11 +35,12 @@ use crate::{
 ///
 /// # Arguments
 /// * `actions_data` - Raw bytes containing action data
+/// * `retained_len` - Length of the leading actions the role already holds
 ///
 /// # Returns
 /// * `Result<u8, ProgramError>` - The number of actions found, or error if
 ///   invalid data
-fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
+fn calculate_num_actions(actions_data: &[u8], retained_len: usize) -> Result<u8, ProgramError> {
     let mut cursor = 0;
     let mut count = 0u8;
 
@@ -58,7 +59,9 @@ fn calculate_num_actions(actions_data: &[u8]) -> Result<u8, ProgramError> {
         }
 
         let action_data = &actions_data[cursor..cursor + action_len];
-        if !ActionLoader::validate_layout(action_header.permission()?, action_data)? {
+        if cursor >= retained_len
+            && !ActionLoader::validate_layout(action_header.permission()?, action_data)?
+        {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -289,6 +292,34 @@ fn perform_replace_all_operation(
     current_actions_size: usize,
     new_actions: &[u8],
     authority_to_update_id: u32,
+) -> Result<i64, ProgramError> {
+    replace_actions(
+        swig_roles,
+        current_roles_len,
+        authority_offset,
+        actions_offset,
+        current_actions_size,
+        new_actions,
+        0,
+        authority_to_update_id,
+    )
+}
+
+/// Replaces an authority's actions with `new_actions`.
+///
+/// The first `retained_len` bytes of `new_actions` are actions the role already
+/// holds. They may carry the state of past use, so only the actions after them
+/// have to be laid out as newly granted ones.
+#[allow(clippy::too_many_arguments)]
+fn replace_actions(
+    swig_roles: &mut [u8],
+    current_roles_len: usize,
+    authority_offset: usize,
+    actions_offset: usize,
+    current_actions_size: usize,
+    new_actions: &[u8],
+    retained_len: usize,
+    authority_to_update_id: u32,
 ) -> Result<i64, ProgramError> {
     // Reject duplicate V2 sub-account scoped actions on the resulting role.
     // ReplaceAll receives the role's full new action list, and AddActions routes
@@ -340,7 +371,7 @@ fn perform_replace_all_operation(
             // Update the position for the role we're updating
             if position.id() == authority_to_update_id {
                 position.boundary = (position.boundary() as i64 + size_diff) as u32;
-                position.num_actions = calculate_num_actions(new_actions)? as u16;
+                position.num_actions = calculate_num_actions(new_actions, retained_len)? as u16;
             }
 
             cursor = position.boundary() as usize;
@@ -352,7 +383,7 @@ fn perform_replace_all_operation(
                 &mut swig_roles[authority_offset..authority_offset + Position::LEN],
             )?
         };
-        position.num_actions = calculate_num_actions(new_actions)? as u16;
+        position.num_actions = calculate_num_actions(new_actions, retained_len)? as u16;
     }
 
     let final_roles_len = (current_roles_len as i64 + size_diff) as usize;
@@ -382,7 +413,9 @@ fn perform_replace_all_operation(
         let permission = action_header.permission()?;
         let action_data =
             &new_actions[action_cursor + Action::LEN..action_cursor + total_action_size];
-        if !ActionLoader::validate_layout(permission, action_data)? {
+        if action_cursor >= retained_len
+            && !ActionLoader::validate_layout(permission, action_data)?
+        {
             return Err(ProgramError::InvalidInstructionData);
         }
 
@@ -425,13 +458,14 @@ fn perform_add_actions_operation(
     combined_actions.extend_from_slice(new_actions);
 
     // Use replace_all logic with combined actions
-    perform_replace_all_operation(
+    replace_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &combined_actions,
+        current_actions_size,
         authority_to_update_id,
     )
 }
@@ -599,13 +633,14 @@ fn perform_remove_by_type_operation(
     }
 
     // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    replace_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
@@ -657,13 +692,14 @@ fn perform_remove_by_index_operation(
     }
 
     // Use replace_all logic with filtered actions
-    perform_replace_all_operation(
+    replace_actions(
         swig_roles,
         current_roles_len,
         authority_offset,
         actions_offset,
         current_actions_size,
         &filtered_actions,
+        filtered_actions.len(),
         authority_to_update_id,
     )
 }
-- 
2.43.0


From 67383e2a2d2253dadbf9b078659d60ee372cfbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 11/12] fix: refuse a program scope whose balance field cannot
 be read

Such a scope measured nothing while its field was excluded from the
unchanged-data check, so its role could change the field without limit.
---
 program/src/actions/sign_v2.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/program/src/actions/sign_v2.rs b/program/src/actions/sign_v2.rs
index c111a66..1b68421 100644
--- a/program/src/actions/sign_v2.rs
+++ b/program/src/actions/sign_v2.rs
@@ -354,9 +354,7 @@ pub fn sign_v2(
                 {
                     // The classifier read the balance through the first scope any role has
                     // for this account; spending is measured with this role's own field
-                    if let Ok(own_balance) = program_scope.read_account_balance(data) {
-                        *balance = own_balance;
-                    }
+                    *balance = program_scope.read_account_balance(data)?;
                     let start = program_scope.balance_field_start as usize;
                     let end = program_scope.balance_field_end as usize;
                     if start < end && end <= data.len() {
-- 
2.43.0


From 8e22f7a2c50bb8aba7f7c813ff818cdff7275a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:30 +0000
Subject: [PATCH 12/12] fix: curated list names the real Token-2022 and Stake
 programs

The list's entries for Token-2022 and the Stake program held the ids of
no program: roles with ProgramCurated could not call either, and an
attacker-chosen id was trusted in their place.
---
 state/src/action/program_curated.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/state/src/action/program_curated.rs b/state/src/action/program_curated.rs
index fe5c488..e3cf6b5 100644
--- a/state/src/action/program_curated.rs
+++ b/state/src/action/program_curated.rs
@@ -24,13 +24,13 @@ const CURATED_PROGRAMS: &[[u8; 32]] = &[
     ],
     // SPL Token 2022 Program (TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb)
     [
-        6, 221, 246, 225, 238, 117, 143, 222, 138, 60, 137, 215, 166, 35, 250, 133, 224, 81, 209,
-        114, 91, 157, 99, 29, 94, 145, 213, 104, 233, 4, 16, 238,
+        6, 221, 246, 225, 238, 117, 143, 222, 24, 66, 93, 188, 228, 108, 205, 218, 182, 26, 252,
+        77, 131, 185, 13, 39, 254, 189, 249, 40, 216, 161, 139, 252,
     ],
     // Staking Program (Stake11111111111111111111111111111111111111)
     [
-        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 86, 165, 18, 7,
-        142, 233, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+        6, 161, 216, 23, 145, 55, 84, 42, 152, 52, 55, 189, 254, 42, 122, 178, 85, 127, 83, 92,
+        138, 120, 114, 43, 104, 164, 157, 192, 0, 0, 0, 0,
     ],
 ];
 
-- 
2.43.0

