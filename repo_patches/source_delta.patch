From 166e42d28288395b1e353b9543bf4c2b297bee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:52 +0000
Subject: [PATCH 01/38] fix: parse the "lq" network prefix as Liquid mainnet

The prefix was parsed as Bitcoin mainnet, so an invoice for Liquid mainnet
changed its network when read back from text.
---
 invoice/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 08e4a37..90e74c6 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -228,7 +228,7 @@ impl FromStr for ChainNet {
             x if ChainNet::BitcoinTestnet.to_string() == x => Ok(ChainNet::BitcoinTestnet),
             x if ChainNet::BitcoinSignet.to_string() == x => Ok(ChainNet::BitcoinSignet),
             x if ChainNet::BitcoinRegtest.to_string() == x => Ok(ChainNet::BitcoinRegtest),
-            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::BitcoinMainnet),
+            x if ChainNet::LiquidMainnet.to_string() == x => Ok(ChainNet::LiquidMainnet),
             x if ChainNet::LiquidTestnet.to_string() == x => Ok(ChainNet::LiquidTestnet),
             _ => Err(InvoiceParseError::Beneficiary(s.to_owned())),
         }
-- 
2.43.0


From 556a60fe80d3cece6bd9a15cfdb3c05944ab16a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:52 +0000
Subject: [PATCH 02/38] fix: refuse invoice amounts above 64 bits instead of
 panicking

Setting an amount whose integer part does not fit once scaled by the
precision panicked; it is now returned as an error like other invalid
amounts.
---
 invoice/src/amount.rs  | 13 ++++---------
 invoice/src/builder.rs | 11 ++++++-----
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index 9007f08..b8b7b15 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -335,19 +335,14 @@ impl CoinAmount {
         })
     }
 
-    pub(crate) fn to_amount_unchecked(self) -> Amount {
+    /// Returns `None` if the value exceeds the maximum possible amount.
+    pub(crate) fn to_amount_checked(self) -> Option<Amount> {
         // 2^64 ~ 10^19 < 10^18 (18 is max value for Precision enum)
         let pow = 10u64.pow(self.precision.decimals() as u32);
-        // number of decimals can't be larger than the smallest possible integer
         self.int
-            .checked_mul(pow)
-            .expect("CoinAmount type garantees are broken")
+            .checked_mul(pow)?
             .checked_add(self.fract)
-            .expect(
-                "integer has at least the same number of zeros in the lowest digits as much as \
-                 decimals has digits at most, so overflow is not possible",
-            )
-            .into()
+            .map(Amount::from)
     }
 }
 
diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 17f2da3..4405211 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -89,11 +89,12 @@ impl RgbInvoiceBuilder {
         decimals: u64,
         precision: Precision,
     ) -> Result<Self, Self> {
-        let amount = match CoinAmount::with(integer, decimals, precision) {
-            Ok(amount) => amount,
-            Err(_) => return Err(self),
-        }
-        .to_amount_unchecked();
+        let Some(amount) = CoinAmount::with(integer, decimals, precision)
+            .ok()
+            .and_then(CoinAmount::to_amount_checked)
+        else {
+            return Err(self);
+        };
         self.0.owned_state = InvoiceState::Amount(amount);
         Ok(self)
     }
-- 
2.43.0


From 8e8490f65dc1f055b186ae0fbe6fe2bbbd5007a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:52 +0000
Subject: [PATCH 03/38] fix: make printed coin amounts parse back to the same
 value

The printed form drops trailing zeros of the fraction and prints whole
amounts as "10~8". Parsing ignored the dropped zeros (10.000005~8 was read
as 10.00000005), rejected whole amounts, and accepted fractions exceeding
the precision, which then panicked when printed. The grouped form panicked
for indivisible amounts.
---
 invoice/src/amount.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/invoice/src/amount.rs b/invoice/src/amount.rs
index b8b7b15..96840b5 100644
--- a/invoice/src/amount.rs
+++ b/invoice/src/amount.rs
@@ -375,7 +375,7 @@ impl Display for CoinAmount {
             int = to_chunks(&int);
         }
         f.write_str(&int)?;
-        if self.fract > 0 || f.alternate() {
+        if self.fract > 0 || (f.alternate() && self.precision != Precision::Indivisible) {
             f.write_char('.')?;
             let mut float = self.fract.to_string();
             let len = float.len();
@@ -411,6 +411,9 @@ pub enum AmountParseError {
     /// invalid amount precision - {0}
     InvalidPrecision(ParseIntError),
 
+    /// fractional part of the amount has more digits than its precision
+    FractOverflow,
+
     /// invalid amount precision exceeding 18
     #[from(TryFromIntError)]
     PrecisionOverflow,
@@ -425,10 +428,11 @@ impl FromStr for CoinAmount {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let s = s.replace([' ', '_'], "");
-        let (int, remain) = s.split_once('.').unwrap_or_else(|| (&s, "0"));
-        let (fract, precision) = remain.split_once('~').unwrap_or((remain, ""));
+        let (value, precision) = s.split_once('~').unwrap_or((&s, ""));
+        let (int, fract) = value.split_once('.').unwrap_or((value, "0"));
+        let digits = fract.len();
         let precision = if precision.is_empty() {
-            fract.len() as u64
+            digits as u64
         } else {
             precision
                 .parse()
@@ -436,11 +440,17 @@ impl FromStr for CoinAmount {
         };
         let int: u64 = int.parse().map_err(AmountParseError::InvalidInt)?;
         let fract: u64 = fract.parse().map_err(AmountParseError::InvalidFract)?;
-        let precision = u8::try_from(precision)?;
+        let precision = Precision::try_from(u8::try_from(precision)?)?;
+        // the printed form omits trailing zeros of the fractional part
+        let fract = match (precision.decimals() as usize).checked_sub(digits) {
+            Some(omitted) => fract * 10u64.pow(omitted as u32),
+            None if fract == 0 => 0,
+            None => return Err(AmountParseError::FractOverflow),
+        };
         Ok(CoinAmount {
             int,
             fract,
-            precision: Precision::try_from(precision)?,
+            precision,
         })
     }
 }
-- 
2.43.0


From 3aa88a8660b7d490b4eed15567529c83da5cba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:52 +0000
Subject: [PATCH 04/38] fix: percent-encode all reserved characters in invoice
 query

The percent sign and a few characters not allowed in a URI query were
printed as is, so such invoices failed to parse or came back changed.
---
 invoice/src/parse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/invoice/src/parse.rs b/invoice/src/parse.rs
index 90e74c6..f5f8018 100644
--- a/invoice/src/parse.rs
+++ b/invoice/src/parse.rs
@@ -49,7 +49,14 @@ const QUERY_ENCODE: &AsciiSet = &CONTROLS
     .add(b'<')
     .add(b'>')
     .add(b'[')
+    .add(b'\\')
     .add(b']')
+    .add(b'^')
+    .add(b'`')
+    .add(b'{')
+    .add(b'|')
+    .add(b'}')
+    .add(b'%')
     .add(b'&')
     .add(b'=');
 
-- 
2.43.0


From 347de605000b6d835f2f53703d21d6ad96959252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:24:52 +0000
Subject: [PATCH 05/38] fix: keep the default transport when an empty list is
 added

Adding no transports removed the default one, and the resulting invoice
printed an empty endpoint list which cannot be parsed.
---
 invoice/src/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/invoice/src/builder.rs b/invoice/src/builder.rs
index 4405211..7440ccb 100644
--- a/invoice/src/builder.rs
+++ b/invoice/src/builder.rs
@@ -166,7 +166,10 @@ impl RgbInvoiceBuilder {
         mut self,
         transports: impl IntoIterator<Item = RgbTransport>,
     ) -> Self {
-        self.drop_unspecified_transport();
+        let mut transports = transports.into_iter().peekable();
+        if transports.peek().is_some() {
+            self.drop_unspecified_transport();
+        }
         self.0.transports.extend(transports);
         self
     }
-- 
2.43.0


From 824d438c311d43d35bdbe35042c4ff500f12f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:30 +0000
Subject: [PATCH 06/38] fix: print invoice attachment ids without the mnemonic

The mnemonic is separated by a hash sign, which starts a URI fragment, so an
invoice asking for an attachment could not be parsed back.
---
 invoice/src/invoice.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/invoice/src/invoice.rs b/invoice/src/invoice.rs
index 853bd70..80e2fe5 100644
--- a/invoice/src/invoice.rs
+++ b/invoice/src/invoice.rs
@@ -57,7 +57,8 @@ pub enum InvoiceState {
     Amount(Amount),
     #[display(inner)]
     Data(NonFungible),
-    #[display(inner)]
+    // the mnemonic suffix would be taken for a URI fragment
+    #[display("{0:#}")]
     Attach(AttachId),
 }
 
-- 
2.43.0


From 34329afb35df81c79ce9d11488790a233a414e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:54 +0000
Subject: [PATCH 07/38] fix: keep transition ids in step with the batch
 priority

Batch::set_priority changes the nonce of every transition, which the
transition id commits to. Update the id recorded next to the transition as
well, so it still names the transition it comes with.
---
 src/containers/partials.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/containers/partials.rs b/src/containers/partials.rs
index 8bdf33d..f64cbc2 100644
--- a/src/containers/partials.rs
+++ b/src/containers/partials.rs
@@ -181,6 +181,13 @@ impl TransitionInfo {
             method,
         })
     }
+
+    /// Updates nonce of the transition together with the transition id, which
+    /// commits to the nonce.
+    fn set_nonce(&mut self, nonce: u64) {
+        self.transition.nonce = nonce;
+        self.id = self.transition.id();
+    }
 }
 
 #[derive(Copy, Clone, Eq, PartialEq, Debug, Display, Error)]
@@ -244,14 +251,14 @@ impl Batch {
     }
 
     pub fn set_priority(&mut self, priority: u64) {
-        self.main.first.transition.nonce = priority;
+        self.main.first.set_nonce(priority);
         if let Some(info) = &mut self.main.second {
-            info.transition.nonce = priority;
+            info.set_nonce(priority);
         }
         for info in &mut self.blanks {
-            info.first.transition.nonce = priority;
+            info.first.set_nonce(priority);
             if let Some(info) = &mut info.second {
-                info.transition.nonce = priority;
+                info.set_nonce(priority);
             }
         }
     }
-- 
2.43.0


From b64f7833d6375bd675d70e3dba0733bd0d7fa1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:08 +0000
Subject: [PATCH 08/38] fix: keep state assigned to the same seal more than
 once

The operation builder kept state of each type in a map keyed by the seal, so
a second piece of state assigned to the same seal silently replaced the first
one. Keep all of them, ordered by the seal as before.
---
 src/interface/builder.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index eb8a01c..9b170bc 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -21,8 +21,6 @@
 
 #![allow(clippy::result_large_err)]
 
-use std::collections::{BTreeMap, HashSet};
-
 use amplify::confinement::{Confined, SmallOrdSet, TinyOrdMap, U16};
 use amplify::{confinement, Wrapper};
 use chrono::Utc;
@@ -833,12 +831,12 @@ pub struct OperationBuilder<Seal: ExposedSeal> {
 
     global: GlobalState,
     meta: Metadata,
-    rights: TinyOrdMap<AssignmentType, Confined<HashSet<BuilderSeal<Seal>>, 1, U16>>,
+    rights: TinyOrdMap<AssignmentType, Confined<Vec<BuilderSeal<Seal>>, 1, U16>>,
     fungible:
-        TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedValue>, 1, U16>>,
-    data: TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedData>, 1, U16>>,
+        TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedValue)>, 1, U16>>,
+    data: TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedData)>, 1, U16>>,
     attachments:
-        TinyOrdMap<AssignmentType, Confined<BTreeMap<BuilderSeal<Seal>, RevealedAttach>, 1, U16>>,
+        TinyOrdMap<AssignmentType, Confined<Vec<(BuilderSeal<Seal>, RevealedAttach)>, 1, U16>>,
     // TODO: add valencies
     types: TypeSystem,
 }
@@ -1179,7 +1177,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
         let seal = seal.into();
         match self.fungible.get_mut(&type_id) {
             Some(assignments) => {
-                assignments.insert(seal, state)?;
+                assignments.push((seal, state))?;
             }
             None => {
                 self.fungible
@@ -1243,7 +1241,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.data.get_mut(&type_id) {
                 Some(assignments) => {
-                    assignments.insert(seal, state)?;
+                    assignments.push((seal, state))?;
                 }
                 None => {
                     self.data.insert(type_id, Confined::with((seal, state)))?;
@@ -1311,7 +1309,7 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             let seal = seal.into();
             match self.attachments.get_mut(&type_id) {
                 Some(assignments) => {
-                    assignments.insert(seal, state)?;
+                    assignments.push((seal, state))?;
                 }
                 None => {
                     self.attachments
@@ -1330,6 +1328,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     ) -> (Schema, Iface, IfaceImpl, GlobalState, Assignments<Seal>, TypeSystem, AssetTags) {
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
             let mut blindings = Vec::with_capacity(vec.len());
+            let mut vec = vec.release();
+            vec.sort_by_key(|(seal, _)| *seal);
             let mut vec = vec
                 .into_iter()
                 .map(|(seal, value)| {
@@ -1376,6 +1376,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state)
         });
         let owned_data = self.data.into_iter().map(|(id, vec)| {
+            let mut vec = vec.release();
+            vec.sort_by_key(|(seal, _)| *seal);
             let vec_data = vec.into_iter().map(|(seal, value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
@@ -1393,6 +1395,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state_data)
         });
         let owned_rights = self.rights.into_iter().map(|(id, vec)| {
+            let mut vec = vec.release();
+            vec.sort();
             let vec_data = vec.into_iter().map(|seal| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
@@ -1410,6 +1414,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             (id, state_data)
         });
         let owned_attachments = self.attachments.into_iter().map(|(id, vec)| {
+            let mut vec = vec.release();
+            vec.sort_by_key(|(seal, _)| *seal);
             let vec_data = vec.into_iter().map(|(seal, value)| match seal {
                 BuilderSeal::Revealed(seal) => Assign::Revealed {
                     seal,
-- 
2.43.0


From 762879160aed29fb6563c0d6714f3e6e146beaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:36 +0000
Subject: [PATCH 09/38] fix: return items the invoice does not ask for

Composing a payment for one item of structured data spent every item of the
same type on the given outputs, but assigned only the invoiced one again. The
others were lost. Return them to the payer like any other state.
---
 src/persistence/stock.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index b43427e..a201787 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1045,7 +1045,16 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 } else {
                     alt_builder = alt_builder.add_input(opout, state.clone())?;
                 }
-                if opout.ty != assignment_id {
+                // State which the invoice does not ask for is returned back
+                let is_invoiced = opout.ty == assignment_id
+                    && match &state {
+                        PersistedState::Amount(..) => true,
+                        PersistedState::Data(value, _) => {
+                            data_inputs.is_empty() && lookup_state.as_ref() == Some(value)
+                        }
+                        PersistedState::Void | PersistedState::Attachment(..) => false,
+                    };
+                if !is_invoiced {
                     let seal = output_for_assignment(contract_id, opout.ty)?;
                     state.update_blinding(pedersen_blinder(contract_id, assignment_id));
                     if output.method() == method {
@@ -1059,9 +1068,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                         sum_alt += value;
                     }
                 } else if let PersistedState::Data(value, _) = state {
-                    if lookup_state.as_ref() == Some(&value) && output.method() != method {
-                        data_main = false;
-                    }
+                    data_main = output.method() == method;
                     data_inputs.push(value);
                 }
             }
-- 
2.43.0


From 533c52f69dea4ad29e7e9e86d71c44873b5d59c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:23 +0000
Subject: [PATCH 10/38] fix: refuse to compose payments from amounts which
 overflow

The amounts on the spent outputs were added without an overflow check, which
panics or continues with a wrapped total. Return an error instead.
---
 src/persistence/stock.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index a201787..91df463 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -235,6 +235,10 @@ pub enum ComposeError {
     /// smart contract state.
     InsufficientState,
 
+    /// the total amount held by the spent UTXOs exceeds the maximal possible
+    /// amount.
+    AmountOverflow,
+
     /// the spent UTXOs contain too many seals which can't fit the state
     /// transition input limit.
     TooManyInputs,
@@ -1063,7 +1067,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                         alt_builder = alt_builder.add_owned_state_raw(opout.ty, seal, state)?;
                     }
                 } else if let PersistedState::Amount(value, _, _) = state {
-                    sum_inputs += value;
+                    sum_inputs =
+                        sum_inputs.checked_add(value).ok_or(ComposeError::AmountOverflow)?;
                     if output.method() != method {
                         sum_alt += value;
                     }
-- 
2.43.0


From a19a5eae289ffa06299af88e4f4d7d94ff3f496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:16:23 +0000
Subject: [PATCH 11/38] fix: refuse invoices for unsupported state without a
 panic

Composing a payment for an invoice which names no state, or an attachment,
hit a todo!() and panicked. Such an invoice may come from outside: return an
error.
---
 src/persistence/stock.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 91df463..2427813 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -239,6 +239,10 @@ pub enum ComposeError {
     /// amount.
     AmountOverflow,
 
+    /// the invoice requests a state which can't be transferred: only amounts
+    /// and token allocations are currently supported.
+    UnsupportedState,
+
     /// the spent UTXOs contain too many seals which can't fit the state
     /// transition input limit.
     TooManyInputs,
@@ -1154,11 +1158,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                     }
                 }
             },
-            _ => {
-                todo!(
-                    "only PersistedState::Amount and PersistedState::Allocation are currently \
-                     supported"
-                )
+            InvoiceState::Void | InvoiceState::Attach(_) => {
+                return Err(ComposeError::UnsupportedState.into());
             }
         }
 
-- 
2.43.0


From 175801b4834a116d65cd49bdf5967830f833253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:23 +0000
Subject: [PATCH 12/38] fix: do not count failed witness updates as succeeded

The update result reports the number of witnesses updated and the list of
failures. A witness the resolver failed on was counted in both.
---
 src/persistence/memory.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 4126daa..2a6fae8 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -664,12 +664,14 @@ impl StateWriteProvider for MemState {
                 continue;
             }
             match resolver.resolve_pub_witness_ord(*id) {
-                Ok(new) => *ord = new,
+                Ok(new) => {
+                    *ord = new;
+                    succeeded += 1;
+                }
                 Err(err) => {
                     failed.insert(*id, err.to_string());
                 }
             }
-            succeeded += 1;
         }
         let mut witnesses =
             LargeOrdMap::try_from(witnesses).inspect_err(|_| self.rollback_transaction())?;
-- 
2.43.0


From b3a316a73501d79f7c2f14987b1cecfffdf772c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:23 +0000
Subject: [PATCH 13/38] fix: do not read global state of archived witnesses

Reading global state defined by an operation whose witness transaction is
archived panicked. Such state is hidden, as owned state already is.
---
 src/persistence/memory.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 2a6fae8..3c80aae 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -943,11 +943,11 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
                         let ord = match out.op_witness {
                             OpWitness::Genesis => GlobalOrd::genesis(out.index),
                             OpWitness::Transition(id, ty) => {
-                                let ord = self.filter.get(&id)?;
+                                let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
                                 GlobalOrd::transition(out.opid, out.index, ty, out.nonce, *ord)
                             }
                             OpWitness::Extension(id, ty) => {
-                                let ord = self.filter.get(&id)?;
+                                let ord = self.filter.get(&id).filter(|ord| ord.is_valid())?;
                                 GlobalOrd::extension(out.opid, out.index, ty, out.nonce, *ord)
                             }
                         };
-- 
2.43.0


From c33bf2e59a912834f2ffff160782f1d821193720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:16 +0000
Subject: [PATCH 14/38] fix: allow several assignments to the same secret seal
 in a consignment

Consigning panicked when a bundle assigned more than one piece of state to
the secret seal of the payee. The terminal to record is the same for all of
them.
---
 src/persistence/stock.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 2427813..1b693a8 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -793,8 +793,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 for index in 0..typed_assignments.len_u16() {
                     let seal = typed_assignments.to_confidential_seals()[index as usize];
                     if secret_seal == Some(seal) {
-                        let res = terminals.insert(bundle_id, seal);
-                        assert_eq!(res, None);
+                        terminals.insert(bundle_id, seal);
                     }
                 }
             }
-- 
2.43.0


From 3e276e3fd9cffdc85eb282f0799d031f04511045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:46 +0000
Subject: [PATCH 15/38] fix: keep other contracts out of a consignment to a
 shared secret seal

When a payee gives the same secret seal for payments in several contracts,
the consignment for one contract included operations of the others, and
could not be created or was invalid.
---
 src/persistence/stock.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 1b693a8..cf88219 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -784,7 +784,15 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 continue; // we skip genesis since it will be present anywhere
             }
 
+            let op_contract = ContractId::from(opout.op.to_byte_array());
+            if self.stash.genesis(op_contract).is_ok() {
+                continue; // the same secret seal is used by genesis of another contract
+            }
+
             let transition = self.transition(opout.op)?;
+            if transition.contract_id != contract_id {
+                continue; // the same secret seal is used by another contract
+            }
             transitions.insert(opout.op, transition.clone());
 
             let bundle_id = self.index.bundle_id_for_op(transition.id())?;
-- 
2.43.0


From 9b8b572cfdc912836cbea1fd2842e8b1cf3425ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:09 +0000
Subject: [PATCH 16/38] fix: find state of an output under both seal closing
 methods

The index looked up only the first seal of an output, so a consignment
missed state assigned to the same output with the other closing method.
---
 src/persistence/memory.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 3c80aae..08927f2 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1317,13 +1317,17 @@ impl IndexReadProvider for MemIndex {
             .ok_or(IndexInconsistency::ContractAbsent(contract_id))?;
         let mut opouts = BTreeSet::new();
         for output in outpoints.into_iter().map(|o| o.into()) {
-            let set = index
+            // An output may be assigned state with seals of different closing methods
+            let mut sets = index
                 .outpoint_opouts
                 .iter()
-                .find(|(seal, _)| seal.to_outpoint() == output)
-                .map(|(_, set)| set.to_unconfined())
-                .ok_or(IndexInconsistency::OutpointUnknown(output, contract_id))?;
-            opouts.extend(set)
+                .filter(|(seal, _)| seal.to_outpoint() == output)
+                .map(|(_, set)| set)
+                .peekable();
+            if sets.peek().is_none() {
+                return Err(IndexInconsistency::OutpointUnknown(output, contract_id).into());
+            }
+            opouts.extend(sets.flat_map(|set| set.iter().copied()));
         }
         Ok(opouts)
     }
-- 
2.43.0


From 64841dc29cb87148e3baacafac4fac1c9ab44bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:54 +0000
Subject: [PATCH 17/38] fix: merge a known witness transaction with its bare id

Merging a public witness holding a transaction with one holding only the id
of the same transaction failed with a mismatch error, since the second
pattern repeated the first one. Merging in the opposite order worked.
---
 src/containers/anchors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index 2c7c167..b608044 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -154,7 +154,7 @@ impl PubWitness {
     pub fn merge_reveal(self, other: Self) -> Result<Self, MergeRevealError> {
         match (self, other) {
             (Self::Txid(txid1), Self::Txid(txid2)) if txid1 == txid2 => Ok(Self::Txid(txid1)),
-            (Self::Txid(txid), Self::Tx(tx)) | (Self::Txid(txid), Self::Tx(tx))
+            (Self::Txid(txid), Self::Tx(tx)) | (Self::Tx(tx), Self::Txid(txid))
                 if txid == tx.txid() =>
             {
                 Ok(Self::Tx(tx))
-- 
2.43.0


From 9e500802158bfa83922a0cbf16a39cffa42024f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:54 +0000
Subject: [PATCH 18/38] fix: keep transitions known only to the second of
 merged bundles

Merging two copies of a bundle dropped each transition which was known to
the second copy only, so a stash which already had a part of a bundle never
learned the rest of it.
---
 src/contract/merge_reveal.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/contract/merge_reveal.rs b/src/contract/merge_reveal.rs
index b662f5a..9b4c8e5 100644
--- a/src/contract/merge_reveal.rs
+++ b/src/contract/merge_reveal.rs
@@ -220,10 +220,11 @@ impl MergeReveal for TransitionBundle {
 
         let mut self_transitions = self.known_transitions.release();
         for (opid, other_transition) in other.known_transitions {
-            if let Some(mut transition) = self_transitions.remove(&opid) {
-                transition = transition.merge_reveal(other_transition)?;
-                self_transitions.insert(opid, transition);
-            }
+            let transition = match self_transitions.remove(&opid) {
+                Some(transition) => transition.merge_reveal(other_transition)?,
+                None => other_transition,
+            };
+            self_transitions.insert(opid, transition);
         }
         self.known_transitions = Confined::from_checked(self_transitions);
 
-- 
2.43.0


From 58378c6e5ab5cd669a5484a3b00d21f637c34c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:54 +0000
Subject: [PATCH 19/38] fix: name bundles of both anchors of the same contract

A contract may have one bundle under the tapret and another under the opret
anchor of a transaction. The list of known bundle ids was built as a map by
contract, so it had only one of them.
---
 src/containers/anchors.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/containers/anchors.rs b/src/containers/anchors.rs
index b608044..316bdc4 100644
--- a/src/containers/anchors.rs
+++ b/src/containers/anchors.rs
@@ -455,16 +455,18 @@ impl StrictDumb for AnchorSet {
 
 impl AnchorSet {
     pub fn known_bundle_ids(&self) -> impl Iterator<Item = BundleId> {
-        let map = match self {
-            AnchorSet::Tapret(tapret) => tapret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Opret(opret) => opret.mpc_proof.to_known_message_map().release(),
-            AnchorSet::Double { tapret, opret } => {
-                let mut map = tapret.mpc_proof.to_known_message_map().release();
-                map.extend(opret.mpc_proof.to_known_message_map().release());
-                map
-            }
+        let (first, second) = match self {
+            AnchorSet::Tapret(tapret) => (tapret.mpc_proof.to_known_message_map().release(), none!()),
+            AnchorSet::Opret(opret) => (opret.mpc_proof.to_known_message_map().release(), none!()),
+            // A contract may have a bundle under each of the anchors
+            AnchorSet::Double { tapret, opret } => (
+                tapret.mpc_proof.to_known_message_map().release(),
+                opret.mpc_proof.to_known_message_map().release(),
+            ),
         };
-        map.into_values()
+        first
+            .into_values()
+            .chain(second.into_values())
             .map(|msg| BundleId::from_byte_array(msg.to_byte_array()))
     }
 
-- 
2.43.0


From 6a1abfde60aaf222fd4145c66baa3c6bc2715ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:23:35 +0000
Subject: [PATCH 20/38] fix: put metadata given to a builder into the operation

Metadata added to a contract or transition builder were checked and stored,
but left out of the resulting genesis or transition. A contract with a schema
requiring metadata could not be issued.
---
 src/interface/builder.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/interface/builder.rs b/src/interface/builder.rs
index 9b170bc..de5afa8 100644
--- a/src/interface/builder.rs
+++ b/src/interface/builder.rs
@@ -380,7 +380,7 @@ impl ContractBuilder {
     }
 
     fn issue_contract_raw(self, timestamp: i64) -> Result<ValidConsignment<false>, BuilderError> {
-        let (schema, iface, iimpl, global, assignments, types, asset_tags) =
+        let (schema, iface, iimpl, global, metadata, assignments, types, asset_tags) =
             self.builder.complete(None);
 
         let genesis = Genesis {
@@ -391,7 +391,7 @@ impl ContractBuilder {
             testnet: self.testnet,
             alt_layers1: self.alt_layers1,
             asset_tags,
-            metadata: empty!(),
+            metadata,
             globals: global,
             assignments,
             valencies: none!(),
@@ -798,14 +798,14 @@ impl TransitionBuilder {
     pub fn has_inputs(&self) -> bool { !self.inputs.is_empty() }
 
     pub fn complete_transition(self) -> Result<Transition, BuilderError> {
-        let (_, _, _, global, assignments, _, _) = self.builder.complete(Some(&self.inputs));
+        let (_, _, _, global, metadata, assignments, _, _) = self.builder.complete(Some(&self.inputs));
 
         let transition = Transition {
             ffv: none!(),
             contract_id: self.contract_id,
             nonce: self.nonce,
             transition_type: self.transition_type,
-            metadata: empty!(),
+            metadata,
             globals: global,
             inputs: SmallOrdSet::from_iter_checked(self.inputs.into_keys()).into(),
             assignments,
@@ -1325,7 +1325,8 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
     fn complete(
         self,
         inputs: Option<&TinyOrdMap<Input, PersistedState>>,
-    ) -> (Schema, Iface, IfaceImpl, GlobalState, Assignments<Seal>, TypeSystem, AssetTags) {
+    ) -> (Schema, Iface, IfaceImpl, GlobalState, Metadata, Assignments<Seal>, TypeSystem, AssetTags)
+    {
         let owned_state = self.fungible.into_iter().map(|(id, vec)| {
             let mut blindings = Vec::with_capacity(vec.len());
             let mut vec = vec.release();
@@ -1449,6 +1450,15 @@ impl<Seal: ExposedSeal> OperationBuilder<Seal> {
             .extend(Assignments::from_inner(owned_attachments).into_inner())
             .expect("too many assignments");
 
-        (self.schema, self.iface, self.iimpl, self.global, assignments, self.types, self.asset_tags)
+        (
+            self.schema,
+            self.iface,
+            self.iimpl,
+            self.global,
+            self.meta,
+            assignments,
+            self.types,
+            self.asset_tags,
+        )
     }
 }
-- 
2.43.0


From 799e4b251f7c139853bef90c742cd508141ac9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:17 +0000
Subject: [PATCH 21/38] fix: report a name implemented twice as repeated

---
 src/interface/iimpl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index 1e528ed..f381b68 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -421,7 +421,7 @@ impl IfaceImpl {
             dup_metadata
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.meta_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaMetaAbsent(field.name.clone(), field.id));
             }
@@ -443,7 +443,7 @@ impl IfaceImpl {
             dup_global_state
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.global_types.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaGlobalAbsent(field.name.clone(), field.id));
             }
@@ -465,7 +465,7 @@ impl IfaceImpl {
             dup_assignments
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
             if !schema.owned_types.contains_key(&field.id) {
                 errors
                     .push(ImplInconsistency::SchemaAssignmentAbsent(field.name.clone(), field.id));
@@ -488,7 +488,7 @@ impl IfaceImpl {
             dup_valencies
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.valency_types.contains(&field.id) {
                 errors.push(ImplInconsistency::SchemaValencyAbsent(field.name.clone(), field.id));
@@ -510,7 +510,7 @@ impl IfaceImpl {
             dup_transitions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.transitions.contains_key(&field.id) {
                 errors
@@ -534,7 +534,7 @@ impl IfaceImpl {
             dup_extensions
                 .entry(field.name.clone())
                 .and_modify(|counter| *counter += 1)
-                .or_insert(0);
+                .or_insert(1);
 
             if !schema.extensions.contains_key(&field.id) {
                 errors.push(ImplInconsistency::SchemaExtensionAbsent(field.name.clone(), field.id));
-- 
2.43.0


From 82b75ab709f88192603685d813b6c6a77c22dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:17 +0000
Subject: [PATCH 22/38] fix: keep valencies when abstracting an implementation
 to a parent interface

---
 src/interface/inheritance.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 518c059..3b98c0b 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -708,7 +708,7 @@ impl IfaceImpl {
                     .cloned()
             }));
 
-        self.valencies = Confined::from_iter_checked(base.assignments.keys().filter_map(|name| {
+        self.valencies = Confined::from_iter_checked(base.valencies.keys().filter_map(|name| {
             self.valencies
                 .iter()
                 .find(|i| parent.valencies.contains_key(name) && &i.name == name)
-- 
2.43.0


From ff96967f2f6e5a3d7a0d33981db54fd9b4fed90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:17 +0000
Subject: [PATCH 23/38] fix: leave out errors unknown to the parent interface
 when abstracting to it

---
 src/interface/inheritance.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/interface/inheritance.rs b/src/interface/inheritance.rs
index 3b98c0b..bff9bcc 100644
--- a/src/interface/inheritance.rs
+++ b/src/interface/inheritance.rs
@@ -730,6 +730,13 @@ impl IfaceImpl {
                 .cloned()
         }));
 
+        self.errors = Confined::from_iter_checked(
+            self.errors
+                .iter()
+                .filter(|i| parent.errors.contains_key(&i.name))
+                .cloned(),
+        );
+
         self.iface_id = parent_id;
 
         Some(self)
-- 
2.43.0


From 7edb01d6da50fd5934f7c14aef113160f5f0e780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:35:17 +0000
Subject: [PATCH 24/38] fix: let an implementation leave out optional
 operations

---
 src/interface/iimpl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interface/iimpl.rs b/src/interface/iimpl.rs
index f381b68..dd7e57c 100644
--- a/src/interface/iimpl.rs
+++ b/src/interface/iimpl.rs
@@ -501,8 +501,8 @@ impl IfaceImpl {
                 errors.push(ImplInconsistency::RepeatedValencies(field_name.clone(), count));
             });
 
-        for name in iface.transitions.keys() {
-            if self.transitions.iter().all(|field| &field.name != name) {
+        for (name, op) in &iface.transitions {
+            if !op.optional && self.transitions.iter().all(|field| &field.name != name) {
                 errors.push(ImplInconsistency::IfaceTransitionAbsent(name.clone()));
             }
         }
@@ -525,8 +525,8 @@ impl IfaceImpl {
                 errors.push(ImplInconsistency::RepeatedTransitions(field_name.clone(), count));
             });
 
-        for name in iface.extensions.keys() {
-            if self.extensions.iter().all(|field| &field.name != name) {
+        for (name, op) in &iface.extensions {
+            if !op.optional && self.extensions.iter().all(|field| &field.name != name) {
                 errors.push(ImplInconsistency::IfaceExtensionAbsent(name.clone()));
             }
         }
-- 
2.43.0


From 13b5699db97e82340a0df77dd21face7c13b724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:29 +0000
Subject: [PATCH 25/38] fix: list history of several fungible assets separately

Computing the history of a contract panicked when one transaction, or the
genesis, held allocations of two different fungible assets. Allocations are
now grouped by their assignment type, one history record for each.
---
 src/interface/contract.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/interface/contract.rs b/src/interface/contract.rs
index 2709a05..3e85426 100644
--- a/src/interface/contract.rs
+++ b/src/interface/contract.rs
@@ -20,7 +20,7 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::{BTreeSet, HashMap, HashSet};
+use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
 
 use invoice::{Allocation, Amount};
 use rgb::{
@@ -134,6 +134,17 @@ fn reduce_to_ty(allocations: impl IntoIterator<Item = OwnedAllocation>) -> Assig
         .expect("empty list of allocations")
 }
 
+/// Splits allocations into groups having the same assignment type.
+fn group_by_ty(
+    allocations: impl IntoIterator<Item = OwnedAllocation>,
+) -> impl Iterator<Item = HashSet<OwnedAllocation>> {
+    let mut groups = BTreeMap::<AssignmentType, HashSet<_>>::new();
+    for a in allocations {
+        groups.entry(a.opout.ty).or_default().insert(a);
+    }
+    groups.into_values()
+}
+
 impl ContractOp {
     fn non_fungible_genesis(
         our_allocations: HashSet<OwnedAllocation>,
@@ -429,7 +440,7 @@ impl<S: ContractStateRead> ContractIface<S> {
         // add allocations with no witness to the beginning of the history
         if let Some(genesis_allocations) = allocations_our_outpoint.remove(&None) {
             if T::IS_FUNGIBLE {
-                ops.push(ContractOp::fungible_genesis(genesis_allocations));
+                ops.extend(group_by_ty(genesis_allocations).map(ContractOp::fungible_genesis));
             } else {
                 ops.extend(ContractOp::non_fungible_genesis(genesis_allocations));
             }
@@ -455,7 +466,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                         continue;
                     }
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            group_by_ty(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -463,7 +477,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // the same as above, but the payment has no change
                 (None, Some(ext_allocations)) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_sent(witness_info, ext_allocations))
+                        ops.extend(
+                            group_by_ty(ext_allocations)
+                                .map(|a| ContractOp::fungible_sent(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_sent(witness_info, ext_allocations))
                     }
@@ -472,7 +489,10 @@ impl<S: ContractStateRead> ContractIface<S> {
                 // this is an incoming payment to us.
                 (Some(our_allocations), None) => {
                     if T::IS_FUNGIBLE {
-                        ops.push(ContractOp::fungible_received(witness_info, our_allocations))
+                        ops.extend(
+                            group_by_ty(our_allocations)
+                                .map(|a| ContractOp::fungible_received(witness_info, a)),
+                        )
                     } else {
                         ops.extend(ContractOp::non_fungible_received(witness_info, our_allocations))
                     }
-- 
2.43.0


From add21eae1f43451bac4cf674a61f279250fb04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:50 +0000
Subject: [PATCH 26/38] fix: list each contract assigned to outputs once

Asking for contracts which have state on several outputs returned a contract
once for each of the outputs it has state on.
---
 src/persistence/memory.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index 08927f2..b194220 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -1280,19 +1280,13 @@ impl IndexReadProvider for MemIndex {
         Ok(self
             .contract_index
             .iter()
-            .flat_map(move |(contract_id, index)| {
-                outpoints.clone().into_iter().filter_map(|outpoint| {
-                    if index
-                        .outpoint_opouts
-                        .keys()
-                        .any(|seal| seal.to_outpoint() == outpoint)
-                    {
-                        Some(*contract_id)
-                    } else {
-                        None
-                    }
-                })
-            }))
+            .filter(move |(_, index)| {
+                index
+                    .outpoint_opouts
+                    .keys()
+                    .any(|seal| outpoints.contains(&seal.to_outpoint()))
+            })
+            .map(|(contract_id, _)| *contract_id))
     }
 
     fn public_opouts(
-- 
2.43.0


From d7876559d95cdd1500aa35e859ebf5cc57e7c6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:37 +0000
Subject: [PATCH 27/38] fix: refuse implementations of unknown schemata and
 interfaces

Importing a kit or a consignment with an interface implementation for a schema
or an interface which is not known panicked. It now returns the errors which
exist for unknown schemata and interfaces.
---
 src/persistence/stash.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index c42764e..feb453a 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -455,6 +455,8 @@ impl<P: StashProvider> Stash<P> {
                 .map_err(StashError::WriteProvider)?;
         }
         for iimpl in kit.iimpls {
+            self.provider.schema(iimpl.schema_id)?;
+            self.provider.iface(iimpl.iface_id)?;
             self.provider
                 .replace_iimpl(iimpl)
                 .map_err(StashError::WriteProvider)?;
-- 
2.43.0


From 5b6ac0dc138bf16a9592c217835a5407b73ef103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:55 +0000
Subject: [PATCH 28/38] fix: return an error for unknown transition names

Asking a stock for a transition builder panicked if the interface does not have
the named transition or has no default one.
---
 src/persistence/stash.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index feb453a..5de3783 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -47,7 +47,8 @@ use crate::containers::{
     SigBlob, Supplement, TrustLevel, WitnessBundle,
 };
 use crate::interface::{
-    ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef, TransitionBuilder,
+    BuilderError, ContractBuilder, Iface, IfaceClass, IfaceId, IfaceImpl, IfaceRef,
+    TransitionBuilder,
 };
 use crate::persistence::{ContractIfaceError, StoreTransaction};
 use crate::{MergeReveal, MergeRevealError, SecretSeal, LIB_NAME_RGB_STD};
@@ -160,6 +161,10 @@ pub enum StashDataError {
     #[from]
     #[display(inner)]
     NoAbstractIface(ContractIfaceError),
+
+    #[from]
+    #[display(inner)]
+    Builder(BuilderError),
 }
 
 #[derive(Clone, Eq, PartialEq, Debug)]
@@ -377,7 +382,7 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         }
-        .expect("internal inconsistency");
+        .map_err(StashDataError::from)?;
 
         for (assignment_type, asset_tag) in genesis.asset_tags.iter() {
             builder = builder
-- 
2.43.0


From 4caa547db63933476c2665d3c6767a68a15ec4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:37 +0000
Subject: [PATCH 29/38] fix: find interfaces of implementations by their id

Exported kits and consignments took the interface of an implementation by its
name. With two interfaces of the same name in the stash it could be not the one
which is implemented, and the export could not be imported.
---
 src/persistence/stash.rs | 5 ++---
 src/persistence/stock.rs | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/persistence/stash.rs b/src/persistence/stash.rs
index 5de3783..ca51060 100644
--- a/src/persistence/stash.rs
+++ b/src/persistence/stash.rs
@@ -417,9 +417,8 @@ impl<P: StashProvider> Stash<P> {
                 types,
             )
         } else {
-            let (default_iface_name, default_iimpl) =
-                schema_ifaces.iimpls.first_key_value().unwrap();
-            let default_iface = self.iface(default_iface_name.clone())?;
+            let (_, default_iimpl) = schema_ifaces.iimpls.first_key_value().unwrap();
+            let default_iface = self.iface(default_iimpl.iface_id)?;
 
             TransitionBuilder::blank_transition(
                 contract_id,
diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index cf88219..d8f9227 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -709,8 +709,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         kit.schemata
             .push(schema_ifaces.schema.clone())
             .expect("single item");
-        for name in schema_ifaces.iimpls.keys() {
-            let iface = self.stash.iface(name.clone())?;
+        for iimpl in schema_ifaces.iimpls.values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             kit.ifaces.push(iface.clone()).expect("type guarantees");
         }
         kit.iimpls
@@ -844,8 +844,8 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
 
         let schema_ifaces = self.stash.schema(genesis.schema_id)?.clone();
         let mut ifaces = BTreeMap::new();
-        for (iface_id, iimpl) in schema_ifaces.iimpls {
-            let iface = self.stash.iface(iface_id)?;
+        for iimpl in schema_ifaces.iimpls.into_values() {
+            let iface = self.stash.iface(iimpl.iface_id)?;
             // Get iface and iimpl signatures by iface id and iimpl id
             self.stash
                 .sigs_for(&ContentId::Iface(iface.iface_id()))?
-- 
2.43.0


From 57c51ffddb2dd285585954bbac2ad895a5682597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:37 +0000
Subject: [PATCH 30/38] fix: keep annotations when adding one fails

Adding an annotation which is too large, or exceeds the number of annotations,
removed all annotations of the same subject.
---
 src/containers/suppl.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/containers/suppl.rs b/src/containers/suppl.rs
index 5da0ea8..931c107 100644
--- a/src/containers/suppl.rs
+++ b/src/containers/suppl.rs
@@ -278,13 +278,10 @@ impl Supplement {
     ) -> Result<bool, SerializeError> {
         let mut a = self
             .annotations
-            .remove(&sub)
-            .expect("zero items allowed")
-            .unwrap_or_default();
-        let mut b = a
-            .remove(&item)
-            .expect("zero items allowed")
+            .get(&sub)
+            .cloned()
             .unwrap_or_default();
+        let mut b = a.get(&item).cloned().unwrap_or_default();
         let prev = b.insert(name.into(), data.to_strict_serialized()?)?;
         a.insert(item, b)?;
         self.annotations.insert(sub, a)?;
-- 
2.43.0


From f4dd4c7dddb18d1eac578d52767d091dff98c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:05 +0000
Subject: [PATCH 31/38] fix: accept consignments as a whole

If the status of a witness transaction could not be resolved, accepting a
consignment failed with the contract and operations of transactions resolved
before already added to the state, while the stash and the index did not have
them.
---
 src/persistence/state.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/persistence/state.rs b/src/persistence/state.rs
index 4e8c21d..55adde6 100644
--- a/src/persistence/state.rs
+++ b/src/persistence/state.rs
@@ -182,6 +182,16 @@ impl<P: StateProvider> State<P> {
         consignment: impl ConsignmentExt,
         resolver: R,
     ) -> Result<(), StateError<P>> {
+        // Resolve all witnesses first, such that nothing is changed if the resolver fails
+        let mut witness_ords = BTreeMap::new();
+        for witness_bundle in consignment.bundled_witnesses() {
+            let witness_id = witness_bundle.pub_witness.to_witness_id();
+            let witness_ord = resolver
+                .resolve_pub_witness_ord(witness_id)
+                .map_err(|e| StateError::Resolver(witness_id, e))?;
+            witness_ords.insert(witness_id, witness_ord);
+        }
+
         let mut state = self
             .as_provider_mut()
             .register_contract(consignment.schema(), consignment.genesis())
@@ -195,9 +205,7 @@ impl<P: StateProvider> State<P> {
         for witness_bundle in consignment.bundled_witnesses() {
             for transition in witness_bundle.known_transitions() {
                 let witness_id = witness_bundle.pub_witness.to_witness_id();
-                let witness_ord = resolver
-                    .resolve_pub_witness_ord(witness_id)
-                    .map_err(|e| StateError::Resolver(witness_id, e))?;
+                let witness_ord = witness_ords[&witness_id];
 
                 state
                     .add_transition(transition, witness_id, witness_ord)
-- 
2.43.0


From 9d68cc45598b8f2bb37a74e4bdeac42d1bdf5945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:05 +0000
Subject: [PATCH 32/38] fix: consume fascia as a whole

Consuming a fascia with an unknown contract, an invalid bundle, or a witness
which can not be resolved failed after a part of it was already stored. Index
had operations which the stash does not, and the contract could not be exported
or consigned.
---
 src/persistence/stock.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index d8f9227..0e7d248 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -1352,10 +1352,13 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
     ) -> Result<(), StockError<S, H, P, FasciaError>> {
         self.store_transaction(move |stash, state, index| {
             let witness_id = fascia.witness_id();
-            stash
-                .consume_witness(SealWitness::new(fascia.witness.clone(), fascia.anchor.clone()))?;
 
-            for (contract_id, bundle) in fascia.into_bundles() {
+            // Check everything first, such that nothing is changed on failure
+            resolver
+                .resolve_pub_witness_ord(witness_id)
+                .map_err(|e| StateError::Resolver(witness_id, e))?;
+            for (contract_id, bundle) in fascia.clone().into_bundles() {
+                state.contract_state(contract_id)?;
                 let ids1 = bundle
                     .known_transitions
                     .keys()
@@ -1365,7 +1368,11 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 if !ids1.is_subset(&ids2) {
                     return Err(FasciaError::InvalidBundle(contract_id, bundle.bundle_id()).into());
                 }
+            }
 
+            stash
+                .consume_witness(SealWitness::new(fascia.witness.clone(), fascia.anchor.clone()))?;
+            for (contract_id, bundle) in fascia.into_bundles() {
                 index.index_bundle(contract_id, &bundle, witness_id)?;
                 state.update_from_bundle(contract_id, &bundle, witness_id, &resolver)?;
                 stash.consume_bundle(bundle)?;
-- 
2.43.0


From ad5bfb4b305faa7278256ea13ecfccba350590b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:05 +0000
Subject: [PATCH 33/38] fix: store changes of the stock made without autosave

The default check for unsaved changes reports them only if autosave is on.
Without it nothing was stored, neither on making a stock persistent, nor when
committing an operation, nor by an explicit request.
---
 src/persistence/memory.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index b194220..cea9447 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -156,6 +156,8 @@ impl Persisting for MemStash {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map_or(true, |p| p.dirty) }
 }
 
 impl StoreTransaction for MemStash {
@@ -527,6 +529,8 @@ impl Persisting for MemState {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map_or(true, |p| p.dirty) }
 }
 
 impl StoreTransaction for MemState {
@@ -1253,6 +1257,8 @@ impl Persisting for MemIndex {
     fn persistence_mut(&mut self) -> Option<&mut Persistence<Self>> { self.persistence.as_mut() }
     #[inline]
     fn as_mut_persistence(&mut self) -> &mut Option<Persistence<Self>> { &mut self.persistence }
+    #[inline]
+    fn is_dirty(&self) -> bool { self.persistence.as_ref().map_or(true, |p| p.dirty) }
 }
 
 impl StoreTransaction for MemIndex {
-- 
2.43.0


From c5c15506731155f7687effa9920834e0b067ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:35:34 +0000
Subject: [PATCH 34/38] fix: find global state at the asked depth and count it
 without moving

Reading global state at a depth gave no state at all, since the position was
never moved, and counting it in the middle of reading started reading anew.
---
 src/persistence/memory.rs | 30 ++++--------------------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/persistence/memory.rs b/src/persistence/memory.rs
index cea9447..8477a6c 100644
--- a/src/persistence/memory.rs
+++ b/src/persistence/memory.rs
@@ -20,12 +20,11 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::cmp::Ordering;
 use std::collections::{BTreeMap, BTreeSet, HashMap};
 use std::convert::Infallible;
 use std::fmt::{Debug, Formatter};
 use std::num::NonZeroU32;
-use std::{iter, mem};
+use std::mem;
 
 use aluvm::library::{Lib, LibId};
 use amplify::confinement::{
@@ -888,44 +887,24 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
             src: Src<'a>,
             iter: FilteredIter<'a>,
             last: Option<(GlobalOrd, &'a DataState)>,
-            depth: u24,
             constructor: Box<dyn Fn(Src<'a>) -> FilteredIter<'a> + 'a>,
         }
-        impl<'a> Iter<'a> {
-            fn swap(&mut self) -> FilteredIter<'a> {
-                let mut iter = (self.constructor)(self.src);
-                mem::swap(&mut iter, &mut self.iter);
-                iter
-            }
-        }
         impl<'a> GlobalStateIter for Iter<'a> {
             type Data = &'a DataState;
             fn size(&mut self) -> u24 {
-                let iter = self.swap();
                 // TODO: Consuming iterator just to count items is highly inefficient, but I do
                 //       not know any other way of computing this value
-                let size = iter.count();
+                let size = (self.constructor)(self.src).count();
                 u24::try_from(size as u32).expect("iterator size must fit u24 due to `take` limit")
             }
             fn prev(&mut self) -> Option<(GlobalOrd, Self::Data)> {
                 self.last = self.iter.next();
-                self.depth += u24::ONE;
                 self.last()
             }
             fn last(&mut self) -> Option<(GlobalOrd, Self::Data)> { self.last }
             fn reset(&mut self, depth: u24) {
-                match self.depth.cmp(&depth) {
-                    Ordering::Less => {
-                        let mut iter = Box::new(iter::empty()) as FilteredIter;
-                        mem::swap(&mut self.iter, &mut iter);
-                        self.iter = Box::new(iter.skip(depth.to_usize() - depth.to_usize()))
-                    }
-                    Ordering::Equal => {}
-                    Ordering::Greater => {
-                        let iter = self.swap();
-                        self.iter = Box::new(iter.skip(depth.to_usize()));
-                    }
-                }
+                self.iter = (self.constructor)(self.src);
+                self.last = self.iter.nth(depth.to_usize());
             }
         }
         // We need this due to the limitations of the rust compiler to enforce lifetimes
@@ -963,7 +942,6 @@ impl<M: Borrow<MemContractState>> ContractStateAccess for MemContract<M> {
         let iter = Iter {
             src: state.known.as_unconfined(),
             iter: constructor(state.known.as_unconfined()),
-            depth: u24::ZERO,
             last: None,
             constructor: Box::new(constructor),
         };
-- 
2.43.0


From e32040ef7f4f746097f50ab3703419b4bfc9efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:38 +0000
Subject: [PATCH 35/38] fix: show an extension by its first valid spending

The status of state made by an extension was taken from whichever spending
transaction came first by its id, so the state vanished when that one was
replaced even though another spending was valid.
---
 src/persistence/state.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/persistence/state.rs b/src/persistence/state.rs
index 55adde6..0b60dd8 100644
--- a/src/persistence/state.rs
+++ b/src/persistence/state.rs
@@ -20,10 +20,9 @@
 // limitations under the License.
 
 use std::borrow::Borrow;
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use std::error::Error;
 use std::fmt::Debug;
-use std::iter;
 
 use invoice::Amount;
 use nonasync::persistence::{CloneNoPersistence, Persisting};
@@ -196,11 +195,10 @@ impl<P: StateProvider> State<P> {
             .as_provider_mut()
             .register_contract(consignment.schema(), consignment.genesis())
             .map_err(StateError::WriteProvider)?;
-        let mut extension_idx = consignment
+        let extension_idx = consignment
             .extensions()
             .map(Extension::id)
-            .zip(iter::repeat(false))
-            .collect::<BTreeMap<_, _>>();
+            .collect::<BTreeSet<_>>();
         let mut ordered_extensions = BTreeMap::new();
         for witness_bundle in consignment.bundled_witnesses() {
             for transition in witness_bundle.known_transitions() {
@@ -210,19 +208,16 @@ impl<P: StateProvider> State<P> {
                 state
                     .add_transition(transition, witness_id, witness_ord)
                     .map_err(StateError::WriteProvider)?;
-                for (id, used) in &mut extension_idx {
-                    if *used {
-                        continue;
-                    }
+                for id in &extension_idx {
                     for input in &transition.inputs {
                         if input.prev_out.op == *id {
-                            *used = true;
-                            if let Some((_, witness_ord2)) = ordered_extensions.get_mut(id) {
-                                if *witness_ord2 < witness_ord {
-                                    *witness_ord2 = witness_ord;
-                                }
-                            } else {
-                                ordered_extensions.insert(*id, (witness_id, witness_ord));
+                            // Account for the first valid closing of the extension seals
+                            let first = ordered_extensions
+                                .entry(*id)
+                                .or_insert((witness_id, witness_ord));
+                            let earlier = witness_ord.is_valid() && witness_ord < first.1;
+                            if !first.1.is_valid() || earlier {
+                                *first = (witness_id, witness_ord);
                             }
                         }
                     }
-- 
2.43.0


From d353bc67295ce75d2ad2645113893a66bb7488a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:41:38 +0000
Subject: [PATCH 36/38] fix: consign payments from state made by extensions

A stock which knew an extension failed to make any consignment of the contract,
looking for a transition with the id of the extension. Extensions whose state is
spent are now part of the consignment, with the operations they redeem.
---
 src/persistence/stock.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/persistence/stock.rs b/src/persistence/stock.rs
index 0e7d248..ac89388 100644
--- a/src/persistence/stock.rs
+++ b/src/persistence/stock.rs
@@ -35,9 +35,9 @@ use invoice::{Amount, Beneficiary, InvoiceState, NonFungible, RgbInvoice};
 use nonasync::persistence::{CloneNoPersistence, PersistenceError, PersistenceProvider};
 use rgb::validation::{DbcProof, ResolveWitness, WitnessResolverError};
 use rgb::{
-    validation, AssignmentType, BlindingFactor, BundleId, ContractId, DataState, GraphSeal,
-    Identity, OpId, Operation, Opout, SchemaId, SecretSeal, Transition, TxoSeal, XChain, XOutpoint,
-    XOutputSeal, XWitnessId,
+    validation, AssignmentType, BlindingFactor, BundleId, ContractId, DataState, Extension,
+    GraphSeal, Identity, OpId, Operation, Opout, SchemaId, SecretSeal, Transition, TxoSeal, XChain,
+    XOutpoint, XOutputSeal, XWitnessId,
 };
 use strict_encoding::FieldName;
 
@@ -789,6 +789,10 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
                 continue; // the same secret seal is used by genesis of another contract
             }
 
+            if self.stash.as_provider().extension(opout.op).is_ok() {
+                continue; // extensions are added below if any of their state is spent
+            }
+
             let transition = self.transition(opout.op)?;
             if transition.contract_id != contract_id {
                 continue; // the same secret seal is used by another contract
@@ -812,6 +816,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
         }
 
         // 2. Collect all state transitions between terminals and genesis
+        let mut extensions = BTreeSet::<Extension>::new();
         let mut ids = vec![];
         for transition in transitions.values() {
             ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
@@ -820,6 +825,11 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             if id == contract_id {
                 continue; // we skip genesis since it will be present anywhere
             }
+            if let Ok(extension) = self.stash.as_provider().extension(id) {
+                ids.extend(extension.redeemed.values());
+                extensions.insert(extension.clone());
+                continue;
+            }
             let transition = self.transition(id)?;
             ids.extend(transition.inputs().iter().map(|input| input.prev_out.op));
             transitions.insert(id, transition.clone());
@@ -906,7 +916,7 @@ impl<S: StashProvider, H: StateProvider, P: IndexProvider> Stock<S, H, P> {
             genesis,
             terminals,
             bundles,
-            extensions: none!(),
+            extensions: Confined::from_checked(extensions),
             attachments: none!(),
 
             signatures,
-- 
2.43.0


From 5072281aba77e86cd8ea1bee85c8f4e3059b974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:49 +0000
Subject: [PATCH 37/38] fix: write armor headers of consignments on one line

Headers with several interfaces or terminals were written on several lines,
which the armor parser reads as separate headers and refuses.
---
 src/containers/consignment.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/containers/consignment.rs b/src/containers/consignment.rs
index d1e85fc..da49963 100644
--- a/src/containers/consignment.rs
+++ b/src/containers/consignment.rs
@@ -394,15 +394,14 @@ impl<const TRANSFER: bool> StrictArmor for Consignment<TRANSFER> {
             ArmorHeader::new(ASCII_ARMOR_SCHEMA, self.schema.schema_id().to_string()),
         ];
         if !self.ifaces.is_empty() {
-            headers.push(ArmorHeader::with(
-                ASCII_ARMOR_IFACE,
-                self.ifaces.keys().map(|iface| iface.name.to_string()),
-            ));
+            let ifaces = self.ifaces.keys().map(|iface| iface.name.to_string());
+            headers.push(ArmorHeader::new(ASCII_ARMOR_IFACE, ifaces.collect::<Vec<_>>().join(", ")));
         }
         if !self.terminals.is_empty() {
-            headers.push(ArmorHeader::with(
+            let terminals = self.terminals.keys().map(BundleId::to_string);
+            headers.push(ArmorHeader::new(
                 ASCII_ARMOR_TERMINAL,
-                self.terminals.keys().map(BundleId::to_string),
+                terminals.collect::<Vec<_>>().join(", "),
             ));
         }
         headers
-- 
2.43.0


From d2379e62775e45aeb84f7bbf1658be4ecb923906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:49 +0000
Subject: [PATCH 38/38] fix: write armor headers of kits on one line

Parameters of schemata, interfaces and implementations were written on lines
of their own, which the armor parser refuses: no kit with contents could be
read back from its text.
---
 src/containers/kit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/containers/kit.rs b/src/containers/kit.rs
index 4316f83..1b8afa7 100644
--- a/src/containers/kit.rs
+++ b/src/containers/kit.rs
@@ -260,6 +260,12 @@ impl StrictArmor for Kit {
         for lib in &self.scripts {
             headers.push(ArmorHeader::new(ASCII_ARMOR_SCRIPT, lib.id().to_string()));
         }
+        // Headers are read line by line, thus their parameters have to be kept in a single line
+        for header in &mut headers {
+            for (name, val) in std::mem::take(&mut header.params) {
+                header.values[0].push_str(&format!("; {name}={val}"));
+            }
+        }
         headers
     }
 }
-- 
2.43.0

