From 561d345e0438df9db0b67ed3f2e33b655b8302b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 01/41] fix: check for a duplicate PSBT_GLOBAL_INPUT_COUNT, not
 for the output count

The duplicate check of the input count looked at the output count, so a
global map in which PSBT_GLOBAL_OUTPUT_COUNT comes before
PSBT_GLOBAL_INPUT_COUNT was rejected and a repeated input count accepted.
---
 src/v2/map/global.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index adbb5c9..ae40e8d 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -216,7 +216,7 @@ impl Global {
                     },
                 PSBT_GLOBAL_INPUT_COUNT => {
                     if pair.key.key.is_empty() {
-                        if output_count.is_none() {
+                        if input_count.is_none() {
                             // TODO: Do we need to check the length for a VarInt?
                             // let vlen: usize = pair.value.len();
                             let mut decoder = Cursor::new(pair.value);
-- 
2.43.0


From a5ad3fa9f88a316246d21bbed481cbcc3f042681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:07 +0000
Subject: [PATCH 02/41] fix: do not allocate memory based on the untrusted map
 counts

The input and output counts are attacker controlled, a PSBT of a few bytes
could make deserialization panic (capacity overflow) or abort (out of
memory).
---
 src/v2/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index be34b9a..861169d 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -630,7 +630,8 @@ impl Psbt {
 
         let inputs: Vec<Input> = {
             let inputs_len: usize = global.input_count;
-            let mut inputs: Vec<Input> = Vec::with_capacity(inputs_len);
+            // The count is not to be trusted, do not allocate based on it.
+            let mut inputs: Vec<Input> = vec![];
 
             for _ in 0..inputs_len {
                 inputs.push(Input::decode(&mut d)?);
@@ -641,7 +642,7 @@ impl Psbt {
 
         let outputs: Vec<Output> = {
             let outputs_len: usize = global.output_count;
-            let mut outputs: Vec<Output> = Vec::with_capacity(outputs_len);
+            let mut outputs: Vec<Output> = vec![];
 
             for _ in 0..outputs_len {
                 outputs.push(Output::decode(&mut d)?)
-- 
2.43.0


From 927f5a9fdfcc1c51fb77ada5455efb1325a00da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 03/41] fix: track presence of the mandatory input fields while
 decoding

Decoding used an all zeros txid and an index of u32::MAX to mean not yet
seen. An input that holds one of these values was reported as missing the
field (although we serialize it), and such a field could be repeated.
Also reject key data on PSBT_IN_PREVIOUS_TXID and PSBT_IN_OUTPUT_INDEX.
---
 src/v2/map/input.rs | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index f1d6a86..a817a0b 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -393,24 +393,21 @@ impl Input {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Input`.
-        let invalid = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
-        let mut rv = Self::new(&invalid);
+        // Placeholder value, both fields are set below once the whole map has been decoded.
+        let placeholder = OutPoint { txid: Txid::all_zeros(), vout: u32::MAX };
+        let mut rv = Self::new(&placeholder);
+        let mut out_point = OutPointFields { txid: None, vout: None };
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => rv.insert_pair(pair, &mut out_point)?,
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.previous_txid == Txid::all_zeros() {
-            return Err(DecodeError::MissingPreviousTxid);
-        }
-        if rv.spent_output_index == u32::MAX {
-            return Err(DecodeError::MissingSpentOutputIndex);
-        }
+        rv.previous_txid = out_point.txid.ok_or(DecodeError::MissingPreviousTxid)?;
+        rv.spent_output_index = out_point.vout.ok_or(DecodeError::MissingSpentOutputIndex)?;
 
         #[cfg(feature = "silent-payments")]
         {
@@ -424,23 +421,23 @@ impl Input {
         Ok(rv)
     }
 
-    fn insert_pair(&mut self, pair: raw::Pair) -> Result<(), InsertPairError> {
+    fn insert_pair(
+        &mut self,
+        pair: raw::Pair,
+        out_point: &mut OutPointFields,
+    ) -> Result<(), InsertPairError> {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
             PSBT_IN_PREVIOUS_TXID => {
-                if self.previous_txid != Txid::all_zeros() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
+                v2_impl_psbt_insert_pair! {
+                    out_point.txid <= <raw_key: _>|<raw_value: Txid>
                 }
-                let txid: Txid = Deserialize::deserialize(&raw_value)?;
-                self.previous_txid = txid;
             }
             PSBT_IN_OUTPUT_INDEX => {
-                if self.spent_output_index != u32::MAX {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
+                v2_impl_psbt_insert_pair! {
+                    out_point.vout <= <raw_key: _>|<raw_value: u32>
                 }
-                let vout: u32 = Deserialize::deserialize(&raw_value)?;
-                self.spent_output_index = vout;
             }
             PSBT_IN_SEQUENCE => {
                 v2_impl_psbt_insert_pair! {
@@ -656,6 +653,12 @@ impl Input {
     }
 }
 
+/// The mandatory fields of an input map, as seen while decoding it.
+struct OutPointFields {
+    txid: Option<Txid>,
+    vout: Option<u32>,
+}
+
 impl Map for Input {
     fn get_pairs(&self) -> Vec<raw::Pair> {
         let mut rv: Vec<raw::Pair> = Default::default();
-- 
2.43.0


From 4b15aff7ccf845b43938783adb21d4863df00b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:14 +0000
Subject: [PATCH 04/41] fix: track presence of the mandatory output fields
 while decoding

Decoding used a zero amount and an empty script to mean not yet seen. A zero
value output (e.g. OP_RETURN) that we serialized was rejected as missing its
value, and repeated fields could be accepted. Also reject key data on
PSBT_OUT_AMOUNT and PSBT_OUT_SCRIPT, and (as BIP-375 requires) an output with
neither a script nor silent payment info.
---
 src/v2/map/output.rs | 51 +++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index a853e72..1c7061d 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -18,7 +18,7 @@ use crate::consts::{
 use crate::consts::{PSBT_OUT_SP_V0_INFO, PSBT_OUT_SP_V0_LABEL};
 use crate::error::write_err;
 use crate::prelude::*;
-use crate::serialize::{Deserialize, Serialize};
+use crate::serialize::Serialize;
 use crate::v2::map::Map;
 use crate::{raw, serialize};
 
@@ -106,52 +106,53 @@ impl Output {
     }
 
     pub(in crate::v2) fn decode<R: BufRead + ?Sized>(r: &mut R) -> Result<Self, DecodeError> {
-        // These are placeholder values that never exist in a encode `Output`.
-        let invalid = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
-        let mut rv = Self::new(invalid);
+        // Placeholder value, both fields are set below once the whole map has been decoded.
+        let placeholder = TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::default() };
+        let mut rv = Self::new(placeholder);
+        let mut tx_out = TxOutFields { amount: None, script_pubkey: None };
 
         loop {
             match raw::Pair::decode(r) {
-                Ok(pair) => rv.insert_pair(pair)?,
+                Ok(pair) => rv.insert_pair(pair, &mut tx_out)?,
                 Err(serialize::Error::NoMorePairs) => break,
                 Err(e) => return Err(DecodeError::DeserPair(e)),
             }
         }
 
-        if rv.amount == Amount::ZERO {
-            return Err(DecodeError::MissingValue);
-        }
-        // BIP-375 allows outputs to be missing scriptPubkey
-        #[cfg(not(feature = "silent-payments"))]
-        if rv.script_pubkey == ScriptBuf::default() {
-            return Err(DecodeError::MissingScriptPubkey);
-        }
+        rv.amount = tx_out.amount.ok_or(DecodeError::MissingValue)?;
 
+        // BIP-375 allows outputs to be missing scriptPubkey, if there is silent payment info.
+        #[cfg(feature = "silent-payments")]
+        if tx_out.script_pubkey.is_none() && rv.sp_v0_info.is_some() {
+            tx_out.script_pubkey = Some(ScriptBuf::default());
+        }
         #[cfg(feature = "silent-payments")]
         if rv.sp_v0_label.is_some() && rv.sp_v0_info.is_none() {
             return Err(DecodeError::LabelWithoutInfo);
         }
 
+        rv.script_pubkey = tx_out.script_pubkey.ok_or(DecodeError::MissingScriptPubkey)?;
+
         Ok(rv)
     }
 
-    fn insert_pair(&mut self, pair: raw::Pair) -> Result<(), InsertPairError> {
+    fn insert_pair(
+        &mut self,
+        pair: raw::Pair,
+        tx_out: &mut TxOutFields,
+    ) -> Result<(), InsertPairError> {
         let raw::Pair { key: raw_key, value: raw_value } = pair;
 
         match raw_key.type_value {
             PSBT_OUT_AMOUNT => {
-                if self.amount != Amount::ZERO {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
+                v2_impl_psbt_insert_pair! {
+                    tx_out.amount <= <raw_key: _>|<raw_value: Amount>
                 }
-                let amount: Amount = Deserialize::deserialize(&raw_value)?;
-                self.amount = amount;
             }
             PSBT_OUT_SCRIPT => {
-                if self.script_pubkey != ScriptBuf::default() {
-                    return Err(InsertPairError::DuplicateKey(raw_key));
+                v2_impl_psbt_insert_pair! {
+                    tx_out.script_pubkey <= <raw_key: _>|<raw_value: ScriptBuf>
                 }
-                let script: ScriptBuf = Deserialize::deserialize(&raw_value)?;
-                self.script_pubkey = script;
             }
 
             PSBT_OUT_REDEEM_SCRIPT => {
@@ -265,6 +266,12 @@ impl Output {
     }
 }
 
+/// The mandatory fields of an output map, as seen while decoding it.
+struct TxOutFields {
+    amount: Option<Amount>,
+    script_pubkey: Option<ScriptBuf>,
+}
+
 impl Map for Output {
     fn get_pairs(&self) -> Vec<raw::Pair> {
         let mut rv: Vec<raw::Pair> = Default::default();
-- 
2.43.0


From 197a44757bf9b1c3f0146c049a36dfbcbcfca2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 05/41] fix: do not serialize an empty script for silent
 payment outputs

BIP-375 omits PSBT_OUT_SCRIPT until the output script has been computed, we
wrote an empty script, which other implementations take as the script of the
output.
---
 src/v2/map/output.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/v2/map/output.rs b/src/v2/map/output.rs
index 1c7061d..d5beb1b 100644
--- a/src/v2/map/output.rs
+++ b/src/v2/map/output.rs
@@ -281,10 +281,18 @@ impl Map for Output {
             value: self.amount.serialize(),
         });
 
-        rv.push(raw::Pair {
-            key: raw::Key { type_value: PSBT_OUT_SCRIPT, key: vec![] },
-            value: self.script_pubkey.serialize(),
-        });
+        // BIP-375: The script is omitted until the silent payment output script is computed.
+        #[cfg(feature = "silent-payments")]
+        let omit_script = self.sp_v0_info.is_some() && self.script_pubkey.is_empty();
+        #[cfg(not(feature = "silent-payments"))]
+        let omit_script = false;
+
+        if !omit_script {
+            rv.push(raw::Pair {
+                key: raw::Key { type_value: PSBT_OUT_SCRIPT, key: vec![] },
+                value: self.script_pubkey.serialize(),
+            });
+        }
 
         v2_impl_psbt_get_pair! {
             rv.push(self.redeem_script, PSBT_OUT_REDEEM_SCRIPT)
-- 
2.43.0


From f97992650174dc96d34fe4cd550533308d925ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:12 +0000
Subject: [PATCH 06/41] fix: implement Display and source for DeserializeError

Both were todo!(), so reporting a failed deserialization panicked.
---
 src/v2/error.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index 60d6533..b5f0b2e 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -34,12 +34,32 @@ pub enum DeserializeError {
 }
 
 impl fmt::Display for DeserializeError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use DeserializeError::*;
+
+        match *self {
+            InvalidMagic => write!(f, "invalid magic bytes"),
+            InvalidSeparator => write!(f, "invalid separator"),
+            NoMorePairs => write!(f, "no more key-value pairs for this psbt map"),
+            DecodeGlobal(ref e) => write_err!(f, "failed to decode global map"; e),
+            DecodeInput(ref e) => write_err!(f, "failed to decode input map"; e),
+            DecodeOutput(ref e) => write_err!(f, "failed to decode output map"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for DeserializeError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use DeserializeError::*;
+
+        match *self {
+            DecodeGlobal(ref e) => Some(e),
+            DecodeInput(ref e) => Some(e),
+            DecodeOutput(ref e) => Some(e),
+            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+        }
+    }
 }
 
 impl From<global::DecodeError> for DeserializeError {
-- 
2.43.0


From fb8f39cff51d4f75f1dbc7ff4cd54bd822436c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 07/41] fix: implement Display and source for ExtractTxError

Both were todo!(), so reporting a failed extraction panicked.
---
 src/v2/extract.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/v2/extract.rs b/src/v2/extract.rs
index 657793b..9621757 100644
--- a/src/v2/extract.rs
+++ b/src/v2/extract.rs
@@ -223,12 +223,26 @@ pub enum ExtractTxError {
 }
 
 impl fmt::Display for ExtractTxError {
-    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result { todo!() }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        use ExtractTxError::*;
+
+        match *self {
+            Unfinalized => write!(f, "attempted to extract tx from unfinalized PSBT"),
+            DetermineLockTime(ref e) => write_err!(f, "failed to determine lock time"; e),
+        }
+    }
 }
 
 #[cfg(feature = "std")]
 impl std::error::Error for ExtractTxError {
-    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { todo!() }
+    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
+        use ExtractTxError::*;
+
+        match *self {
+            DetermineLockTime(ref e) => Some(e),
+            Unfinalized => None,
+        }
+    }
 }
 
 impl From<DetermineLockTimeError> for ExtractTxError {
-- 
2.43.0


From 9179c6ef20e487ed5b07ce149ddf2b7757a35254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 08/41] fix: do not print to stdout while finalizing

Left over debug output, it also broke the miniscript build without std.
---
 src/v2/miniscript/finalize.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index f7c60e3..9c0779c 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -126,8 +126,6 @@ impl Finalizer {
         };
 
         let witness = Witness::from_slice(&witness);
-        println!("{:#?}", script_sig);
-        println!("{:#?}", witness);
         Ok((script_sig, witness))
     }
 
-- 
2.43.0


From 3a2cb0bff449904e42a42ef792ef2ff6e4ef74f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 09/41] fix: reject v2 PSBTs with data after the last output
 map

Trailing data was silently dropped. Bitcoin Core rejects such a PSBT too.
---
 src/v2/error.rs | 6 +++++-
 src/v2/mod.rs   | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/v2/error.rs b/src/v2/error.rs
index b5f0b2e..fa729be 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -31,6 +31,8 @@ pub enum DeserializeError {
     DecodeInput(input::DecodeError),
     /// Error decoding an output map.
     DecodeOutput(output::DecodeError),
+    /// There is data after the last output map.
+    PartialDataConsumption,
 }
 
 impl fmt::Display for DeserializeError {
@@ -44,6 +46,8 @@ impl fmt::Display for DeserializeError {
             DecodeGlobal(ref e) => write_err!(f, "failed to decode global map"; e),
             DecodeInput(ref e) => write_err!(f, "failed to decode input map"; e),
             DecodeOutput(ref e) => write_err!(f, "failed to decode output map"; e),
+            PartialDataConsumption =>
+                write!(f, "data not consumed entirely when explicitly deserializing"),
         }
     }
 }
@@ -57,7 +61,7 @@ impl std::error::Error for DeserializeError {
             DecodeGlobal(ref e) => Some(e),
             DecodeInput(ref e) => Some(e),
             DecodeOutput(ref e) => Some(e),
-            InvalidMagic | InvalidSeparator | NoMorePairs => None,
+            InvalidMagic | InvalidSeparator | NoMorePairs | PartialDataConsumption => None,
         }
     }
 }
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 861169d..e5673fb 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -651,6 +651,10 @@ impl Psbt {
             outputs
         };
 
+        if !d.is_empty() {
+            return Err(PartialDataConsumption);
+        }
+
         Ok(Psbt { global, inputs, outputs })
     }
 
-- 
2.43.0


From 9a19da8b4ba5d44a89db03339921b9c35a67d4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 10/41] fix: reject v0 PSBTs with data after the last output
 map

As for v2, use the so far unused Error::PartialDataConsumption.
---
 src/v0/bitcoin/serialize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v0/bitcoin/serialize.rs b/src/v0/bitcoin/serialize.rs
index def826d..0bbcf1a 100644
--- a/src/v0/bitcoin/serialize.rs
+++ b/src/v0/bitcoin/serialize.rs
@@ -107,6 +107,10 @@ impl Psbt {
             outputs
         };
 
+        if !d.is_empty() {
+            return Err(Error::PartialDataConsumption);
+        }
+
         global.inputs = inputs;
         global.outputs = outputs;
         Ok(global)
-- 
2.43.0


From ad53a566a8bfa3a823210941e0480d02958ece16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 11/41] fix: do not panic when v2 PSBTs with conflicting xpub
 origins are combined

If the derivation of the other PSBT was shorter (and not a suffix) the slice
index underflowed. Also return the documented error if only the fingerprints
differ, instead of overwriting the key source.
---
 src/v2/map/global.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index ae40e8d..b4abb35 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -432,8 +432,9 @@ impl Global {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From e239e66972498ca9a6fa87b26626b6dc15be51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 12/41] fix: do not panic when v0 PSBTs with conflicting xpub
 origins are combined

If the derivation of the other PSBT was shorter (and not a suffix) the slice
index underflowed. Also return the documented error if only the fingerprints
differ, instead of overwriting the key source.
---
 src/v0/bitcoin/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e99cf49..7a8c527 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -259,8 +259,9 @@ impl Psbt {
                                 == derivation2[derivation2.len() - derivation1.len()..])
                     {
                         continue;
-                    } else if derivation2[..]
-                        == derivation1[derivation1.len() - derivation2.len()..]
+                    } else if derivation2.len() < derivation1.len()
+                        && derivation2[..]
+                            == derivation1[derivation1.len() - derivation2.len()..]
                     {
                         entry.insert((fingerprint1, derivation1));
                         continue;
-- 
2.43.0


From 46190add4e2411d0e4bee496a8b10087067cd131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 13/41] fix: keep both UTXO fields when combining v2 inputs

Combining dropped the non-witness UTXO of one PSBT if (and only if) the other
one was the argument and had the witness UTXO: the result depended on the
order and lost data. BIP-174 allows both fields in one input.
---
 src/v2/map/input.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index a817a0b..1d09eb4 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -618,13 +618,7 @@ impl Input {
         v2_combine_option!(min_time, self, other);
         v2_combine_option!(min_height, self, other);
         v2_combine_option!(non_witness_utxo, self, other);
-
-        // TODO: Copied from v0, confirm this is correct.
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
-
+        v2_combine_option!(witness_utxo, self, other);
         v2_combine_map!(partial_sigs, self, other);
         // TODO: Why do we not combine sighash_type?
         v2_combine_option!(redeem_script, self, other);
-- 
2.43.0


From c4074c30285fe76a8fdde7be723c4f6ec1210526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 14/41] fix: keep both UTXO fields when combining v0 inputs

Combining dropped the non-witness UTXO of one PSBT if (and only if) the other
one was the argument and had the witness UTXO: the result depended on the
order and lost data. BIP-174 allows both fields in one input.
---
 src/v0/bitcoin/map/input.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index e442ac8..f70e346 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -305,11 +305,7 @@ impl Input {
     /// Combines this [`Input`] with `other` `Input` (as described by BIP 174).
     pub fn combine(&mut self, other: Self) {
         combine!(non_witness_utxo, self, other);
-
-        if let (&None, Some(witness_utxo)) = (&self.witness_utxo, other.witness_utxo) {
-            self.witness_utxo = Some(witness_utxo);
-            self.non_witness_utxo = None; // Clear out any non-witness UTXO when we set a witness one
-        }
+        combine!(witness_utxo, self, other);
 
         self.partial_sigs.extend(other.partial_sigs);
         self.bip32_derivation.extend(other.bip32_derivation);
-- 
2.43.0


From 6100fde95f954e357121dd5fab1983b19a0bd99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 15/41] fix: combine the sighash type of v2 inputs

The field was dropped if only the other PSBT had it.
---
 src/v2/map/input.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 1d09eb4..92faab1 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -620,7 +620,7 @@ impl Input {
         v2_combine_option!(non_witness_utxo, self, other);
         v2_combine_option!(witness_utxo, self, other);
         v2_combine_map!(partial_sigs, self, other);
-        // TODO: Why do we not combine sighash_type?
+        v2_combine_option!(sighash_type, self, other);
         v2_combine_option!(redeem_script, self, other);
         v2_combine_option!(witness_script, self, other);
         v2_combine_map!(bip32_derivations, self, other);
-- 
2.43.0


From cef4596284153b30d8346c7f9a6c4a1e2d4f4340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 16/41] fix: combine the sighash type of v0 inputs

The field was dropped if only the other PSBT had it.
---
 src/v0/bitcoin/map/input.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index f70e346..a5f81ce 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -319,6 +319,7 @@ impl Input {
         self.proprietary.extend(other.proprietary);
         self.unknown.extend(other.unknown);
 
+        combine!(sighash_type, self, other);
         combine!(redeem_script, self, other);
         combine!(witness_script, self, other);
         combine!(final_script_sig, self, other);
-- 
2.43.0


From 3fd58b7f5a8ae14e16171f0310b75d0062ceb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:30 +0000
Subject: [PATCH 17/41] fix: combine the fallback lock time and the modifiable
 flags of v2 PSBTs

Both fields of the other PSBT were ignored. Keeping only our own flags meant
that combining an unsigned PSBT with a signed one gave a PSBT which claims to
be modifiable although it has signatures that any modification invalidates.
---
 src/v2/map/global.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/v2/map/global.rs b/src/v2/map/global.rs
index b4abb35..17cc2d1 100644
--- a/src/v2/map/global.rs
+++ b/src/v2/map/global.rs
@@ -405,6 +405,13 @@ impl Global {
             });
         }
 
+        v2_combine_option!(fallback_lock_time, self, other);
+
+        // A signature of either PSBT restricts what can still be modified.
+        let modifiable = INPUTS_MODIFIABLE | OUTPUTS_MODIFIABLE;
+        self.tx_modifiable_flags = (self.tx_modifiable_flags & other.tx_modifiable_flags & modifiable)
+            | ((self.tx_modifiable_flags | other.tx_modifiable_flags) & !modifiable);
+
         // BIP 174: The Combiner must remove any duplicate key-value pairs, in accordance with
         //          the specification. It can pick arbitrarily when conflicts occur.
 
-- 
2.43.0


From c9dda35dc763ea0acf40875d03eb3e622d64f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:55 +0000
Subject: [PATCH 18/41] fix: refuse to combine v2 PSBTs for different
 transactions

PSBTs with different numbers of inputs or outputs were combined, silently
dropping the excess maps of one of them (and the global counts then did not
match the maps). So were PSBTs that create transactions with different lock
times. BIP-370 makes these different PSBTs, as their unique id differs.
---
 src/v2/mod.rs | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index e5673fb..004ca80 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -678,6 +678,25 @@ impl Psbt {
     ///
     /// See [`combine()`] for a non-consuming version of this function.
     pub fn combine_with(mut self, other: Self) -> Result<Psbt, CombineError> {
+        if self.inputs.len() != other.inputs.len() {
+            return Err(CombineError::InputCountMismatch {
+                this: self.inputs.len(),
+                that: other.inputs.len(),
+            });
+        }
+
+        if self.outputs.len() != other.outputs.len() {
+            return Err(CombineError::OutputCountMismatch {
+                this: self.outputs.len(),
+                that: other.outputs.len(),
+            });
+        }
+
+        // Together with the checks done below this means the two PSBTs have the same unique id.
+        if self.determine_lock_time() != other.determine_lock_time() {
+            return Err(CombineError::LockTimeMismatch);
+        }
+
         self.global.combine(other.global)?;
 
         for (self_input, other_input) in self.inputs.iter_mut().zip(other.inputs.into_iter()) {
@@ -1328,6 +1347,22 @@ pub enum CombineError {
     Input(input::CombineError),
     /// Error while combining the output maps.
     Output(output::CombineError),
+    /// The number of inputs is not the same.
+    InputCountMismatch {
+        /// Number of inputs of `this` PSBT.
+        this: usize,
+        /// Number of inputs of `that` PSBT.
+        that: usize,
+    },
+    /// The number of outputs is not the same.
+    OutputCountMismatch {
+        /// Number of outputs of `this` PSBT.
+        this: usize,
+        /// Number of outputs of `that` PSBT.
+        that: usize,
+    },
+    /// The lock times of the transactions the two PSBTs create are not the same.
+    LockTimeMismatch,
 }
 
 impl fmt::Display for CombineError {
@@ -1338,6 +1373,13 @@ impl fmt::Display for CombineError {
             Global(ref e) => write_err!(f, "error while combining the global maps"; e),
             Input(ref e) => write_err!(f, "error while combining the input maps"; e),
             Output(ref e) => write_err!(f, "error while combining the output maps"; e),
+            InputCountMismatch { this, that } => {
+                write!(f, "combine two PSBTs with different input counts: {} {}", this, that)
+            }
+            OutputCountMismatch { this, that } => {
+                write!(f, "combine two PSBTs with different output counts: {} {}", this, that)
+            }
+            LockTimeMismatch => write!(f, "combine two PSBTs with different lock times"),
         }
     }
 }
@@ -1351,6 +1393,7 @@ impl std::error::Error for CombineError {
             Global(ref e) => Some(e),
             Input(ref e) => Some(e),
             Output(ref e) => Some(e),
+            InputCountMismatch { .. } | OutputCountMismatch { .. } | LockTimeMismatch => None,
         }
     }
 }
-- 
2.43.0


From 0932f82db4902d1d86eeeab21b9e28c350f06acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:02 +0000
Subject: [PATCH 19/41] fix: sign with the final sequence number if an input
 has none

BIP-370 says that an omitted PSBT_IN_SEQUENCE means 0xffffffff, which is also what the
extracted transaction uses. Signing used zero so signatures were invalid.
---
 src/v2/map/input.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 92faab1..b387675 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -306,8 +306,8 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: ScriptBuf::default(),
-            // TODO: Check this ZERO is correct.
-            sequence: self.sequence.unwrap_or(Sequence::ZERO),
+            // As per BIP-370 the sequence number is assumed to be the final one if omitted.
+            sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: Witness::default(),
         }
     }
@@ -324,7 +324,6 @@ impl Input {
         TxIn {
             previous_output: self.out_point(),
             script_sig: script_sig.clone(),
-            // TODO: Check this MAX is correct.
             sequence: self.sequence.unwrap_or(Sequence::MAX),
             witness: witness.clone(),
         }
-- 
2.43.0


From 2b0487110a7973ed3b42ae4e6ac83532d09a962c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:11 +0000
Subject: [PATCH 20/41] fix: only clear the modifiable flags if a signature was
 added

Signing an input without holding any of its keys cleared the flags and, if there was no
valid sighash for that input, panicked.
---
 src/v2/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 004ca80..4031e1f 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -803,7 +803,6 @@ impl Psbt {
         K: GetKey,
     {
         let msg_sighash_ty_res = self.sighash_ecdsa(input_index, cache);
-        let sighash_ty = msg_sighash_ty_res.clone().ok().map(|(_msg, sighash_ty)| sighash_ty);
 
         let input = &mut self.inputs[input_index]; // Index checked in call to `sighash_ecdsa`.
         let mut used = vec![]; // List of pubkeys used to sign the input.
@@ -834,8 +833,10 @@ impl Psbt {
             used.push(pk);
         }
 
-        let ty = sighash_ty.expect("at this stage we know its ok");
-        self.clear_tx_modifiable(ty as u8);
+        // Only if we added a signature, then the result is known to be ok.
+        if let (false, Ok((_, ty))) = (used.is_empty(), msg_sighash_ty_res) {
+            self.clear_tx_modifiable(ty as u8);
+        }
 
         Ok(used)
     }
-- 
2.43.0


From 43d2ea68dfbcc07162e87b02695f23b52e6d0fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:11 +0000
Subject: [PATCH 21/41] fix: return an error if the non-witness UTXO lacks the
 spent output

spend_utxo() panicked with an index out of bounds.
---
 src/v0/bitcoin/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 7a8c527..fe40be6 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -623,7 +623,7 @@ impl Psbt {
             witness_utxo
         } else if let Some(non_witness_utxo) = &input.non_witness_utxo {
             let vout = self.unsigned_tx.input[input_index].previous_output.vout;
-            &non_witness_utxo.output[vout as usize]
+            non_witness_utxo.output.get(vout as usize).ok_or(SignError::MissingSpendUtxo)?
         } else {
             return Err(SignError::MissingSpendUtxo);
         };
-- 
2.43.0


From b5a68d7b72669c45f32229249062af8810aa51d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:20 +0000
Subject: [PATCH 22/41] fix: finalizing an input keeps its sequence, lock times
 and unknown fields

BIP-174: all other data except the UTXO and unknown fields should be cleared. BIP-370's sequence and
required lock time fields are part of the unsigned transaction that the signatures commit to.
---
 src/v2/map/input.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index b387675..2a54eae 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -223,14 +223,16 @@ impl Input {
             non_witness_utxo: self.non_witness_utxo.clone(),
             witness_utxo: self.witness_utxo.clone(),
 
+            // The unsigned transaction is made of these.
+            sequence: self.sequence,
+            min_time: self.min_time,
+            min_height: self.min_height,
+
             // Set below.
             final_script_sig: None,
             final_script_witness: None,
 
-            // Clear everything else.
-            sequence: None,
-            min_time: None,
-            min_height: None,
+            // Clear everything else (except the unknown fields).
             partial_sigs: BTreeMap::new(),
             sighash_type: None,
             redeem_script: None,
@@ -250,8 +252,8 @@ impl Input {
             sp_ecdh_shares: BTreeMap::new(),
             #[cfg(feature = "silent-payments")]
             sp_dleq_proofs: BTreeMap::new(),
-            proprietaries: BTreeMap::new(),
-            unknowns: BTreeMap::new(),
+            proprietaries: self.proprietaries.clone(),
+            unknowns: self.unknowns.clone(),
         };
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
-- 
2.43.0


From f354fc4a2cac8ab7679e8eb4042bde34f2149b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:20 +0000
Subject: [PATCH 23/41] fix: finalizing an input without a witness UTXO sets
 its final witness

---
 src/v2/map/input.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 2a54eae..acc1560 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -258,16 +258,12 @@ impl Input {
 
         // TODO: These errors should only trigger if there are bugs in this crate or miniscript.
         // Is there an infallible way to do this?
-        if self.witness_utxo.is_some() {
-            if final_script_witness.is_empty() {
-                return Err(FinalizeError::EmptyWitness);
-            }
-            ret.final_script_sig = Some(final_script_sig);
-            ret.final_script_witness = Some(final_script_witness);
-        } else {
-            // TODO: Any checks should do here?
-            ret.final_script_sig = Some(final_script_sig);
+        if self.witness_utxo.is_some() && final_script_witness.is_empty() {
+            return Err(FinalizeError::EmptyWitness);
         }
+        // A finalized input has them both set, each is empty if the script has no use for it.
+        ret.final_script_sig = Some(final_script_sig);
+        ret.final_script_witness = Some(final_script_witness);
 
         Ok(ret)
     }
-- 
2.43.0


From bfefaa0718574c61601b34f3d0aa8d33b61ba2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 24/41] fix: the v2 finalizer evaluates time locks against the
 transaction

The satisfier and the interpreter check compared with the lock time an input requires, the script is
run with the lock time of the whole transaction. Absolute locks need a sequence that enables the lock time
and relative locks need transaction version 2.
---
 src/v2/map/input.rs           | 13 -------------
 src/v2/miniscript/finalize.rs | 16 +++++++++++-----
 src/v2/miniscript/mod.rs      |  4 +---
 src/v2/miniscript/satisfy.rs  | 26 ++++++++++----------------
 4 files changed, 22 insertions(+), 37 deletions(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index acc1560..4e98932 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -268,19 +268,6 @@ impl Input {
         Ok(ret)
     }
 
-    // TODO: Work out if this is in line with bip-370
-    #[cfg(feature = "miniscript")]
-    pub(crate) fn lock_time(&self) -> absolute::LockTime {
-        match (self.min_height, self.min_time) {
-            // If we have both, bip says use height.
-            (Some(height), Some(_)) => height.into(),
-            (Some(height), None) => height.into(),
-            (None, Some(time)) => time.into(),
-            // TODO: Check this is correct.
-            (None, None) => absolute::LockTime::ZERO,
-        }
-    }
-
     pub(crate) fn has_lock_time(&self) -> bool {
         self.min_time.is_some() || self.min_height.is_some()
     }
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index 9c0779c..fb4d723 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -10,7 +10,7 @@ use core::fmt;
 use bitcoin::hashes::hash160;
 use bitcoin::secp256k1::{Secp256k1, Verification};
 use bitcoin::taproot::LeafVersion;
-use bitcoin::{sighash, Address, Network, Script, ScriptBuf, Txid, Witness, XOnlyPublicKey};
+use bitcoin::{absolute, sighash, Address, Network, Script, ScriptBuf, Txid, Witness, XOnlyPublicKey};
 use miniscript::{
     interpreter, BareCtx, Descriptor, ExtParams, Legacy, Miniscript, Satisfier, Segwitv0, SigType,
     Tap, ToPublicKey,
@@ -55,9 +55,10 @@ impl Finalizer {
     /// Returns the finalized PSBT without modifying the original.
     #[must_use = "returns the finalized PSBT without modifying the original"]
     pub fn finalize<C: Verification>(&self, secp: &Secp256k1<C>) -> Result<Psbt, FinalizeError> {
+        let lock_time = self.0.determine_lock_time().map_err(InterpreterCheckError::from)?;
         let mut inputs = vec![];
         for (input_index, input) in self.0.inputs.iter().enumerate() {
-            match self.finalize_input(input) {
+            match self.finalize_input(input, lock_time) {
                 Ok(input) => inputs.push(input),
                 // TODO: Do we want to continue loop and return a vector of errors?
                 Err(error) => return Err(FinalizeError::FinalizeInput { input_index, error }),
@@ -72,9 +73,13 @@ impl Finalizer {
     }
 
     // `index` must be the input index of `input` which references an input in `self` - this gets rid of out-of-bounds error path.
-    fn finalize_input(&self, input: &Input) -> Result<Input, FinalizeInputError> {
+    fn finalize_input(
+        &self,
+        input: &Input,
+        lock_time: absolute::LockTime,
+    ) -> Result<Input, FinalizeInputError> {
         let allow_mall = true; // TODO: Add mall and no-mall versions.
-        let (script_sig, witness) = self.final_script_sig_and_witness(input, allow_mall)?;
+        let (script_sig, witness) = self.final_script_sig_and_witness(input, lock_time, allow_mall)?;
 
         Ok(input.finalize(script_sig, witness)?.clone())
     }
@@ -101,12 +106,13 @@ impl Finalizer {
     fn final_script_sig_and_witness(
         &self,
         input: &Input,
+        lock_time: absolute::LockTime,
         allow_mall: bool,
     ) -> Result<(ScriptBuf, Witness), InputError> {
         let (witness, script_sig) = {
             let spk =
                 &input.funding_utxo().expect("guaranteed by Finalizer invariant").script_pubkey;
-            let sat = InputSatisfier { input };
+            let sat = InputSatisfier { input, tx_version: self.0.global.tx_version, lock_time };
 
             if spk.is_p2tr() {
                 // Deal with taproot case separately, we cannot infer the full descriptor for taproot.
diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index 7935bd1..df32209 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -88,9 +88,7 @@ impl Psbt {
 
         let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
 
-        // TODO: Check that this is correct?
-        let cltv = input.lock_time();
-        // TODO: is this usage of MAX correct?
+        let cltv = unsigned_tx.lock_time;
         let csv = input.sequence.unwrap_or(Sequence::MAX);
 
         let interpreter = Interpreter::from_txdata(spk, script_sig, witness, csv, cltv)
diff --git a/src/v2/miniscript/satisfy.rs b/src/v2/miniscript/satisfy.rs
index eb56c62..bddb2aa 100644
--- a/src/v2/miniscript/satisfy.rs
+++ b/src/v2/miniscript/satisfy.rs
@@ -3,7 +3,7 @@
 use crate::bitcoin::hashes::{hash160, sha256d, Hash};
 use crate::bitcoin::key::XOnlyPublicKey;
 use crate::bitcoin::taproot::{self, ControlBlock, LeafVersion, TapLeafHash};
-use crate::bitcoin::{absolute, ecdsa, relative, ScriptBuf};
+use crate::bitcoin::{absolute, ecdsa, relative, transaction, ScriptBuf, Sequence};
 use crate::miniscript::{MiniscriptKey, Preimage32, Satisfier, SigType, ToPublicKey};
 use crate::prelude::*;
 use crate::v2::map::input::Input;
@@ -16,6 +16,10 @@ use crate::v2::map::input::Input;
 /// [`Satisfier`]: crate::miniscript::Satisfier
 pub(crate) struct InputSatisfier<'a> {
     pub(crate) input: &'a Input,
+    /// The version of the unsigned transaction.
+    pub(crate) tx_version: transaction::Version,
+    /// The lock time of the unsigned transaction.
+    pub(crate) lock_time: absolute::LockTime,
 }
 
 impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
@@ -67,25 +71,15 @@ impl<Pk: MiniscriptKey + ToPublicKey> Satisfier<Pk> for InputSatisfier<'_> {
             .map(|(pk, sig)| (*pk, *sig))
     }
 
-    // TODO: Verify this is correct.
     fn check_after(&self, n: absolute::LockTime) -> bool {
-        use absolute::LockTime::*;
-
-        match n {
-            Blocks(height) =>
-                if let Some(lock_time) = self.input.min_height {
-                    return height <= lock_time;
-                },
-            Seconds(time) =>
-                if let Some(lock_time) = self.input.min_time {
-                    return time <= lock_time;
-                },
-        }
-        false
+        let sequence = self.input.sequence.unwrap_or(Sequence::MAX);
+        sequence.enables_absolute_lock_time() && n.is_implied_by(self.lock_time)
     }
 
-    // TODO: Verify this is correct.
     fn check_older(&self, n: relative::LockTime) -> bool {
+        if self.tx_version < transaction::Version::TWO {
+            return false;
+        }
         match self.input.sequence {
             Some(seq) => match relative::LockTime::from_sequence(seq) {
                 Err(_) => false,
-- 
2.43.0


From 766e7b5076b8db90faf7d3b24e60af251ebf147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 25/41] fix: finalizing substitutes the keys of pkh() fragments

Miniscript::substitute_raw_pkh discards what it substitutes below the top level fragment, so a pkh() in a
taproot leaf stayed a raw hash and the finalizers panicked as soon as there was a signature for it. Substitute
here, also in plain P2SH, and learn the keys from the taproot script signatures as well.
---
 src/lib.rs                     |  2 ++
 src/raw_pkh.rs                 | 47 ++++++++++++++++++++++++++++++++++
 src/v0/miniscript/finalizer.rs | 15 +++++++----
 src/v2/miniscript/finalize.rs  | 15 +++++++----
 4 files changed, 69 insertions(+), 10 deletions(-)
 create mode 100644 src/raw_pkh.rs

diff --git a/src/lib.rs b/src/lib.rs
index 3173c0a..578ed6f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -35,6 +35,8 @@ mod consts;
 mod error;
 #[macro_use]
 mod macros;
+#[cfg(feature = "miniscript")]
+mod raw_pkh;
 #[cfg(feature = "serde")]
 mod serde_utils;
 mod sighash_type;
diff --git a/src/raw_pkh.rs b/src/raw_pkh.rs
new file mode 100644
index 0000000..5f8a953
--- /dev/null
+++ b/src/raw_pkh.rs
@@ -0,0 +1,47 @@
+// SPDX-License-Identifier: CC0-1.0
+
+//! Substitution of raw public key hashes in miniscripts parsed from a script.
+
+use bitcoin::hashes::hash160;
+use miniscript::{Miniscript, MiniscriptKey, ScriptContext, Terminal};
+
+use crate::prelude::*;
+use sync::Arc;
+
+/// Replaces every raw public key hash in `ms` that has a key in `map` with that key.
+///
+/// [`Miniscript::substitute_raw_pkh`] of `miniscript` 12.2.0 discards the substitutions that it made below the
+/// top level fragment, this includes every `pkh()` because the top level fragment of that is `c:`.
+pub(crate) fn substitute<Pk: MiniscriptKey, Ctx: ScriptContext>(
+    ms: &Miniscript<Pk, Ctx>,
+    map: &BTreeMap<hash160::Hash, Pk>,
+) -> Miniscript<Pk, Ctx> {
+    use Terminal::*;
+
+    let sub = |ms: &Arc<Miniscript<Pk, Ctx>>| Arc::new(substitute(ms, map));
+
+    let term = match ms.node {
+        RawPkH(ref hash) => match map.get(hash) {
+            Some(pk) => PkH(pk.clone()),
+            None => RawPkH(*hash),
+        },
+        Alt(ref x) => Alt(sub(x)),
+        Swap(ref x) => Swap(sub(x)),
+        Check(ref x) => Check(sub(x)),
+        DupIf(ref x) => DupIf(sub(x)),
+        Verify(ref x) => Verify(sub(x)),
+        NonZero(ref x) => NonZero(sub(x)),
+        ZeroNotEqual(ref x) => ZeroNotEqual(sub(x)),
+        AndV(ref x, ref y) => AndV(sub(x), sub(y)),
+        AndB(ref x, ref y) => AndB(sub(x), sub(y)),
+        AndOr(ref x, ref y, ref z) => AndOr(sub(x), sub(y), sub(z)),
+        OrB(ref x, ref y) => OrB(sub(x), sub(y)),
+        OrD(ref x, ref y) => OrD(sub(x), sub(y)),
+        OrC(ref x, ref y) => OrC(sub(x), sub(y)),
+        OrI(ref x, ref y) => OrI(sub(x), sub(y)),
+        Thresh(ref thresh) => Thresh(thresh.map_ref(sub)),
+        ref other => other.clone(),
+    };
+
+    Miniscript::from_ast(term).expect("a key has the type of its raw public key hash")
+}
diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 92d07bc..427463b 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -24,6 +24,7 @@ use miniscript::{
 };
 
 use crate::prelude::*;
+use crate::raw_pkh;
 use crate::v0::miniscript::{sanity_check, Error, InputError, Psbt, PsbtInputSatisfier};
 use crate::v0::miniscript::util::witness_size;
 
@@ -50,6 +51,10 @@ fn construct_tap_witness(
             map.insert(hash, bitcoin_key);
         }
     }
+    // A signature tells the key as well.
+    for (key, _leaf_hash) in sat.psbt.inputs[sat.index].tap_script_sigs.keys() {
+        map.insert(key.to_pubkeyhash(SigType::Schnorr), *key);
+    }
     assert!(spk.is_p2tr());
 
     // try the key spend path first
@@ -72,7 +77,7 @@ fn construct_tap_witness(
                 script,
                 &ExtParams::allow_all(),
             ) {
-                Ok(ms) => ms.substitute_raw_pkh(&map),
+                Ok(ms) => raw_pkh::substitute(&ms, &map),
                 Err(..) => continue, // try another script
             };
             let mut wit = if allow_mall {
@@ -214,7 +219,7 @@ fn get_descriptor(psbt: &Psbt, index: usize) -> Result<Descriptor<PublicKey>, In
                 witness_script,
                 &ExtParams::allow_all(),
             )?;
-            Ok(Descriptor::new_wsh(ms.substitute_raw_pkh(&map))?)
+            Ok(Descriptor::new_wsh(raw_pkh::substitute(&ms, &map))?)
         } else {
             Err(InputError::MissingWitnessScript)
         }
@@ -241,7 +246,7 @@ fn get_descriptor(psbt: &Psbt, index: usize) -> Result<Descriptor<PublicKey>, In
                             witness_script,
                             &ExtParams::allow_all(),
                         )?;
-                        Ok(Descriptor::new_sh_wsh(ms.substitute_raw_pkh(&map))?)
+                        Ok(Descriptor::new_sh_wsh(raw_pkh::substitute(&ms, &map))?)
                     } else {
                         Err(InputError::MissingWitnessScript)
                     }
@@ -273,7 +278,7 @@ fn get_descriptor(psbt: &Psbt, index: usize) -> Result<Descriptor<PublicKey>, In
                             redeem_script,
                             &ExtParams::allow_all(),
                         )?;
-                        Ok(Descriptor::new_sh(ms)?)
+                        Ok(Descriptor::new_sh(raw_pkh::substitute(&ms, &map))?)
                     } else {
                         Err(InputError::MissingWitnessScript)
                     }
@@ -292,7 +297,7 @@ fn get_descriptor(psbt: &Psbt, index: usize) -> Result<Descriptor<PublicKey>, In
             &script_pubkey,
             &ExtParams::allow_all(),
         )?;
-        Ok(Descriptor::new_bare(ms.substitute_raw_pkh(&map))?)
+        Ok(Descriptor::new_bare(raw_pkh::substitute(&ms, &map))?)
     }
 }
 
diff --git a/src/v2/miniscript/finalize.rs b/src/v2/miniscript/finalize.rs
index fb4d723..b4600ee 100644
--- a/src/v2/miniscript/finalize.rs
+++ b/src/v2/miniscript/finalize.rs
@@ -18,6 +18,7 @@ use miniscript::{
 
 use crate::error::{write_err, FundingUtxoError};
 use crate::prelude::*;
+use crate::raw_pkh;
 use crate::v2::map::input::{self, Input};
 use crate::v2::miniscript::satisfy::InputSatisfier;
 use crate::v2::miniscript::InterpreterCheckError;
@@ -215,7 +216,7 @@ impl Finalizer {
                     witness_script,
                     &ExtParams::allow_all(),
                 )?;
-                Ok(Descriptor::new_wsh(ms.substitute_raw_pkh(&map))?)
+                Ok(Descriptor::new_wsh(raw_pkh::substitute(&ms, &map))?)
             } else {
                 Err(InputError::MissingWitnessScript)
             }
@@ -242,7 +243,7 @@ impl Finalizer {
                                 witness_script,
                                 &ExtParams::allow_all(),
                             )?;
-                            Ok(Descriptor::new_sh_wsh(ms.substitute_raw_pkh(&map))?)
+                            Ok(Descriptor::new_sh_wsh(raw_pkh::substitute(&ms, &map))?)
                         } else {
                             Err(InputError::MissingWitnessScript)
                         }
@@ -275,7 +276,7 @@ impl Finalizer {
                                 redeem_script,
                                 &ExtParams::allow_all(),
                             )?;
-                            Ok(Descriptor::new_sh(ms)?)
+                            Ok(Descriptor::new_sh(raw_pkh::substitute(&ms, &map))?)
                         } else {
                             Err(InputError::MissingWitnessScript)
                         }
@@ -294,7 +295,7 @@ impl Finalizer {
                 script_pubkey,
                 &ExtParams::allow_all(),
             )?;
-            Ok(Descriptor::new_bare(ms.substitute_raw_pkh(&map))?)
+            Ok(Descriptor::new_bare(raw_pkh::substitute(&ms, &map))?)
         }
     }
 }
@@ -324,6 +325,10 @@ fn construct_tap_witness(
 
         map.insert(hash, *key);
     }
+    // A signature tells the key as well.
+    for (key, _leaf_hash) in sat.input.tap_script_sigs.keys() {
+        map.insert(key.to_pubkeyhash(SigType::Schnorr), *key);
+    }
 
     // try the key spend path first
     if let Some(sig) = <InputSatisfier as Satisfier<XOnlyPublicKey>>::lookup_tap_key_spend_sig(&sat)
@@ -344,7 +349,7 @@ fn construct_tap_witness(
                 script,
                 &ExtParams::allow_all(),
             ) {
-                Ok(ms) => ms.substitute_raw_pkh(&map),
+                Ok(ms) => raw_pkh::substitute(&ms, &map),
                 Err(..) => continue, // try another script
             };
             let mut wit = if allow_mall {
-- 
2.43.0


From 029dbe6d20acb530bd04280d07bbd379b4ccc676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 26/41] fix: finalizing accepts taproot inputs with sighash
 type SIGHASH_DEFAULT

The ECDSA sighash type check was applied to inputs without any ECDSA signature.
---
 src/v0/miniscript/mod.rs | 4 ++++
 src/v2/mod.rs            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index 5ee82ad..b65ebb1 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -388,6 +388,10 @@ pub(crate) fn sanity_check(psbt: &Psbt) -> Result<(), Error> {
 
     // Check well-formedness of input data
     for (index, input) in psbt.inputs.iter().enumerate() {
+        // Without ECDSA signatures the type may be one that only taproot knows.
+        if input.partial_sigs.is_empty() {
+            continue;
+        }
         // TODO: fix this after https://github.com/rust-bitcoin/rust-bitcoin/issues/838
         let target_ecdsa_sighash_ty = match input.sighash_type {
             Some(psbt_hash_ty) => psbt_hash_ty
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 4031e1f..e502018 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -1001,6 +1001,10 @@ impl Psbt {
         use PartialSigsSighashTypeError::*;
 
         for (input_index, input) in self.inputs.iter().enumerate() {
+            // Without ECDSA signatures the type may be one that only taproot knows.
+            if input.partial_sigs.is_empty() {
+                continue;
+            }
             let target_ecdsa_sighash_ty = match input.sighash_type {
                 Some(psbt_hash_ty) => psbt_hash_ty
                     .ecdsa_hash_ty()
-- 
2.43.0


From 85ace4c61f74a75e3e6775d781a57145a850d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 27/41] fix: finalizing a v0 input keeps its unknown fields

BIP-174: all other data except the UTXO and unknown fields should be cleared.
---
 src/v0/miniscript/finalizer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 427463b..03ab5ee 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -450,6 +450,8 @@ pub(super) fn finalize_input<C: secp256k1::Verification>(
         let input = &mut psbt.inputs[index];
         input.non_witness_utxo = original.non_witness_utxo;
         input.witness_utxo = original.witness_utxo;
+        input.proprietary = original.proprietary;
+        input.unknown = original.unknown;
         input.final_script_sig = if script_sig.is_empty() {
             None
         } else {
-- 
2.43.0


From 99b074b35884bc4edcc1bdcb83f2e08788821a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 28/41] fix: finalize_inp_mall_mut allows malleable
 satisfactions

---
 src/v0/miniscript/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index b65ebb1..ff65a8e 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -684,7 +684,7 @@ impl PsbtExt for Psbt {
         if index >= self.inputs.len() {
             return Err(Error::InputIdxOutofBounds { psbt_inp: self.inputs.len(), index });
         }
-        finalizer::finalize_input(self, index, secp, /*allow_mall*/ false)
+        finalizer::finalize_input(self, index, secp, /*allow_mall*/ true)
     }
 
     fn finalize_inp_mall<C: secp256k1::Verification>(
-- 
2.43.0


From 622cc5d103711737350a4439fae419ef93a583bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 29/41] fix: extracting and finalizing v0 do not panic if the
 spent output is missing

---
 src/v0/bitcoin/mod.rs          | 2 +-
 src/v0/miniscript/finalizer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index fe40be6..234896e 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -193,7 +193,7 @@ impl Psbt {
     ) -> Result<Transaction, ExtractTxError> {
         let fee = match self.fee() {
             Ok(fee) => fee,
-            Err(Error::MissingUtxo) =>
+            Err(Error::MissingUtxo) | Err(Error::PsbtUtxoOutOfbounds) =>
                 return Err(ExtractTxError::MissingInputValue { tx: self.internal_extract_tx() }),
             Err(Error::NegativeFee) => return Err(ExtractTxError::SendingTooMuch { psbt: self }),
             Err(Error::FeeOverflow) =>
diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 03ab5ee..4864444 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -121,7 +121,7 @@ pub(super) fn get_utxo(psbt: &Psbt, index: usize) -> Result<&bitcoin::TxOut, Inp
         witness_utxo
     } else if let Some(ref non_witness_utxo) = inp.non_witness_utxo {
         let vout = psbt.unsigned_tx.input[index].previous_output.vout;
-        &non_witness_utxo.output[vout as usize]
+        non_witness_utxo.output.get(vout as usize).ok_or(InputError::MissingUtxo)?
     } else {
         return Err(InputError::MissingUtxo);
     };
-- 
2.43.0


From 94e764e112bb38cd5c22598f3d6663d5e63d783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:50 +0000
Subject: [PATCH 30/41] fix: v2 interpreter_check returns an error instead of
 panicking

An input that is not finalized or has no funding UTXO brought it down.
---
 src/v2/miniscript/mod.rs | 48 ++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index df32209..feac254 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -26,11 +26,11 @@ use core::fmt;
 use bitcoin::consensus::encode::VarInt;
 use bitcoin::secp256k1::{Secp256k1, Verification};
 use bitcoin::sighash::Prevouts;
-use bitcoin::{Script, Sequence, Transaction, TxOut, Witness};
+use bitcoin::{Script, ScriptBuf, Sequence, Transaction, TxOut, Witness};
 use miniscript::miniscript::satisfy::Placeholder;
 use miniscript::{interpreter, Interpreter, MiniscriptKey};
 
-use crate::error::write_err;
+use crate::error::{write_err, FundingUtxoError};
 use crate::prelude::*;
 use crate::v2::map::input::Input;
 use crate::v2::{DetermineLockTimeError, Psbt};
@@ -39,7 +39,7 @@ use crate::v2::{DetermineLockTimeError, Psbt};
 pub use self::finalize::{InputError, Finalizer, FinalizeError, FinalizeInputError};
 
 impl Psbt {
-    // TODO: Should this be on a Role? Finalizer/Extractor? Then we can remove the debug_assert
+    // TODO: Should this be on a Role? Finalizer/Extractor?
     /// Interprets all PSBT inputs and checks whether the script is correctly interpreted according
     /// to the context.
     ///
@@ -49,24 +49,25 @@ impl Psbt {
         &self,
         secp: &Secp256k1<C>,
     ) -> Result<(), InterpreterCheckError> {
-        debug_assert!(self.is_finalized());
-
         let unsigned_tx = self.unsigned_tx()?; // Used to verify signatures.
 
-        let utxos: Vec<&TxOut> = self
-            .iter_funding_utxos()
-            .map(|res| res.expect("finalized PSBT has funding utxos"))
-            .collect();
-        let utxos = &Prevouts::All(&utxos);
-        for (index, input) in self.inputs.iter().enumerate() {
+        let utxos: Vec<&TxOut> = self.iter_funding_utxos().collect::<Result<_, _>>()?;
+        let prevouts = &Prevouts::All(&utxos);
+        for (index, (input, utxo)) in self.inputs.iter().zip(utxos.iter()).enumerate() {
+            let (witness, script_sig) = match (&input.final_script_witness, &input.final_script_sig)
+            {
+                (Some(witness), Some(script_sig)) => (witness, script_sig),
+                _ => return Err(InterpreterCheckError::NotFinalized { input_index: index }),
+            };
             self.interpreter_check_input(
                 secp,
                 &unsigned_tx,
                 index,
                 input,
-                utxos,
-                input.final_script_witness.as_ref().expect("checked in is_finalized"),
-                input.final_script_sig.as_ref().expect("checked in is_finalized"),
+                &utxo.script_pubkey,
+                prevouts,
+                witness,
+                script_sig,
             )?;
         }
         Ok(())
@@ -80,14 +81,13 @@ impl Psbt {
         unsigned_tx: &Transaction,
         index: usize,
         input: &Input,
+        spk: &ScriptBuf,
         utxos: &Prevouts<T>,
         witness: &Witness,
         script_sig: &Script,
     ) -> Result<(), InterpreterCheckInputError> {
         use InterpreterCheckInputError::*;
 
-        let spk = &input.funding_utxo().expect("have funding utxo").script_pubkey;
-
         let cltv = unsigned_tx.lock_time;
         let csv = input.sequence.unwrap_or(Sequence::MAX);
 
@@ -145,6 +145,13 @@ pub(crate) fn varint_len(n: usize) -> usize { VarInt(n as u64).size() }
 pub enum InterpreterCheckError {
     /// Failed to determine lock time for unsigned transaction.
     DetermineLockTime(DetermineLockTimeError),
+    /// An input is missing its funding UTXO.
+    FundingUtxo(FundingUtxoError),
+    /// An input is not finalized.
+    NotFinalized {
+        /// Index of the input causing this error.
+        input_index: usize,
+    },
     /// Interpreter check failed for an input.
     InterpreterCheckInput(InterpreterCheckInputError),
 }
@@ -155,6 +162,9 @@ impl fmt::Display for InterpreterCheckError {
 
         match *self {
             DetermineLockTime(ref e) => write_err!(f, "interpreter check determine locktime"; e),
+            FundingUtxo(ref e) => write_err!(f, "interpreter check missing funding UTXO"; e),
+            NotFinalized { input_index } =>
+                write!(f, "interpreter check input {} is not finalized", input_index),
             InterpreterCheckInput(ref e) => write_err!(f, "interpreter check failed for input"; e),
         }
     }
@@ -167,6 +177,8 @@ impl std::error::Error for InterpreterCheckError {
 
         match *self {
             DetermineLockTime(ref e) => Some(e),
+            FundingUtxo(ref e) => Some(e),
+            NotFinalized { .. } => None,
             InterpreterCheckInput(ref e) => Some(e),
         }
     }
@@ -176,6 +188,10 @@ impl From<DetermineLockTimeError> for InterpreterCheckError {
     fn from(e: DetermineLockTimeError) -> Self { Self::DetermineLockTime(e) }
 }
 
+impl From<FundingUtxoError> for InterpreterCheckError {
+    fn from(e: FundingUtxoError) -> Self { Self::FundingUtxo(e) }
+}
+
 impl From<InterpreterCheckInputError> for InterpreterCheckError {
     fn from(e: InterpreterCheckInputError) -> Self { Self::InterpreterCheckInput(e) }
 }
-- 
2.43.0


From c5be2cdf559107760fa705b339ab8d0a36dd0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 31/41] fix: deserializing a Version with serde refuses
 unsupported versions

Any number was accepted, so the resulting PSBT could not be read back
from its own serialization.
---
 src/version.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/version.rs b/src/version.rs
index a8d392b..a4a4a5c 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -11,6 +11,7 @@ use crate::serialize::{self, Deserialize, Serialize};
 /// The PSBT version.
 #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
+#[cfg_attr(feature = "serde", serde(try_from = "u32", into = "u32"))]
 pub struct Version(u32);
 
 impl Version {
-- 
2.43.0


From 2ebd3088451e19b2ab0206dfefb652146adc3ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 32/41] fix: HashType displays the name of the hash function

stringify!(self) is "self".
---
 src/v2/map/input.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 4e98932..56c7130 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -998,7 +998,15 @@ pub enum HashType {
 }
 
 impl fmt::Display for HashType {
-    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", stringify!(self)) }
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let s = match *self {
+            HashType::Ripemd => "ripemd160",
+            HashType::Sha256 => "sha256",
+            HashType::Hash160 => "hash160",
+            HashType::Hash256 => "hash256",
+        };
+        f.write_str(s)
+    }
 }
 
 /// Error finalizing an input.
-- 
2.43.0


From 8f57f442a04a75169a87be4cc32c7c89eaadd46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 33/41] fix: preimages can be deserialized from any serde
 format

A borrowed string was required, which a JSON reader or value cannot provide.
---
 src/serde_utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index e92dd82..0aa5bad 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -72,8 +72,9 @@ pub mod btreemap_byte_values {
                 mut a: A,
             ) -> Result<Self::Value, A::Error> {
                 let mut ret = BTreeMap::new();
-                while let Some((key, value)) = a.next_entry()? {
-                    ret.insert(key, FromHex::from_hex(value).map_err(serde::de::Error::custom)?);
+                // Not all deserializers can lend a string, so ask for an owned one.
+                while let Some((key, value)) = a.next_entry::<T, String>()? {
+                    ret.insert(key, FromHex::from_hex(&value).map_err(serde::de::Error::custom)?);
                 }
                 Ok(ret)
             }
-- 
2.43.0


From 47509dff399e5e5ea3aea98b4ff8fff4382fe422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:27 +0000
Subject: [PATCH 34/41] fix: taproot scripts can be deserialized from JSON

The Deserialize impl of secp256k1::Parity only takes an u8, JSON integers
are u64, so no PSBT with a PSBT_IN_TAP_LEAF_SCRIPT could be read back.
---
 src/serde_utils.rs          | 54 +++++++++++++++++++++++++++++++++++++
 src/v0/bitcoin/map/input.rs |  2 +-
 src/v2/map/input.rs         |  2 +-
 3 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/src/serde_utils.rs b/src/serde_utils.rs
index 0aa5bad..f108cc8 100644
--- a/src/serde_utils.rs
+++ b/src/serde_utils.rs
@@ -160,6 +160,60 @@ pub mod btreemap_as_seq {
     }
 }
 
+pub mod btreemap_tap_scripts {
+    //! Module for serialization of BTreeMaps with control block keys.
+    //!
+    //! The same as [`btreemap_as_seq`](super::btreemap_as_seq) except that the parity is read as a
+    //! plain integer. [`secp256k1::Parity`] insists on a deserializer that provides a `u8`, which
+    //! that of e.g. JSON does not.
+    #![allow(missing_docs)]
+
+    use bitcoin::secp256k1::{Parity, XOnlyPublicKey};
+    use bitcoin::taproot::{ControlBlock, LeafVersion, TaprootMerkleBranch};
+    use bitcoin::ScriptBuf;
+
+    use crate::prelude::*;
+    use crate::serde;
+
+    pub use super::btreemap_as_seq::serialize;
+
+    type Scripts<T> = BTreeMap<T, (ScriptBuf, LeafVersion)>;
+
+    #[derive(Deserialize)]
+    #[serde(rename = "ControlBlock")]
+    struct RawControlBlock {
+        leaf_version: LeafVersion,
+        output_key_parity: u8,
+        internal_key: XOnlyPublicKey,
+        merkle_branch: TaprootMerkleBranch,
+    }
+
+    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Deserialize)]
+    #[serde(try_from = "RawControlBlock")]
+    struct Key(ControlBlock);
+
+    impl TryFrom<RawControlBlock> for Key {
+        type Error = bitcoin::secp256k1::InvalidParityValue;
+
+        fn try_from(raw: RawControlBlock) -> Result<Self, Self::Error> {
+            Ok(Key(ControlBlock {
+                leaf_version: raw.leaf_version,
+                output_key_parity: Parity::from_u8(raw.output_key_parity)?,
+                internal_key: raw.internal_key,
+                merkle_branch: raw.merkle_branch,
+            }))
+        }
+    }
+
+    pub fn deserialize<'de, D>(d: D) -> Result<Scripts<ControlBlock>, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        let scripts: Scripts<Key> = super::btreemap_as_seq::deserialize(d)?;
+        Ok(scripts.into_iter().map(|(key, script)| (key.0, script)).collect())
+    }
+}
+
 pub mod btreemap_as_seq_byte_values {
     //! Module for serialization of BTreeMaps as lists of sequences because
     //! serde_json will not serialize hashmaps with non-string keys be default.
diff --git a/src/v0/bitcoin/map/input.rs b/src/v0/bitcoin/map/input.rs
index a5f81ce..ffb9616 100644
--- a/src/v0/bitcoin/map/input.rs
+++ b/src/v0/bitcoin/map/input.rs
@@ -121,7 +121,7 @@ pub struct Input {
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
     pub tap_script_sigs: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
     /// Map of Control blocks to Script version pair.
-    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_tap_scripts"))]
     pub tap_scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
diff --git a/src/v2/map/input.rs b/src/v2/map/input.rs
index 56c7130..a28002d 100644
--- a/src/v2/map/input.rs
+++ b/src/v2/map/input.rs
@@ -111,7 +111,7 @@ pub struct Input {
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
     pub tap_script_sigs: BTreeMap<(XOnlyPublicKey, TapLeafHash), taproot::Signature>,
     /// Map of Control blocks to Script version pair.
-    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
+    #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_tap_scripts"))]
     pub tap_scripts: BTreeMap<ControlBlock, (ScriptBuf, LeafVersion)>,
     /// Map of tap root x only keys to origin info and leaf hashes contained in it.
     #[cfg_attr(feature = "serde", serde(with = "crate::serde_utils::btreemap_as_seq"))]
-- 
2.43.0


From 258a8ef3f7a56675b83ebce811421155e6b373fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:35 +0000
Subject: [PATCH 35/41] fix: signer checks compare the scripts with the output
 being spent

A witness script of a nested P2WSH input was compared with a P2SH script so
that every such input failed, and scripts of inputs with a non-witness UTXO
only were reported as missing their output.
---
 src/v0/mod.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index 070f905..fab7913 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -71,33 +71,30 @@ impl Psbt {
                 }
             }
 
+            // The script being spent, from whichever UTXO is provided.
+            let script_pubkey = self.spend_utxo(i).map(|utxo| &utxo.script_pubkey);
+
             if let Some(ref redeem_script) = input.redeem_script {
-                match input.witness_utxo {
-                    Some(ref tx_out) => {
-                        let script_pubkey = ScriptBuf::new_p2sh(&redeem_script.script_hash());
-                        if tx_out.script_pubkey != script_pubkey {
+                match script_pubkey {
+                    Ok(script_pubkey) =>
+                        if *script_pubkey != ScriptBuf::new_p2sh(&redeem_script.script_hash()) {
                             return Err(SignerChecksError::RedeemScriptMismatch);
-                        }
-                    }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                        },
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
             if let Some(ref witness_script) = input.witness_script {
-                match input.witness_utxo {
-                    Some(ref utxo) => {
-                        let script_pubkey = &utxo.script_pubkey;
+                match script_pubkey {
+                    Ok(script_pubkey) => {
+                        let p2wsh = ScriptBuf::new_p2wsh(&witness_script.wscript_hash());
                         if script_pubkey.is_p2wsh() {
-                            if ScriptBuf::new_p2wsh(&witness_script.wscript_hash())
-                                != *script_pubkey
-                            {
+                            if *script_pubkey != p2wsh {
                                 return Err(SignerChecksError::WitnessScriptMismatchWsh);
                             }
                         } else if script_pubkey.is_p2sh() {
                             if let Some(ref redeem_script) = input.redeem_script {
-                                if ScriptBuf::new_p2wsh(&redeem_script.wscript_hash())
-                                    != *script_pubkey
-                                {
+                                if *redeem_script != p2wsh {
                                     return Err(SignerChecksError::WitnessScriptMismatchShWsh);
                                 }
                             }
@@ -105,7 +102,7 @@ impl Psbt {
                             // BIP does not specifically say there should not be a witness script here?
                         }
                     }
-                    None => return Err(SignerChecksError::MissingTxOut),
+                    Err(_) => return Err(SignerChecksError::MissingTxOut),
                 }
             }
 
-- 
2.43.0


From 6fba67a280376d47d73c133e28116ea60e0f3f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:17 +0000
Subject: [PATCH 36/41] fix: signer checks refuse a witness UTXO for a legacy
 P2SH input

BIP-174 says that no non-witness signature may be created if a witness UTXO is
provided; only outputs that are neither P2SH nor segwit were refused.
---
 src/v0/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v0/mod.rs b/src/v0/mod.rs
index fab7913..b865bfd 100644
--- a/src/v0/mod.rs
+++ b/src/v0/mod.rs
@@ -60,6 +60,9 @@ impl Psbt {
             if input.witness_utxo.is_some() {
                 match self.output_type(i) {
                     Ok(OutputType::Bare) => return Err(SignerChecksError::NonWitnessSig),
+                    // A P2SH output whose redeem script is not a witness program.
+                    Ok(OutputType::Sh) if input.redeem_script.is_some() =>
+                        return Err(SignerChecksError::NonWitnessSig),
                     Ok(_) => {}
                     Err(_) => {} // TODO: Is this correct?
                 }
-- 
2.43.0


From 231664678bb04e62106022d5eea0d6bfe4b63fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 37/41] fix: return an error from sighash_ecdsa when the legacy
 sighash fails

A sighash cache of another transaction made sighash_ecdsa panic for a
legacy input, and return an error for a segwit one.
---
 src/v0/bitcoin/mod.rs | 8 ++++++--
 src/v2/error.rs       | 4 ++++
 src/v2/mod.rs         | 4 ++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index 234896e..e33bdf9 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -520,7 +520,7 @@ impl Psbt {
             Bare => {
                 let sighash = cache
                     .legacy_signature_hash(input_index, spk, hash_ty.to_u32())
-                    .expect("input checked above");
+                    .map_err(SignError::LegacySighash)?;
                 Ok((Message::from(sighash), hash_ty))
             }
             Sh => {
@@ -528,7 +528,7 @@ impl Psbt {
                     input.redeem_script.as_ref().ok_or(SignError::MissingRedeemScript)?;
                 let sighash = cache
                     .legacy_signature_hash(input_index, script_code, hash_ty.to_u32())
-                    .expect("input checked above");
+                    .map_err(SignError::LegacySighash)?;
                 Ok((Message::from(sighash), hash_ty))
             }
             Wpkh => {
@@ -956,6 +956,8 @@ pub enum SignError {
     NotEcdsa,
     /// The `scriptPubkey` is not a P2WPKH script.
     NotWpkh,
+    /// Failed to compute a legacy sighash.
+    LegacySighash(transaction::InputsIndexError),
     /// Sighash computation error (segwit v0 input).
     SegwitV0Sighash(transaction::InputsIndexError),
     /// Sighash computation error (p2wpkh input).
@@ -990,6 +992,7 @@ impl fmt::Display for SignError {
             MismatchedAlgoKey => write!(f, "signing algorithm and key type does not match"),
             NotEcdsa => write!(f, "attempted to ECDSA sign an non-ECDSA input"),
             NotWpkh => write!(f, "the scriptPubkey is not a P2WPKH script"),
+            LegacySighash(ref e) => write_err!(f, "legacy sighash"; e),
             SegwitV0Sighash(ref e) => write_err!(f, "segwit v0 sighash"; e),
             P2wpkhSighash(ref e) => write_err!(f, "p2wpkh sighash"; e),
             TaprootError(ref e) => write_err!(f, "taproot sighash"; e),
@@ -1008,6 +1011,7 @@ impl std::error::Error for SignError {
         use SignError::*;
 
         match *self {
+            LegacySighash(ref e) => Some(e),
             SegwitV0Sighash(ref e) => Some(e),
             P2wpkhSighash(ref e) => Some(e),
             TaprootError(ref e) => Some(e),
diff --git a/src/v2/error.rs b/src/v2/error.rs
index fa729be..5a828ce 100644
--- a/src/v2/error.rs
+++ b/src/v2/error.rs
@@ -147,6 +147,8 @@ pub enum SignError {
     NotEcdsa,
     /// The `scriptPubkey` is not a P2WPKH script.
     NotWpkh,
+    /// Failed to compute a legacy sighash.
+    LegacySighash(transaction::InputsIndexError),
     /// Sighash computation error (segwit v0 input).
     SegwitV0Sighash(transaction::InputsIndexError),
     /// Sighash computation error (p2wpkh input).
@@ -177,6 +179,7 @@ impl fmt::Display for SignError {
             MismatchedAlgoKey => write!(f, "signing algorithm and key type does not match"),
             NotEcdsa => write!(f, "attempted to ECDSA sign an non-ECDSA input"),
             NotWpkh => write!(f, "the scriptPubkey is not a P2WPKH script"),
+            LegacySighash(ref e) => write_err!(f, "legacy sighash"; e),
             SegwitV0Sighash(ref e) => write_err!(f, "segwit v0 sighash"; e),
             P2wpkhSighash(ref e) => write_err!(f, "p2wpkh sighash"; e),
             TaprootError(ref e) => write_err!(f, "taproot sighash"; e),
@@ -195,6 +198,7 @@ impl std::error::Error for SignError {
         use SignError::*;
 
         match *self {
+            LegacySighash(ref e) => Some(e),
             SegwitV0Sighash(ref e) => Some(e),
             P2wpkhSighash(ref e) => Some(e),
             TaprootError(ref e) => Some(e),
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index e502018..8ae8bac 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -867,7 +867,7 @@ impl Psbt {
             Bare => {
                 let sighash = cache
                     .legacy_signature_hash(input_index, spk, hash_ty.to_u32())
-                    .expect("input checked above");
+                    .map_err(SignError::LegacySighash)?;
                 Ok((Message::from(sighash), hash_ty))
             }
             Sh => {
@@ -875,7 +875,7 @@ impl Psbt {
                     input.redeem_script.as_ref().ok_or(SignError::MissingRedeemScript)?;
                 let sighash = cache
                     .legacy_signature_hash(input_index, script_code, hash_ty.to_u32())
-                    .expect("input checked above");
+                    .map_err(SignError::LegacySighash)?;
                 Ok((Message::from(sighash), hash_ty))
             }
             Wpkh => {
-- 
2.43.0


From 93d98432f111be4070c03d57bb648f691fcab807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 38/41] fix: interpreter checks respect final sequence numbers
 and version 1 transactions

The miniscript interpreter compares lock times only. OP_CHECKLOCKTIMEVERIFY
fails if the sequence number of the input is final, and
OP_CHECKSEQUENCEVERIFY if the transaction version is less than 2.
---
 src/v0/miniscript/finalizer.rs | 14 +++++++++++---
 src/v2/miniscript/mod.rs       | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 4864444..25c097c 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -16,7 +16,7 @@ use bitcoin::key::XOnlyPublicKey;
 use bitcoin::secp256k1::{self, Secp256k1};
 use bitcoin::sighash::Prevouts;
 use bitcoin::taproot::LeafVersion;
-use bitcoin::{PublicKey, Script, ScriptBuf, TxOut, Witness};
+use bitcoin::{absolute, transaction, PublicKey, Script, ScriptBuf, Sequence, TxOut, Witness};
 
 use miniscript::{
     interpreter, BareCtx, Descriptor, ExtParams, Legacy, Miniscript, Satisfier, Segwitv0, SigType,
@@ -342,8 +342,16 @@ fn interpreter_inp_check<C: secp256k1::Verification, T: Borrow<TxOut>>(
     // corrected, there should be no errors
     // Interpreter check
     {
-        let cltv = psbt.unsigned_tx.lock_time;
-        let csv = psbt.unsigned_tx.input[index].sequence;
+        let mut cltv = psbt.unsigned_tx.lock_time;
+        let mut csv = psbt.unsigned_tx.input[index].sequence;
+        // The interpreter knows neither that a final sequence number disables the lock time nor
+        // that relative lock times need a version 2 transaction.
+        if !csv.enables_absolute_lock_time() {
+            cltv = absolute::LockTime::ZERO;
+        }
+        if psbt.unsigned_tx.version < transaction::Version::TWO {
+            csv = Sequence::MAX;
+        }
         let interpreter =
             interpreter::Interpreter::from_txdata(&spk, script_sig, witness, csv, cltv)
                 .map_err(|e| Error::InputError(InputError::Interpreter(e), index))?;
diff --git a/src/v2/miniscript/mod.rs b/src/v2/miniscript/mod.rs
index feac254..acbab90 100644
--- a/src/v2/miniscript/mod.rs
+++ b/src/v2/miniscript/mod.rs
@@ -26,7 +26,7 @@ use core::fmt;
 use bitcoin::consensus::encode::VarInt;
 use bitcoin::secp256k1::{Secp256k1, Verification};
 use bitcoin::sighash::Prevouts;
-use bitcoin::{Script, ScriptBuf, Sequence, Transaction, TxOut, Witness};
+use bitcoin::{absolute, transaction, Script, ScriptBuf, Sequence, Transaction, TxOut, Witness};
 use miniscript::miniscript::satisfy::Placeholder;
 use miniscript::{interpreter, Interpreter, MiniscriptKey};
 
@@ -88,8 +88,16 @@ impl Psbt {
     ) -> Result<(), InterpreterCheckInputError> {
         use InterpreterCheckInputError::*;
 
-        let cltv = unsigned_tx.lock_time;
-        let csv = input.sequence.unwrap_or(Sequence::MAX);
+        let mut cltv = unsigned_tx.lock_time;
+        let mut csv = input.sequence.unwrap_or(Sequence::MAX);
+        // The interpreter knows neither that a final sequence number disables the lock time nor
+        // that relative lock times need a version 2 transaction.
+        if !csv.enables_absolute_lock_time() {
+            cltv = absolute::LockTime::ZERO;
+        }
+        if unsigned_tx.version < transaction::Version::TWO {
+            csv = Sequence::MAX;
+        }
 
         let interpreter = Interpreter::from_txdata(spk, script_sig, witness, csv, cltv)
             .map_err(|error| Constructor { input_index: index, error })?;
-- 
2.43.0


From 897686d0e058f79e19d766dfc9f00680a1fd8477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 39/41] fix: only sign with keys that an input lists

If the key source of a listed key was that of another key the signers added
a signature by that other key: for ECDSA under a public key which the input
does not list, for Taproot script paths an invalid signature under the
listed key.
---
 src/v0/bitcoin/mod.rs | 25 +++++++++++++------------
 src/v2/mod.rs         | 15 +++++++++------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/v0/bitcoin/mod.rs b/src/v0/bitcoin/mod.rs
index e33bdf9..1df6757 100644
--- a/src/v0/bitcoin/mod.rs
+++ b/src/v0/bitcoin/mod.rs
@@ -370,12 +370,15 @@ impl Psbt {
         let mut used = vec![]; // List of pubkeys used to sign the input.
 
         for (pk, key_source) in input.bip32_derivation.iter() {
-            let sk = if let Ok(Some(sk)) = k.get_key(KeyRequest::Bip32(key_source.clone()), secp) {
-                sk
-            } else if let Ok(Some(sk)) = k.get_key(KeyRequest::Pubkey(PublicKey::new(*pk)), secp) {
-                sk
-            } else {
-                continue;
+            // The key source may be wrong, only sign with the key that is listed.
+            let is_listed = |sk: &PrivateKey| sk.public_key(secp).inner == *pk;
+
+            let sk = match k.get_key(KeyRequest::Bip32(key_source.clone()), secp) {
+                Ok(Some(sk)) if is_listed(&sk) => sk,
+                _ => match k.get_key(KeyRequest::Pubkey(PublicKey::new(*pk)), secp) {
+                    Ok(Some(sk)) if is_listed(&sk) => sk,
+                    _ => continue,
+                },
             };
 
             // Only return the error if we have a secret key to sign this input.
@@ -423,12 +426,10 @@ impl Psbt {
         let mut used = vec![]; // List of pubkeys used to sign the input.
 
         for (&xonly, (leaf_hashes, key_source)) in input.tap_key_origins.iter() {
-            let sk = if let Ok(Some(secret_key)) =
-                k.get_key(KeyRequest::Bip32(key_source.clone()), secp)
-            {
-                secret_key
-            } else {
-                continue;
+            // The key source may be wrong, only sign with the key that is listed.
+            let sk = match k.get_key(KeyRequest::Bip32(key_source.clone()), secp) {
+                Ok(Some(sk)) if XOnlyPublicKey::from(sk.public_key(secp)) == xonly => sk,
+                _ => continue,
             };
 
             // Considering the responsibility of the PSBT's finalizer to extract valid signatures,
diff --git a/src/v2/mod.rs b/src/v2/mod.rs
index 8ae8bac..614a772 100644
--- a/src/v2/mod.rs
+++ b/src/v2/mod.rs
@@ -808,12 +808,15 @@ impl Psbt {
         let mut used = vec![]; // List of pubkeys used to sign the input.
 
         for (pk, key_source) in input.bip32_derivations.iter() {
-            let sk = if let Ok(Some(sk)) = k.get_key(KeyRequest::Bip32(key_source.clone()), secp) {
-                sk
-            } else if let Ok(Some(sk)) = k.get_key(KeyRequest::Pubkey(PublicKey::new(*pk)), secp) {
-                sk
-            } else {
-                continue;
+            // The key source may be wrong, only sign with the key that is listed.
+            let is_listed = |sk: &PrivateKey| sk.public_key(secp).inner == *pk;
+
+            let sk = match k.get_key(KeyRequest::Bip32(key_source.clone()), secp) {
+                Ok(Some(sk)) if is_listed(&sk) => sk,
+                _ => match k.get_key(KeyRequest::Pubkey(PublicKey::new(*pk)), secp) {
+                    Ok(Some(sk)) if is_listed(&sk) => sk,
+                    _ => continue,
+                },
             };
 
             // Only return the error if we have a secret key to sign this input.
-- 
2.43.0


From 271cb3c4dd4de29de28e96dccaa04f19a28a28e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 40/41] fix: v0: refuse to finalize signatures of another
 sighash type than specified

BIP-174 has the Finalizer fail on signatures that do not match the
specified sighash type. Only the free functions checked; every method
of PsbtExt finalized the input.
---
 src/v0/miniscript/finalizer.rs |  9 ++++-
 src/v0/miniscript/mod.rs       | 62 ++++++++++++++++------------------
 2 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/v0/miniscript/finalizer.rs b/src/v0/miniscript/finalizer.rs
index 25c097c..3bf58b3 100644
--- a/src/v0/miniscript/finalizer.rs
+++ b/src/v0/miniscript/finalizer.rs
@@ -25,7 +25,9 @@ use miniscript::{
 
 use crate::prelude::*;
 use crate::raw_pkh;
-use crate::v0::miniscript::{sanity_check, Error, InputError, Psbt, PsbtInputSatisfier};
+use crate::v0::miniscript::{
+    check_sighash_types, sanity_check, Error, InputError, Psbt, PsbtInputSatisfier,
+};
 use crate::v0::miniscript::util::witness_size;
 
 // Satisfy the taproot descriptor. It is not possible to infer the complete
@@ -411,6 +413,11 @@ fn finalize_input_helper<C: secp256k1::Verification>(
     secp: &Secp256k1<C>,
     allow_mall: bool,
 ) -> Result<(Witness, ScriptBuf), super::Error> {
+    // The Finalizer must fail on signatures of another type than the one the input specifies.
+    if psbt.inputs[index].sighash_type.is_some() {
+        check_sighash_types(&psbt.inputs[index]).map_err(|e| Error::InputError(e, index))?;
+    }
+
     let (witness, script_sig) = {
         let spk = get_scriptpubkey(psbt, index).map_err(|e| Error::InputError(e, index))?;
         let sat = PsbtInputSatisfier::new(psbt, index);
diff --git a/src/v0/miniscript/mod.rs b/src/v0/miniscript/mod.rs
index ff65a8e..420ca10 100644
--- a/src/v0/miniscript/mod.rs
+++ b/src/v0/miniscript/mod.rs
@@ -388,39 +388,37 @@ pub(crate) fn sanity_check(psbt: &Psbt) -> Result<(), Error> {
 
     // Check well-formedness of input data
     for (index, input) in psbt.inputs.iter().enumerate() {
-        // Without ECDSA signatures the type may be one that only taproot knows.
-        if input.partial_sigs.is_empty() {
-            continue;
-        }
-        // TODO: fix this after https://github.com/rust-bitcoin/rust-bitcoin/issues/838
-        let target_ecdsa_sighash_ty = match input.sighash_type {
-            Some(psbt_hash_ty) => psbt_hash_ty
-                .ecdsa_hash_ty()
-                .map_err(|e| Error::InputError(InputError::NonStandardSighashType(e), index))?,
-            None => sighash::EcdsaSighashType::All,
-        };
-        for (key, ecdsa_sig) in &input.partial_sigs {
-            let flag = sighash::EcdsaSighashType::from_standard(ecdsa_sig.sighash_type as u32)
-                .map_err(|_| {
-                    Error::InputError(
-                        InputError::Interpreter(interpreter::Error::NonStandardSighash(
-                            ecdsa_sig.to_vec(),
-                        )),
-                        index,
-                    )
-                })?;
-            if target_ecdsa_sighash_ty != flag {
-                return Err(Error::InputError(
-                    InputError::WrongSighashFlag {
-                        required: target_ecdsa_sighash_ty,
-                        got: flag,
-                        pubkey: *key,
-                    },
-                    index,
-                ));
-            }
-            // Signatures are well-formed in psbt partial sigs
+        check_sighash_types(input).map_err(|e| Error::InputError(e, index))?;
+    }
+
+    Ok(())
+}
+
+/// Checks that the ECDSA signatures of `input` are of the sighash type it specifies.
+pub(crate) fn check_sighash_types(input: &Input) -> Result<(), InputError> {
+    // Without ECDSA signatures the type may be one that only taproot knows.
+    if input.partial_sigs.is_empty() {
+        return Ok(());
+    }
+    // TODO: fix this after https://github.com/rust-bitcoin/rust-bitcoin/issues/838
+    let target_ecdsa_sighash_ty = match input.sighash_type {
+        Some(psbt_hash_ty) =>
+            psbt_hash_ty.ecdsa_hash_ty().map_err(InputError::NonStandardSighashType)?,
+        None => sighash::EcdsaSighashType::All,
+    };
+    for (key, ecdsa_sig) in &input.partial_sigs {
+        let flag = sighash::EcdsaSighashType::from_standard(ecdsa_sig.sighash_type as u32)
+            .map_err(|_| {
+                InputError::Interpreter(interpreter::Error::NonStandardSighash(ecdsa_sig.to_vec()))
+            })?;
+        if target_ecdsa_sighash_ty != flag {
+            return Err(InputError::WrongSighashFlag {
+                required: target_ecdsa_sighash_ty,
+                got: flag,
+                pubkey: *key,
+            });
         }
+        // Signatures are well-formed in psbt partial sigs
     }
 
     Ok(())
-- 
2.43.0


From 8d7064b8b7c3f41bfbca6fe3fee72ceef0e2d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 41/41] fix: give the causes of errors deserializing keys,
 signatures and tap trees

With std their text leaves the cause to source(), which returned none.
---
 src/serialize.rs        | 10 +++++-----
 src/v0/bitcoin/error.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/serialize.rs b/src/serialize.rs
index 5ee5e67..05c8379 100644
--- a/src/serialize.rs
+++ b/src/serialize.rs
@@ -483,19 +483,19 @@ impl std::error::Error for Error {
             ConsensusEncoding(ref e) => Some(e),
             LockTime(ref e) => Some(e),
             UnsupportedVersion(ref e) => Some(e),
+            InvalidPublicKey(ref e) => Some(e),
+            InvalidSecp256k1PublicKey(ref e) => Some(e),
+            InvalidEcdsaSignature(ref e) => Some(e),
+            InvalidTaprootSignature(ref e) => Some(e),
+            TapTree(ref e) => Some(e),
             NotEnoughData
             | InvalidProprietaryKey
             | NoMorePairs
             | NonStandardSighashType(_)
-            | InvalidPublicKey(_)
-            | InvalidSecp256k1PublicKey(_)
             | InvalidXOnlyPublicKey
-            | InvalidEcdsaSignature(_)
-            | InvalidTaprootSignature(_)
             | InvalidControlBlock
             | InvalidLeafVersion
             | Taproot(_)
-            | TapTree(_)
             | PartialDataConsumption
             | InvalidScanKey { .. }
             | InvalidEcdhShare { .. } => None,
diff --git a/src/v0/bitcoin/error.rs b/src/v0/bitcoin/error.rs
index 0a16f27..b15e049 100644
--- a/src/v0/bitcoin/error.rs
+++ b/src/v0/bitcoin/error.rs
@@ -180,6 +180,11 @@ impl std::error::Error for Error {
             InvalidHash(ref e) => Some(e),
             ConsensusEncoding(ref e) => Some(e),
             Io(ref e) => Some(e),
+            InvalidPublicKey(ref e) => Some(e),
+            InvalidSecp256k1PublicKey(ref e) => Some(e),
+            InvalidEcdsaSignature(ref e) => Some(e),
+            InvalidTaprootSignature(ref e) => Some(e),
+            TapTree(ref e) => Some(e),
             InvalidMagic
             | MissingUtxo
             | InvalidSeparator
@@ -197,15 +202,10 @@ impl std::error::Error for Error {
             | CombineInconsistentKeySources(_)
             | NegativeFee
             | FeeOverflow
-            | InvalidPublicKey(_)
-            | InvalidSecp256k1PublicKey(_)
             | InvalidXOnlyPublicKey
-            | InvalidEcdsaSignature(_)
-            | InvalidTaprootSignature(_)
             | InvalidControlBlock
             | InvalidLeafVersion
             | Taproot(_)
-            | TapTree(_)
             | XPubKey(_)
             | Version(_)
             | PartialDataConsumption
-- 
2.43.0

