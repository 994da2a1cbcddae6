From 8a3c61cbbe4f4a07928c67059c7b1395975d7fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 01/13] fix: reject messages shorter than a header instead of
 panicking

---
 src/msgs/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/msgs/mod.rs b/src/msgs/mod.rs
index 0f47a7c..96acb39 100644
--- a/src/msgs/mod.rs
+++ b/src/msgs/mod.rs
@@ -62,11 +62,12 @@ pub trait Msg {
     ///
     /// Return `Ok(true)` if the writed header is of the given type and has a correct version.
     /// Return `Ok(false)` if the header is another message type.
-    /// Return an error if the version is wrong for a GetVersion message.
-    ///
-    /// Prerequisite buf >= 2 bytes
+    /// Return an error if the version is wrong for a GetVersion message, or if
+    /// `buf` is too short to contain a header.
     fn parse_header(buf: &[u8]) -> Result<bool, ParseHeaderError> {
-        assert!(buf.len() > 2);
+        if buf.len() < HEADER_SIZE {
+            return Err(ParseHeaderError);
+        }
         if buf[1] != Self::SPDM_CODE {
             Ok(false)
         } else {
-- 
2.43.0


From 61755b5f93f715ced72dd4b1e7b36f2aef7f6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 02/13] fix: report the received message code, not its version,
 in UnexpectedMsgCode

---
 src/requester.rs         | 2 +-
 src/responder.rs         | 2 +-
 src/responder/version.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/requester.rs b/src/requester.rs
index 9f5022d..856499c 100644
--- a/src/requester.rs
+++ b/src/requester.rs
@@ -41,7 +41,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), RequesterError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(RequesterError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder.rs b/src/responder.rs
index ef3791e..af73017 100644
--- a/src/responder.rs
+++ b/src/responder.rs
@@ -247,7 +247,7 @@ pub fn expect<T: Msg>(buf: &[u8]) -> Result<(), ResponderError> {
         Ok(true) => Ok(()),
         Ok(false) => Err(ResponderError::UnexpectedMsgCode {
             expected: T::SPDM_CODE,
-            got: buf[0],
+            got: buf[1],
         }),
         Err(e) => Err(e.into()),
     }
diff --git a/src/responder/version.rs b/src/responder/version.rs
index 64da3cc..cd726d5 100644
--- a/src/responder/version.rs
+++ b/src/responder/version.rs
@@ -21,7 +21,7 @@ impl State {
             Ok(true) => self.handle_get_version(req, rsp, transcript),
             Ok(false) => Err(ResponderError::UnexpectedMsgCode {
                 expected: GetVersion::SPDM_CODE,
-                got: req[0],
+                got: req[1],
             }),
             Err(e) => Err(e.into()),
         }
-- 
2.43.0


From 9d8ef255dc716b66f91751758ab22b612f2ab477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 03/13] fix: return an error for opaque data with too many
 elements

---
 src/msgs/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index ce93c81..afc5b78 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -13,6 +13,9 @@ use core::convert::{From, TryFrom, TryInto};
 pub enum ParseOpaqueDataError {
     Read(ReadError),
     ParseOpaqueElement(ParseOpaqueElementError),
+
+    // More elements than we can store were sent
+    MaxElementsExceeded,
 }
 
 impl From<ReadError> for ParseOpaqueDataError {
@@ -54,6 +57,9 @@ impl OpaqueData {
 
     pub fn read(r: &mut Reader) -> Result<OpaqueData, ParseOpaqueDataError> {
         let total_elements = r.get_byte()?;
+        if total_elements as usize > config::MAX_OPAQUE_ELEMENTS {
+            return Err(ParseOpaqueDataError::MaxElementsExceeded);
+        }
         r.skip_reserved(3)?;
         let mut elements =
             [OpaqueElement::default(); config::MAX_OPAQUE_ELEMENTS];
-- 
2.43.0


From 96ec8cf95933cedfbebe8cf54eb501e2bc835a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 04/13] fix: return an error for an opaque element with too
 much data

---
 src/msgs/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/msgs/common.rs b/src/msgs/common.rs
index afc5b78..b5d287b 100644
--- a/src/msgs/common.rs
+++ b/src/msgs/common.rs
@@ -93,6 +93,9 @@ pub enum ParseOpaqueElementError {
 
     ParseVendorRegistryId,
     ParseVendorId(ParseVendorIdError),
+
+    // More data than we can store was sent
+    MaxDataSizeExceeded,
 }
 
 impl From<ReadError> for ParseOpaqueElementError {
@@ -197,6 +200,9 @@ impl OpaqueElement {
 
         let vendor_id = VendorId::read(r, vendor_id_len)?;
         let data_len = r.get_u16()?;
+        if data_len as usize > config::MAX_OPAQUE_ELEMENT_DATA_SIZE {
+            return Err(ParseOpaqueElementError::MaxDataSizeExceeded);
+        }
         let mut data = [0u8; config::MAX_OPAQUE_ELEMENT_DATA_SIZE];
         r.get_slice(data_len as usize, &mut data)?;
         let bytes_read = 4 + vendor_id_len as usize + data_len as usize;
-- 
2.43.0


From e77e8517c9a063b231305f0659fbf021c8ede509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 05/13] fix: return an error for too many measurement blocks

---
 src/msgs/measurements.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 23483a6..89b34ae 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -663,6 +663,9 @@ impl MeasurementBlocks {
         r: &mut Reader,
     ) -> Result<MeasurementBlocks, ParseMeasurementBlocksError> {
         let num_blocks = r.get_byte()? as usize;
+        if num_blocks > config::MAX_MEASUREMENT_BLOCKS {
+            return Err(ParseMeasurementBlocksError::MaxSizeExceeded);
+        }
         let size = r.get_u24()?;
         if size > config::MAX_MEASUREMENT_SIZE * config::MAX_MEASUREMENT_BLOCKS
         {
-- 
2.43.0


From 5746e0d8fd7411c11f0982e13638b959f84ca29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 06/13] fix: reject slot NUM_SLOTS in CHALLENGE_AUTH and
 MEASUREMENTS

---
 src/msgs/challenge.rs    | 4 ++--
 src/msgs/measurements.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 244869b..33d9e1e 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -230,8 +230,8 @@ impl ChallengeAuth {
     ) -> Result<ChallengeAuth, ParseChallengeAuthError> {
         let mut r = Reader::new(buf);
         let slot = r.get_bits(4)?;
-        if slot as usize > NUM_SLOTS {
-            return Err(ParseChallengeAuthError::MaxOpaqueDataSizeExceeded);
+        if slot as usize >= NUM_SLOTS {
+            return Err(ParseChallengeAuthError::MaxSlotNumberExceeded);
         }
         let _ = r.get_bits(3)?;
         let use_mutual_auth = r.get_bit()? == 1;
diff --git a/src/msgs/measurements.rs b/src/msgs/measurements.rs
index 89b34ae..9ae8b41 100644
--- a/src/msgs/measurements.rs
+++ b/src/msgs/measurements.rs
@@ -823,7 +823,7 @@ impl Measurements {
 
         // Parse Param2
         let slot_id = r.get_bits(4)?;
-        if usize::from(slot_id) > config::NUM_SLOTS {
+        if usize::from(slot_id) >= config::NUM_SLOTS {
             return Err(ParseMeasurementsError::MaxSlotNumberExceeded);
         }
         let content_changed = ContentChanged::try_from(r.get_bits(2)?)?;
-- 
2.43.0


From 00016930e1d3caee2b5d590af0d2cfc4aa59abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 07/13] fix: keep the slot number in CHALLENGE_AUTH when mutual
 auth is set

---
 src/msgs/challenge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msgs/challenge.rs b/src/msgs/challenge.rs
index 33d9e1e..c41ebc3 100644
--- a/src/msgs/challenge.rs
+++ b/src/msgs/challenge.rs
@@ -166,7 +166,7 @@ impl Msg for ChallengeAuth {
     ) -> Result<usize, WriteChallengeAuthError> {
         self.validate()?;
         if self.use_mutual_auth {
-            w.put(self.slot & (1 << 7))?;
+            w.put(self.slot | (1 << 7))?;
         } else {
             w.put(self.slot)?;
         }
-- 
2.43.0


From fc94344156959e19553afd4e566b9c99e806b088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 08/13] fix: return an error for a certificate that is not a
 DER sequence

---
 src/msgs/certificates.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msgs/certificates.rs b/src/msgs/certificates.rs
index ba20fad..fd4d660 100644
--- a/src/msgs/certificates.rs
+++ b/src/msgs/certificates.rs
@@ -303,7 +303,9 @@ impl<'a> CertificateChain<'a> {
         r: &mut Reader,
     ) -> Result<(usize, usize), ParseCertificateChainError> {
         // Skip the sequence byte
-        assert_eq!(r.get_byte()?, 0x30);
+        if r.get_byte()? != 0x30 {
+            return Err(ParseCertificateChainError::BadDerEncoding);
+        }
 
         let pair = match r.get_byte()? {
             n if (n & 0x80) == 0 => (n.into(), 2),
-- 
2.43.0


From 444f2285e42360d2aaa36eedf3a5ce13bed0cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:48 +0000
Subject: [PATCH 09/13] fix: DER encode signatures with a zero integer

---
 src/crypto/pki.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crypto/pki.rs b/src/crypto/pki.rs
index c501773..0aa83bc 100644
--- a/src/crypto/pki.rs
+++ b/src/crypto/pki.rs
@@ -97,7 +97,8 @@ pub fn bin_to_der(signature: &[u8], out: &mut [u8]) -> usize {
 // Take an integer (`r` or `s`) and return as a pair its start location and its
 // size including any necessary pad bytes.
 fn get_start_and_length(i: &[u8]) -> (usize, usize) {
-    let start = i.iter().position(|b| *b != 0).unwrap();
+    // Zero is encoded as a single 0 byte
+    let start = i.iter().position(|b| *b != 0).unwrap_or(i.len() - 1);
     let pad = if i[start] & 0x80 != 0 { 1 } else { 0 };
     let length = i.len() - start + pad;
     (start, length)
-- 
2.43.0


From 922f4a8cf1ace9b5b896b1ec1a23186bce09a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 10/13] fix: only select algorithms that are both offered and
 supported

---
 src/responder/algorithms.rs | 48 ++++++++++++++++++++++++++++++++-----
 src/responder/error.rs      | 16 ++++++++++++-
 2 files changed, 57 insertions(+), 7 deletions(-)

diff --git a/src/responder/algorithms.rs b/src/responder/algorithms.rs
index addb978..117793b 100644
--- a/src/responder/algorithms.rs
+++ b/src/responder/algorithms.rs
@@ -3,6 +3,8 @@
 // file, You can obtain one at https://mozilla.org/MPL/2.0/.
 
 use super::{capabilities, expect, id_auth, AllStates, ResponderError};
+use crate::config;
+use crate::crypto::ProvidedDigests;
 use crate::msgs::algorithms::*;
 use crate::msgs::capabilities::{ReqFlags, RspFlags};
 use crate::msgs::{Msg, HEADER_SIZE};
@@ -46,7 +48,7 @@ impl State {
         let req_msg = NegotiateAlgorithms::parse_body(&req[HEADER_SIZE..])?;
         transcript.extend(req)?;
 
-        let algorithms = self.choose_algorithms(req_msg);
+        let algorithms = self.choose_algorithms(req_msg)?;
         let size = algorithms.write(rsp)?;
         transcript.extend(&rsp[..size])?;
         self.algorithms = Some(algorithms);
@@ -55,7 +57,8 @@ impl State {
     }
 
     // We use the simplest mechanism possible here and just choose the first set
-    // bit for each algorithm.
+    // bit for each algorithm, among those we support. It's an error if there is
+    // nothing to choose from.
     //
     // TODO: Allow the user to choose which algorithms it can utilize, or
     // encapsulate that in a type/trait ?
@@ -63,17 +66,29 @@ impl State {
     // TODO: Allow the user to pass priorities? It really seems like the
     // requester should be the one prioritizing though! Unfortunately, SPDM
     // doesn't appear to have a mechanism for that.
-    fn choose_algorithms(&self, req: NegotiateAlgorithms) -> Algorithms {
+    fn choose_algorithms(
+        &self,
+        req: NegotiateAlgorithms,
+    ) -> Result<Algorithms, ResponderError> {
         let mut rsp = Algorithms::default();
 
         rsp.measurement_spec_selected = req.measurement_spec;
 
-        let first_bit_set = req.base_hash_algo.bits().trailing_zeros();
+        let base_hash_algo =
+            req.base_hash_algo & ProvidedDigests::supported_algorithms();
+        if base_hash_algo.is_empty() {
+            return Err(ResponderError::NoSupportedAlgorithm);
+        }
+        let first_bit_set = base_hash_algo.bits().trailing_zeros();
         rsp.measurement_hash_algo_selected =
             BaseHashAlgo::from_bits(1 << first_bit_set).unwrap();
         rsp.base_hash_algo_selected = rsp.measurement_hash_algo_selected;
 
-        let first_bit_set = req.base_asym_algo.bits().trailing_zeros();
+        let base_asym_algo = req.base_asym_algo & config_to_base_asym_algo()?;
+        if base_asym_algo.is_empty() {
+            return Err(ResponderError::NoSupportedAlgorithm);
+        }
+        let first_bit_set = base_asym_algo.bits().trailing_zeros();
         rsp.base_asym_algo_selected =
             BaseAsymAlgo::from_bits(1 << first_bit_set).unwrap();
 
@@ -82,6 +97,9 @@ impl State {
         for i in 0..rsp.num_algorithm_responses as usize {
             match &req.algorithm_requests[i] {
                 AlgorithmRequest::Dhe(algo) => {
+                    if algo.supported.is_empty() {
+                        return Err(ResponderError::NoSupportedAlgorithm);
+                    }
                     let first_bit_set = algo.supported.bits().trailing_zeros();
                     let supported =
                         DheFixedAlgorithms::from_bits(1 << first_bit_set)
@@ -90,6 +108,9 @@ impl State {
                     rsp.algorithm_responses[i] = AlgorithmResponse::Dhe(algo);
                 }
                 AlgorithmRequest::Aead(algo) => {
+                    if algo.supported.is_empty() {
+                        return Err(ResponderError::NoSupportedAlgorithm);
+                    }
                     let first_bit_set = algo.supported.bits().trailing_zeros();
                     let supported =
                         AeadFixedAlgorithms::from_bits(1 << first_bit_set)
@@ -98,6 +119,9 @@ impl State {
                     rsp.algorithm_responses[i] = AlgorithmResponse::Aead(algo);
                 }
                 AlgorithmRequest::ReqBaseAsym(algo) => {
+                    if algo.supported.is_empty() {
+                        return Err(ResponderError::NoSupportedAlgorithm);
+                    }
                     let first_bit_set = algo.supported.bits().trailing_zeros();
                     let supported = ReqBaseAsymFixedAlgorithms::from_bits(
                         1 << first_bit_set,
@@ -108,6 +132,9 @@ impl State {
                         AlgorithmResponse::ReqBaseAsym(algo);
                 }
                 AlgorithmRequest::KeySchedule(algo) => {
+                    if algo.supported.is_empty() {
+                        return Err(ResponderError::NoSupportedAlgorithm);
+                    }
                     let first_bit_set = algo.supported.bits().trailing_zeros();
                     let supported = KeyScheduleFixedAlgorithms::from_bits(
                         1 << first_bit_set,
@@ -120,6 +147,15 @@ impl State {
             }
         }
 
-        rsp
+        Ok(rsp)
+    }
+}
+
+// The signing algorithms that can be used according to the configuration
+fn config_to_base_asym_algo() -> Result<BaseAsymAlgo, ResponderError> {
+    let mut signing_algos = BaseAsymAlgo::default();
+    for s in config::ALGORITHMS_ASYMMETRIC_SIGNING {
+        signing_algos |= s.parse()?;
     }
+    Ok(signing_algos)
 }
diff --git a/src/responder/error.rs b/src/responder/error.rs
index 2ffe186..b9a4ee8 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -4,7 +4,7 @@
 
 use crate::msgs::{
     self,
-    algorithms::ParseNegotiateAlgorithmsError,
+    algorithms::{ParseBaseAsymAlgoError, ParseNegotiateAlgorithmsError},
     capabilities::{ParseGetCapabilitiesError, ParseRspCapabilityError},
     certificates::WriteCertificateChainError,
     challenge::{ParseChallengeError, WriteChallengeAuthError},
@@ -38,6 +38,12 @@ pub enum ResponderError {
     // Parsing a NegotiateAlgorithms message failed
     ParseNegotiateAlgorithms(ParseNegotiateAlgorithmsError),
 
+    // The requester offered no algorithm that the responder supports
+    NoSupportedAlgorithm,
+
+    // Parsing a signing algorithm from a string failed
+    ParseBaseAsymAlgo,
+
     // Parsing a GetCapabilities message failed
     ParseGetCapabilities(ParseGetCapabilitiesError),
 
@@ -87,6 +93,12 @@ impl From<ParseNegotiateAlgorithmsError> for ResponderError {
     }
 }
 
+impl From<ParseBaseAsymAlgoError> for ResponderError {
+    fn from(_: ParseBaseAsymAlgoError) -> Self {
+        ResponderError::ParseBaseAsymAlgo
+    }
+}
+
 impl From<ParseRspCapabilityError> for ResponderError {
     fn from(_: ParseRspCapabilityError) -> Self {
         ResponderError::ParseCapability
@@ -117,6 +129,8 @@ impl From<&ResponderError> for msgs::Error {
             ResponderError::InvalidSlot => msgs::Error::InvalidRequest,
             ResponderError::SigningFailed => msgs::Error::Unspecified,
             ResponderError::WriteCertChain(_) => msgs::Error::LargeResponse(0),
+            ResponderError::NoSupportedAlgorithm => msgs::Error::InvalidRequest,
+            ResponderError::ParseBaseAsymAlgo => msgs::Error::Unspecified,
             ResponderError::ParseCapability => msgs::Error::Unspecified,
             ResponderError::ParseGetCapabilities(
                 ParseGetCapabilitiesError::InvalidBitsSet,
-- 
2.43.0


From fd4fecac2e0de9d978ac05980153b90a751a28bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 11/13] fix: refuse a GET_DIGESTS request that is not well
 formed

---
 src/responder/id_auth.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/responder/id_auth.rs b/src/responder/id_auth.rs
index a47e3b7..8400b12 100644
--- a/src/responder/id_auth.rs
+++ b/src/responder/id_auth.rs
@@ -117,6 +117,8 @@ impl State {
         rsp: &mut [u8],
         transcript: &mut Transcript,
     ) -> Result<(usize, AllStates), ResponderError> {
+        let _ = GetDigests::parse_body(&req[HEADER_SIZE..])?;
+
         let slot_mask = create_slot_mask(cert_chains);
         let digests = self.hash_cert_chains(cert_chains)?;
 
-- 
2.43.0


From 87bdb396af7754f1cecabfbc90db8881707f8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:37 +0000
Subject: [PATCH 12/13] fix: compare transcripts by the bytes they hold

---
 src/transcript.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/transcript.rs b/src/transcript.rs
index 3d59f39..bafcc95 100644
--- a/src/transcript.rs
+++ b/src/transcript.rs
@@ -11,7 +11,7 @@ use crate::msgs::BufferFullError;
 /// A Transcript spans multiple states, and is purposefully kept outside those
 /// states to reduce the cost of the typestate pattern which takes and returns
 /// states by value.
-#[derive(Debug, Clone, Eq, PartialEq)]
+#[derive(Debug, Clone)]
 pub struct Transcript {
     buf: [u8; TRANSCRIPT_SIZE],
     offset: usize,
@@ -49,3 +49,12 @@ impl Transcript {
         self.offset
     }
 }
+
+// Only the recorded bytes count, not what `clear` left in the buffer.
+impl PartialEq for Transcript {
+    fn eq(&self, other: &Self) -> bool {
+        self.get() == other.get()
+    }
+}
+
+impl Eq for Transcript {}
-- 
2.43.0


From ec7077789b2693e06ed6163870eb1d05ff9e7471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:15 +0000
Subject: [PATCH 13/13] fix: report an output buffer too small for the opaque
 data of CHALLENGE_AUTH as ResponseTooLarge

A buffer ending inside the opaque data made the responder answer InvalidRequest,
blaming the requester, while any other short buffer yields ResponseTooLarge.
---
 src/responder/error.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/responder/error.rs b/src/responder/error.rs
index b9a4ee8..74d6b17 100644
--- a/src/responder/error.rs
+++ b/src/responder/error.rs
@@ -8,6 +8,7 @@ use crate::msgs::{
     capabilities::{ParseGetCapabilitiesError, ParseRspCapabilityError},
     certificates::WriteCertificateChainError,
     challenge::{ParseChallengeError, WriteChallengeAuthError},
+    common::WriteOpaqueElementError,
     BufferFullError, ParseHeaderError, ReadError,
 };
 
@@ -155,6 +156,11 @@ impl From<&ResponderError> for msgs::Error {
             }
             ResponderError::WriteChallengeAuth(
                 WriteChallengeAuthError::BufferFull,
+            )
+            | ResponderError::WriteChallengeAuth(
+                WriteChallengeAuthError::WriteOpaqueElement(
+                    WriteOpaqueElementError::BufferFull,
+                ),
             ) => msgs::Error::ResponseTooLarge(0),
             ResponderError::WriteChallengeAuth(_) => {
                 msgs::Error::InvalidRequest
-- 
2.43.0

