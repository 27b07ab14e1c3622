From 37bbf1f42fe288bf61582202a8ba70c48c0b931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:57 +0000
Subject: [PATCH 01/56] fix: write MDF3 conversion parameters as 8-byte reals

The parameter list holds variants; WriteNumber() stored the 16 byte variant
object instead of the value, so the reader decoded garbage.
---
 mdflib/src/cc3block.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a538954..7af6d59 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -313,8 +313,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 9:  // Rational
       nof_values_ = static_cast<uint16_t>(value_list_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < NofParameters(); ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
@@ -322,8 +322,8 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (auto par : value_list_) {
-        bytes += WriteNumber(buffer, par);
+      for (uint16_t par = 0; par < NofParameters(); ++par) {
+        bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
 
-- 
2.43.0


From 18506236995a30db8b4dddebbd33eddd94779765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:57 +0000
Subject: [PATCH 02/56] fix: count the formula text in the MDF3 CC block size

---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index 7af6d59..a16988a 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -330,7 +330,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 10:  // Text formula
       nof_values_ = static_cast<uint16_t>(formula_.size());
       bytes += WriteNumber(buffer, nof_values_);
-      WriteStr(buffer, formula_, formula_.size());
+      bytes += WriteStr(buffer, formula_, formula_.size());
       break;
 
     case 11:  // Text Table
-- 
2.43.0


From e4cbf23b58ff1812069b576ae4d3629cc29d8ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:07 +0000
Subject: [PATCH 03/56] fix: write the text of MDF3 text range conversions

The TX block was written without the text of the range.
---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index a16988a..aed0c2a 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -285,7 +285,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
   for (auto &range : text_range_conversion_list_) {
     uint32_t link = 0;
     if (!range.text.empty()) {
-      Tx3Block temp;
+      Tx3Block temp(range.text);
       temp.Init(*this);
       temp.Write(buffer);
       link = static_cast<uint32_t>(temp.FilePosition());
-- 
2.43.0


From a9a55c661d4a4545e1b1f7f424c7180a220bcc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:07 +0000
Subject: [PATCH 04/56] fix: read the time, angle and distance values of a DL
 block

The writer stores them but the reader skipped them.
---
 mdflib/src/dl4block.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mdflib/src/dl4block.cpp b/mdflib/src/dl4block.cpp
index 830aa74..ec44bc6 100644
--- a/mdflib/src/dl4block.cpp
+++ b/mdflib/src/dl4block.cpp
@@ -57,6 +57,27 @@ uint64_t Dl4Block::Read(std::streambuf& buffer) {
       offset_list_.emplace_back(offset);
     }
   }
+  if (flags_ & Dl4Flags::TimeValues) {
+    for (uint32_t ii = 0; ii < nof_blocks_; ++ii) {
+      uint64_t value = 0;
+      bytes += ReadNumber(buffer, value);
+      time_list_.emplace_back(value);
+    }
+  }
+  if (flags_ & Dl4Flags::AngleValues) {
+    for (uint32_t ii = 0; ii < nof_blocks_; ++ii) {
+      uint64_t value = 0;
+      bytes += ReadNumber(buffer, value);
+      angle_list_.emplace_back(value);
+    }
+  }
+  if (flags_ & Dl4Flags::DistanceValues) {
+    for (uint32_t ii = 0; ii < nof_blocks_; ++ii) {
+      uint64_t value = 0;
+      bytes += ReadNumber(buffer, value);
+      distance_list_.emplace_back(value);
+    }
+  }
   ReadLinkList(buffer, kIndexData, nof_blocks_);
   return bytes;
 }
-- 
2.43.0


From b9286c1e465a45e714783a0bc4d923bf388bfab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:15 +0000
Subject: [PATCH 05/56] fix: resolve channel hierarchy elements from the link
 slots they are stored in

The element triples start at link 4 (after next, first child, name and
comment); the reader looked one slot further and resolved the wrong blocks.
---
 mdflib/src/ch4block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index c44ee8e..e7a33bd 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -148,7 +148,7 @@ const std::vector<ElementLink> &Ch4Block::ElementLinks() const {
 void Ch4Block::FindReferencedBlocks(const Hd4Block &hd4) {  // NOLINT
   element_list_.clear();
   for (uint32_t index_n = 0; index_n < nof_elements_; ++index_n) {
-    const auto index = 5 + (index_n * 3);
+    const auto index = 4 + (index_n * 3);
     if (index < link_list_.size()) {
       const auto *block1 = hd4.Find(Link(index));
       const auto *block2 = hd4.Find(Link(index + 1));
-- 
2.43.0


From c3d65d372a2bd72f8080ae67f15ffb1116720f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 06/56] fix: store the LIN direction flag in the bit its
 channel describes

---
 mdflib/src/linmessage.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/linmessage.cpp b/mdflib/src/linmessage.cpp
index 1f2ac0b..1e05e72 100644
--- a/mdflib/src/linmessage.cpp
+++ b/mdflib/src/linmessage.cpp
@@ -166,7 +166,7 @@ void LinMessage::MakeDataFrame(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
@@ -225,10 +225,10 @@ void LinMessage::MakeChecksumError(SampleRecord& sample) const {
   // First 8 bytes are time in seconds (double)
   record[8] = BusChannel();
   record[9] = LinId() & kLinIdMask;
+  record[9] |= (Dir() ? 0x01 : 0x00) << 7;
   if (mandatory) {
     return;
   }
-  record[9] |= (Dir() ? 0x01 : 0x00) << 6;
   record[10] = ReceivedDataByteCount();
   record[10] |= (DataLength() & 0x0F) << 4;
   FillDataBytes(record, 11, data_bytes_);// The MLSD storage is fixed in LIN.
-- 
2.43.0


From 5ae091d77f37e1084de0304e83f728d010277d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 07/56] fix: describe the LIN checksum model and start of frame
 channels as stored

---
 mdflib/src/linconfigadapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index e93ba1c..dce78a8 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -315,7 +315,7 @@ void LinConfigAdapter::CreateReceiveErrorChannels(IChannelGroup& group) const {
     frame_bytes->BitOffset(0);
   }
 
-  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel",9, 6, 2);
+  if (IChannel* crc_model = CreateBitsChannel(*cn_frame, "LIN_ReceiveError.ChecksumModel", 11, 4, 2);
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
@@ -408,7 +408,7 @@ void LinConfigAdapter::CreateWakeUpChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
   }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_WakeUp.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
   }
@@ -491,7 +491,7 @@ void LinConfigAdapter::CreateSpikeChannels(IChannelGroup& group) const {
     baudrate->Unit("bits/s");
       }
 
-  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 8);
+  if (IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_Spike.SOF", 13, 0, 64);
       sof != nullptr) {
     sof->Unit("ns");
       }
-- 
2.43.0


From b7126b534f761d89caeb240d28d4df03338bac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 08/56] fix: name the LIN error record channels after their
 record

---
 mdflib/src/linconfigadapter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/linconfigadapter.cpp b/mdflib/src/linconfigadapter.cpp
index dce78a8..44ca3b0 100644
--- a/mdflib/src/linconfigadapter.cpp
+++ b/mdflib/src/linconfigadapter.cpp
@@ -222,7 +222,7 @@ const bool mandatory_only = MandatoryMembersOnly();
   }
 
   if (IChannel* frame_bytes =
-          cn_frame->CreateChannelComposition("LIN_ChecksumError..DataBytes");
+          cn_frame->CreateChannelComposition("LIN_ChecksumError.DataBytes");
       frame_bytes != nullptr) {
     frame_bytes->Type(ChannelType::MaxLength);
     frame_bytes->BitCount(64);
@@ -239,7 +239,7 @@ const bool mandatory_only = MandatoryMembersOnly();
       crc_model != nullptr) {
     crc_model->DataType(ChannelDataType::SignedIntegerLe);
   }
-  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError..SOF", 21, 0, 64);
+  if ( IChannel* sof = CreateBitsChannel(*cn_frame, "LIN_ChecksumError.SOF", 21, 0, 64);
       sof != nullptr) {
      sof->Unit("ns");
   }
@@ -431,7 +431,7 @@ void LinConfigAdapter::CreateTransmissionErrorChannels(IChannelGroup& group) con
     CreateSourceInformation(*cn_frame);
   }
   CreateBusChannel(*cn_frame);
-  CreateBitsChannel(*cn_frame,"LIN_Transmission.ID", 9, 0, 6);
+  CreateBitsChannel(*cn_frame,"LIN_TransmissionError.ID", 9, 0, 6);
 
   if (mandatory) {
     return;
-- 
2.43.0


From 658c91671b78b62d8ccb85f28c3edf9d504e1ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 09/56] fix: store the FlexRay channel of a message in its
 record

---
 mdflib/src/flexraymessage.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mdflib/src/flexraymessage.cpp b/mdflib/src/flexraymessage.cpp
index 29e5b42..839c535 100644
--- a/mdflib/src/flexraymessage.cpp
+++ b/mdflib/src/flexraymessage.cpp
@@ -52,7 +52,7 @@ void FlexRayFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
   record[13] = static_cast<uint8_t>(DataBytes().size());
@@ -104,7 +104,7 @@ void FlexRayPdu::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount() & 0x3F);
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[12] = Length();
   record[13] = static_cast<uint8_t>(DataBytes().size());
 
@@ -153,7 +153,7 @@ void FlexRayFrameHeader::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   record[12] = PayloadLength();
 
@@ -200,7 +200,7 @@ void FlexRayNullFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -247,7 +247,7 @@ void FlexRayErrorFrame::ToRaw(SampleRecord& sample) const {
   record[8] = BusChannel();
   MdfHelper::UnsignedToRaw(true, 0, 11, FrameId(), record.data() + 9);
   record[11] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[11] |= (static_cast<uint8_t>(FlexRayChannel()) & 0x01) << 6;
+  record[11] |= (static_cast<uint8_t>(Channel()) & 0x01) << 6;
   record[11] |= (static_cast<uint8_t>(Direction()) & 0x01) << 7;
   if (mandatory_members_only) {
     sample.vlsd_data = false;
@@ -302,7 +302,7 @@ void FlexRaySymbol::ToRaw(SampleRecord& sample) const {
   // The time allocate the first 8 bytes (double)
   record[8] = BusChannel();
   record[9] = static_cast<uint8_t>(CycleCount()) & 0x3F;
-  record[9] |= (static_cast<uint8_t>(FlexRayChannelMask()) & 0x03) << 6;
+  record[9] |= (static_cast<uint8_t>(ChannelMask()) & 0x03) << 6;
   if (mandatory_members_only) {
     return;
   }
-- 
2.43.0


From 936df03504c3dd1c5af4955048c52440b2c22b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 10/56] fix: size CAN MLSD channels by the length the records
 are written with

---
 mdflib/src/canconfigadapter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdflib/src/canconfigadapter.cpp b/mdflib/src/canconfigadapter.cpp
index 690d421..7a10d6b 100644
--- a/mdflib/src/canconfigadapter.cpp
+++ b/mdflib/src/canconfigadapter.cpp
@@ -126,8 +126,8 @@ void CanConfigAdapter::CreateCanDataFrameChannel(IChannelGroup& group) const {
   switch (StorageType()) {
     // In reality,  MLSD storage should have max length equal to 8.
     case MdfStorageType::MlsdStorage:
-      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + writer_.MaxLength() :
-                                (32 - 16) + writer_.MaxLength());
+      cn_data_frame->DataBytes(mandatory_only ? (23 - 16) + MaxLength() :
+                                (32 - 16) + MaxLength());
       break;
 
     case MdfStorageType::FixedLengthStorage:
@@ -225,7 +225,7 @@ void CanConfigAdapter::CreateCanErrorFrameChannel(IChannelGroup& group) const {
   cn_error_frame->DataType(ChannelDataType::ByteArray);
 
   if (StorageType() == MdfStorageType::MlsdStorage) {
-    cn_error_frame->DataBytes((34 - 16) + writer_.MaxLength());
+    cn_error_frame->DataBytes((34 - 16) + MaxLength());
   } else {
     cn_error_frame->DataBytes(34 - 8); // Index into SD or VLSD
   }
@@ -290,7 +290,7 @@ IChannel* CanConfigAdapter::CreateDataBytesChannel(IChannel& parent_channel,
     switch(StorageType()) {
       case MdfStorageType::MlsdStorage:
         frame_bytes->Type(ChannelType::MaxLength);
-        frame_bytes->BitCount(8 * writer_.MaxLength());
+        frame_bytes->BitCount(8 * MaxLength());
         break;
 
       case MdfStorageType::VlsdStorage:
-- 
2.43.0


From e99809a2f7b2b71a3e8b5201b410282b52cada2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:30 +0000
Subject: [PATCH 11/56] fix: do not use a popped sample record

---
 mdflib/src/samplequeue.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mdflib/src/samplequeue.cpp b/mdflib/src/samplequeue.cpp
index 867db6f..f4d502c 100644
--- a/mdflib/src/samplequeue.cpp
+++ b/mdflib/src/samplequeue.cpp
@@ -44,10 +44,8 @@ SampleRecord SampleQueue::GetSample() {
 }
 
 void SampleQueue::PopSample() {
-  const SampleRecord& record = queue_.front();
+  size_ -= queue_.front().SampleSize();
   queue_.pop_front();
-  size_ -= record.SampleSize();
-
 }
 void SampleQueue::Reset() {
   queue_.clear();
-- 
2.43.0


From 10c3fce0a06f8e4d09eb7e3c8713fb4bebfc449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:30 +0000
Subject: [PATCH 12/56] fix: take the queue lock again when a DT block is
 missing

---
 mdflib/src/convertersamplequeue.cpp | 1 +
 mdflib/src/writer4samplequeue.cpp   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index 66a3aa9..e09905d 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -52,6 +52,7 @@ void ConverterSampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
 
   auto* dt4 = dg4->CreateOrGetDt4(*writer_.file_);
   if (dt4 == nullptr) {
+    lock.lock();
     return;
   }
 
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 2f62f54..6ac5f21 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -54,10 +54,14 @@ void Writer4SampleQueue::SaveQueue(std::unique_lock<std::mutex>& lock) {
   }
   auto* dt4 = dg4->CreateOrGetDt4(*writer_.file_);
   if (dt4 == nullptr) {
+    writer_.Close();
+    lock.lock();
     return;
   }
   const auto data_position = dt4->DataPosition();
   if (data_position <= 0) {
+    writer_.Close();
+    lock.lock();
     return;
   }
 
-- 
2.43.0


From f1c363b81e29f0ac033cb04ac3889c99d7c9c074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:30 +0000
Subject: [PATCH 13/56] fix: read the queue size while holding the queue lock

---
 mdflib/src/convertersamplequeue.cpp | 3 ++-
 mdflib/src/writer4samplequeue.cpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/convertersamplequeue.cpp b/mdflib/src/convertersamplequeue.cpp
index e09905d..0bfbacf 100644
--- a/mdflib/src/convertersamplequeue.cpp
+++ b/mdflib/src/convertersamplequeue.cpp
@@ -186,6 +186,7 @@ void ConverterSampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lo
   while (!IsEmpty()) {
     SampleRecord sample = GetSample();
 
+    const size_t queue_size = QueueSize();
     lock.unlock(); // Need to unlock the sample queue while file operation
 
     size_t max_index = sample.record_buffer.size()
@@ -201,7 +202,7 @@ void ConverterSampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lo
       // DZ block and put the remaining samples there. If not we can break
       // here and assume that the next cyclic call will handle the next DZ
       // block.
-      if (finalize || QueueSize() > buffer_max) {
+      if (finalize || queue_size > buffer_max) {
         // Purge the buffer to a DZ block and add it to the last DL block
         auto dz4 = std::make_unique<Dz4Block>();
         dz4->OrigBlockType("DT");
diff --git a/mdflib/src/writer4samplequeue.cpp b/mdflib/src/writer4samplequeue.cpp
index 6ac5f21..d72ea7d 100644
--- a/mdflib/src/writer4samplequeue.cpp
+++ b/mdflib/src/writer4samplequeue.cpp
@@ -210,6 +210,7 @@ void Writer4SampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lock
       // No more data.
       break;
     }
+    const size_t queue_size = QueueSize();
     lock.unlock(); // Need to unlock the sample queue while file operation
 
     size_t max_index = sample.record_buffer.size()
@@ -225,7 +226,7 @@ void Writer4SampleQueue::CleanQueueCompressed(std::unique_lock<std::mutex>& lock
       // DZ block and put the remaining samples there. If not we can break
       // here and assume that the next cyclic call will handle the next DZ
       // block.
-      if (finalize || QueueSize() > buffer_max) {
+      if (finalize || queue_size > buffer_max) {
         // Purge the buffer to a DZ block and add it to the last DL block
         auto dz4 = std::make_unique<Dz4Block>();
         dz4->Init(*dl4);
-- 
2.43.0


From b19a462f4c1a9ab0479f6000b145a13d22849f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:30 +0000
Subject: [PATCH 14/56] fix: keep the sample thread alive and its lock held
 after a failed save

---
 mdflib/src/writecache.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/writecache.cpp b/mdflib/src/writecache.cpp
index efe4b8b..bdd3549 100644
--- a/mdflib/src/writecache.cpp
+++ b/mdflib/src/writecache.cpp
@@ -136,14 +136,25 @@ void WriteCache::WorkThread() {
     }
     catch (...) {
       MDF_ERROR() << "Failed to save queue";
+      if (!lock.owns_lock()) {
+        lock.lock();
+      }
     }}
 
   } while (!stop_thread_);
   {
     std::unique_lock lock(locker_);
     for (auto& [channel_group, sample_queue] : cache_) {
-      if (sample_queue) {
+      if (!sample_queue) {
+        continue;
+      }
+      try {
         sample_queue->CleanQueue(lock);
+      } catch (...) {
+        MDF_ERROR() << "Failed to save queue";
+        if (!lock.owns_lock()) {
+          lock.lock();
+        }
       }
     }
   }
-- 
2.43.0


From 6dde095e371c07fb6744d5c78ffb63d00c86fc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:39 +0000
Subject: [PATCH 15/56] fix: set the start time before samples may be saved

---
 mdflib/src/mdfwriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdfwriter.cpp b/mdflib/src/mdfwriter.cpp
index affbad4..5cf85e8 100644
--- a/mdflib/src/mdfwriter.cpp
+++ b/mdflib/src/mdfwriter.cpp
@@ -277,13 +277,13 @@ bool MdfWriter::InitMeasurement() {
 }
 
 void MdfWriter::StartMeasurement(uint64_t start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time;
   stop_time_ = 0;  // Zero indicate not stopped
 
   // The sample queue actual have absolute time. We have to recalculate the
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
+  write_state_ = WriteState::StartMeas;
 
   NotifySample();
 
@@ -298,13 +298,13 @@ void MdfWriter::StartMeasurement(uint64_t start_time) {
 }
 
 void MdfWriter::StartMeasurement(ITimestamp &start_time) {
-  write_state_ = WriteState::StartMeas;
   start_time_ = start_time.GetUtcTimeNs();
   stop_time_ = 0;  // Zero indicate not stopped
                    
   // The sample queue actual have absolute time. We have to recalculate the
   // times to relative times by using the start_time_.
   RecalculateTimeMaster();
+  write_state_ = WriteState::StartMeas;
 
   NotifySample();
 
-- 
2.43.0


From 9671e7d5b841e8509ef714977fe70c2e6c71ea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 16/56] fix: detect end of file when reading single bytes of a
 record

---
 mdflib/src/readcache.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 27ed376..1b61c72 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -355,7 +355,11 @@ bool ReadCache::GetNextByte(uint8_t &input) {
   if ( file_index_ < data_size_) {
     if (file_buffer_.empty()) {
       // Read direct from the file
-     input = buffer_.sbumpc();
+      const auto value = buffer_.sbumpc();
+      if (value == std::streambuf::traits_type::eof()) {
+        return false;
+      }
+      input = static_cast<uint8_t>(value);
     } else {
       // Read from buffer in case of DZ block
       input = file_buffer_[file_index_];
@@ -396,7 +400,11 @@ bool ReadCache::GetNextByte(uint8_t &input) {
     return false;
   }
   if (file_buffer_.empty()) {
-    input = buffer_.sbumpc();
+    const auto value = buffer_.sbumpc();
+    if (value == std::streambuf::traits_type::eof()) {
+      return false;
+    }
+    input = static_cast<uint8_t>(value);
   } else {
     input = file_buffer_[file_index_];
   }
-- 
2.43.0


From 2afe55ccbe2b90970df10db5d6ddb002f83bc0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 17/56] fix: continue with the next data block after an empty
 one

---
 mdflib/src/readcache.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index 1b61c72..d0e164e 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -397,7 +397,7 @@ bool ReadCache::GetNextByte(uint8_t &input) {
   }
     // Read in the data form file to
   if (file_index_ >= data_size_) {
-    return false;
+    return GetNextByte(input); // Empty block. Step to the next block
   }
   if (file_buffer_.empty()) {
     const auto value = buffer_.sbumpc();
-- 
2.43.0


From 7391dfaaf2e5938a0f31c2cbb843ae9172138602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 18/56] fix: count all bytes skipped when a skip passes a data
 block border

---
 mdflib/src/readcache.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/readcache.cpp b/mdflib/src/readcache.cpp
index d0e164e..465cbcd 100644
--- a/mdflib/src/readcache.cpp
+++ b/mdflib/src/readcache.cpp
@@ -500,6 +500,7 @@ void ReadCache::SkipBytes(size_t nof_skip) {
 
   // First skip the remaining bytes.
   nof_skip -= data_size_ - file_index_;
+  data_count_ += data_size_ - file_index_;
 
   // If a list try to skip block by block first
   while (block_index_ < block_list_.size()) {
@@ -513,6 +514,7 @@ void ReadCache::SkipBytes(size_t nof_skip) {
     data_size_ = current_block->DataSize();
     if (nof_skip > data_size_) {
       nof_skip -= data_size_;
+      data_count_ += data_size_;
       continue;
     }
     // In right block. Set up the file buffer.
-- 
2.43.0


From cf273ae1298d88221623bba3046e8cd5b84cecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 19/56] fix: do not deliver an incomplete MDF3 record as a
 sample

---
 mdflib/src/cg3block.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdflib/src/cg3block.cpp b/mdflib/src/cg3block.cpp
index 90dcaac..dc8baf1 100644
--- a/mdflib/src/cg3block.cpp
+++ b/mdflib/src/cg3block.cpp
@@ -259,6 +259,9 @@ uint64_t Cg3Block::ReadDataRecord(std::streambuf& buffer,
   std::vector<uint8_t> record(record_size, 0);
   uint64_t count =
       buffer.sgetn(reinterpret_cast<char *>(record.data()), record.size());
+  if (count != record.size()) {
+    return 0; // End of file, the record is not complete
+  }
   uint64_t sample = Sample();
   if (sample < NofSamples()) {
     const bool continue_reading = notifier.NotifySampleObservers(sample, RecordId(), record);
@@ -301,6 +304,9 @@ uint64_t Cg3Block::ReadRangeDataRecord(std::streambuf& buffer,
 
     count = buffer.sgetn(
         reinterpret_cast<char*>(record.data()), record.size());
+    if (count != record.size()) {
+      return 0;  // End of file, the record is not complete
+    }
 
     if (sample < NofSamples()) {
       const bool continue_reading =
-- 
2.43.0


From cd77c7732c0f54babe8532d36476d9228a8aedb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 20/56] fix: position at the first record after reading the SR
 blocks in a partial MDF3 read

---
 mdflib/src/dg3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 24f0b2d..5d8b8bf 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -195,7 +195,6 @@ void Dg3Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
   InitFastObserverList();
 
   uint64_t data_size = DataSize();
-  SetFilePosition(buffer, Link(kIndexData));
 
   // Read in all SR block data
   for (const auto& cg3 :Cg3()) {
@@ -210,6 +209,7 @@ void Dg3Block::ReadRangeData(std::streambuf& buffer, DgRange& range) {
 
   //  auto pos = GetFilePosition(data_file);
   // Read through all record
+  SetFilePosition(buffer, Link(kIndexData));
   ParseRangeDataRecords(buffer, data_size, range);
 
 
-- 
2.43.0


From 3ca030961baef1c78ee452288f8582280c83a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 21/56] fix: find the range of a single MDF3 group that has a
 record id

---
 mdflib/src/dg3block.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/dg3block.cpp b/mdflib/src/dg3block.cpp
index 5d8b8bf..ab20ede 100644
--- a/mdflib/src/dg3block.cpp
+++ b/mdflib/src/dg3block.cpp
@@ -269,7 +269,8 @@ void Dg3Block::ParseRangeDataRecords(std::streambuf& buffer, uint64_t nof_data_b
       count += ReadNumber(buffer, record_id);
     }
     const auto *cg3 = FindCgRecordId(record_id);
-    const auto* cg_range = range.GetCgRange(record_id);
+    const auto* cg_range = cg3 == nullptr ? nullptr
+                                          : range.GetCgRange(cg3->RecordId());
     if (cg3 == nullptr || cg_range == nullptr) {
       break;
     }
-- 
2.43.0


From f091c976029ad0fe04e8b70bdc5e6a5720f03341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 22/56] fix: ReadVlsdData shall read signal data stored below a
 HL block

---
 mdflib/src/dg4block.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 68ade13..c5be261 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -483,6 +483,8 @@ void  Dg4Block::ReadVlsdData(std::streambuf& buffer,Cn4Block& channel,
         read_signal_data = true;
       } else if (block->BlockType() == "DL") {
         read_signal_data = true;
+      } else if (block->BlockType() == "HL") {
+        read_signal_data = true;
       }
       break;
 
-- 
2.43.0


From eb7189eb84ad039445784dec4e5e2884393b0db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:26 +0000
Subject: [PATCH 23/56] fix: ReadInDataBuffer shall leave the file as it found
 it

---
 mdflib/src/mdfreader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdfreader.cpp b/mdflib/src/mdfreader.cpp
index 0a6cd1c..293c1e6 100644
--- a/mdflib/src/mdfreader.cpp
+++ b/mdflib/src/mdfreader.cpp
@@ -575,12 +575,12 @@ bool MdfReader::ReadInDataBuffer(int64_t data_position, uint64_t nof_bytes,
       return true;
     }
     destination.resize(nof_bytes);
-    const bool was_open = Open();
+    const bool shall_close = !IsOpen() && Open();
     if (file_) {
       SetFilePosition(*file_, data_position);
       ReadByte(*file_, destination, nof_bytes);
     }
-    if (!was_open) {
+    if (shall_close) {
       Close();
     }
   } catch (const std::exception &err) {
-- 
2.43.0


From c9e707454c7f371cafbd74269424f522b843b60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:38 +0000
Subject: [PATCH 24/56] fix: check the end of a big endian value against the
 sample buffer

SetUnsignedValueBe() compared the start of the value with the buffer size, so
a value of the last channel with a too high array index was written behind
the sample buffer.
---
 mdflib/src/ichannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index 5c055ce..d26911a 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -346,7 +346,7 @@ void IChannel::SetUnsignedValueBe(uint64_t value, bool valid, uint64_t array_ind
   }
   const auto bytes = static_cast<size_t>(DataBytes());
   const auto max_bytes = ByteOffset() +
-                         (bytes * array_index);
+                         (bytes * (array_index + 1));
   if (max_bytes > buffer.size()) {
     SetValid(false, array_index);
     return;
-- 
2.43.0


From 2a655dec65bddef6ff08cd958cb24085eb39f9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:38 +0000
Subject: [PATCH 25/56] fix: keep the invalid mark of a variable length value

Storing the index of the value marked it as valid again.
---
 mdflib/src/cn4block.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index c5d2345..98828eb 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -826,7 +826,7 @@ void Cn4Block::SetTextValue(const std::string &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
@@ -855,7 +855,7 @@ void Cn4Block::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
     if (bit_count_ == 0) {
       SetValid(false,0);
     } else {
-      SetUnsignedValueLe(index, true,0);
+      SetUnsignedValueLe(index, valid,0);
     }
   } else {
     // Fixed length handle by interface class
-- 
2.43.0


From d911781c65bc31a43f1c5ddb25e733fbd68d4069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:38 +0000
Subject: [PATCH 26/56] fix: do not write text, byte array and time values
 outside the record

The numeric values are checked against the sample buffer. Text and byte array
values set before the measurement is initialised, were written to an empty
buffer.
---
 mdflib/src/ichannel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/ichannel.cpp b/mdflib/src/ichannel.cpp
index d26911a..cbeb93c 100644
--- a/mdflib/src/ichannel.cpp
+++ b/mdflib/src/ichannel.cpp
@@ -552,7 +552,7 @@ void IChannel::SetTextValue(const std::string &value, bool valid) {
   SetValid(valid,0);
   auto &buffer = SampleBuffer();
   const size_t bytes = BitCount() / 8;
-  if (bytes == 0) {
+  if (bytes == 0 || ByteOffset() + bytes > buffer.size()) {
     SetValid(false,0);
     return;
   }
@@ -569,7 +569,7 @@ void IChannel::SetByteArray(const std::vector<uint8_t> &value, bool valid) {
   SetValid(valid,0);
   auto &buffer = SampleBuffer();
   const size_t bytes = BitCount() / 8;
-  if (bytes == 0) {
+  if (bytes == 0 || ByteOffset() + bytes > buffer.size()) {
     SetValid(false, 0);
     return;
   }
@@ -973,6 +973,9 @@ void IChannel::SetTimestamp(double timestamp,
   }
 
   const size_t bytes = BitCount() / 8;
+  if (ByteOffset() + bytes > record_buffer.size()) {
+    return;
+  }
 
   switch (DataType()) {
     case ChannelDataType::UnsignedIntegerBe:
-- 
2.43.0


From b06780bc7404ddd5909b920a59c1da2fa7fd7095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:45 +0000
Subject: [PATCH 27/56] fix: report a text that could not be converted

---
 include/mdf/ichannelconversion.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdf/ichannelconversion.h b/include/mdf/ichannelconversion.h
index eeefc27..b310b46 100644
--- a/include/mdf/ichannelconversion.h
+++ b/include/mdf/ichannelconversion.h
@@ -277,7 +277,7 @@ class IChannelConversion : public IBlock {
   template <typename T = std::string, typename V = std::string>
   bool Convert(const std::string& channel_value, std::string& eng_value) const {
     if (Type() == ConversionType::TextToTranslation) {
-      ConvertTextToTranslation(channel_value, eng_value);
+      return ConvertTextToTranslation(channel_value, eng_value);
     } else if (Type() == ConversionType::NoConversion) {
       eng_value = channel_value;
     } else {
@@ -524,7 +524,7 @@ template <typename T, typename V>
 bool IChannelConversion::Convert(const std::string& channel_value,
     double& eng_value) const {
   if (Type() == ConversionType::TextToValue) {
-    ConvertTextToValue(channel_value, eng_value);
+    return ConvertTextToValue(channel_value, eng_value);
   } else if (Type() == ConversionType::NoConversion) {
     eng_value = std::stod(channel_value);
   } else {
-- 
2.43.0


From 59ba0bc5c36a950f28757a639518a18a3b1e235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:27 +0000
Subject: [PATCH 28/56] fix: use the array index of values that have no
 conversion

---
 include/mdf/ichannelobserver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mdf/ichannelobserver.h b/include/mdf/ichannelobserver.h
index 18c3844..28b9100 100644
--- a/include/mdf/ichannelobserver.h
+++ b/include/mdf/ichannelobserver.h
@@ -368,7 +368,8 @@ bool IChannelObserver::GetEngValue(uint64_t sample, V& value, uint64_t array_ind
     }
 
     default:
-      valid = GetChannelValue(sample, value);  // No conversion is allowed;
+      // No conversion is allowed
+      valid = GetChannelValue(sample, value, array_index);
       break;
   }
   return valid;
-- 
2.43.0


From b5d4a3e3e21a269291f2d15fbe51ce8a21a81640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:42 +0000
Subject: [PATCH 29/56] fix: deliver the whole converted text and whether it
 could be converted

---
 include/mdf/ichannelobserver.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/mdf/ichannelobserver.h b/include/mdf/ichannelobserver.h
index 28b9100..e0d03e1 100644
--- a/include/mdf/ichannelobserver.h
+++ b/include/mdf/ichannelobserver.h
@@ -9,6 +9,7 @@
  */
 #pragma once
 #include <string>
+#include <type_traits>
 #include <vector>
 
 #include "mdf/ichannel.h"
@@ -360,10 +361,26 @@ bool IChannelObserver::GetEngValue(uint64_t sample, V& value, uint64_t array_ind
     case ChannelDataType::StringUTF8: {
       std::string v;
       valid = GetSampleText(sample,  v, array_index);
-      std::string temp;
-      conversion->Convert(v, temp);
-      std::istringstream temp1(temp);
-      temp1 >> value;
+      if (!valid) {
+        break;
+      }
+      if (conversion->Type() == ConversionType::TextToValue) {
+        double temp = 0.0;
+        valid = conversion->Convert(v, temp);
+        if constexpr (std::is_same_v<V, std::string>) {
+          value = MdfHelper::FormatDouble(temp,
+              conversion->IsDecimalUsed() ? conversion->Decimals() : 6);
+        } else {
+          value = static_cast<V>(temp);
+        }
+      } else if constexpr (std::is_same_v<V, std::string>) {
+        valid = conversion->Convert(v, value);
+      } else {
+        std::string temp;
+        valid = conversion->Convert(v, temp);
+        std::istringstream temp1(temp);
+        temp1 >> value;
+      }
       break;
     }
 
-- 
2.43.0


From b30bcb206de99e5f077d6f95db2c3003088f1416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:20 +0000
Subject: [PATCH 30/56] fix: release the zlib state when a (de)compression
 fails

---
 mdflib/src/zlibutil.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 0f9e4b3..7e4fb5e 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -52,6 +52,7 @@ bool Deflate(std::streambuf& in, std::streambuf& out) {
       s.next_out = buf_out.data();
       ret = deflate(&s, flush);    /* no bad return value */
       if (ret == Z_STREAM_ERROR) { /* state not clobbered */
+        deflateEnd(&s);
         return false;
       }
       const auto have = kZlibChunk - s.avail_out;
@@ -62,12 +63,14 @@ bool Deflate(std::streambuf& in, std::streambuf& out) {
       }
     } while (s.avail_out == 0);
     if (s.avail_in != 0) { /* all input will be used */
+      deflateEnd(&s);
       return false;
     }
     /* done when last data in file processed */
   } while (flush != Z_FINISH);
   /* stream will be complete */
   if (ret != Z_STREAM_END) { /* all input will be used */
+    deflateEnd(&s);
     return false;
   }
 
@@ -129,6 +132,7 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
   s.next_out = const_cast<Bytef*>(buf_out.data());
   ret = deflate(&s, Z_FINISH); /* no bad return value */
   if (ret == Z_STREAM_ERROR) { /* state not clobbered */
+    deflateEnd(&s);
     return false;
   }
   const auto compress = static_cast<uInt>(buf_out.size()) - s.avail_out;
@@ -167,8 +171,6 @@ bool Inflate(std::streambuf& in, std::streambuf& out) {
 
       switch (ret) {
         case Z_STREAM_ERROR:
-          return false;
-
         case Z_NEED_DICT:
         case Z_DATA_ERROR:
         case Z_MEM_ERROR:
@@ -233,8 +235,6 @@ bool Inflate(std::streambuf& in, std::streambuf& out, uint64_t nof_bytes) {
 
       switch (ret) {
         case Z_STREAM_ERROR:
-          return false;
-
         case Z_NEED_DICT:
         case Z_DATA_ERROR:
         case Z_MEM_ERROR:
@@ -278,8 +278,6 @@ bool Inflate(const ByteArray& buf_in, ByteArray& buf_out) {
 
   switch (ret) {
     case Z_STREAM_ERROR:
-      return false;
-
     case Z_NEED_DICT:
     case Z_DATA_ERROR:
     case Z_MEM_ERROR:
@@ -324,8 +322,6 @@ bool Inflate(const ByteArray& buf_in, std::streambuf& to_file) {
 
     switch (ret) {
       case Z_STREAM_ERROR:
-        return false;
-
       case Z_NEED_DICT:
       case Z_DATA_ERROR:
       case Z_MEM_ERROR:
-- 
2.43.0


From 55ac1efc9464fddfb9b2ec553658206f9819bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:30 +0000
Subject: [PATCH 31/56] fix: enough room for compressing data that cannot be
 compressed

---
 mdflib/src/zlibutil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdflib/src/zlibutil.cpp b/mdflib/src/zlibutil.cpp
index 7e4fb5e..461c672 100644
--- a/mdflib/src/zlibutil.cpp
+++ b/mdflib/src/zlibutil.cpp
@@ -118,6 +118,11 @@ bool Deflate(const ByteArray& buf_in, ByteArray& buf_out) {
   if (buf_out.size() < 100) {
     buf_out.resize(100, 0);
   }
+  // Data that cannot be compressed, needs more room than the input data.
+  const auto bound = compressBound(static_cast<uLong>(buf_in.size()));
+  if (buf_out.size() < bound) {
+    buf_out.resize(bound, 0);
+  }
 
   z_stream s{};
   auto ret = deflateInit(&s, Z_DEFAULT_COMPRESSION);
-- 
2.43.0


From 9473d8cf3a455a29d3d7097184e1a2ec6c5bb2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:50 +0000
Subject: [PATCH 32/56] fix: report compressed data that cannot be uncompressed
 or does not fit

---
 mdflib/src/dz4block.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/dz4block.cpp b/mdflib/src/dz4block.cpp
index 19a87af..c0a1871 100644
--- a/mdflib/src/dz4block.cpp
+++ b/mdflib/src/dz4block.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <cstdio>
+#include <stdexcept>
 #include <string>
 #include <utility>
 
@@ -128,8 +129,13 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
       from_file.sgetn( reinterpret_cast<char*>(temp.data()),
                               static_cast<std::streamsize>(temp.size()) );
       ByteArray out(static_cast<size_t>(orig_data_length_), 0);
-      Inflate(temp, out);
+      if (!Inflate(temp, out) || out.size() < orig_data_length_) {
+        throw std::runtime_error("Failed to uncompress the data block");
+      }
       count = orig_data_length_;
+      if (buffer_index + count > dest.size()) {
+        throw std::runtime_error("Buffer size to small error");
+      }
       memcpy(dest.data() + buffer_index, out.data(), static_cast<size_t>(count) );
       buffer_index += count;
       break;
@@ -140,10 +146,15 @@ uint64_t Dz4Block::CopyDataToBuffer(std::streambuf& from_file,
       from_file.sgetn(reinterpret_cast<char*>(temp.data()),
                       static_cast<std::streamsize>(temp.size()) );
       ByteArray out(static_cast<size_t>( orig_data_length_ ), 0);
-      Inflate(temp, out);
+      if (!Inflate(temp, out) || out.size() < orig_data_length_) {
+        throw std::runtime_error("Failed to uncompress the data block");
+      }
       InvTranspose(out, parameter_);
 
       count = orig_data_length_;
+      if (buffer_index + count > dest.size()) {
+        throw std::runtime_error("Buffer size to small error");
+      }
       memcpy(dest.data() + buffer_index, out.data(), static_cast<size_t>(count) );
       buffer_index += count;
       break;
-- 
2.43.0


From 6be963530f46b55fcbcc5be29c05750e577a6084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 33/56] fix: the data position of a written attachment is where
 its data is

---
 mdflib/src/at4block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/at4block.cpp b/mdflib/src/at4block.cpp
index 756d228..ea46d1e 100644
--- a/mdflib/src/at4block.cpp
+++ b/mdflib/src/at4block.cpp
@@ -219,7 +219,7 @@ uint64_t At4Block::Write(std::streambuf& buffer) {
   }
   bytes += WriteNumber(buffer, original_size_);
   bytes += WriteNumber(buffer, nof_bytes_);
-  data_position_ = FilePosition();
+  data_position_ = GetFilePosition(buffer);
   if (nof_bytes_ > 0) {
     bytes += WriteByte(buffer, data_buffer_);
   }
-- 
2.43.0


From d8e96089b8c9e7a004629e471b9b4cf40f4ac791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:56 +0000
Subject: [PATCH 34/56] fix: a reader of a file that is too short doesn't throw

---
 mdflib/src/mdfreader.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdfreader.cpp b/mdflib/src/mdfreader.cpp
index 293c1e6..9f0d8ef 100644
--- a/mdflib/src/mdfreader.cpp
+++ b/mdflib/src/mdfreader.cpp
@@ -302,7 +302,14 @@ void MdfReader::VerifyMdfFile() {
   }
 
   auto id_block = std::make_unique<detail::IdBlock>();
-  id_block->Read(*file_);
+  try {
+    id_block->Read(*file_);
+  } catch (const std::exception &error) {
+    MDF_ERROR() << "Failed to read the ID block. Error: " << error.what()
+                << ", File: " << Filename();
+    Close();
+    return;
+  }
 
   if (Platform::strnicmp(id_block->FileId().c_str(), "MDF", 3) == 0 ||
       Platform::strnicmp(id_block->FileId().c_str(), "UnFinMF", 7) == 0) {
-- 
2.43.0


From 95ef1e8bae05b88d3db0a0bdbd8b298c3b660b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:56 +0000
Subject: [PATCH 35/56] fix: reading a data buffer reports failures and leaves
 the file as it was

---
 mdflib/src/mdfreader.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/mdflib/src/mdfreader.cpp b/mdflib/src/mdfreader.cpp
index 9f0d8ef..8c23869 100644
--- a/mdflib/src/mdfreader.cpp
+++ b/mdflib/src/mdfreader.cpp
@@ -582,20 +582,31 @@ bool MdfReader::ReadInDataBuffer(int64_t data_position, uint64_t nof_bytes,
       return true;
     }
     destination.resize(nof_bytes);
-    const bool shall_close = !IsOpen() && Open();
-    if (file_) {
-      SetFilePosition(*file_, data_position);
-      ReadByte(*file_, destination, nof_bytes);
-    }
-    if (shall_close) {
-      Close();
-    }
   } catch (const std::exception &err) {
     MDF_ERROR() << "Failed to read the file information blocks. Error: "
                 << err.what();
     return false;
   }
-  return true;
+
+  const bool shall_close = !IsOpen() && Open();
+  if (!IsOpen()) {
+    MDF_ERROR() << "Failed to open file. File: " << Filename();
+    return false;
+  }
+
+  bool error = false;
+  try {
+    SetFilePosition(*file_, data_position);
+    error = ReadByte(*file_, destination, nof_bytes) != nof_bytes;
+  } catch (const std::exception &err) {
+    MDF_ERROR() << "Failed to read the file information blocks. Error: "
+                << err.what();
+    error = true;
+  }
+  if (shall_close) {
+    Close();
+  }
+  return !error;
 }
 
 bool MdfReader::ReadPartialData(IDataGroup &data_group, size_t min_sample,
-- 
2.43.0


From 0978f66f6a295cae4a9f0a92aa3e99a468626d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:50 +0000
Subject: [PATCH 36/56] fix: report that a MDF3 file could not be written

---
 mdflib/src/mdf3file.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/mdf3file.cpp b/mdflib/src/mdf3file.cpp
index 2b486e5..d251d9c 100644
--- a/mdflib/src/mdf3file.cpp
+++ b/mdflib/src/mdf3file.cpp
@@ -117,6 +117,7 @@ bool Mdf3File::Write(std::streambuf& buffer) {
     hd_block_->Write(buffer);
   } catch (const std::exception &err) {
     MDF_ERROR() << "Failed to write MDF3 file. Error: " << err.what();
+    return false;
   }
   return true;
 }
-- 
2.43.0


From 8692bdd1c0dfcda821e4d356c47707ab68a7df6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:42 +0000
Subject: [PATCH 37/56] fix: read back the array indexes of a formula variable

---
 mdflib/src/mdvariable.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdvariable.cpp b/mdflib/src/mdvariable.cpp
index 7494731..a01e1d1 100644
--- a/mdflib/src/mdvariable.cpp
+++ b/mdflib/src/mdvariable.cpp
@@ -119,7 +119,7 @@ void MdVariable::ToXml(IXmlNode& root_node, const std::string& tag_name) const {
       }
       idx << index;
     }
-    node.SetAttribute("idx_list_pattern", idx.str());
+    node.SetAttribute("idx", idx.str());
   }
 
   if (raw_) {
@@ -143,7 +143,9 @@ void MdVariable::FromXml(const IXmlNode& var_node) {
   try {
     std::ostringstream temp;
     for (const char input : idx_list) {
-      if (iswspace(input)) {
+      if (!iswspace(input)) {
+        temp << input;
+      } else if (!temp.str().empty()) {
         const uint64_t idx = std::stoull(temp.str());
         AddArrayIndex(idx);
         temp.clear();
-- 
2.43.0


From a0b51ca84e250b1f0a22ff75c2d9d3a6e6a0176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:42 +0000
Subject: [PATCH 38/56] fix: read the molar and luminous exponents under the
 tags they are written with

---
 mdflib/src/hophysicaldimension.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/hophysicaldimension.cpp b/mdflib/src/hophysicaldimension.cpp
index 3b80fb5..b50534c 100644
--- a/mdflib/src/hophysicaldimension.cpp
+++ b/mdflib/src/hophysicaldimension.cpp
@@ -123,9 +123,9 @@ void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
       current_exp_ = node->Value<double>();
     } else if (node->IsTagName("TEMPERATURE-EXP")) {
       temp_exp_ = node->Value<double>();
-    } else if (node->IsTagName("MOLAR-EXP")) {
+    } else if (node->IsTagName("MOLAR-AMOUNT-EXP")) {
       molar_exp_ = node->Value<double>();
-    } else if (node->IsTagName("LUMINOUS-EXP")) {
+    } else if (node->IsTagName("LUMINOUS-INTENSITY-EXP")) {
       luminous_exp_ = node->Value<double>();
     }
   }
-- 
2.43.0


From 832e59877ea234505f3d3f81a520494fa6ee9b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:42 +0000
Subject: [PATCH 39/56] fix: read back the names of units, dimensions and
 computation methods

---
 mdflib/src/hocompumethod.cpp       | 1 +
 mdflib/src/hophysicaldimension.cpp | 1 +
 mdflib/src/hounit.cpp              | 1 +
 3 files changed, 3 insertions(+)

diff --git a/mdflib/src/hocompumethod.cpp b/mdflib/src/hocompumethod.cpp
index a5e7f65..2f88d75 100644
--- a/mdflib/src/hocompumethod.cpp
+++ b/mdflib/src/hocompumethod.cpp
@@ -140,6 +140,7 @@ void HoCompuMethod::ToXml(IXmlNode& root_node) const {
 }
 
 void HoCompuMethod::FromXml(const IXmlNode& root_node) {
+  HoNameDetails::FromXml(root_node);
   IXmlNode::ChildList node_list;
   root_node.GetChildList(node_list);
   for (const IXmlNode* node : node_list) {
diff --git a/mdflib/src/hophysicaldimension.cpp b/mdflib/src/hophysicaldimension.cpp
index b50534c..f8e8b7a 100644
--- a/mdflib/src/hophysicaldimension.cpp
+++ b/mdflib/src/hophysicaldimension.cpp
@@ -104,6 +104,7 @@ void HoPhysicalDimension::ToXml(IXmlNode& root_node) const {
 }
 
 void HoPhysicalDimension::FromXml(const IXmlNode& dim_node) {
+  HoNameDetails::FromXml(dim_node);
   IXmlNode::ChildList node_list;
   dim_node.GetChildList(node_list);
   identity_ = dim_node.Attribute<std::string>("ID", "");
diff --git a/mdflib/src/hounit.cpp b/mdflib/src/hounit.cpp
index bd39cd7..dd1ad19 100644
--- a/mdflib/src/hounit.cpp
+++ b/mdflib/src/hounit.cpp
@@ -73,6 +73,7 @@ void HoUnit::ToXml(IXmlNode& units_node) const {
 
 }
 void HoUnit::FromXml(const IXmlNode& unit_node) {
+  HoNameDetails::FromXml(unit_node);
   identity_ = unit_node.Attribute<std::string>("ID", "");
 
   IXmlNode::ChildList node_list;
-- 
2.43.0


From 13066e2d1a9bc6a1ac504cb27ee4775bee172cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:36 +0000
Subject: [PATCH 40/56] fix: write numbers to XML with all their digits

---
 mdflib/src/ixmlnode.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 93fcb3c..75d580f 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -7,6 +7,7 @@
  */
 #pragma once
 
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
@@ -206,6 +207,7 @@ template <typename T>
 void IXmlNode::Value(const T &value) {
   //  value_ = std::to_string(value);
   std::ostringstream temp;
+  temp.precision(std::numeric_limits<double>::max_digits10);
   temp << value;
   value_ = temp.str();
 }
@@ -270,6 +272,7 @@ inline std::string IXmlNode::Attribute(const std::string& key,
 template <typename T>
 void IXmlNode::SetAttribute(const std::string &key, const T &value) {
   std::ostringstream temp;
+  temp.precision(std::numeric_limits<double>::max_digits10);
   temp << value;
   attribute_list_.insert({key, temp.str()});
 }
-- 
2.43.0


From 61ec6fc735ebb58d4fb28e3460f216536fc22d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:49 +0000
Subject: [PATCH 41/56] fix: a history index that is no number does not lose
 the rest of the metadata

---
 mdflib/src/mdnumber.cpp            | 2 +-
 mdflib/src/mdstandardattribute.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/mdnumber.cpp b/mdflib/src/mdnumber.cpp
index bbb59f1..eb2d15b 100644
--- a/mdflib/src/mdnumber.cpp
+++ b/mdflib/src/mdnumber.cpp
@@ -195,7 +195,7 @@ void MdNumber::FromXml(const IXmlNode& number_node) {
     if (key == "ci" && !value.empty()) {
       try {
         ci_ = std::stoll(value);
-      } catch (const std::exception_ptr&) {
+      } catch (const std::exception&) {
         ci_ = 0;
       }
     } else if (key == "xml:lang") {
diff --git a/mdflib/src/mdstandardattribute.cpp b/mdflib/src/mdstandardattribute.cpp
index 57735ea..b7b1296 100644
--- a/mdflib/src/mdstandardattribute.cpp
+++ b/mdflib/src/mdstandardattribute.cpp
@@ -91,7 +91,7 @@ void MdStandardAttribute::FromXml(const IXmlNode& node) {
     if (key == "ci" && !value.empty()) {
       try {
         ci_ = std::stoll(value);
-      } catch (const std::exception_ptr&) {
+      } catch (const std::exception&) {
         ci_ = 0;
       }
     } else if (key == "xml:lang") {
-- 
2.43.0


From 094d606fbac6bdc09d2dcf1d8e95876eb59de3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:54 +0000
Subject: [PATCH 42/56] fix: setting an XML attribute again replaces its value

---
 mdflib/src/ixmlnode.cpp | 2 +-
 mdflib/src/ixmlnode.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/ixmlnode.cpp b/mdflib/src/ixmlnode.cpp
index d7a39ba..b66380d 100644
--- a/mdflib/src/ixmlnode.cpp
+++ b/mdflib/src/ixmlnode.cpp
@@ -214,7 +214,7 @@ void IXmlNode::Value(const std::string &value) {
 
 template <>
 void IXmlNode::SetAttribute(const std::string &key, const bool &value) {
-  attribute_list_.insert({key, value ? "true" : "false"});
+  attribute_list_[key] = value ? "true" : "false";
 }
 
 }  // namespace mdf
diff --git a/mdflib/src/ixmlnode.h b/mdflib/src/ixmlnode.h
index 75d580f..5509447 100644
--- a/mdflib/src/ixmlnode.h
+++ b/mdflib/src/ixmlnode.h
@@ -274,7 +274,7 @@ void IXmlNode::SetAttribute(const std::string &key, const T &value) {
   std::ostringstream temp;
   temp.precision(std::numeric_limits<double>::max_digits10);
   temp << value;
-  attribute_list_.insert({key, temp.str()});
+  attribute_list_[key] = temp.str();
 }
 
 template <typename T>
-- 
2.43.0


From c0a77045bf1168926699a766b962bdb811b6295b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:13 +0000
Subject: [PATCH 43/56] fix: names of the integer data types of harmonized
 objects

---
 mdflib/src/hoenumerates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/hoenumerates.cpp b/mdflib/src/hoenumerates.cpp
index 0c41c1e..30a28b5 100644
--- a/mdflib/src/hoenumerates.cpp
+++ b/mdflib/src/hoenumerates.cpp
@@ -11,8 +11,8 @@
 namespace {
 
 constexpr std::array<std::string_view, 15> kDataTypeList = {
-    "A_UNIT8", "A_INT8", "A_UINT16", "A_UNIT16",
-    "A_UNIT32", "A_INT32", "A_UINT64", "A_UNIT64",
+    "A_UINT8", "A_INT8", "A_UINT16", "A_INT16",
+    "A_UINT32", "A_INT32", "A_UINT64", "A_INT64",
     "A_FLOAT32", "A_FLOAT64", "A_ASCIISTRING", "A_UNICODE2STRING",
     "A_BYTEFIELD", "A_BITFIELD", "OTHER"
 };
-- 
2.43.0


From 1622e59a2d01e5b5db647af61ad2884a70f3f819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:13 +0000
Subject: [PATCH 44/56] fix: copy the texts and nested conversions a conversion
 refers to

---
 mdflib/src/cc4block.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdflib/src/cc4block.cpp b/mdflib/src/cc4block.cpp
index 99f43bf..42b9d6d 100644
--- a/mdflib/src/cc4block.cpp
+++ b/mdflib/src/cc4block.cpp
@@ -566,9 +566,11 @@ void Cc4Block::CopyFrom(const IChannelConversion& source) {
 
     for (const auto& source_ref : cc4->ref_list_) {
       if (!source_ref) {
+        // Keep the index of the references that follow
+        ref_list_.emplace_back(std::unique_ptr<MdfBlock>());
         continue;
       }
-      if (source_ref->BlockType() != "TX") {
+      if (source_ref->BlockType() != "CC") {
         const auto* source_tx4 = dynamic_cast<const Tx4Block*>(source_ref.get());
         if (auto tx4_block = std::make_unique<Tx4Block>();
             tx4_block && source_tx4 != nullptr) {
@@ -576,7 +578,7 @@ void Cc4Block::CopyFrom(const IChannelConversion& source) {
           tx4_block->Text(source_tx4->Text());
           ref_list_.emplace_back(std::move(tx4_block));
         }
-      } else if (source_ref->BlockType() == "CC") {
+      } else {
         const auto* source_cc4 = dynamic_cast<const Cc4Block*>(source_ref.get());
         if (auto cc4_block = std::make_unique<Cc4Block>();
             cc4_block && source_cc4 != nullptr) {
-- 
2.43.0


From f21cf2e94362a303c655460924389b5a94145e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:13 +0000
Subject: [PATCH 45/56] fix: copying the configuration of a MDF3 channel copies
 its conversion

---
 mdflib/src/cn3block.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdflib/src/cn3block.cpp b/mdflib/src/cn3block.cpp
index 4cd8d0d..eb87439 100644
--- a/mdflib/src/cn3block.cpp
+++ b/mdflib/src/cn3block.cpp
@@ -555,6 +555,13 @@ void Cn3Block::CopyFrom(const IChannel &source) {
 
 void Cn3Block::CopyConfigFrom(const IChannel &source) {
   Cn3Block::CopyFrom(source);
+  if (const IChannelConversion *source_cc = source.ChannelConversion();
+      source_cc != nullptr) {
+    if (IChannelConversion *dest_cc = CreateChannelConversion();
+        dest_cc != nullptr) {
+      dest_cc->CopyFrom(*source_cc);
+    }
+  }
 }
 
 }  // namespace mdf::detail
-- 
2.43.0


From c1fdba7215dc349c934b81a571245fb2036b936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:27 +0000
Subject: [PATCH 46/56] fix: copying a MDF4 channel keeps the properties of its
 unit

---
 mdflib/src/cn4block.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdflib/src/cn4block.cpp b/mdflib/src/cn4block.cpp
index 98828eb..dba03c2 100644
--- a/mdflib/src/cn4block.cpp
+++ b/mdflib/src/cn4block.cpp
@@ -1387,6 +1387,10 @@ void Cn4Block::CopyFrom(const IChannel &source) {
 
     name_ = cn4->name_;
     Unit(cn4->Unit());
+    if (cn4->unit_ && !cn4->unit_->IsTxtBlock()) {
+      // Keep all unit properties and not only its text
+      unit_ = std::make_unique<Md4Block>(cn4->unit_->XmlSnippet());
+    }
 
     if (const IMetaData* meta = cn4->MetaData();
         meta != nullptr) {
-- 
2.43.0


From bae4b7b84ffe245328ac30b4c5a650c8a1653923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 47/56] fix: a task deleted its source or destination when the
 temporary file was the same file

---
 mdflib/src/mdftask.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/mdflib/src/mdftask.cpp b/mdflib/src/mdftask.cpp
index 5c4c12b..628bd93 100644
--- a/mdflib/src/mdftask.cpp
+++ b/mdflib/src/mdftask.cpp
@@ -19,6 +19,16 @@
 
 using namespace std::filesystem;
 
+namespace {
+
+// Two different paths may name the same file.
+bool IsSameFile(const path& file1, const path& file2) {
+  std::error_code err;
+  return file1 == file2 || equivalent(file1, file2, err);
+}
+
+}  // namespace
+
 namespace mdf {
 
 MdfTask::~MdfTask() {
@@ -76,7 +86,7 @@ void MdfTask::CheckDestinationFile() const {
     }
 
     const path source(SourceFile());
-    if (source == dest) {
+    if (IsSameFile(source, dest)) {
       throw std::runtime_error(
         "Source and destination files cannot be the same"
       );
@@ -116,11 +126,16 @@ void MdfTask::CreateSourceTempFile() {
     path temp( temp_directory_path());
     temp /= source.filename();
 
-    if (temp == source) {
+    if (IsSameFile(temp, source)) {
       throw std::runtime_error(
         "Cannot create temporary file with same name as source file"
       );
     }
+    if (IsSameFile(temp, DestinationFile())) {
+      throw std::runtime_error(
+        "Cannot create temporary file with same name as destination file"
+      );
+    }
 
     remove(temp);
     copy(source, temp);
@@ -141,11 +156,16 @@ void MdfTask::CreateDestinationTempFile() {
     path temp( temp_directory_path());
     temp /= dest.filename();
 
-    if (temp == dest) {
+    if (IsSameFile(temp, dest)) {
       throw std::invalid_argument(
 "Cannot create temporary file with same path as the destination file. Path: "
     + DestinationFile() );
     }
+    if (IsSameFile(temp, SourceFile())) {
+      throw std::invalid_argument(
+"Cannot create temporary file with same path as the source file. Path: "
+    + SourceFile() );
+    }
 
     remove(temp);
 
-- 
2.43.0


From 3d22a12d2364992280d007598d7f3ac0d9ff85f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 48/56] fix: sorting into the working directory failed

---
 mdflib/src/mdftask.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/mdftask.cpp b/mdflib/src/mdftask.cpp
index 628bd93..9789523 100644
--- a/mdflib/src/mdftask.cpp
+++ b/mdflib/src/mdftask.cpp
@@ -78,7 +78,9 @@ void MdfTask::CheckDestinationFile() const {
     }
     // Create dessnation directory if it doesn't exist
     const path parent = dest.parent_path();
-    create_directories(parent);
+    if (!parent.empty()) {
+      create_directories(parent);
+    }
 
     if (exists(dest) && !OverwriteFile()) {
       throw std::runtime_error(
-- 
2.43.0


From 45411fe8c2c1d322403d811c9532f0324bdd3e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 49/56] fix: sorting reported success when the samples could
 not be read

---
 mdflib/src/sortingtask.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/sortingtask.cpp b/mdflib/src/sortingtask.cpp
index c1ded64..c650900 100644
--- a/mdflib/src/sortingtask.cpp
+++ b/mdflib/src/sortingtask.cpp
@@ -133,7 +133,9 @@ void SortingTask::SortFile() {
           "Failed to initialize the measurement. File: " + TempFile());
       }
       writer_->StartMeasurement(start_time_);
-      reader_->ReadData(*source_dg);
+      if (const bool read = reader_->ReadData(*source_dg); !read) {
+        throw std::runtime_error("Failed to read the sample data.");
+      }
       uint64_t stop_time = start_time_;
       for (auto& sample_observer : observer_list) {
         if (sample_observer && sample_observer->GetSampleTime() > stop_time) {
-- 
2.43.0


From 6dfff029202e6e6645c1fbf3060c7971681d19df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 50/56] fix: a failing validation kept the result of the
 previous run

---
 mdflib/src/validatingtask.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdflib/src/validatingtask.cpp b/mdflib/src/validatingtask.cpp
index bbaea8b..39aaf41 100644
--- a/mdflib/src/validatingtask.cpp
+++ b/mdflib/src/validatingtask.cpp
@@ -16,6 +16,7 @@ namespace mdf {
 
 void ValidatingTask::Run() {
   try {
+    Result(false);
     CheckSourceFile();
     CreateSourceTempFile();
     const bool all_valid = ValidateAllValues();
-- 
2.43.0


From d3730031b6e3c4fd7b78c36fe3494c927bd803f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:02 +0000
Subject: [PATCH 51/56] fix: a sample record observer reported the start time
 as the time of its last sample

---
 include/mdf/samplerecordobserver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdf/samplerecordobserver.h b/include/mdf/samplerecordobserver.h
index 8d6c02e..6267e34 100644
--- a/include/mdf/samplerecordobserver.h
+++ b/include/mdf/samplerecordobserver.h
@@ -24,7 +24,7 @@ public:
   virtual void OnSampleRecord() = 0;
 
   uint64_t GetBaseTime() const { return base_time_; }
-  uint64_t GetSampleTime() const { return base_time_; }
+  uint64_t GetSampleTime() const { return sample_time_; }
   uint64_t GetSampleIndex() const;
   void GetSampleRecord(SampleRecord& sample_record);
   const IChannelGroup& GetChannelGroup() const {
-- 
2.43.0


From b6c34a904c43a4ff7b425610726ad86603cc3282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:45 +0000
Subject: [PATCH 52/56] fix: store references to blocks that are written later

Channel hierarchy elements, channel array references and default X
references to DG, CG and CN blocks that get their file position after the
referencing block were stored as null links.
---
 mdflib/src/ca4block.cpp | 93 +++++++++++++++++++++++------------------
 mdflib/src/ca4block.h   |  2 +
 mdflib/src/ch4block.cpp | 20 +++++++++
 mdflib/src/ch4block.h   |  1 +
 mdflib/src/dg4block.cpp | 20 +++++++++
 mdflib/src/dg4block.h   |  1 +
 mdflib/src/hd4block.cpp | 15 +++++++
 7 files changed, 111 insertions(+), 41 deletions(-)

diff --git a/mdflib/src/ca4block.cpp b/mdflib/src/ca4block.cpp
index fe6234c..089950e 100644
--- a/mdflib/src/ca4block.cpp
+++ b/mdflib/src/ca4block.cpp
@@ -381,6 +381,57 @@ void Ca4Block::FindAllReferences(std::streambuf& buffer) {
   }
 }
 
+void Ca4Block::WriteLinks(std::streambuf& buffer) {
+  size_t link_index = kIndexArray;
+  if (Storage() == ArrayStorage::DgTemplate) {
+    for (size_t index = 0; index < ProductOfArray(); ++index) {
+      const int64_t data_position = index < data_links_.size() ?
+                                        data_links_[index] : 0;
+      UpdateLink(buffer, link_index, data_position);
+      ++link_index;
+    }
+  }
+  if ((Flags() & CaFlag::DynamicSize) != 0) {
+    link_index += WriteReferences(buffer, dynamic_size_list_,
+                                  Dimensions(), link_index);
+  }
+  if ((Flags() & CaFlag::InputQuantity) != 0) {
+    link_index += WriteReferences(buffer, input_quantity_list_,
+                                  Dimensions(), link_index);
+  }
+  if ((Flags() & CaFlag::OutputQuantity) != 0) {
+    WriteReference(buffer, output_quantity_, link_index);
+    link_index += 3;
+  }
+  if ((Flags() & CaFlag::ComparisonQuantity) != 0) {
+    WriteReference(buffer, comparison_quantity_, link_index);
+    link_index += 3;
+  }
+  if ((Flags() & CaFlag::Axis) != 0) {
+    for (size_t index = 0; index < Dimensions(); ++index) {
+      if (index < axis_conversion_list_.size()) {
+        const auto* cc_block = axis_conversion_list_[index];
+        const int64_t axis_position = cc_block != nullptr ? cc_block->Index() : 0;
+        UpdateLink(buffer,link_index,axis_position);
+      } else {
+        UpdateLink(buffer,link_index,0);
+      }
+      ++link_index;
+    }
+  }
+  if ((Flags() & CaFlag::Axis) != 0 && (Flags() & CaFlag::FixedAxis) == 0) {
+    link_index += WriteReferences(buffer, axis_list_,
+                                  Dimensions(), link_index);
+  }
+}
+
+void Ca4Block::UpdateReferences(std::streambuf& buffer) {
+  // Some of the referenced blocks may have been written after this block.
+  if (FilePosition() > 0) {
+    WriteLinks(buffer);
+  }
+}
+
 uint64_t Ca4Block::Write(std::streambuf& buffer) {
   const bool update = FilePosition() > 0;  // True if already written to file
   if (update) {
@@ -444,47 +495,7 @@ uint64_t Ca4Block::Write(std::streambuf& buffer) {
 
   link_list_.resize(nof_links, 0);
 
-  size_t link_index = kIndexArray;
-  if (Storage() == ArrayStorage::DgTemplate) {
-    for (size_t index = 0; index < ProductOfArray(); ++index) {
-      const int64_t data_position = index < data_links_.size() ?
-                                        data_links_[index] : 0;
-      UpdateLink(buffer, link_index, data_position);
-      ++link_index;
-    }
-  }
-  if ((Flags() & CaFlag::DynamicSize) != 0) {
-    link_index += WriteReferences(buffer, dynamic_size_list_,
-                                  Dimensions(), link_index);
-  }
-  if ((Flags() & CaFlag::InputQuantity) != 0) {
-    link_index += WriteReferences(buffer, input_quantity_list_,
-                                  Dimensions(), link_index);
-  }
-  if ((Flags() & CaFlag::OutputQuantity) != 0) {
-    WriteReference(buffer, output_quantity_, link_index);
-    link_index += 3;
-  }
-  if ((Flags() & CaFlag::ComparisonQuantity) != 0) {
-    WriteReference(buffer, comparison_quantity_, link_index);
-    link_index += 3;
-  }
-  if ((Flags() & CaFlag::Axis) != 0) {
-    for (size_t index = 0; index < Dimensions(); ++index) {
-      if (index < axis_conversion_list_.size()) {
-        const auto* cc_block = axis_conversion_list_[index];
-        const int64_t axis_position = cc_block != nullptr ? cc_block->Index() : 0;
-        UpdateLink(buffer,link_index,axis_position);
-      } else {
-        UpdateLink(buffer,link_index,0);
-      }
-      ++link_index;
-    }
-  }
-  if ((Flags() & CaFlag::Axis) != 0 && (Flags() & CaFlag::FixedAxis) == 0) {
-    link_index += WriteReferences(buffer, axis_list_,
-                                  Dimensions(), link_index);
-  }
+  WriteLinks(buffer);
 
   uint64_t bytes = MdfBlock::Write(buffer);
   bytes += WriteNumber(buffer, type_);
diff --git a/mdflib/src/ca4block.h b/mdflib/src/ca4block.h
index a3aaf2d..2007e59 100644
--- a/mdflib/src/ca4block.h
+++ b/mdflib/src/ca4block.h
@@ -63,6 +63,7 @@ class Ca4Block : public MdfBlock, public IChannelArray {
   void FindAllReferences(std::streambuf& buffer);
 
   uint64_t Write(std::streambuf& buffer) override;
+  void UpdateReferences(std::streambuf& buffer);
 
   void SetParentChannel(const Cn4Block* parent);
   void PrepareForWriting();
@@ -85,6 +86,7 @@ class Ca4Block : public MdfBlock, public IChannelArray {
 
   [[nodiscard]] CaTripleReference ReadReference(size_t index) const;
 
+  void WriteLinks(std::streambuf& buffer);
   void WriteReference(std::streambuf& buffer,
                       const CaTripleReference& ref, size_t start_index);
   size_t WriteReferences(std::streambuf& buffer,
diff --git a/mdflib/src/ch4block.cpp b/mdflib/src/ch4block.cpp
index e7a33bd..9b6a91b 100644
--- a/mdflib/src/ch4block.cpp
+++ b/mdflib/src/ch4block.cpp
@@ -100,6 +100,26 @@ uint64_t Ch4Block::Write(std::streambuf& buffer) {  // NOLINT
   return bytes;
 }
 
+void Ch4Block::UpdateReferences(std::streambuf& buffer) {  // NOLINT
+  // The referenced blocks may have been written after this block.
+  for (size_t index_n = 0;
+       index_n < nof_elements_ && index_n < element_list_.size(); ++index_n) {
+    const auto index = 4 + (index_n * 3);
+    const auto &element = element_list_[index_n];
+    UpdateLink(buffer, index,
+        element.data_group != nullptr ? element.data_group->Index() : 0);
+    UpdateLink(buffer, index + 1,
+        element.channel_group != nullptr ? element.channel_group->Index() : 0);
+    UpdateLink(buffer, index + 2,
+        element.channel != nullptr ? element.channel->Index() : 0);
+  }
+  for (auto &ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateReferences(buffer);
+    }
+  }
+}
+
 MdfBlock *Ch4Block::Find(int64_t index) const {  // NOLINT
   for (auto &ch : ch_list_) {
     if (!ch) {
diff --git a/mdflib/src/ch4block.h b/mdflib/src/ch4block.h
index a9a3f58..3655f15 100644
--- a/mdflib/src/ch4block.h
+++ b/mdflib/src/ch4block.h
@@ -45,6 +45,7 @@ class Ch4Block : public MdfBlock, public IChannelHierarchy {
   uint64_t Read(std::streambuf& buffer) override;
   uint64_t Write(std::streambuf& buffer) override;
   void FindReferencedBlocks(const Hd4Block &hd4);
+  void UpdateReferences(std::streambuf& buffer);
 
   [[nodiscard]] IChannelHierarchy *CreateChannelHierarchy() override;
   [[nodiscard]] std::vector<IChannelHierarchy *> ChannelHierarchies()
diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index c5be261..0fd1f4e 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <map>
 
+#include "ca4block.h"
 #include "dl4block.h"
 #include "dt4block.h"
 #include "dz4block.h"
@@ -153,6 +154,25 @@ uint64_t Dg4Block::Write(std::streambuf& buffer) {
   return bytes;
 }
 
+void Dg4Block::UpdateReferences(std::streambuf& buffer) {
+  for (auto& cg4 : cg_list_) {
+    if (!cg4) {
+      continue;
+    }
+    for (const auto& cn4 : cg4->Cn4()) {
+      if (!cn4) {
+        continue;
+      }
+      UpdateDefaultX(buffer, *cn4);
+      for (const auto& block : cn4->Cx4()) {
+        if (auto* ca4 = dynamic_cast<Ca4Block*>(block.get()); ca4 != nullptr) {
+          ca4->UpdateReferences(buffer);
+        }
+      }
+    }
+  }
+}
+
 uint64_t Dg4Block::DataSize() const { return DataListBlock::DataSize(); }
 
 Hl4Block* Dg4Block::CreateOrGetHl4() {
diff --git a/mdflib/src/dg4block.h b/mdflib/src/dg4block.h
index de40bd7..f3b05a7 100644
--- a/mdflib/src/dg4block.h
+++ b/mdflib/src/dg4block.h
@@ -53,6 +53,7 @@ class Dg4Block : public DataListBlock, public IDataGroup {
   void RecordIdSize(uint8_t id_size) override;
   uint8_t RecordIdSize() const override;
   uint64_t Write(std::streambuf& buffer) override;
+  void UpdateReferences(std::streambuf& buffer);
   uint64_t DataSize() const override;
 
   Hl4Block* CreateOrGetHl4();
diff --git a/mdflib/src/hd4block.cpp b/mdflib/src/hd4block.cpp
index d325fea..403ac66 100644
--- a/mdflib/src/hd4block.cpp
+++ b/mdflib/src/hd4block.cpp
@@ -543,6 +543,21 @@ uint64_t Hd4Block::Write(std::streambuf& buffer) {
   // in these cases.
   WriteLink4List(buffer, dg_list_, kIndexDg,
        UpdateOption::DoUpdateAllBlocks);  // Always rewrite last DG block
+
+  // The DG, CG and CN blocks have a file position now, so references to them
+  // can be stored.
+  const auto position = GetFilePosition(buffer);
+  for (auto& ch4 : ch_list_) {
+    if (ch4) {
+      ch4->UpdateReferences(buffer);
+    }
+  }
+  for (auto& dg4 : dg_list_) {
+    if (dg4) {
+      dg4->UpdateReferences(buffer);
+    }
+  }
+  SetFilePosition(buffer, position);
   return bytes;
 }
 
-- 
2.43.0


From 215456ede90b4f555d4482288f1bf5cd117805ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:25 +0000
Subject: [PATCH 53/56] fix: write all values of a MDF3 table conversion

Only the first half of the key and value pairs was written, so the reader
ran into the next block or the end of the file.
---
 mdflib/src/cc3block.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflib/src/cc3block.cpp b/mdflib/src/cc3block.cpp
index aed0c2a..a2835b0 100644
--- a/mdflib/src/cc3block.cpp
+++ b/mdflib/src/cc3block.cpp
@@ -322,7 +322,7 @@ uint64_t Cc3Block::Write(std::streambuf& buffer) {
     case 2:  // Tabular
       nof_values_ = static_cast<uint16_t>(value_list_.size() / 2);
       bytes += WriteNumber(buffer, nof_values_);
-      for (uint16_t par = 0; par < NofParameters(); ++par) {
+      for (uint16_t par = 0; par < 2 * nof_values_; ++par) {
         bytes += WriteNumber(buffer, Parameter(par));
       }
       break;
-- 
2.43.0


From e4fc38cbe63f23d393d5d3824705a0d441dc308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:53 +0000
Subject: [PATCH 54/56] fix: copy only the bytes of the value in
 MdfChannelObserverGetChannelValueAsArray

---
 mdflibrary/src/MdfExport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdflibrary/src/MdfExport.cpp b/mdflibrary/src/MdfExport.cpp
index 14dc970..dd9eb76 100644
--- a/mdflibrary/src/MdfExport.cpp
+++ b/mdflibrary/src/MdfExport.cpp
@@ -765,7 +765,8 @@ EXPORTFEATUREFUNC(bool, GetChannelValueAsArray, uint64_t sample,
                   uint8_t value[], size_t& size) {
   std::vector<uint8_t> vec;
   bool valid = observer->GetChannelValue(sample, vec);
-  if (value != nullptr && size >= vec.size()) memcpy(value, vec.data(), size);
+  if (value != nullptr && size >= vec.size())
+    memcpy(value, vec.data(), vec.size());
   size = vec.size();
   return valid;
 }
-- 
2.43.0


From 850fca6af81dacad5b85baa0a6498a820634e4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:53 +0000
Subject: [PATCH 55/56] fix: give the reference text in
 MdfChannelConversionGetReference

---
 mdflibrary/src/MdfExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdflibrary/src/MdfExport.cpp b/mdflibrary/src/MdfExport.cpp
index dd9eb76..f8b7dbb 100644
--- a/mdflibrary/src/MdfExport.cpp
+++ b/mdflibrary/src/MdfExport.cpp
@@ -658,7 +658,7 @@ EXPORTFEATUREFUNC(void, SetRange, double min, double max) {
 }
 EXPORTFEATUREFUNC(uint16_t, GetFlags) { return conv->Flags(); }
 EXPORTFEATUREFUNC(size_t, GetReference, uint16_t index, char* reference) {
-  if (reference) strcpy(reference, conv->Formula().c_str());
+  if (reference) strcpy(reference, conv->Reference(index).c_str());
   return conv->Reference(index).size();
 }
 EXPORTFEATUREFUNC(void, SetReference, uint16_t index, const char* reference) {
-- 
2.43.0


From 8d70243bfba208a7d863932970acfab6feb6fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:23 +0000
Subject: [PATCH 56/56] fix: count only complete records when an unfinalized
 file is read

FinalizeCgAndVlsdBlocks counted an incomplete last record as a sample and
threw when the file ends in a record ID or length field.
---
 mdflib/src/dg4block.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mdflib/src/dg4block.cpp b/mdflib/src/dg4block.cpp
index 0fd1f4e..a84c93a 100644
--- a/mdflib/src/dg4block.cpp
+++ b/mdflib/src/dg4block.cpp
@@ -768,7 +768,12 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
 
   SetFilePosition(buffer, dt_block->DataPosition());
   uint64_t count = 0;
-  while (count < dt_block->DataSize()) {
+  const uint64_t data_size = dt_block->DataSize();
+  while (count < data_size) {
+    // The last record may be incomplete. It shall not be counted.
+    if (count + rec_id_size_ > data_size) {
+      break;
+    }
     uint64_t record_id = 0;
     count += ReadRecordId(buffer,record_id);
     auto cg_find = counter_list.size() == 1 ?
@@ -788,7 +793,13 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
       // This is normally used for string,
       // and the CG block only includes one signal
       uint32_t length = 0;
+      if (count + sizeof(length) > data_size) {
+        break;
+      }
       count_bytes += ReadNumber(buffer, length);
+      if (count + count_bytes + length > data_size) {
+        break;
+      }
       //std::vector<uint8_t> record(length, 0);
       if (length > 0) {
         count_bytes += StepFilePosition(buffer, length);
@@ -796,6 +807,9 @@ bool Dg4Block::FinalizeCgAndVlsdBlocks(std::streambuf& buffer, bool update_cg,
     } else {
       // Normal fixed length records
       const size_t record_size = cg_block->NofDataBytes() + cg_block->NofInvalidBytes();
+      if (count + record_size > data_size) {
+        break;
+      }
       count_bytes += StepFilePosition(buffer, record_size);
     }
     ++counter.NofSamples;
-- 
2.43.0

