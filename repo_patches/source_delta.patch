From 701ef8f0e8a391b850d66e4d581c66500d258d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:08 +0000
Subject: [PATCH 01/40] fix: keep a SendFlow alive while its closing Session
 notifies it

A flow that was closed and released by the application is retained only by
its session; unbinding it inside onSessionDidClose() destroyed it while its
send queue was still being cleared (use after free).
---
 src/Session.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Session.cpp b/src/Session.cpp
index f2a7e56..17d1e9e 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -512,7 +512,8 @@ void Session::abortFlowsAndTimers()
 	while(not m_sendFlows.empty())
 	{
 		long firstName = m_sendFlows.first();
-		m_sendFlows.at(firstName)->onSessionDidClose(myself); // should unbind, removing itself from m_sendFlows
+		std::shared_ptr<SendFlow> flow = m_sendFlows.at(firstName); // keep alive through onSessionDidClose
+		flow->onSessionDidClose(myself); // should unbind, removing itself from m_sendFlows
 		assert(not m_sendFlows.has(firstName));
 	}
 	m_outstandingFrags.clear(); // safe since all SendFlow queues are empty
-- 
2.43.0


From 63103932f7654a8f6a4ec523e01dd47c35b0915a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 02/40] fix: do not stitch received fragments across message
 boundaries

insertFragment() linked a fragment to any neighbour with an adjacent sequence
number, even one that ends or begins another message. A peer could use that to
merge messages, to block delivery, or to leave a stale segment start behind
that made List::at() throw out of onReceivePacket().
---
 src/RecvFlow.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index db091f0..4a4db38 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -299,14 +299,18 @@ long RecvFlow::insertFragment(uintmax_t sequenceNumber, uint8_t flags, const uin
 	if((USERDATA_FRA_BEGIN != fra) and ((prevName = m_recv_buffer.prev(name)) > 0))
 	{
 		auto prevFragment = m_recv_buffer.at(prevName);
-		if(prevFragment->m_sequence_number == sequenceNumber - 1)
+		if(  (prevFragment->m_sequence_number == sequenceNumber - 1)
+		 and ((USERDATA_FRA_BEGIN == prevFragment->m_fra) or (USERDATA_FRA_MIDDLE == prevFragment->m_fra))
+		)
 			fragment->m_segmentStart = prevFragment->m_segmentStart;
 	}
 
 	if((USERDATA_FRA_END != fra) and ((nextName = m_recv_buffer.next(name)) > 0))
 	{
 		auto nextFragment = m_recv_buffer.at(nextName);
-		if(nextFragment->m_sequence_number == sequenceNumber + 1)
+		if(  (nextFragment->m_sequence_number == sequenceNumber + 1)
+		 and ((USERDATA_FRA_MIDDLE == nextFragment->m_fra) or (USERDATA_FRA_END == nextFragment->m_fra))
+		)
 			fragment->m_segmentEnd = nextFragment->m_segmentEnd;
 	}
 
-- 
2.43.0


From deb277a08bf6697d79e71d35bece73006ffe9a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:30 +0000
Subject: [PATCH 03/40] fix: signal onCumulativeAckDidMerge whenever the CSN
 closes the first gap

The range count was compared before and after adding a fragment, so a packet
whose forward sequence number closed one gap while its own sequence number
opened another one was not reported, and an external reorder buffer was not
advanced.
---
 src/RecvFlow.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 4a4db38..4adc7b7 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -225,7 +225,12 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 	if(fsn > m_forward_sn)
 		m_forward_sn = fsn;
 
-	uintmax_t preCSN = getCumulativeAckSequenceNumber();
+	// the first gap is closed if the CSN reaches the first sequence number above it
+	uintmax_t firstGapEnd = 0;
+	m_sequence_set.extentsDo([&firstGapEnd] (uintmax_t from, uintmax_t to) {
+		firstGapEnd = from;
+		return 0 == from;
+	});
 
 	m_sequence_set.add(0, fsn);
 	m_sequence_set.add(sequenceNumber);
@@ -255,17 +260,15 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 	tryDelivery(deliveryHint);
 
 	if(preRangeCount != postRangeCount)
-	{
 		ack_now = true;
 
-		if(  (postRangeCount < preRangeCount)
-		 and (RO_NETWORK == m_rxOrder)
-		 and (RF_OPEN == m_state)
-		 and (preCSN < getCumulativeAckSequenceNumber())
-		 and onCumulativeAckDidMerge
-		)
-			onCumulativeAckDidMerge();
-	}
+	if(  (firstGapEnd > 0)
+	 and (getCumulativeAckSequenceNumber() >= firstGapEnd)
+	 and (RO_NETWORK == m_rxOrder)
+	 and (RF_OPEN == m_state)
+	 and onCumulativeAckDidMerge
+	)
+		onCumulativeAckDidMerge();
 
 	if(RF_OPEN != m_state)
 		ack_now = true;
-- 
2.43.0


From a3ce9d40c19ca0532de1490382d058662ddd31ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:36 +0000
Subject: [PATCH 04/40] fix: keep an abandoned fragment queued while the far
 end may have a later one

If an abandoned, lost fragment is trimmed when everything after it has already
been sent, nothing is left to carry the advanced forward sequence number: the
receiver never learns that the gap is abandoned, later messages are not
delivered, and a closing flow never completes.
---
 src/SendFlow.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index cbc86aa..7d40f83 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -352,6 +352,11 @@ void SendFlow::trimSendQueue(Time now)
 		first->m_receipt->abandonIfNeeded(now);
 		if(not first->m_receipt->isAbandoned())
 			break;
+		// if the next fragment has already been sent then the receiver might have it (and so
+		// no more could ever be sent) but not know the forward sequence number has advanced. keep
+		// this one to send as an ABN marker.
+		if(m_send_queue.at(m_send_queue.next(m_send_queue.first()))->m_ever_sent)
+			break;
 		first->m_receipt->useCountDown();
 		m_send_queue.removeFirst();
 		anyTrimmed = true;
-- 
2.43.0


From 00f93ad68ca226b0db983329cc57db413248808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 05/40] fix: finish write receipts of a flow closed before its
 session opened

Messages queued on a flow that goes directly to closed (never bound to an open
session) were dropped without ever finishing their receipts.
---
 src/SendFlow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 7d40f83..7cdf962 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -196,6 +196,9 @@ void SendFlow::close()
 		gotoStateClosed();
 
 	m_rtmfp->sendFlowIsNotOpening(myself);
+
+	if((F_CLOSED == m_state) and not m_exception) // onExceptionReport() takes care of this itself
+		m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
 }
 
 Priority SendFlow::getPriority() const
-- 
2.43.0


From e0a9f873e468287278cd328be3cf8d76df82a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:23 +0000
Subject: [PATCH 06/40] fix: do not let an IIKeying override a session that
 opened while it was processed

---
 src/RTMFP.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/RTMFP.cpp b/src/RTMFP.cpp
index 9a54dae..c37323a 100644
--- a/src/RTMFP.cpp
+++ b/src/RTMFP.cpp
@@ -593,6 +593,7 @@ struct IIKeyingState {
 	std::shared_ptr<CryptoCert> m_cryptoCert;
 	std::shared_ptr<SessionCryptoKey> m_key;
 	std::shared_ptr<Session> m_session;
+	std::shared_ptr<Session> m_existingSession; // the open session with that address when the IIKeying arrived
 	Bytes m_skrc;
 	Bytes m_rikeying;
 	int     m_interfaceID;
@@ -632,6 +633,8 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 	if(m_waitingPerformCount >= MAX_WAITING_PERFORM_COUNT)
 		return; // we're too busy for this right now
 
+	state->m_existingSession = findOpenSessionByAddress(state->m_addr);
+
 	auto myself = share_ref(this);
 	m_waitingPerformCount++;
 	m_platform->perform(state->m_threadNum, [myself, state] {
@@ -655,6 +658,9 @@ void RTMFP::onIIKeying(uint32_t initiatorSessionID, const uint8_t *cookie, size_
 					auto overrideSession = myself->findOpenSessionByAddress(state->m_addr);
 					if(overrideSession)
 					{
+						if(overrideSession != state->m_existingSession)
+							return; // it opened while we were working on this IIKeying, so it's not stale
+
 						if(not state->m_cryptoCert->doesCertOverrideSession(overrideSession->m_cryptoCert))
 							return;
 
-- 
2.43.0


From 12e20f05c8782d2863555f67bdea4e6d06d924bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:22 +0000
Subject: [PATCH 07/40] fix: don't destroy a callback while it is running

---
 src/RecvFlow.cpp | 14 +++++++++-----
 src/SendFlow.cpp |  5 ++++-
 src/Session.cpp  | 10 ++++++----
 3 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/RecvFlow.cpp b/src/RecvFlow.cpp
index 4adc7b7..b52b4ff 100644
--- a/src/RecvFlow.cpp
+++ b/src/RecvFlow.cpp
@@ -268,7 +268,10 @@ void RecvFlow::onData(uint8_t flags, uintmax_t sequenceNumber, uintmax_t fsn, co
 	 and (RF_OPEN == m_state)
 	 and onCumulativeAckDidMerge
 	)
-		onCumulativeAckDidMerge();
+	{
+		auto onCumulativeAckDidMerge_f = onCumulativeAckDidMerge; // might be cleared during the callback
+		onCumulativeAckDidMerge_f();
+	}
 
 	if(RF_OPEN != m_state)
 		ack_now = true;
@@ -341,10 +344,11 @@ void RecvFlow::deliverMessage(long start)
 
 	auto fragment = m_recv_buffer.at(start);
 	uintmax_t sequenceNumber = fragment->m_sequence_number;
+	auto onMessage_f = onMessage; // might be cleared during the callback
 	if(USERDATA_FRA_WHOLE == fragment->m_fra)
 	{
-		if(onMessage)
-			onMessage(fragment->m_data.data(), fragment->m_data.size(), sequenceNumber, 1);
+		if(onMessage_f)
+			onMessage_f(fragment->m_data.data(), fragment->m_data.size(), sequenceNumber, 1);
 		m_recv_buffer.remove(start);
 		return;
 	}
@@ -379,8 +383,8 @@ void RecvFlow::deliverMessage(long start)
 		name = nextName;
 	}
 
-	if(onMessage)
-		onMessage(buf.data(), len, sequenceNumber, fragmentCount);
+	if(onMessage_f)
+		onMessage_f(buf.data(), len, sequenceNumber, fragmentCount);
 }
 
 void RecvFlow::tryDelivery(long hint)
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 7cdf962..1afbdcd 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -325,7 +325,10 @@ void SendFlow::doWritable()
 {
 	m_writablePending = false;
 	while(m_shouldNotifyWhenWritable and isWritable())
-		m_shouldNotifyWhenWritable = onWritable ? onWritable() : false;
+	{
+		auto onWritable_f = onWritable; // might be cleared during the callback
+		m_shouldNotifyWhenWritable = onWritable_f ? onWritable_f() : false;
+	}
 }
 
 void SendFlow::scheduleForTransmission()
diff --git a/src/Session.cpp b/src/Session.cpp
index 17d1e9e..368d8ff 100644
--- a/src/Session.cpp
+++ b/src/Session.cpp
@@ -1463,16 +1463,18 @@ void Session::onMobilityCheckReply(const uint8_t *chunk, const uint8_t *limit, u
 	rescheduleTransmission();
 
 	m_sendFlows.safeValuesDo([] (std::shared_ptr<SendFlow> flow) {
-		if(flow->onFarAddressDidChange)
-			flow->onFarAddressDidChange();
+		auto onFarAddressDidChange_f = flow->onFarAddressDidChange; // might be cleared during the callback
+		if(onFarAddressDidChange_f)
+			onFarAddressDidChange_f();
 		return true;
 	});
 
 	auto recvFlowsCopy = m_recvFlows;
 	for(auto it = recvFlowsCopy.begin(); it != recvFlowsCopy.end(); it++)
 	{
-		if(it->second->onFarAddressDidChange)
-			it->second->onFarAddressDidChange();
+		auto onFarAddressDidChange_f = it->second->onFarAddressDidChange; // might be cleared during the callback
+		if(onFarAddressDidChange_f)
+			onFarAddressDidChange_f();
 	}
 }
 
-- 
2.43.0


From 5f66030ed4900777e8614a389d3b67154d7cbe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:49 +0000
Subject: [PATCH 08/40] fix: a flow with no session can't be scheduled for
 transmission

---
 src/SendFlow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index 1afbdcd..ba1b5fe 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -333,7 +333,7 @@ void SendFlow::doWritable()
 
 void SendFlow::scheduleForTransmission()
 {
-	if(isMaybeReadyForTransmission())
+	if(m_session and isMaybeReadyForTransmission())
 		m_session->scheduleFlowForTransmission(share_ref(this), m_priority);
 }
 
-- 
2.43.0


From 9e0f2dcf209b1f0f47854158871ed55205233187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:27 +0000
Subject: [PATCH 09/40] fix: call receipts' onFinished only when the send queue
 is consistent

---
 include/rtmfp/WriteReceipt.hpp | 10 +++++
 include/rtmfp/rtmfp.hpp        |  3 +-
 src/SendFlow.cpp               | 35 +++++++++++-----
 src/WriteReceipt.cpp           | 73 +++++++++++++++++++++++++---------
 4 files changed, 91 insertions(+), 30 deletions(-)

diff --git a/include/rtmfp/WriteReceipt.hpp b/include/rtmfp/WriteReceipt.hpp
index 4638b8f..60a3de3 100644
--- a/include/rtmfp/WriteReceipt.hpp
+++ b/include/rtmfp/WriteReceipt.hpp
@@ -45,6 +45,10 @@ public:
 protected:
 	WriteReceipt() = delete;
 
+	bool basicAbandon(); // Answers true if just now abandoned. Doesn't call onFinished.
+	bool basicAbandonIfNeeded(Time now);
+	void notifyFinished(bool wasAbandoned);
+
 	Time   m_origin;
 	bool   m_started;
 	bool   m_abandoned;
@@ -58,6 +62,12 @@ public:
 	void useCountUp();
 	void useCountDown();
 	void start();
+
+	// Abandon without calling onFinished. Answer true if just now abandoned, and
+	// notifyAbandoned() must be called later when it's safe to call back to the user.
+	bool abandonQuietly();
+	bool abandonQuietlyIfNeeded(Time now);
+	void notifyAbandoned();
 };
 
 class WriteReceiptChain : public Object {
diff --git a/include/rtmfp/rtmfp.hpp b/include/rtmfp/rtmfp.hpp
index f0c8e3d..64aac2c 100644
--- a/include/rtmfp/rtmfp.hpp
+++ b/include/rtmfp/rtmfp.hpp
@@ -291,11 +291,12 @@ protected:
 	void doWritable();
 	void scheduleForTransmission();
 	bool isMaybeReadyForTransmission();
+	void abandonQuietlyIfNeeded(const std::shared_ptr<IssuerWriteReceipt> &receipt, Time now, bool force = false);
 	void trimSendQueue(Time now);
 	void scheduleTrimSendQueue();
 	uintmax_t findForwardSequenceNumber(Time now);
 	bool assembleData(PacketAssembler *packet, int pri);
-	void ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo);
+	void ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo, std::vector<std::shared_ptr<IssuerWriteReceipt> > &acked);
 	void onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t cumulativeAck, const uint8_t *disjointed, const uint8_t *limit);
 	void onExceptionReport(uintmax_t exceptionCode);
 	void setPersistTimer();
diff --git a/src/SendFlow.cpp b/src/SendFlow.cpp
index ba1b5fe..bb5b350 100644
--- a/src/SendFlow.cpp
+++ b/src/SendFlow.cpp
@@ -198,7 +198,7 @@ void SendFlow::close()
 	m_rtmfp->sendFlowIsNotOpening(myself);
 
 	if((F_CLOSED == m_state) and not m_exception) // onExceptionReport() takes care of this itself
-		m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+		m_send_queue.safeValuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
 }
 
 Priority SendFlow::getPriority() const
@@ -345,6 +345,14 @@ bool SendFlow::isMaybeReadyForTransmission()
 	return m_exception or (m_rx_buffer_size > m_outstanding_bytes);
 }
 
+void SendFlow::abandonQuietlyIfNeeded(const std::shared_ptr<IssuerWriteReceipt> &receipt, Time now, bool force)
+{
+	// the user can do anything in onFinished, including change the send queue or
+	// close the session, so don't call it from where that's not safe.
+	if(force ? receipt->abandonQuietly() : receipt->abandonQuietlyIfNeeded(now))
+		m_rtmfp->m_platform->perform(0, [receipt] { receipt->notifyAbandoned(); });
+}
+
 void SendFlow::trimSendQueue(Time now)
 {
 	bool anyTrimmed = false;
@@ -355,7 +363,7 @@ void SendFlow::trimSendQueue(Time now)
 		auto &first = m_send_queue.firstValue();
 		if(first->m_in_flight)
 			break;
-		first->m_receipt->abandonIfNeeded(now);
+		abandonQuietlyIfNeeded(first->m_receipt, now);
 		if(not first->m_receipt->isAbandoned())
 			break;
 		// if the next fragment has already been sent then the receiver might have it (and so
@@ -390,7 +398,7 @@ uintmax_t SendFlow::findForwardSequenceNumber(Time now)
 	auto &first = m_send_queue.firstValue();
 
 	if(not first->m_in_flight)
-		first->m_receipt->abandonIfNeeded(now);
+		abandonQuietlyIfNeeded(first->m_receipt, now);
 
 	if(not first->m_receipt->isAbandoned())
 		return first->m_sequence_number - 1;
@@ -446,8 +454,8 @@ bool SendFlow::assembleData(PacketAssembler *packet, int pri)
 		uint8_t flag_fin = frag->m_sequence_number == m_final_sn ? USERDATA_FLAG_FIN : 0;
 
 		if(frag->m_ever_sent and not frag->m_receipt->retransmit)
-			frag->m_receipt->abandon();
-		frag->m_receipt->abandonIfNeeded(now);
+			abandonQuietlyIfNeeded(frag->m_receipt, now, true);
+		abandonQuietlyIfNeeded(frag->m_receipt, now);
 		uint8_t flag_abn = frag->m_receipt->isAbandoned() ? USERDATA_FLAG_ABN : 0;
 
 		// departure from §3.6.2.3: we send a fragment even if abandoned (though with
@@ -522,7 +530,7 @@ overrun:
 	return false;
 }
 
-void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
+void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo, std::vector<std::shared_ptr<IssuerWriteReceipt> > &acked)
 {
 	while(name > 0)
 	{
@@ -547,7 +555,7 @@ void SendFlow::ackRange(long &name, uintmax_t ackFrom, uintmax_t ackTo)
 			m_outstanding_bytes -= frag->m_transmit_size;
 		}
 
-		frag->m_receipt->useCountDown();
+		acked.push_back(frag->m_receipt);
 
 		m_send_queue.remove(name);
 
@@ -576,8 +584,11 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 		m_persistTimer.reset();
 	}
 
+	auto self = share_ref(this);
+	std::vector<std::shared_ptr<IssuerWriteReceipt> > acked;
+
 	long name = m_send_queue.first();
-	ackRange(name, 0, cumulativeAck);
+	ackRange(name, 0, cumulativeAck, acked);
 
 	if(CHUNK_ACK_RANGES == chunkType)
 	{
@@ -600,7 +611,7 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 			ackCursor++;
 			uintmax_t rangeFrom = ackCursor + holesMinusOne + 1;
 			uintmax_t rangeTo = rangeFrom + receivedMinusOne;
-			ackRange(name, rangeFrom, rangeTo);
+			ackRange(name, rangeFrom, rangeTo, acked);
 
 			ackCursor = rangeTo;
 		}
@@ -621,6 +632,10 @@ void SendFlow::onAck(uint8_t chunkType, size_t bufferBytesAvailable, uintmax_t c
 		scheduleForTransmission();
 		queueWritableNotify();
 	}
+
+	// last, because this can call back to the user
+	for(auto it = acked.begin(); it != acked.end(); it++)
+		(*it)->useCountDown();
 }
 
 void SendFlow::onExceptionReport(uintmax_t exceptionCode)
@@ -635,7 +650,7 @@ void SendFlow::onExceptionReport(uintmax_t exceptionCode)
 	if(exception_f)
 		exception_f(exceptionCode);
 
-	m_send_queue.valuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
+	m_send_queue.safeValuesDo([] (std::shared_ptr<SendFrag> &frag) { frag->m_receipt->abandon(); return true; });
 
 	release();
 }
diff --git a/src/WriteReceipt.cpp b/src/WriteReceipt.cpp
index 1eb61d9..8d2031a 100644
--- a/src/WriteReceipt.cpp
+++ b/src/WriteReceipt.cpp
@@ -20,26 +20,14 @@ WriteReceipt::WriteReceipt(Time origin, Duration startWithin, Duration finishWit
 
 void WriteReceipt::abandon()
 {
-	if(m_useCount and not m_abandoned)
-	{
-		m_abandoned = true;
-		parent.reset();
-		if(onFinished)
-			onFinished(true);
-		onFinished = nullptr;
-	}
+	if(basicAbandon())
+		notifyFinished(true);
 }
 
 void WriteReceipt::abandonIfNeeded(Time now)
 {
-	if(m_abandoned)
-		return;
-
-	if( (now > finishBy)
-	 or ((not m_started) and (now > startBy))
-	 or (parent and parent->isAbandoned())
-	)
-		abandon();
+	if(basicAbandonIfNeeded(now))
+		notifyFinished(true);
 }
 
 void WriteReceipt::setStartWithin(Duration age)
@@ -77,6 +65,38 @@ bool WriteReceipt::isFinished() const
 	return (0 == m_useCount) or isAbandoned();
 }
 
+bool WriteReceipt::basicAbandon()
+{
+	if((0 == m_useCount) or m_abandoned)
+		return false;
+
+	m_abandoned = true;
+	parent.reset();
+	return true;
+}
+
+bool WriteReceipt::basicAbandonIfNeeded(Time now)
+{
+	if(m_abandoned)
+		return false;
+
+	if( (now > finishBy)
+	 or ((not m_started) and (now > startBy))
+	 or (parent and parent->isAbandoned())
+	)
+		return basicAbandon();
+
+	return false;
+}
+
+void WriteReceipt::notifyFinished(bool wasAbandoned)
+{
+	std::function<void(bool wasAbandoned)> finished_f;
+	std::swap(finished_f, onFinished);
+	if(finished_f)
+		finished_f(wasAbandoned);
+}
+
 // --- methods for the issuer
 
 void IssuerWriteReceipt::useCountUp()
@@ -89,9 +109,8 @@ void IssuerWriteReceipt::useCountDown()
 	if(0 == --m_useCount)
 	{
 		parent.reset();
-		if(onFinished)
-			onFinished(false);
-		onFinished = nullptr;
+		if(not m_abandoned)
+			notifyFinished(false);
 	}
 }
 
@@ -100,6 +119,22 @@ void IssuerWriteReceipt::start()
 	m_started = true;
 }
 
+bool IssuerWriteReceipt::abandonQuietly()
+{
+	return basicAbandon();
+}
+
+bool IssuerWriteReceipt::abandonQuietlyIfNeeded(Time now)
+{
+	return basicAbandonIfNeeded(now);
+}
+
+void IssuerWriteReceipt::notifyAbandoned()
+{
+	if(m_abandoned)
+		notifyFinished(true);
+}
+
 // --- WriteReceiptChain
 
 void WriteReceiptChain::append(std::shared_ptr<WriteReceipt> receipt)
-- 
2.43.0


From 6a4fd62cf9f10b3fcc394fc22960c9749cfba126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:00 +0000
Subject: [PATCH 10/40] fix: timers outliving a cleared TimerList mustn't refer
 to it

---
 src/Timer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 0a2d79a..449f6a8 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -244,6 +244,8 @@ void TimerList::removeTimer(const std::shared_ptr<Timer> &timer)
 
 void TimerList::clear()
 {
+	for(auto it = m_timers.begin(); it != m_timers.end(); it++)
+		(*it)->setTimerList(nullptr); // they can outlive us
 	m_timers.clear();
 }
 
-- 
2.43.0


From 32723366cc0f95abf364882e6cd04337897d7b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 11/40] fix: let go of the action of a timer rescheduled and
 then canceled by its own action

---
 src/Timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Timer.cpp b/src/Timer.cpp
index 449f6a8..61db398 100644
--- a/src/Timer.cpp
+++ b/src/Timer.cpp
@@ -128,7 +128,7 @@ void Timer::basicFire(const std::shared_ptr<Timer> &myself, Time now)
 		action(myself, now);
 	m_firing = false;
 
-	if(doesRecur() or m_rescheduled)
+	if((doesRecur() or m_rescheduled) and not isCanceled())
 	{
 		if(not m_rescheduled)
 		{
-- 
2.43.0


From a99ed60c0fdcb30b2658b2f58cd2f07c92f93bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:25 +0000
Subject: [PATCH 12/40] fix: tell the owner of a descriptor about a hang-up or
 error in EPollRunLoop

---
 src/EPollRunLoop.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/EPollRunLoop.cpp b/src/EPollRunLoop.cpp
index 083bfb6..b493487 100644
--- a/src/EPollRunLoop.cpp
+++ b/src/EPollRunLoop.cpp
@@ -152,9 +152,11 @@ void EPollRunLoop::run(Duration runInterval, Duration minSleep)
 			for(int x = 0; x < rv; x++)
 			{
 				Descriptor *descriptor = (Descriptor *)events[x].data.ptr;
-				if(events[x].events & EPOLLIN)
+				// EPOLLHUP and EPOLLERR are always reported (and again and again until attended to),
+				// and reading (or for an error, writing) won't block, same as for select().
+				if(events[x].events & (EPOLLIN | EPOLLHUP | EPOLLERR))
 					activatedReads.push(descriptor->m_items[READABLE]);
-				if(events[x].events & EPOLLOUT)
+				if(events[x].events & (EPOLLOUT | EPOLLERR))
 					activatedWrites.push(descriptor->m_items[WRITABLE]);
 				if(events[x].events & EPOLLERR)
 					activatedExceptions.push(descriptor->m_items[EXCEPTION]);
-- 
2.43.0


From ebc2fed33ec824cdc839fc177dd70118b75ba613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:15 +0000
Subject: [PATCH 13/40] fix: Performer::close() lets waiters proceed, and can't
 race with perform()

---
 src/Performer.cpp | 58 +++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/Performer.cpp b/src/Performer.cpp
index b0e7f7e..8eeda0e 100644
--- a/src/Performer.cpp
+++ b/src/Performer.cpp
@@ -32,6 +32,11 @@ struct Performer::Item {
 	{
 		if(m_task)
 			m_task();
+		complete();
+	}
+
+	void complete()
+	{
 		if(m_cond)
 		{
 			std::unique_lock<std::mutex> locked(*m_mutex);
@@ -68,8 +73,11 @@ Performer::~Performer()
 
 void Performer::close()
 {
-	if(not m_closed)
 	{
+		std::unique_lock<std::mutex> locked(m_mutex);
+
+		if(m_closed)
+			return;
 		m_closed = true;
 
 		if(m_runLoop)
@@ -77,35 +85,45 @@ void Performer::close()
 		m_runLoop = nullptr;
 		::close(m_pipe[READ_PIPE_IDX]);
 		::close(m_pipe[WRITE_PIPE_IDX]);
-
-		fireItems();
 	}
+
+	fireItems(); // doesn't perform anything anymore, but lets anyone waiting proceed
 }
 
 void Performer::perform(const Task &task, bool wait)
 {
-	if(m_closed)
-		return;
-
-	if(wait and m_runLoop->isRunningInThisThread())
-	{
-		fireItems();
-		if(task)
-			task();
-		return;
-	}
-
 	std::shared_ptr<Item> item = std::make_shared<Item>(task, wait);
+	bool performNow = false;
+
 	{
+		// the performer can be closed at any time by another thread, so the
+		// run loop and the pipe can only be used while holding the lock.
 		std::unique_lock<std::mutex> locked(m_mutex);
-		m_items.push(item);
+
+		if(m_closed)
+			return;
+
+		if(wait and m_runLoop->isRunningInThisThread())
+			performNow = true;
+		else
+		{
+			m_items.push(item);
+
+			if(not m_signaled)
+			{
+				uint8_t buf[1] {};
+				m_signaled = true;
+				(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+			}
+		}
 	}
 
-	if(not m_signaled)
+	if(performNow)
 	{
-		uint8_t buf[1] {};
-		m_signaled = true;
-		(void)write(m_pipe[WRITE_PIPE_IDX], buf, sizeof(buf));
+		fireItems();
+		if(task)
+			task();
+		return;
 	}
 
 	if(wait)
@@ -140,6 +158,8 @@ void Performer::fireItems()
 
 		if(not m_closed)
 			each->fire();
+		else
+			each->complete();
 	}
 }
 
-- 
2.43.0


From 5f1336aaea50cb38c4721bd7d4522899dc256bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:26 +0000
Subject: [PATCH 14/40] fix: removing an IndexSet from itself

---
 src/IndexSet.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/IndexSet.cpp b/src/IndexSet.cpp
index 07a87cc..b40acbd 100644
--- a/src/IndexSet.cpp
+++ b/src/IndexSet.cpp
@@ -268,6 +268,9 @@ void IndexSet::remove(uintmax_t anIndex)
 
 void IndexSet::remove(const IndexSet& other)
 {
+	if(&other == this)
+		return clear();
+
 	other.extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) { remove(fromIndex, toIndex); return true; });
 }
 
-- 
2.43.0


From ca674b46a60cf0d36bcbb93ea6d58705d99fcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:06 +0000
Subject: [PATCH 15/40] fix: IndexSet::indicesDo() with the largest index

---
 src/IndexSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/IndexSet.cpp b/src/IndexSet.cpp
index b40acbd..4d16c6c 100644
--- a/src/IndexSet.cpp
+++ b/src/IndexSet.cpp
@@ -152,12 +152,12 @@ bool IndexSet::extentsDo(const std::function<bool(uintmax_t fromIndex, uintmax_t
 bool IndexSet::indicesDo(const std::function<bool(uintmax_t eachIndex)> &each_f) const
 {
 	return extentsDo([&] (uintmax_t fromIndex, uintmax_t toIndex) {
-		for(uintmax_t eachIndex = fromIndex; eachIndex <= toIndex; eachIndex++)
+		for(uintmax_t eachIndex = fromIndex; each_f(eachIndex); eachIndex++)
 		{
-			if(not each_f(eachIndex))
-				return false;
+			if(eachIndex == toIndex) // test after, toIndex might be the largest integer
+				return true;
 		}
-		return true;
+		return false;
 	});
 }
 
-- 
2.43.0


From e8284ab09165267d379ed1a84b7837bb6f073e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:30 +0000
Subject: [PATCH 16/40] fix: adding a List's own value to it

---
 include/rtmfp/List.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/rtmfp/List.hpp b/include/rtmfp/List.hpp
index 9ff8e72..1d89a13 100644
--- a/include/rtmfp/List.hpp
+++ b/include/rtmfp/List.hpp
@@ -438,8 +438,9 @@ template <class T> long List<T>::basicAddBeforeOrAfter(long name, bool after)
 
 template <class T> long List<T>::addValueBeforeOrAfter(const T& val, long name, bool after)
 {
+	T tmp(val); // val might be in this list, and move if the list grows
 	long rv = basicAddBeforeOrAfter(name, after);
-	at(rv) = val;
+	at(rv) = tmp;
 	return rv;
 }
 
@@ -469,7 +470,7 @@ template <class T> size_t SumList<T>::sum() const
 template <class T> long SumList<T>::addValueBeforeOrAfter(const T& val, long name, bool after)
 {
 	long rv = List<T>::addValueBeforeOrAfter(val, name, after);
-	m_sum += m_size_f(val);
+	m_sum += m_size_f(this->at(rv));
 	return rv;
 }
 
-- 
2.43.0


From 38638e8ed822866e32da1145dcf40adbac1c7aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:51 +0000
Subject: [PATCH 17/40] fix: appending a List's values to itself

---
 include/rtmfp/List.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/rtmfp/List.hpp b/include/rtmfp/List.hpp
index 1d89a13..ca3fe70 100644
--- a/include/rtmfp/List.hpp
+++ b/include/rtmfp/List.hpp
@@ -326,8 +326,13 @@ template <class T> void List<T>::clear()
 
 template <class T> void List<T>::appendValuesFrom(const List<T>& other)
 {
+	long end = other.last(); // other might be this list
 	for(long name = other.first(); name > SENTINEL; name = other.next(name))
+	{
 		append(other.at(name));
+		if(name == end)
+			break;
+	}
 }
 
 template <class T> bool List<T>::valuesDo(const std::function<bool(T& value)> &pred)
-- 
2.43.0


From 603c51223f953610630295ab7fa39cfc6123c926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:35 +0000
Subject: [PATCH 18/40] fix: initialize ReorderBuffer's highest sequence number
 seen

---
 src/ReorderBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 591f309..9e79aa5 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -21,7 +21,8 @@ ReorderBuffer::Message::Message(const uint8_t *payload, size_t len, uintmax_t se
 
 ReorderBuffer::ReorderBuffer(Duration windowPeriod) :
 	m_csn(0),
-	m_deliveredThrough(0)
+	m_deliveredThrough(0),
+	m_highestSeen(0)
 {
 	m_reorderPeriod = std::max(windowPeriod, Duration(0));
 }
-- 
2.43.0


From 60f0b84a59a0bf3bd3465e2aefc98235c3f48199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:01 +0000
Subject: [PATCH 19/40] fix: agree on when a message's reorder window ends

---
 src/ReorderBuffer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 9e79aa5..8e4be41 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -168,12 +168,10 @@ void ReorderBuffer::scheduleDelivery()
 // advance the CSN to the highest sequence number seen in the reorder period
 void ReorderBuffer::findCSN(Time now)
 {
-	Time deadline = now - m_reorderPeriod;
-
 	while(not m_messagesByTime.empty())
 	{
 		auto &first = m_messagesByTime.firstValue();
-		if(shouldDeliverNow(first->m_sequenceNumber) or (first->m_rxTime <= deadline))
+		if(shouldDeliverNow(first->m_sequenceNumber) or (first->m_rxTime + m_reorderPeriod <= now)) // same expression as the delivery timer, in case of rounding
 		{
 			m_csn = std::max(m_csn, _lastSN(first->m_sequenceNumber, first->m_fragmentCount));
 			m_messagesByTime.removeFirst();
-- 
2.43.0


From 5c0d99aaa56411b1a4219e381dd3e2f901b70a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:03 +0000
Subject: [PATCH 20/40] fix: let ReorderBuffer's callback use (and close,
 release or retune) the buffer

---
 src/ReorderBuffer.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ReorderBuffer.cpp b/src/ReorderBuffer.cpp
index 8e4be41..5905d2d 100644
--- a/src/ReorderBuffer.cpp
+++ b/src/ReorderBuffer.cpp
@@ -69,8 +69,10 @@ void ReorderBuffer::insert(const uint8_t *bytes, size_t len, uintmax_t sequenceN
 
 	if(shouldDeliverNow(sequenceNumber))
 	{
+		retain();
 		deliverMessage(bytes, len, sequenceNumber, fragmentCount);
 		tryDeliver();
+		release();
 	}
 	else
 		queueMessage(bytes, len, sequenceNumber, fragmentCount);
@@ -113,15 +115,21 @@ void ReorderBuffer::deliverMessage(const uint8_t *payload, size_t len, uintmax_t
 {
 	uintmax_t lastSequenceNumber = _lastSN(sequenceNumber, fragmentCount);
 
-	if(onMessage)
-		onMessage(payload, len, sequenceNumber, fragmentCount, isLate(lastSequenceNumber));
+	bool late = isLate(lastSequenceNumber);
 
+	// first, because anything can happen during the callback
 	m_csn = std::max(m_csn, lastSequenceNumber);
 	m_deliveredThrough = std::max(m_deliveredThrough, lastSequenceNumber);
+
+	auto onMessage_f = onMessage; // might be cleared during the callback
+	if(onMessage_f)
+		onMessage_f(payload, len, sequenceNumber, fragmentCount, late);
 }
 
 void ReorderBuffer::tryDeliver()
 {
+	retain();
+
 	Time now = getCurrentTime();
 	findCSN(now); // advance m_csn for old messages
 	
@@ -130,19 +138,20 @@ void ReorderBuffer::tryDeliver()
 		auto it = m_messagesBySequence.begin();
 		if(shouldDeliverNow(it->first))
 		{
-			auto &message_ptr = it->second;
+			auto message_ptr = it->second;
+			m_messagesBySequence.erase(it); // first, because anything can happen during the callback
 			deliverMessage(message_ptr->m_payload.data(), message_ptr->m_payload.size(), message_ptr->m_sequenceNumber, message_ptr->m_fragmentCount);
-			m_messagesBySequence.erase(it);
+			findCSN(now); // also trim delivered ones from m_messagesByTime
 		}
 		else
 			break;
 	}
 
-	findCSN(now); // also trim delivered ones from m_messagesByTime
-
 	scheduleDelivery();
 
 	assert(m_messagesBySequence.empty() == m_messagesByTime.empty());
+
+	release();
 }
 
 void ReorderBuffer::queueMessage(const uint8_t *payload, size_t len, uintmax_t sequenceNumber, size_t fragmentCount)
-- 
2.43.0


From 47fba8baf2320cf958acb4c7e1383963e3554d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:24 +0000
Subject: [PATCH 21/40] fix: flow sync count must not be sign-extended

---
 src/FlowSyncManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FlowSyncManager.cpp b/src/FlowSyncManager.cpp
index 0d8c2e0..021dfa7 100644
--- a/src/FlowSyncManager.cpp
+++ b/src/FlowSyncManager.cpp
@@ -90,7 +90,7 @@ size_t FlowSyncManager::parseUserCommandPayload(const uint8_t *payload, const ui
 		return 0;
 
 	syncID = (payload[0] << 24) | (payload[1] << 16) | (payload[2] << 8) | payload[3];
-	count = (payload[4] << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7];
+	count = (uint32_t)((payload[4] << 24) | (payload[5] << 16) | (payload[6] << 8) | payload[7]); // don't sign-extend
 
 	return 8;
 }
-- 
2.43.0


From db128252e61bd986f75ee9f5b5bb2e5bcc2ece95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:46 +0000
Subject: [PATCH 22/40] fix: parse URIs without std::regex, which overflows the
 stack on long input

---
 src/URIParse.cpp | 108 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 78 insertions(+), 30 deletions(-)

diff --git a/src/URIParse.cpp b/src/URIParse.cpp
index a3a201a..819648d 100644
--- a/src/URIParse.cpp
+++ b/src/URIParse.cpp
@@ -4,7 +4,7 @@
 #include <cctype>
 #include <cstring>
 
-#include <regex>
+#include <algorithm>
 
 #include "../include/rtmfp/Hex.hpp"
 #include "../include/rtmfp/URIParse.hpp"
@@ -16,40 +16,88 @@ URIParse::URIParse(const std::string &uri_)
 	parse(uri_);
 }
 
+// Note: std::regex implementations can recurse for each character and overflow
+// the stack on long (potentially hostile) inputs, so match the parts by hand.
+
+static bool _isOneLine(const std::string &str, size_t pos = 0)
+{
+	return std::string::npos == str.find_first_of("\r\n", pos);
+}
+
 void URIParse::parse(const std::string &uri_)
 {
+	*this = URIParse();
 	uri = uri_;
 
-	std::smatch parts;
-	std::regex_match(uri_, parts, std::regex("^(([a-zA-Z][^:/?#]*):)?([^?#]*)?(\\?([^#]*))?(#(.*))?"));
-	schemePart = parts[1];
-	scheme = parts[2];
+	// ^(([a-zA-Z][^:/?#]*):)?([^?#]*)?(\?([^#]*))?(#(.*))?
+	size_t fragmentBegin = std::min(uri.find('#'), uri.size());
+	if(_isOneLine(uri, fragmentBegin))
+	{
+		size_t hierBegin = 0;
+		size_t schemeEnd = uri.find_first_of(":/?#");
+		if((std::string::npos != schemeEnd) and (':' == uri[schemeEnd]) and (((uri[0] >= 'a') and (uri[0] <= 'z')) or ((uri[0] >= 'A') and (uri[0] <= 'Z'))))
+		{
+			hierBegin = schemeEnd + 1;
+			schemePart = uri.substr(0, hierBegin);
+			scheme = uri.substr(0, schemeEnd);
+		}
+
+		size_t queryBegin = std::min(uri.find('?', hierBegin), fragmentBegin);
+		hierpart = uri.substr(hierBegin, queryBegin - hierBegin);
+
+		queryPart = uri.substr(queryBegin, fragmentBegin - queryBegin);
+		if(not queryPart.empty())
+			query = queryPart.substr(1);
+
+		fragmentPart = uri.substr(fragmentBegin);
+		if(not fragmentPart.empty())
+			fragment = fragmentPart.substr(1);
+	}
 	canonicalScheme = lowercase(scheme);
-	hierpart = parts[3];
-	queryPart = parts[4];
-	query = parts[5];
-	fragmentPart = parts[6];
-	fragment = parts[7];
-
-	std::smatch hierparts;
-	std::regex_match(hierpart, hierparts, std::regex("^(//([^/]*))?(.*)"));
-	authorityPart = hierparts[1];
-	authority = hierparts[2];
-	path = hierparts[3];
-
-	std::smatch authparts;
-	std::regex_match(authority, authparts, std::regex("^((([^:@]*)(:([^@]*))?)@)?(.*)"));
-	userinfoPart = authparts[1];
-	userinfo = authparts[2];
-	user = authparts[3];
-	passwordPart = authparts[4];
-	password = authparts[5];
-	hostinfo = authparts[6];
-
-	std::smatch hostparts;
-	std::regex_match(hostinfo, hostparts, std::regex("^((\\[([^\\]]*)?\\]))?([^:]*)?(:([0-9]+))?"));
-	host = std::string(hostparts[3]).empty() ? hostparts[4] : hostparts[3];
-	port = hostparts[6];
+
+	// ^(//([^/]*))?(.*)
+	size_t pathBegin = 0;
+	if(0 == hierpart.compare(0, 2, "//"))
+		pathBegin = std::min(hierpart.find('/', 2), hierpart.size());
+	if(_isOneLine(hierpart, pathBegin))
+	{
+		authorityPart = hierpart.substr(0, pathBegin);
+		if(not authorityPart.empty())
+			authority = authorityPart.substr(2);
+		path = hierpart.substr(pathBegin);
+	}
+
+	// ^((([^:@]*)(:([^@]*))?)@)?(.*)
+	size_t at = authority.find('@');
+	size_t hostinfoBegin = (std::string::npos == at) ? 0 : at + 1;
+	if(_isOneLine(authority, hostinfoBegin))
+	{
+		userinfoPart = authority.substr(0, hostinfoBegin);
+		if(not userinfoPart.empty())
+			userinfo = authority.substr(0, at);
+		user = userinfo.substr(0, userinfo.find(':'));
+		passwordPart = userinfo.substr(user.size());
+		if(not passwordPart.empty())
+			password = passwordPart.substr(1);
+		hostinfo = authority.substr(hostinfoBegin);
+	}
+
+	// ^((\[([^\]]*)?\]))?([^:]*)?(:([0-9]+))?
+	size_t bracketEnd = 0;
+	if('[' == hostinfo[0])
+		bracketEnd = hostinfo.find(']') + 1; // 0 if not found
+	size_t portBegin = std::min(hostinfo.find(':', bracketEnd), hostinfo.size());
+	std::string portPart = hostinfo.substr(portBegin);
+	if(portPart.empty() or ((portPart.size() > 1) and (std::string::npos == portPart.find_first_not_of("0123456789", 1))))
+	{
+		if(bracketEnd)
+			host = hostinfo.substr(1, bracketEnd - 2);
+		if(host.empty())
+			host = hostinfo.substr(bracketEnd, portBegin - bracketEnd);
+		if(not portPart.empty())
+			port = portPart.substr(1);
+	}
+
 	effectivePort = port;
 
 	if((not scheme.empty()) and not hostinfo.empty())
-- 
2.43.0


From 35f2f5b4d73ea89f89acb777687e71898492ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:42 +0000
Subject: [PATCH 23/40] fix: refuse textual addresses with an out-of-range port
 or trailing characters

---
 src/Address.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/Address.cpp b/src/Address.cpp
index 256a347..ca0815d 100644
--- a/src/Address.cpp
+++ b/src/Address.cpp
@@ -342,27 +342,39 @@ static size_t _count_colons(const char *src)
 bool Address::setFromPresentation(const char *src, bool withPort)
 {
 	char ip[45+1]; // INET6_ADDRSTRLEN is 46, explicit here to match sscanf use below
-	int port = 0;
+	char portDigits[5+1];
+	unsigned port = 0;
+	int end = -1; // set when everything up to there matched
 	int family = _count_colons(src) > 1 ? AF_INET6 : AF_INET;
 
+	// The uses of sscanf() in this function are safe because all string
+	// conversions specify a maximum field width that fits in the destination
+	// array including the terminating NUL.
+
 	if(withPort)
 	{
-		// The uses of sscanf() in this function are safe because all string
-		// conversions specify a maximum field width that fits in the destination
-		// array including the terminating NUL.
-
-		if(2 != sscanf(src, "[%45[0-9a-fA-F:.]]:%d", ip, &port))
+		sscanf(src, "[%45[0-9a-fA-F:.]]:%5[0-9]%n", ip, portDigits, &end);
+		if(end < 0)
 		{
 			if(AF_INET6 == family)
 				return false;
 
-			if(2 != sscanf(src, "%45[0-9.]:%d", ip, &port))
-				return false;
+			sscanf(src, "%45[0-9.]:%5[0-9]%n", ip, portDigits, &end);
 		}
+
+		if((end < 0) or src[end])
+			return false; // incomplete or trailing garbage
+
+		if((1 != sscanf(portDigits, "%u", &port)) or (port > 65535))
+			return false;
 	}
 	else
 	{
-		if((1 != sscanf(src, "[%45[^]]]", ip)) and (1 != sscanf(src, "%45s", ip)))
+		sscanf(src, "[%45[^]]]%n", ip, &end);
+		if(end < 0)
+			sscanf(src, "%45[0-9a-fA-F:.]%n", ip, &end);
+
+		if((end < 0) or src[end])
 			return false;
 	}
 
-- 
2.43.0


From e2696c340c13317533bd88fe62d4b7395587c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:28 +0000
Subject: [PATCH 24/40] fix: AMF0Array::remove: a count up to SIZE_MAX means to
 the end

---
 src/AMF.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AMF.cpp b/src/AMF.cpp
index a608dde..629d92e 100644
--- a/src/AMF.cpp
+++ b/src/AMF.cpp
@@ -842,9 +842,9 @@ void AMF0Array::reset(uint32_t index)
 
 void AMF0Array::remove(uint32_t fromIndex, size_t count)
 {
-	size_t limit = std::min(fromIndex + count, size());
-	if((limit < fromIndex) or (fromIndex >= limit))
+	if(fromIndex >= size())
 		return;
+	size_t limit = fromIndex + std::min(count, size() - fromIndex);
 	m_members.erase(m_members.begin() + fromIndex, m_members.begin() + limit);
 }
 
-- 
2.43.0


From ed60617ec749f3eb85737498c8b2b1503dbaa449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:55 +0000
Subject: [PATCH 25/40] fix: Media: refuse a header whose presentation time
 would wrap

---
 src/Media.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Media.cpp b/src/Media.cpp
index f76184d..d3ed0ef 100644
--- a/src/Media.cpp
+++ b/src/Media.cpp
@@ -391,7 +391,11 @@ size_t Media::basicParseHeader(const uint8_t *message, size_t len, bool *outRAI,
 		ptsTicks = dtsTicks - offsetTicks;
 	}
 	else
+	{
 		ptsTicks = dtsTicks + offsetTicks;
+		if(ptsTicks < dtsTicks)
+			return 0;
+	}
 
 	if(outDTSTicks)
 		*outDTSTicks = dtsTicks;
-- 
2.43.0


From d59726b19d4fd84b56c8055d0e1e7dd786fbb455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:22 +0000
Subject: [PATCH 26/40] fix: FlashCryptoKey: refuse a second responder keying
 component

---
 src/FlashCryptoAdapter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 4dae557..7919857 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -734,6 +734,9 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 {
 	const uint8_t *componentLimit = responderComponent + len;
 
+	if(m_complete)
+		return false; // keys and nonces are already fixed
+
 	// try to fail on cheaper stuff first
 
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-- 
2.43.0


From e8835e7b2115f7f33a5597068b3f9a513049355e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:49 +0000
Subject: [PATCH 27/40] fix: FlashCryptoKey: a refused responder component must
 not change the negotiated settings

---
 src/FlashCryptoAdapter.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/FlashCryptoAdapter.cpp b/src/FlashCryptoAdapter.cpp
index 7919857..df2f2d4 100644
--- a/src/FlashCryptoAdapter.cpp
+++ b/src/FlashCryptoAdapter.cpp
@@ -739,20 +739,22 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 
 	// try to fail on cheaper stuff first
 
+	// don't commit any negotiated setting until the component is good
+	bool sseqSendAlways = m_sseqSendAlways;
+	bool sseqRecvRequired = m_sseqRecvRequired;
+	bool hmacSendAlways = m_hmacSendAlways;
+	bool hmacRecvRequired = m_hmacRecvRequired;
+
 	uint8_t sseqFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_SSEQ_NEGOTIATION);
-	if(not negotiateFlags(sseqFlags, m_sseqSendAlways, m_sseqRecvRequired))
+	if(not negotiateFlags(sseqFlags, sseqSendAlways, sseqRecvRequired))
 		return false;
 
 	uintmax_t hmacRxLen = 0; // an illegal value if receive is required
 	uint8_t hmacFlags = negotiationOptionSearch(responderComponent, componentLimit, KEYING_OPTION_HMAC_NEGOTIATION, &hmacRxLen);
-	if(not negotiateFlags(hmacFlags, m_hmacSendAlways, m_hmacRecvRequired))
+	if(not negotiateFlags(hmacFlags, hmacSendAlways, hmacRecvRequired))
+		return false;
+	if(hmacRecvRequired and ((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH)))
 		return false;
-	if(m_hmacRecvRequired)
-	{
-		if((hmacRxLen < FlashCryptoAdapter::MIN_HMAC_LENGTH) or (hmacRxLen > FlashCryptoAdapter::MAX_HMAC_LENGTH))
-			return false;
-		m_rxHMACLength = hmacRxLen;
-	}
 
 	if(m_publicKeyNeeded)
 	{
@@ -772,6 +774,13 @@ bool FlashCryptoKey::initiatorCombineResponderKeyingComponent(const uint8_t *res
 	}
 	// else we already computed the DH shared secret from a public key in their certificate
 
+	m_sseqSendAlways = sseqSendAlways;
+	m_sseqRecvRequired = sseqRecvRequired;
+	m_hmacSendAlways = hmacSendAlways;
+	m_hmacRecvRequired = hmacRecvRequired;
+	if(m_hmacRecvRequired)
+		m_rxHMACLength = hmacRxLen;
+
 	// this should always succeeed unless something terrible is happening
 	if(not computeKeysAndNonces(m_sknc.data(), m_sknc.size(), responderComponent, len))
 		return false;
-- 
2.43.0


From e881fcd9eaf4a651f6fec4571973bdc40cadea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:16 +0000
Subject: [PATCH 28/40] fix: DH_Context_OpenSSL: count bits of the public key
 from the most significant

---
 src/FlashCryptoAdapter_OpenSSL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FlashCryptoAdapter_OpenSSL.cpp b/src/FlashCryptoAdapter_OpenSSL.cpp
index a407959..d91da6e 100644
--- a/src/FlashCryptoAdapter_OpenSSL.cpp
+++ b/src/FlashCryptoAdapter_OpenSSL.cpp
@@ -381,11 +381,11 @@ protected:
 
 			for(int bit = 0; bit < 8; bit++)
 			{
-				if(b & 1)
+				if(b & 0x80)
 					num1++;
 				else if(num1) // don't count leading 0s
 					num0++;
-				b >>= 1;
+				b <<= 1;
 			}
 		}
 
-- 
2.43.0


From 2ca685df5bc2e33d7db1ef4bdb34635c365d855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 29/40] fix: RedirectorClient: authenticate before the
 application can send from its status callback

---
 src/RedirectorClient.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 66ee433..5f5760c 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -348,13 +348,14 @@ void RedirectorClient::sendLoadFactor()
 
 void RedirectorClient::onConnected()
 {
+	m_send->setSessionKeepalivePeriod(m_keepalivePeriod);
+	m_send->setSessionRetransmitLimit(m_retransmitLimit);
+	m_send->setSessionFIHelloMode(m_responseMode);
+	sendAuth(); // before anything sent from the status callback
+
 	setStatus(STATUS_CONNECTED);
 	if(isConnected()) // still, could have changed during callback
 	{
-		m_send->setSessionKeepalivePeriod(m_keepalivePeriod);
-		m_send->setSessionRetransmitLimit(m_retransmitLimit);
-		m_send->setSessionFIHelloMode(m_responseMode);
-		sendAuth();
 		sendSettingsIfActive();
 		sendDrainingIfInactive();
 		sendLoadFactor();
-- 
2.43.0


From 6602869944ecef978f06615d3ba289fd03fa0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:47 +0000
Subject: [PATCH 30/40] fix: RedirectorClient: keep a callback alive while it
 runs

---
 src/RedirectorClient.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 5f5760c..9a2bc0d 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -251,8 +251,9 @@ void RedirectorClient::closeFlows()
 void RedirectorClient::setStatus(Status status)
 {
 	m_status = status;
-	if(onStatus)
-		onStatus(m_status);
+	auto onStatus_f = onStatus; // close() in the callback clears onStatus
+	if(onStatus_f)
+		onStatus_f(status);
 }
 
 void RedirectorClient::doConnect()
@@ -399,13 +400,20 @@ void RedirectorClient::onMessage(const uint8_t *bytes, size_t len)
 		{
 		case CMD_REFLEXIVE_ADDR_REPORT:
 			m_reflexiveAddressValid = m_reflexiveAddress.setFromEncoding(cursor, limit);
-			if(m_reflexiveAddressValid and onReflexiveAddress)
-				onReflexiveAddress(m_reflexiveAddress);
+			if(m_reflexiveAddressValid)
+			{
+				auto onReflexiveAddress_f = onReflexiveAddress; // close() in the callback clears onReflexiveAddress
+				if(onReflexiveAddress_f)
+					onReflexiveAddress_f(m_reflexiveAddress);
+			}
 			break;
 
 		case CMD_USER_DATA:
-			if(onUserData)
-				onUserData(cursor, limit - cursor);
+			{
+				auto onUserData_f = onUserData; // close() in the callback clears onUserData
+				if(onUserData_f)
+					onUserData_f(cursor, limit - cursor);
+			}
 			break;
 
 		default:
-- 
2.43.0


From a20ef6a6a3e4b835271dc5342bf3f4949f1b4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:14 +0000
Subject: [PATCH 31/40] fix: RedirectorClient: define getKeepalivePeriod

---
 src/RedirectorClient.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/RedirectorClient.cpp b/src/RedirectorClient.cpp
index 9a2bc0d..6bb3901 100644
--- a/src/RedirectorClient.cpp
+++ b/src/RedirectorClient.cpp
@@ -71,6 +71,11 @@ void RedirectorClient::setKeepalivePeriod(Duration t)
 		m_send->setSessionKeepalivePeriod(m_keepalivePeriod);
 }
 
+Duration RedirectorClient::getKeepalivePeriod() const
+{
+	return m_keepalivePeriod;
+}
+
 void RedirectorClient::setActive(bool active)
 {
 	bool update = active != m_active;
-- 
2.43.0


From 06d78f384f6e1c86d83a19d8e8b9ffc88ef8b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:41 +0000
Subject: [PATCH 32/40] fix: TCConnection: a stream ID is at least 1

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 9e5ec4a..d4a117f 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -93,7 +93,7 @@ std::shared_ptr<TCStream> TCConnection::createStream()
 	basicTransact([this, netStream] (bool success, std::shared_ptr<AMF0> result) {
 		if(  (success)
 		 and (result)
-		 and (result->doubleValue() > 0)
+		 and (result->doubleValue() >= 1.0)
 		 and (result->doubleValue() <= double(UINT32_MAX))
 		 and (0 == m_netStreams.count(uint32_t(result->doubleValue())))
 		)
-- 
2.43.0


From ed58f917335dea7033966c756ab9ee3c701563d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:09 +0000
Subject: [PATCH 33/40] fix: TCStream: send data with the timestamp given

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index d4a117f..e29708d 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -420,7 +420,7 @@ std::shared_ptr<WriteReceipt> TCStream::send(uint32_t timestamp, const std::stri
 	Bytes msg;
 	AMF0String(command).encode(msg);
 	AMF0::encode(args, msg);
-	return m_owner->write(m_streamID, TCMSG_DATA, 0, msg, INFINITY, INFINITY);
+	return m_owner->write(m_streamID, TCMSG_DATA, timestamp, msg, INFINITY, INFINITY);
 }
 
 std::shared_ptr<WriteReceipt> TCStream::sendAudio(uint32_t timestamp, const void *bytes, size_t len, Duration startWithin, Duration finishWithin)
-- 
2.43.0


From c16304bad7a6b25adbf14673134ca91d9d969993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:37 +0000
Subject: [PATCH 34/40] fix: TCStream: an empty DATA_EX message has no format
 byte

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index e29708d..87bf4ff 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -529,7 +529,7 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 	const uint8_t *cursor = payload;
 	const uint8_t *limit = cursor + len;
 
-	if((TCMSG_DATA_EX == messageType) and (0 != *cursor++))
+	if((TCMSG_DATA_EX == messageType) and ((cursor >= limit) or (0 != *cursor++)))
 		return; // only format 0 is defined
 
 	auto command = AMF0::decode(&cursor, limit);
-- 
2.43.0


From 0a897b9fa54216c03870a722733c2a2f5946ee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:06 +0000
Subject: [PATCH 35/40] fix: TCConnection, TCStream: keep a callback alive
 while it runs

---
 src/TCConnection.cpp | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index 87bf4ff..d19f89a 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -205,14 +205,19 @@ void TCConnection::onControlCommand(const std::string &command, double transacti
 		onTransactionResponse(command == "_result", transactionID, args);
 	else if(command == "onStatus")
 		onControlStatusMessage(safeFirstArg(args));
-	else if(onCommand)
-		onCommand(command, args);
+	else
+	{
+		auto onCommand_f = onCommand; // might be cleared during the callback
+		if(onCommand_f)
+			onCommand_f(command, args);
+	}
 }
 
 void TCConnection::onControlStatusMessage(std::shared_ptr<AMF0> info)
 {
-	if(onStatus)
-		onStatus(info);
+	auto onStatus_f = onStatus; // might be cleared during the callback
+	if(onStatus_f)
+		onStatus_f(info);
 }
 
 void TCConnection::onStreamCommand(uint32_t streamID, const std::string &command, const Args &args)
@@ -495,8 +500,9 @@ void TCStream::onCommandMessage(const std::string &command, const Args &args)
 {
 	if(command == "onStatus")
 	{
-		if(onStatus)
-			onStatus(TCConnection::safeFirstArg(args));
+		auto onStatus_f = onStatus; // might be cleared during the callback
+		if(onStatus_f)
+			onStatus_f(TCConnection::safeFirstArg(args));
 	}
 }
 
@@ -505,13 +511,19 @@ void TCStream::onStreamMessage(uint8_t messageType, uint32_t timestamp, const ui
 	switch(messageType)
 	{
 	case TCMSG_AUDIO:
-		if(onAudio)
-			onAudio(timestamp, payload, len);
+		{
+			auto onAudio_f = onAudio; // might be cleared during the callback
+			if(onAudio_f)
+				onAudio_f(timestamp, payload, len);
+		}
 		break;
 
 	case TCMSG_VIDEO:
-		if(onVideo)
-			onVideo(timestamp, payload, len);
+		{
+			auto onVideo_f = onVideo; // might be cleared during the callback
+			if(onVideo_f)
+				onVideo_f(timestamp, payload, len);
+		}
 		break;
 
 	case TCMSG_DATA_EX:
@@ -545,8 +557,9 @@ void TCStream::onDataMessage(uint8_t messageType, uint32_t timestamp, const uint
 				printf("  %s\n", (*it)->repr().c_str());
 		}
 
-		if(onData)
-			onData(timestamp, command->stringValue(), args);
+		auto onData_f = onData; // might be cleared during the callback
+		if(onData_f)
+			onData_f(timestamp, command->stringValue(), args);
 	}
 }
 
@@ -609,8 +622,9 @@ bool RTMFPTCConnection::init(RTMFP *rtmfp, const Bytes &epd)
 		if(m_userOpen)
 		{
 			m_sessionOptFlow = m_controlSend->openFlow({});
-			if(onTransportOpen)
-				onTransportOpen();
+			auto onTransportOpen_f = onTransportOpen; // might be cleared during the callback
+			if(onTransportOpen_f)
+				onTransportOpen_f();
 		}
 		return false;
 	};
-- 
2.43.0


From c8963fdd21a66a9675121b605cb389dac4834457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:33 +0000
Subject: [PATCH 36/40] fix: TCConnection: survive being released in a callback

---
 src/TCConnection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index d19f89a..c5986df 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -135,6 +135,8 @@ void TCConnection::onMessage(uint32_t streamID, uint8_t messageType, uint32_t ti
 	if(m_debugLevel > 1)
 		printf("TCConnection %p onMessage streamID %u type %d timestamp %u len %zu\n", (void *)this, (unsigned)streamID, messageType, (unsigned)timestamp, len);
 
+	auto myself = share_ref(this); // might be closed and released during a callback
+
 	switch(messageType)
 	{
 	case TCMSG_COMMAND:
@@ -790,6 +792,8 @@ bool RTMFPTCConnection::shouldAlwaysDeliver(const uint8_t *bytes, size_t len)
 
 void RTMFPTCConnection::basicClose(bool isError)
 {
+	auto myself = share_ref(this); // might be released during a callback
+
 	TCConnection::basicClose(isError);
 
 	if(m_controlSend) m_controlSend->close();
-- 
2.43.0


From 0feb668043fa5b6d4198096f958ed4198e477672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 37/40] fix: RTMFPTCConnection: stay alive through the
 exception callback

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index c5986df..ac87863 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -631,7 +631,7 @@ bool RTMFPTCConnection::init(RTMFP *rtmfp, const Bytes &epd)
 		return false;
 	};
 	m_controlSend->notifyWhenWritable();
-	m_controlSend->onException = [this] (uintmax_t reason) { basicClose(true); };
+	m_controlSend->onException = [this, myself] (uintmax_t reason) { basicClose(true); };
 	m_controlSend->onRecvFlow = [this] (std::shared_ptr<RecvFlow> flow) { acceptFlow(flow); };
 
 	return true;
-- 
2.43.0


From d835fd1251f08833261a76b70f1fa2afaea6fe5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:30 +0000
Subject: [PATCH 38/40] fix: RTMFPTCConnection: use the peer keepalive period
 the server sends

---
 src/TCConnection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TCConnection.cpp b/src/TCConnection.cpp
index ac87863..8bde8a8 100644
--- a/src/TCConnection.cpp
+++ b/src/TCConnection.cpp
@@ -846,7 +846,7 @@ void RTMFPTCConnection::onSetKeepaliveUserCommand(const uint8_t *payload, size_t
 	uint32_t peerPeriodMsec = (payload[6] << 24) + (payload[7] << 16) + (payload[8] << 8) + payload[9];
 
 	serverPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
-	peerPeriodMsec = std::max(serverPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
+	peerPeriodMsec = std::max(peerPeriodMsec, uint32_t(5000)); // RFC 7425 §5.3.4
 
 	m_controlRecv->setSessionKeepalivePeriod(serverPeriodMsec / 1000.0);
 	m_rtmfp->setDefaultSessionKeepalivePeriod(peerPeriodMsec / 1000.0);
-- 
2.43.0


From d06caa885b245352222c58115f3ebbc9999040f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:38 +0000
Subject: [PATCH 39/40] fix: PerformerPosixPlatformAdapter: close when
 destroyed, so that queued tasks don't run afterwards

---
 include/rtmfp/PerformerPosixPlatformAdapter.hpp | 1 +
 src/PerformerPosixPlatformAdapter.cpp           | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/rtmfp/PerformerPosixPlatformAdapter.hpp b/include/rtmfp/PerformerPosixPlatformAdapter.hpp
index 11481b6..f895fbe 100644
--- a/include/rtmfp/PerformerPosixPlatformAdapter.hpp
+++ b/include/rtmfp/PerformerPosixPlatformAdapter.hpp
@@ -11,6 +11,7 @@ namespace com { namespace zenomt { namespace rtmfp {
 class PerformerPosixPlatformAdapter : public PosixPlatformAdapter {
 public:
 	PerformerPosixPlatformAdapter(RunLoop *mainRL, Performer *mainPerformer, Performer *workerPerformer = nullptr);
+	~PerformerPosixPlatformAdapter();
 
 	bool perform(unsigned long thread, const Task &task) override;
 
diff --git a/src/PerformerPosixPlatformAdapter.cpp b/src/PerformerPosixPlatformAdapter.cpp
index 62855cf..0bcaa32 100644
--- a/src/PerformerPosixPlatformAdapter.cpp
+++ b/src/PerformerPosixPlatformAdapter.cpp
@@ -15,6 +15,11 @@ PerformerPosixPlatformAdapter::PerformerPosixPlatformAdapter(RunLoop *mainRL, Pe
 		m_workerPerformer = mainPerformer;
 }
 
+PerformerPosixPlatformAdapter::~PerformerPosixPlatformAdapter()
+{
+	close();
+}
+
 bool PerformerPosixPlatformAdapter::perform(unsigned long thread, const Task &task)
 {
 	std::shared_ptr<std::atomic_bool> isOpen = m_isOpen_performer;
-- 
2.43.0


From 65b8f48f294cba04a589cc2c7d67ede5fd134981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:05 +0000
Subject: [PATCH 40/40] fix: PosixPlatformAdapter: stop reading and writing
 when closed in a callback

---
 src/PosixPlatformAdapter.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/PosixPlatformAdapter.cpp b/src/PosixPlatformAdapter.cpp
index 162b290..5276bd9 100644
--- a/src/PosixPlatformAdapter.cpp
+++ b/src/PosixPlatformAdapter.cpp
@@ -142,16 +142,17 @@ bool PosixPlatformAdapter::notifyWhenInterfaceWritable(int interfaceID, const st
 {
 	if(m_interfaces.has(interfaceID))
 	{
+		std::shared_ptr<bool> isOpen = m_isOpen; // onwritable might close us
 		m_runloop->registerDescriptor(m_interfaces.at(interfaceID).m_fd, RunLoop::WRITABLE,
-			[this, onwritable] (RunLoop *sender, int fd, RunLoop::Condition cond) {
+			[this, isOpen, onwritable] (RunLoop *sender, int fd, RunLoop::Condition cond) {
 				size_t times = 0;
 				bool keepGoing = true;
-				while(keepGoing && (times < maxWritesPerInterfaceWritable))
+				while(keepGoing && *isOpen && (times < maxWritesPerInterfaceWritable))
 				{
 					keepGoing = onwritable();
 					times++;
 				}
-				if(not keepGoing)
+				if(*isOpen and not keepGoing)
 					sender->unregisterDescriptor(fd, RunLoop::WRITABLE);
 			});
 
@@ -230,8 +231,9 @@ void PosixPlatformAdapter::onShutdownComplete()
 
 void PosixPlatformAdapter::onInterfaceReadable(int fd, int interfaceID)
 {
+	std::shared_ptr<bool> isOpen = m_isOpen; // might be closed while processing a packet, and fd reused
 	long rv;
-	do { rv = receiveOnePacket(fd, interfaceID); } while(rv >= 0);
+	do { rv = receiveOnePacket(fd, interfaceID); } while((rv >= 0) and *isOpen);
 }
 
 long PosixPlatformAdapter::receiveOnePacket(int fd, int interfaceID)
-- 
2.43.0

