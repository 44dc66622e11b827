#pragma once
// Drives one receiving flow of bob with raw fragments and compares every step with the reference reassembler.
#include "flows.hpp"
namespace sim {

struct ReasmFrag { uintmax_t sn, fsn; uint8_t flags; Bytes data; };
inline std::string fragStr(const ReasmFrag &f)
{
	const char *n[] = { "W", "B", "E", "M" };
	int fra = (f.flags & USERDATA_FLAG_FRA_MASK) == USERDATA_FRA_WHOLE ? 0 : (f.flags & USERDATA_FLAG_FRA_MASK) == USERDATA_FRA_BEGIN ? 1 : (f.flags & USERDATA_FLAG_FRA_MASK) == USERDATA_FRA_END ? 2 : 3;
	return fmt("%s%lu%s%s%s", n[fra], (unsigned long)f.sn, f.flags & USERDATA_FLAG_ABN ? "a" : "", f.flags & USERDATA_FLAG_FIN ? "f" : "", f.fsn ? fmt("/%lu", (unsigned long)f.fsn).c_str() : "");
}

// One run: a fresh flow id, an order mode per step.  modes: if not empty, the order is switched to modes[i] before fragment i.
struct ReasmRun {
	RawPeer &peer; uintmax_t flowId; std::vector<ReasmFrag> frags; std::vector<int> modes; bool strictMerge = true;
	ReceiveOrder order0 = RO_SEQUENCE;
	bool repeatOpts = true;
	std::string text() const { std::string s = order0 == RO_NETWORK ? "network" : order0 == RO_HOLD ? "hold" : "sequence"; for(size_t i = 0; i < frags.size(); i++) { s += " "; if(i < modes.size() and modes[i] >= 0) s += modes[i] == RO_NETWORK ? "[network]" : modes[i] == RO_HOLD ? "[hold]" : "[sequence]"; s += fragStr(frags[i]); } return s; }

	void run(Ctx &ctx)
	{
		App &app = peer.app;
		RefRecv ref; ReceiveOrder order = order0;
		std::string meta = "r";
		Rx *rx = nullptr; size_t delivered = 0;
		std::set<uintmax_t> due, optional; // message starts: must be / may be delivered (not yet delivered)
		std::set<uintmax_t> done;
		auto cfg = [&] (Rx &r) { rx = &r; r.flow->setReceiveOrder(order0); };
		app.onNew = cfg;
		size_t merges = 0; bool wantComplete = false;
		size_t rxBase = app.rx.size();
		std::map<uintmax_t, size_t> deliveredAt;
		for(size_t i = 0; i < frags.size(); i++)
		{
			auto &f = frags[i];
			if(rx and i < modes.size() and modes[i] >= 0 and not wantComplete)
			{
				order = (ReceiveOrder)modes[i]; rx->flow->setReceiveOrder(order); peer.s.drain(); peer.s.net.clear();
				settle(ctx, ref, *rx, delivered, done, order, 0, "after order change", i, wantComplete);
			}
			uintmax_t preCsn = ref.csn(); auto preRanges = ref.ranges(); bool preComplete = ref.complete();
			bool first = not rx;
			bool accepted = ref.arrive(f.sn, f.fsn, f.flags, f.data);
			peer.clear();
			peer.raw(RawPeer::dataChunk(flowId, f.sn, f.sn - f.fsn, f.flags, f.data, (first or repeatOpts) ? RawPeer::metaOpt(meta) : Bytes()));
			if(ctx.failed()) { ctx.m_failure += " [" + text() + "]"; ctx.bail(); }
			req(ctx, app.rx.size() == rxBase + 1 and rx, "flow arrival callback did not fire exactly once");
			uintmax_t csn = ref.csn();
			settle(ctx, ref, *rx, delivered, done, order, accepted ? f.sn : 0, "", i, wantComplete);
			// gap closed notification
			bool closedGap = not preRanges.empty() and csn >= preRanges[0].first;
			if(strictMerge and order == RO_NETWORK and not ref.complete() and not preComplete)
			{
				if(closedGap) merges++;
				req(ctx, (size_t)rx->merges == merges, fmt("gap-closed notification fired %d times, expected %zu", rx->merges, merges).c_str());
			}
			else merges = rx->merges;
			// acknowledgement truthfulness
			req(ctx, rx->flow->getCumulativeAckSequenceNumber() == csn, fmt("cumulative ack %lu, expected %lu", (unsigned long)rx->flow->getCumulativeAckSequenceNumber(), (unsigned long)csn).c_str());
			req(ctx, rx->flow->getForwardSequenceNumber() == ref.fsn, "forward sequence number wrong");
			for(auto &p : peer.out) for(auto &a : acks(p))
			{
				if(a.flow != flowId) continue;
				ctx.count("acks checked");
				req(ctx, a.csn == csn, fmt("acknowledged %lu cumulatively, expected %lu", (unsigned long)a.csn, (unsigned long)csn).c_str());
				req(ctx, a.ranges == ref.ranges(), "acknowledged ranges are not exactly what arrived");
			}
			if(wantComplete) break;
		}
		// forget the flow's callbacks
		app.forget(app.rx.back()); peer.s.drain(); peer.s.net.clear();
		app.rx.pop_back(); app.onNew = nullptr;
	}
	void req(Ctx &ctx, bool c, const char *what) { if(not c) ctx.require(false, "%s [%s]", what, text().c_str()); }

	void settle(Ctx &ctx, RefRecv &ref, Rx &rx, size_t &delivered, std::set<uintmax_t> &done, ReceiveOrder order, uintmax_t justArrived, const char *when, size_t step, bool &wantComplete)
	{
		uintmax_t csn = ref.csn();
		// soundness: each new delivery is a complete message of the reference, not delivered before
		uintmax_t prevSn = 0;
		for(; delivered < rx.msgs.size(); delivered++)
		{
			auto &m = rx.msgs[delivered];
			uintmax_t e = ref.runEnd(m.sn);
			req(ctx, e != 0, fmt("delivered sn %lu which does not start a complete message %s", (unsigned long)m.sn, when).c_str());
			req(ctx, not done.count(m.sn), fmt("message %lu delivered twice", (unsigned long)m.sn).c_str());
			req(ctx, m.data == ref.runData(m.sn, e), fmt("message %lu delivered with wrong content (%zu bytes)", (unsigned long)m.sn, m.data.size()).c_str());
			req(ctx, m.frags == e - m.sn + 1, fmt("message %lu fragment count %zu, expected %lu", (unsigned long)m.sn, m.frags, (unsigned long)(e - m.sn + 1)).c_str());
			req(ctx, order != RO_HOLD, "message delivered while delivery is suspended");
			if(order == RO_SEQUENCE)
			{
				req(ctx, e <= csn, fmt("message %lu delivered out of order", (unsigned long)m.sn).c_str());
				req(ctx, m.sn > prevSn, "messages delivered in the wrong order"); prevSn = m.sn;
			}
			done.insert(m.sn);
		}
		// completeness
		if(order != RO_HOLD)
			for(auto &g : ref.got)
			{
				uintmax_t e = ref.runEnd(g.first);
				if(not e or done.count(g.first)) continue;
				req(ctx, not (e <= csn), fmt("message %lu is complete and nothing before it is missing but it was not delivered %s", (unsigned long)g.first, when).c_str());
				if(order == RO_NETWORK and justArrived >= g.first and justArrived <= e)
					req(ctx, false, fmt("message %lu became complete but was not delivered in arrival order mode", (unsigned long)g.first).c_str());
			}
		// completion
		bool held = order == RO_HOLD and undelivered(ref, done);
		if(ref.complete() and not held and order != RO_HOLD)
		{
			wantComplete = true;
			if(rx.completes or not unfinishedTail(ref))
			req(ctx, rx.completes == 1 and rx.errors == 0, fmt("flow has everything through its final fragment but completion was signalled %d times (%d errors)", rx.completes, rx.errors).c_str());
		}
		else if(not (ref.finSeen and ref.finSn <= csn))
			req(ctx, rx.completes == 0, "completion signalled before everything through the final fragment arrived");
		else if(undelivered(ref, done))
			req(ctx, rx.completes == 0, "completion signalled before everything was delivered");
		if(rx.completes) { wantComplete = true; return; }
		// buffer accounting
		size_t lower = 0, upper = 0;
		std::set<uintmax_t> inDone;
		for(auto d : done) for(auto i = d; i <= ref.runEnd(d); i++) inDone.insert(i);
		for(auto &g : ref.got)
		{
			if(inDone.count(g.first)) continue;
			upper += g.second.data.size() + FRAGMENT_SIZE_BIAS;
			uintmax_t b = g.first;
			while(ref.got.count(b) and ref.got.at(b).fra != USERDATA_FRA_BEGIN and ref.got.at(b).fra != USERDATA_FRA_WHOLE and b > 1) b--;
			uintmax_t e = ref.runEnd(b);
			bool needed = g.first > csn or (e >= g.first and not done.count(b));
			if(needed) lower += g.second.data.size();
		}
		size_t bs = rx.flow->getBufferedSize();
		req(ctx, bs >= lower and bs <= upper, fmt("buffered size %zu is not between %zu and %zu %s", bs, lower, upper, when).c_str());
	}
	// a message that was begun but whose end lies beyond everything received (a conforming sender never finishes a flow like that)
	static bool unfinishedTail(RefRecv &ref)
	{
		uintmax_t sn = ref.csn();
		while(ref.got.count(sn) and ref.got.at(sn).fra == USERDATA_FRA_MIDDLE) sn--;
		return ref.got.count(sn) and ref.got.at(sn).fra == USERDATA_FRA_BEGIN;
	}
	static bool undelivered(RefRecv &ref, const std::set<uintmax_t> &done) { for(auto &g : ref.got) if(ref.runEnd(g.first) and not done.count(g.first)) return true; return false; }
};

} // namespace sim
