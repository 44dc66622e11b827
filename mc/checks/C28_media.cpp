// C28: TC message headers, flow metadata, commands, media metadata and media headers against reference readers and writers.
#include "seq.hpp"
#include "rtmfp/TCMessage.hpp"
#include "rtmfp/Media.hpp"
#include "rtmfp/VLU.hpp"
#include <math.h>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using namespace mc;
typedef std::vector<uint8_t> B;
typedef com::zenomt::rtmp::Message Msg;

static std::string hex(const B &v) { std::string s; for(size_t i = 0; i < v.size() and i < 80; i++) s += fmt("%02x", v[i]); return s; }
struct Exact { uint8_t *p; size_t n; Exact(const B &v) : p(new uint8_t[v.size() ? v.size() : 1]), n(v.size()) { if(n) memcpy(p, v.data(), n); } ~Exact() { delete[] p; } const uint8_t *end() const { return p + n; } };
static void vlu(B &d, uint64_t v) { int n = 1; while(n < 10 and (v >> (7 * n))) n++; for(int i = n - 1; i >= 0; i--) d.push_back(uint8_t((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0)); }
static bool rd(const B &b, size_t &at, size_t lim, uint64_t &out) // saturating
{
	unsigned __int128 v = 0; bool big = false;
	for(;;) { if(at >= lim) return false; uint8_t c = b[at++]; v = v << 7 | (c & 0x7f); if(v >> 64) { big = true; v = ~uint64_t(0); } if(not (c & 0x80)) break; }
	out = big ? ~uint64_t(0) : (uint64_t)v; return true;
}
// an option: 0 bad, 1 marker, 2 option
static int opt(const B &b, size_t &at, uint64_t &type, B &val)
{
	size_t p = at; uint64_t len; if(not rd(b, p, b.size(), len)) return 0;
	if(len == 0) { at = p; return 1; }
	if(len > b.size() - p) return 0;
	size_t end = p + len; if(not rd(b, p, end, type)) return 0;
	val.assign(b.begin() + p, b.begin() + end); at = end; return 2;
}
static const uint32_t u32s[] = { 0, 1, 0x7f, 0x80, 0xff, 0x100, 0x3fff, 0x4000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff };
static const size_t NU32 = sizeof u32s / sizeof *u32s;
static const uint64_t u64s[] = { 0, 1, 2, 0x7f, 0x80, 0x3fff, 0x4000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffffeull, 0xffffffffffffffffull };
static const size_t NU64 = sizeof u64s / sizeof *u64s;

// ---- TC messages and flow metadata
static void header(Inner &in)
{
	uint32_t ts = u32s[in(NU32)]; static const size_t lens[] = { 0, 1, 5, 100 }; size_t len = lens[in(4)];
	for(int type = 0; type < 256; type++)
	{
		B body(len, uint8_t(type ^ 0x55)); B m = TCMessage::message(type, ts, body); need(m == TCMessage::message(type, ts, body.data(), body.size()), "two ways of making a message differ"); need(TCMessage::message(type, ts, nullptr, 0).size() == 5, "a message without a body");
		B want { (uint8_t)type, uint8_t(ts >> 24), uint8_t(ts >> 16), uint8_t(ts >> 8), uint8_t(ts) }; want.insert(want.end(), body.begin(), body.end()); need(m == want, fmt("message of type %d at %u is ", type, ts) + hex(m));
		for(size_t k = 0; k <= m.size() and k < 8; k++)
		{
			Exact e(B(m.begin(), m.begin() + k)); uint8_t t = ~type; uint32_t s = ~ts; size_t r = TCMessage::parseHeader(e.p, e.end(), &t, &s);
			if(k < 5) need(r == 0 and t == (uint8_t)~type and s == ~ts, fmt("a header of %zu bytes was accepted", k)); else need(r == 5 and t == type and s == ts, "the header reads differently");
			need(TCMessage::parseHeader(e.p, e.end(), nullptr, nullptr) == r, "reading without destinations");
		}
	}
}
static void metaParse(const B &b)
{
	size_t at = 3; uint64_t sid = 0; bool ok = b.size() >= 4 and b[0] == 'T' and b[1] == 'C' and (b[2] & 4) and rd(b, at, b.size(), sid) and sid <= 0xffffffffu;
	Exact e(b); uint32_t s = 777; ReceiveOrder o = RO_HOLD; size_t r = TCMetadata::parse(e.p, e.end(), &s, &o);
	need(r == (ok ? at : 0), fmt("flow metadata %s: %zu", hex(b).c_str(), r));
	if(ok) need(s == sid and o == ((b[2] & 1) ? RO_NETWORK : RO_SEQUENCE), "flow metadata reads differently: " + hex(b)); else need(s == 777 and o == RO_HOLD, "refused metadata changed the outputs");
	need(TCMetadata::parse(e.p, e.end(), nullptr, nullptr) == r, "reading without destinations"); s = 777; need(TCMetadata::parse(b, &s, &o) == r and s == (ok ? sid : 777), "reading from a vector");
}
static void metadata(Inner &in)
{
	uint32_t sid = u32s[in(NU32)]; ReceiveOrder o = in(2) ? RO_NETWORK : RO_SEQUENCE; B m = TCMetadata::encode(sid, o);
	uint32_t s = ~sid; ReceiveOrder x = RO_HOLD; need(TCMetadata::parse(m, &s, &x) == m.size() and s == sid and x == o, "flow metadata does not read back");
	for(size_t k = 0; k <= m.size(); k++) metaParse(B(m.begin(), m.begin() + k)); B more = m; more.push_back(0xff); metaParse(more);
	for(size_t i = 0; i < m.size(); i++) for(int v = 0; v < 256; v++) { B d = m; d[i] = v; metaParse(d); }
}
static void command(Inner &in)
{
	static const char *names[] = { "", "connect", "_result", "a\"b" }; static const double tids[] = { 0, 1, -1, 4294967296.5, INFINITY }; const char *name = names[in(4)]; double tid = tids[in(5)]; int co = in(4), form = in(6); bool ext = in(2);
	using namespace com::zenomt::rtmp;
	std::shared_ptr<AMF0> obj; if(co == 1) obj = AMF0::Null(); else if(co == 2) { auto o = AMF0::Object(); o->putValueAtKey(AMF0::String("v"), "k"); obj = o; } else if(co == 3) obj = AMF0::Number(5);
	auto info = AMF0::String("info"); B extra = AMF0::encode(info.get()), m; std::vector<std::shared_ptr<AMF0>> args; bool hasInfo = true, hasObj = true;
	switch(form)
	{
	case 0: m = TCMessage::command(name, tid, obj.get(), extra.data(), extra.size(), ext); break;
	case 1: m = TCMessage::command(name, tid, obj.get(), extra, ext); break;
	case 2: ext = false; m = TCMessage::command(name, tid, obj.get(), info.get()); break;
	case 3: ext = false; m = TCMessage::command(name, tid, obj.get(), std::shared_ptr<AMF0>(info)); break;
	case 4: m = TCMessage::command(name, tid, obj.get(), nullptr, 0, ext); hasInfo = false; break;
	case 5: hasObj = !!obj; if(obj) args.push_back(obj); args.push_back(info); m = TCMessage::command(name, tid, args, ext); break;
	}
	uint8_t type; uint32_t ts; need(TCMessage::parseHeader(m.data(), m.data() + m.size(), &type, &ts) == 5 and type == (ext ? TCMSG_COMMAND_EX : TCMSG_COMMAND) and ts == 0, "command header");
	size_t at = 5; if(ext) need(m.size() > at and m[at++] == 0, "an extended command begins with a zero");
	std::vector<std::shared_ptr<AMF0>> out; need(AMF0::decode(m.data() + at, m.data() + m.size(), out), "the command does not decode");
	need(out.size() == 2 + size_t(hasObj) + size_t(hasInfo), fmt("the command has %zu values", out.size())); need(out[0]->isString() and out[0]->stringValue() == std::string(name) and out[1]->isNumber() and out[1]->doubleValue() == tid, "command name or transaction");
	if(hasObj) need(obj ? AMF0::encode(out[2].get()) == AMF0::encode(obj.get()) : out[2]->isNull(), "command object"); if(hasInfo) need(out.back()->isString() and out.back()->stringValue() == std::string("info"), "information object");
}

// ---- classification (RTMP/FLV tag headers and Enhanced RTMP)
static void video(const B &b)
{
	Exact e(b); const uint8_t *p = e.p; size_t n = e.n;
	bool enh = n >= 5 and (b[0] & 0x80); int pt = n ? b[0] & 15 : 0; bool multi = enh and pt == 6;
	bool init = enh ? pt == 0 or pt == 5 : n > 1 and pt == 7 and b[1] == 0;
	bool special = n == 0 ? true : n < 2 ? false : enh ? not multi and pt != 1 and pt != 3 : pt == 7 and b[1] != 1;
	uint32_t codec = enh ? multi ? 0 : uint32_t(b[1]) << 24 | b[2] << 16 | b[3] << 8 | b[4] : n ? pt : 0;
	need(Msg::isVideoEnhanced(p, n) == enh, "video enhanced " + hex(b)); need(Msg::isVideoInit(p, n) == init, "video init " + hex(b)); need(Msg::isVideoSequenceSpecial(p, n) == special, "video sequence special " + hex(b));
	need(Msg::isVideoKeyframe(p, n) == (n and (b[0] & 0x70) == 0x10 and not special), "video keyframe " + hex(b)); need(Msg::isVideoEnhancedMetadata(p, n) == (enh and pt == 4), "video metadata " + hex(b)); need(Msg::isVideoEnhancedMultitrack(p, n) == multi, "video multitrack " + hex(b));
	need(Msg::getVideoCodec(p, n) == codec, "video codec " + hex(b)); need(not (Msg::isVideoInit(p, n) and Msg::isVideoKeyframe(p, n)), "an initialisation is not a frame");
}
static void audio(const B &b)
{
	Exact e(b); const uint8_t *p = e.p; size_t n = e.n;
	bool enh = n >= 5 and (b[0] & 0xf0) == 0x90; int pt = n ? b[0] & 15 : 0; bool multi = enh and pt == 5, cfg = enh and pt == 4;
	bool init = enh ? pt == 0 : n > 1 and (b[0] & 0xf0) == 0xa0 and b[1] == 0, end = n == 0 or b[0] == 0x92;
	uint32_t codec = enh ? multi ? 0x90 : uint32_t(b[1]) << 24 | b[2] << 16 | b[3] << 8 | b[4] : n ? b[0] & 0xf0 : 0;
	need(Msg::isAudioEnhanced(p, n) == enh, "audio enhanced " + hex(b)); need(Msg::isAudioInit(p, n) == init, "audio init " + hex(b)); need(Msg::isAudioSequenceEnd(p, n) == end, "audio end " + hex(b)); need(Msg::isAudioEnhancedMultichannelConfig(p, n) == cfg, "audio multichannel " + hex(b));
	need(Msg::isAudioSequenceSpecial(p, n) == (end or init or cfg), "audio sequence special " + hex(b)); need(Msg::isAudioEnhancedMultitrack(p, n) == multi, "audio multitrack " + hex(b)); need(Msg::getAudioCodec(p, n) == codec, "audio codec " + hex(b));
}
static void endOfSequence(uint32_t codec)
{
	B m = Msg::makeVideoEndOfSequence(codec); Exact e(m); need(Msg::isVideoSequenceSpecial(e.p, e.n) and not Msg::isVideoKeyframe(e.p, e.n) and not Msg::isVideoInit(e.p, e.n), fmt("the end of sequence of codec %08x is not special", codec));
	need(Msg::getVideoCodec(e.p, e.n) == (codec > 15 or codec == 7 ? codec : 0), fmt("the end of sequence of codec %08x names another codec", codec));
}
static void times(Inner &in)
{
	uint32_t a = u32s[in(NU32)] + in(5) - 2; std::vector<uint32_t> ds; for(uint32_t d : u32s) for(int k = -2; k <= 2; k++) ds.push_back(d + k);
	for(uint32_t d : ds)
	{
		if(d == 0x80000000u) continue; // as far apart as possible: neither order is defined
		uint32_t b = a + d; int32_t want = (int32_t)d; // b - a
		need(Msg::timestamp_diff(b, a) == want, fmt("%u - %u is %d", b, a, Msg::timestamp_diff(b, a))); need(Msg::timestamp_gt(b, a) == (want > 0) and Msg::timestamp_lt(a, b) == (want > 0) and Msg::timestamp_gt(a, b) == (want < 0) and Msg::timestamp_lt(b, a) == (want < 0), fmt("order of %u and %u", a, b));
	}
}

// ---- media messages
static void mediaParse(const B &b)
{
	bool ok = not b.empty(); size_t at = 1; uint64_t dts = 0, off = 0, pts = 0; size_t optAt = 0;
	if(ok)
	{
		int tss = b[0] >> 4 & 3; if(tss) ok = rd(b, at, b.size(), dts); if(ok and tss > 1) ok = rd(b, at, b.size(), off);
		if(ok and tss == 3) { ok = off <= dts; pts = dts - off; } else if(ok) { ok = off <= ~uint64_t(0) - dts; pts = dts + off; }
		optAt = at; if(ok and (b[0] & 0x40)) for(;;) { uint64_t t; B v; int k = opt(b, at, t, v); if(not k) { ok = false; break; } if(k == 1) break; }
	}
	Exact e(b); bool rai; int type; uintmax_t d, p; size_t oo; size_t r = Media::basicParseHeader(e.p, e.n, &rai, &type, &d, &p, &oo);
	need(r == (ok ? at : 0), fmt("media header %s: payload at %zu, not %zu", hex(b).c_str(), r, ok ? at : 0)); need(Media::basicParseHeader(e.p, e.n, nullptr, nullptr, nullptr, nullptr, nullptr) == r, "reading without destinations");
	if(not ok) return;
	need(rai == !!(b[0] & 0x80) and type == (b[0] & 15) and d == dts and p == pts and oo == optAt, "media header reads differently: " + hex(b));
	// what was read makes the same message again
	B m = Media::basicMakeMessage(rai, type, d, p, e.p + oo, r - oo, e.p + r, e.n - r); Exact e2(m); bool rai2; int type2; uintmax_t d2, p2; size_t oo2, r2 = Media::basicParseHeader(e2.p, e2.n, &rai2, &type2, &d2, &p2, &oo2);
	need(r2 and rai2 == rai and type2 == type and d2 == d and p2 == p and B(e2.p + oo2, e2.p + r2) == B(e.p + oo, e.p + r) and B(e2.p + r2, e2.p + e2.n) == B(e.p + r, e.p + e.n), "a header that was read does not make the same message: " + hex(b) + " became " + hex(m));
}
static void mediaMake(Inner &in)
{
	uint64_t dts = u64s[in(NU64)], pts = u64s[in(NU64)]; bool rai = in(2); static const B opts[] = { {}, { 0 }, { 1, 0x0a, 0 }, { 2, 0x0b, 5, 3, 1, 9, 9, 0 } }; const B &o = opts[in(4)]; B body; if(in(2)) body = { 1, 2, 3 };
	for(int type = 0; type < 16; type++)
	{
		B m = Media::basicMakeMessage(rai, type, dts, pts, o.data(), o.size(), body.data(), body.size());
		bool r; int t; uintmax_t d, p; size_t oo; size_t n = Media::basicParseHeader(m.data(), m.size(), &r, &t, &d, &p, &oo);
		need(n and r == rai and t == type and d == dts and p == pts and B(m.begin() + oo, m.begin() + n) == o and B(m.begin() + n, m.end()) == body, fmt("message type %d dts %ju pts %ju does not read back", type, (uintmax_t)dts, (uintmax_t)pts));
		if(type % 5 == 0) for(size_t k = 0; k <= m.size(); k++) mediaParse(B(m.begin(), m.begin() + k));
	}
}
static void mediaTime(Inner &in)
{
	static const uintmax_t ticks[] = { 1, 2, 3, 1000, 1001, 24000, 44100, 48000, 90000, 1000000, 0xffffffff }, per[] = { 1, 2, 3, 1001, 0xffff }; static const long double org[] = { 0, 0.1L, 1, 1700000000.123456L, 4294967296.75L };
	Media m; need(m.setTimescale(ticks[in(11)], per[in(5)]), "timescale"); long double o = org[in(5)]; need(m.setOrigin(o), "origin");
	uintmax_t a, b; m.getTimescale(&a, &b); Duration tick = m.getTickDuration(); need(fabsl(tick * a - b) < 1e-9L * b, "tick duration");
	for(uintmax_t t : { 0, 1, 2, 999, 1000, 0xffff, 0x7fffffff }) for(int k = -1; k <= 1; k++)
	{
		uintmax_t x = t + k; if(t == 0 and k < 0) continue;
		Time w = m.ticksToTime(x); need(fabsl(w - (o + x * tick)) < 1e-6L * tick + 1e-9L, "a tick's time"); if(tick < 1e-8) continue; // beyond the resolution of a time near the origin
		need(m.timeToTicks(w) == x, fmt("tick %ju does not come back (%ju)", x, m.timeToTicks(w))); need(m.timeToTicks(w + tick * 0.4L) == x and (not x or m.timeToTicks(w - tick * 0.4L) == x), "times are not rounded to the nearest tick");
		Time later = m.ticksToTime(x + 7); B body { 9 };
		for(int form = 0; form < 3; form++)
		{
			Time dts = form == 2 ? later : w, pts = form == 1 ? -1 : form == 2 ? w : later; B msg = m.makeMessage(true, Media::MSG_MEDIA, dts, pts, body); need(msg == m.makeMessage(true, Media::MSG_MEDIA, dts, pts, body.data(), 1) and msg == m.makeMessage(true, Media::MSG_MEDIA, dts, pts, B(), body), "ways of making a message differ");
			Time d = -5, p = -5; bool rai; int type; size_t oo; size_t n = m.parseHeader(msg.data(), msg.size(), &rai, &type, &d, &p, &oo); if(pts < 0) pts = dts;
			need(n and n == oo and msg.size() == n + 1 and fabsl(d - dts) <= tick / 2 and fabsl(p - pts) <= tick / 2, "media message times do not read back");
			d = p = -5; need(m.parseHeader(msg.data(), 0, &rai, &type, &d, &p, &oo) == 0 and d == -5 and p == -5, "an empty media message");
		}
	}
	need(m.timeToTicks(o - 5) == 0 and m.timeToTicks(-INFINITY) == 0 and m.timeToTicks(NAN) == 0, "times before the origin");
	need(not m.setTimescale(0, 1) and not m.setTimescale(1, 0) and not m.setOrigin(-1) and not m.setOrigin(INFINITY) and not m.setOrigin(NAN) and not m.setReceiveIntent(RO_HOLD), "unusable parameters were accepted"); uintmax_t a2, b2; m.getTimescale(&a2, &b2); need(a2 == a and b2 == b and m.getOrigin() == o, "refused parameters changed something");
}

// ---- media flow metadata
static const char sig[] = "http://zenomt.com/ns/rtmfp#media";
struct MM { uint64_t sid = 0, tid = 0, ticks = 1000, per = 1; std::string codec, type, name; bool net = false; int origin = 0; long double reorder = -1; };
static const long double origins[] = { 0, 1, 1.5L, 4294967296.25L, 9.2e18L };
static void mediaMeta(Inner &in)
{
	static const std::string strs[] = { "", "h264", std::string("a\0b", 3), std::string(300, 'x') }; MM w; w.sid = u64s[in(NU64)]; w.tid = u64s[in(4) * 4]; w.codec = strs[in(4)]; w.type = strs[in(2)]; w.name = strs[in(2) * 2]; w.net = in(2); w.origin = in(5);
	static const uint64_t ts[][2] = { { 1000, 1 }, { 1, 1 }, { 90000, 1 }, { ~0ull, 1 }, { 30000, 1001 }, { 1000, 2 } }; int t = in(6); w.ticks = ts[t][0]; w.per = ts[t][1]; static const long double ro[] = { -1, 0, 0.5L, 3 }; w.reorder = t == 3 ? -1 : ro[in(4)];
	Media m; m.streamID = w.sid; m.trackID = w.tid; m.codec = w.codec; m.mediaType = w.type; m.trackName = w.name; m.setReceiveIntent(w.net ? RO_NETWORK : RO_SEQUENCE); need(m.setOrigin(origins[w.origin]) and m.setTimescale(w.ticks, w.per), "parameters"); m.reorderSuggestion = w.reorder;
	B b = m.toMetadata(); auto r = Media::fromMetadata(b); need(!!r, "media metadata does not read back"); uintmax_t a, p; r->getTimescale(&a, &p);
	need(r->streamID == w.sid and r->trackID == w.tid and r->codec == w.codec and r->mediaType == w.type and r->trackName == w.name and a == w.ticks and p == w.per and r->getReceiveIntent() == m.getReceiveIntent(), "media metadata reads differently");
	need(fabsl(r->getOrigin() - m.getOrigin()) < 1e-18L * (1 + m.getOrigin()), "the origin reads differently"); if(w.reorder < 0) need(r->reorderSuggestion < 0, "a reorder suggestion appeared"); else need(fabsl(r->reorderSuggestion - w.reorder) <= m.getTickDuration() / 2 * 1.0001L, "the reorder suggestion reads differently");
	need(*r == m and not (*r != m) and r->track_compare(m) == 0 and r->stream_track_compare(m) == 0, "media metadata does not compare equal after a round trip"); Media cp(m); need(cp == m and cp.toMetadata() == b, "a copy differs"); need(r->toMetadata() == b or w.reorder >= 0, "the metadata is not a fixed point");
	Media x(m); x.streamID ^= 1; need(x != m and x.encodingAndTrackParametersEqual(m), "a different stream compares equal"); Media y(m); y.trackID ^= 1; need(y != m and y.encodingParametersEqual(m) and not y.encodingAndTrackParametersEqual(m), "a different track compares equal"); Media z(m); z.codec += "!"; need(z != m and not z.encodingParametersEqual(m), "a different codec compares equal");
}
static bool metaRef(const B &b, MM &w)
{
	if(b.size() < sizeof sig or memcmp(b.data(), sig, sizeof sig)) return false;
	size_t at = sizeof sig; bool sid = false, codec = false;
	while(at < b.size())
	{
		uint64_t t; B v; int k = opt(b, at, t, v); if(not k) return false; if(k == 1) continue;
		size_t p = 0; std::string s((const char *)v.data(), v.size()); uint64_t n1, n2;
		switch(t)
		{
		case 0x1d: if(not rd(v, p, v.size(), w.sid)) return false; sid = true; break;
		case 0x4c: w.codec = s; codec = true; break;
		case 0x44: w.type = s; break;
		case 0x21: w.name = s; break;
		case 0x00: if(v.size() < 16 or (v[0] & 0x80)) return false; break;
		case 0x01: if(not rd(v, p, v.size(), n1) or not rd(v, p, v.size(), n2) or not n1 or not n2) return false; w.ticks = n1; w.per = n2; break;
		case 0x0a: w.net = true; break;
		case 0x0b: if(not rd(v, p, v.size(), n1)) return false; w.reorder = n1; break;
		case 0x2d: if(not rd(v, p, v.size(), w.tid)) return false; break;
		}
	}
	return sid and codec;
}
static void metaBytes(const B &b)
{
	MM w; bool ok = metaRef(b, w); B tight(b); tight.shrink_to_fit(); auto r = Media::fromMetadata(tight); need(!!r == ok, fmt("media metadata %s was %s", hex(b.size() > 33 ? B(b.begin() + 33, b.end()) : b).c_str(), r ? "accepted" : "refused"));
	Media m; need(m.setFromMetadata(tight) == (ok ? b.size() : 0), "consumed bytes of media metadata"); if(not ok) return;
	uintmax_t a, p; r->getTimescale(&a, &p); need(r->streamID == w.sid and r->trackID == w.tid and r->codec == w.codec and r->mediaType == w.type and r->trackName == w.name and a == w.ticks and p == w.per and r->getReceiveIntent() == (w.net ? RO_NETWORK : RO_SEQUENCE), "media metadata reads differently: " + hex(b));
	if(w.reorder < 0) need(r->reorderSuggestion < 0, "reorder"); else need(fabsl(r->reorderSuggestion - w.reorder * w.per / w.ticks) <= 1e-9L * (1 + r->reorderSuggestion), "reorder");
}
static void orders()
{
	std::vector<Media> ms; for(uint64_t s : { 0, 1, 2 }) for(uint64_t t : { 0ull, 1ull, ~0ull }) for(const char *ty : { "", "audio", "video" }) for(int e = 0; e < 2; e++) { Media m; m.streamID = s; m.trackID = t; m.mediaType = ty; m.codec = e ? "x" : "y"; ms.push_back(m); }
	auto sgn = [] (int x) { return (x > 0) - (x < 0); };
	for(auto &a : ms) for(auto &b : ms)
	{
		auto ka = std::make_pair(a.trackID, a.mediaType), kb = std::make_pair(b.trackID, b.mediaType); int t = ka < kb ? -1 : kb < ka ? 1 : 0, s = a.streamID < b.streamID ? -1 : a.streamID > b.streamID ? 1 : t;
		need(sgn(a.track_compare(b)) == t and sgn(a.stream_track_compare(b)) == s and Media::track_less(a, b) == (t < 0) and Media::stream_track_less(a, b) == (s < 0), "track order");
	}
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C28"; meta.hangCpuSeconds = 120;
	meta.assumptions = { "timestamps compared are less than 2^31 apart", "time origins and reorder suggestions are finite and fit 63 bits of seconds or ticks", "an option list handed to a media message is well formed and terminated" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		auto add = [&] (const char *name, size_t split, std::function<void(Inner &)> f) { v.push_back({ name, 0, [=] (Ctx &c) { explore(c, split, f); } }); };
		add("tc/headers", 1, header); add("tc/metadata", 1, metadata); add("tc/commands", 2, command); add("tc/times", 1, times);
		for(int len = 0; len <= (th ? 8 : 7); len++) add(fmt("tc/metadata-bytes/%d", len).c_str(), std::min(2, len), [=] (Inner &in) { static const uint8_t a[] = { 'T', 'C', 0x00, 0x04, 0x05, 0x80, 0x8f, 0xff, 0x7f }; B b; for(int i = 0; i < len; i++) b.push_back(a[i < 3 ? in(6) : in(9)]); metaParse(b); });
		add("video/short", 1, [] (Inner &in) { int a = in(256); video({}); video({ (uint8_t)a }); for(int b = 0; b < 256; b++) { video({ (uint8_t)a, (uint8_t)b }); for(int c : { 0, 1, 128, 255 }) for(int d : { 0, 255 }) for(int n = 3; n <= 6; n++) { B m { (uint8_t)a, (uint8_t)b, (uint8_t)c, (uint8_t)d, (uint8_t)d, (uint8_t)c }; m.resize(n); video(m); } } in.ctx.count("values", 8000); });
		add("audio/short", 1, [] (Inner &in) { int a = in(256); audio({}); audio({ (uint8_t)a }); for(int b = 0; b < 256; b++) { audio({ (uint8_t)a, (uint8_t)b }); for(int c : { 0, 1, 128, 255 }) for(int d : { 0, 255 }) for(int n = 3; n <= 6; n++) { B m { (uint8_t)a, (uint8_t)b, (uint8_t)c, (uint8_t)d, (uint8_t)d, (uint8_t)c }; m.resize(n); audio(m); } } in.ctx.count("values", 8000); });
		add("video/end", 1, [] (Inner &in) { uint32_t c = in(65) * 4; for(int i = 0; i < 4; i++) endOfSequence(c + i); for(uint32_t x : u32s) endOfSequence(x); endOfSequence(com::zenomt::rtmp::TC_VIDEO_ENH_CODEC_AVC); });
		add("media/make", 2, mediaMake); add("media/time", 2, mediaTime); add("media/metadata", 3, mediaMeta);
		for(int len = 0; len <= (th ? 7 : 6); len++) add(fmt("media/bytes/%d", len).c_str(), std::min(2, len), [=] (Inner &in) { static const uint8_t first[] = { 0x00, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60, 0x70, 0xb1, 0xff }, a[] = { 0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff, 0x0b }; B b; for(int i = 0; i < len; i++) b.push_back(i ? a[in(9)] : first[in(10)]); mediaParse(b); });
		// timestamps of every width, around the largest
		add("media/long", 2, [] (Inner &in) { uint64_t d = u64s[in(NU64)] + in(3) - 1, o = u64s[in(NU64)] + in(3) - 1; for(int f : { 0x20, 0x30, 0x60, 0xf0 }) { B b { (uint8_t)f }; vlu(b, d); vlu(b, o); mediaParse(b); b.push_back(0); b.push_back(7); mediaParse(b); B big { (uint8_t)f, 0x83, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f }; vlu(big, o); mediaParse(big); } });
		add("media/metadata-options", 2, [=] (Inner &in) {
			static const B items[] = { { 2, 0x1d, 5 }, { 2, 0x4c, 'c' }, { 1, 0x4c }, { 0 }, { 1, 0x1d }, { 2, 0x0b, 3 }, { 1, 0x0b }, { 3, 0x01, 2, 3 }, { 2, 0x01, 2 }, { 3, 0x01, 0, 3 }, { 3, 0x01, 3, 0 }, { 1, 0x0a }, { 2, 0x2d, 7 }, { 3, 0x44, 'a', 'b' }, { 2, 0x21, 0 }, { 2, 0x77, 1 }, { 17, 0x00, 0x7f, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 }, { 17, 0x00, 0x80, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 }, { 16, 0x00, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15 }, { 5, 0x1d }, { 0x80 }, { 2, 0x1d, 0x80 } };
			B b((const uint8_t *)sig, (const uint8_t *)sig + sizeof sig); int n = th ? 5 : 4; for(int i = 0; i < n; i++) { int k = in(23); if(k == 22) break; b.insert(b.end(), items[k].begin(), items[k].end()); } metaBytes(b);
		});
		add("media/metadata-mutations", 1, [] (Inner &in) { Media m; m.streamID = 300; m.codec = "av1"; m.mediaType = "video"; m.trackName = "n"; m.trackID = 5; m.setOrigin(77.5); m.setTimescale(90000, 7); m.reorderSuggestion = 1; m.setReceiveIntent(RO_NETWORK); B b = m.toMetadata(); size_t i = in(b.size()); metaBytes(B(b.begin(), b.begin() + i)); for(int x = 0; x < 256; x++) { B d = b; d[i] = x; metaBytes(d); for(size_t k = i; k < b.size(); k++) metaBytes(B(d.begin(), d.begin() + k)); } in.ctx.count("values", 256 * (b.size() - i)); });
		add("media/order", 0, [] (Inner &) { orders(); });
		return v;
	});
}
