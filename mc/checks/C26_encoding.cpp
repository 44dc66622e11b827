// C26: integers, fields, options and packet assembly against reference implementations.
#include "seq.hpp"
#include "rtmfp/rtmfp.hpp"
#include "rtmfp/VLU.hpp"
#include "rtmfp/packet.hpp"
#include "rtmfp/PacketAssembler.hpp"
using namespace com::zenomt::rtmfp;
using namespace mc;
typedef std::vector<uint8_t> V;

// an exactly sized heap copy whose ends are guarded
struct Exact { uint8_t *p; size_t n; Exact(const V &v) : p(new uint8_t[v.size() ? v.size() : 1]), n(v.size()) { if(n) memcpy(p, v.data(), n); } ~Exact() { delete[] p; } const uint8_t *end() const { return p + n; } };
static std::string hex(const V &v) { std::string s; for(auto b : v) s += fmt("%02x", b); return s; }

static V refEncode(uintmax_t v) { V r; int n = 1; while(n < 10 and (v >> (7 * n))) n++; for(int i = n - 1; i >= 0; i--) r.push_back(uint8_t((v >> (7 * i)) & 0x7f) | (i ? 0x80 : 0)); return r; }
// reference decoding with arbitrary precision: returns bytes used (0: incomplete), value modulo 2^64 and whether it was too big
static size_t refParse(const uint8_t *p, const uint8_t *lim, uintmax_t &low, bool &big)
{
	unsigned __int128 v = 0; big = false; const uint8_t *c = p; low = 0;
	for(;;)
	{
		if(c >= lim) return 0;
		v = (v << 7) | (*c & 0x7f); if(v >> 64) { big = true; v &= ~uint64_t(0); }
		if(not (*c++ & 0x80)) break;
	}
	low = (uint64_t)v; return c - p;
}

static void value(uintmax_t v)
{
	V ref = refEncode(v); uint8_t buf[32]; memset(buf, 0xee, sizeof buf);
	need(VLU::encode(v, nullptr) == ref.size(), fmt("predicted size of %ju", v));
	size_t n = VLU::encode(v, buf + 4);
	need(n == ref.size() and 0 == memcmp(buf + 4, ref.data(), n), fmt("encoding of %ju is not canonical", v));
	for(int i = 0; i < 32; i++) if(i < 4 or i >= 4 + (int)n) need(buf[i] == 0xee, fmt("encoding %ju wrote outside its bytes", v));
	V app { 9 }; VLU::append(v, app); need(app.size() == 1 + n and app[0] == 9 and 0 == memcmp(&app[1], ref.data(), n), "append");
	for(int extra = 0; extra < 2; extra++)
	{
		V d = ref; if(extra) d.push_back(0xff);
		Exact e(d); uintmax_t out = v + 1;
		need(VLU::parse(e.p, e.end(), &out) == n and out == v, fmt("%ju did not decode to itself", v)); out = v + 1;
		need(VLU::parse(e.p, e.end(), &out, false) == n and out == v, fmt("%ju did not decode to itself (not saturating)", v)); out = v + 1;
		need(VLU::parse(e.p, nullptr, &out) == n and out == v, fmt("%ju did not decode without a limit", v));
		need(VLU::parse(e.p, e.end(), nullptr) == n, "decoding without a destination");
	}
	for(size_t k = 0; k < n; k++) { Exact e(V(ref.begin(), ref.begin() + k)); uintmax_t out = 5; need(0 == VLU::parse(e.p, e.end(), &out) and out == 5, fmt("an incomplete encoding of %ju was accepted", v)); }
	// as an option value
	for(uintmax_t type : { uintmax_t(0), uintmax_t(10), uintmax_t(0x2000), v })
	{
		V o; Option::append(type, v, o); V body = refEncode(type); body.insert(body.end(), ref.begin(), ref.end()); V want = refEncode(body.size()); want.insert(want.end(), body.begin(), body.end());
		need(o == want, fmt("option %ju with value %ju", type, v));
		Exact e(o); uintmax_t t = 1; const uint8_t *val = nullptr; size_t vl = 0;
		need(Option::parse(e.p, e.end(), &t, &val, &vl) == o.size() and t == type and vl == ref.size() and 0 == memcmp(val, ref.data(), vl), "option read back");
	}
}

static void bytes(const V &d)
{
	Exact e(d);
	for(size_t off = 0; off <= d.size(); off += d.size() ? d.size() : 1) // whole and empty
	{
		const uint8_t *p = e.p + off; uintmax_t low; bool big; size_t n = refParse(p, e.end(), low, big);
		uintmax_t out = 12345;
		need(VLU::parse(p, e.end(), &out) == n, fmt("consumed bytes of %s", hex(d).c_str()));
		need(out == (n ? (big ? UINTMAX_MAX : low) : 12345), fmt("value of %s: %ju", hex(d).c_str(), out)); out = 12345;
		need(VLU::parse(p, e.end(), &out, false) == n and out == (n ? low : 12345), fmt("wrapping value of %s: %ju", hex(d).c_str(), out));
		const uint8_t *pay = (const uint8_t *)1; size_t len = 999; size_t r = VLU::parseField(p, e.end(), &pay, &len);
		bool ok = n and not big and low <= size_t(e.end() - p - n);
		need(r == (ok ? n + low : 0), fmt("field consumed %zu of %s", r, hex(d).c_str()));
		if(ok) need(pay == p + n and len == low, "field payload"); else need(pay == (const uint8_t *)1 and len == 999, "a refused field changed its outputs");
		need(VLU::parseField(p, e.end(), nullptr, nullptr) == r, "field without outputs");
		uintmax_t type = 777; const uint8_t *val = (const uint8_t *)1; size_t vl = 999; size_t o = Option::parse(p, e.end(), &type, &val, &vl);
		if(not ok) { need(o == 0, fmt("option of refused field %s", hex(d).c_str())); continue; }
		if(low == 0) { need(o == n and vl == 0, "empty option"); continue; }
		uintmax_t tl; bool tb; size_t tn = refParse(p + n, p + n + low, tl, tb);
		if(not tn) { need(o == 0, fmt("option type runs past its field: %s", hex(d).c_str())); continue; }
		need(o == r and type == (tb ? UINTMAX_MAX : tl) and val == p + n + tn and vl == low - tn, fmt("option of %s", hex(d).c_str()));
	}
}

// option lists
static void options(Inner &in)
{
	static const uintmax_t types[] = { 0, 5, 127, 128, 0x1fff, 0x2000, UINTMAX_MAX }; static const size_t lens[] = { 0, 1, 2, 125, 126, 127, 128, 300 };
	V d; struct O { uintmax_t t; V v; bool mark; }; std::vector<O> want; int n = 1 + in(3);
	for(int i = 0; i < n; i++)
	{
		O o { types[in(7)], V(lens[in(8)], uint8_t(i + 3)), false };
		switch(in(3)) { case 0: Option::append(o.t, o.v, d); break; case 1: Option::append(o.t, o.v.data(), o.v.size(), d); break; default: if(o.v.empty()) Option::append(o.t, d); else { o.mark = true; o.v.clear(); Option::append(d); } }
		want.push_back(o);
	}
	Exact e(d); const uint8_t *c = e.p;
	for(auto &o : want)
	{
		uintmax_t t = 1; const uint8_t *v = nullptr; size_t l = 9; size_t r = Option::parse(c, e.end(), &t, &v, &l); need(r > 0, "an option of the list was refused"); c += r;
		if(o.mark) need(r == 1 and l == 0 and not v, "end marker"); else need(t == o.t and l == o.v.size() and (l == 0 or 0 == memcmp(v, o.v.data(), l)), "an option of the list read back differently");
	}
	need(c == e.end(), "options did not consume what was appended");
}

static void assemble(Inner &in, size_t capacity, size_t margin, int depth, bool allHeaders)
{
	size_t total = margin + capacity; std::vector<uint8_t> mem(total + 16, 0xee); uint8_t *buf = new uint8_t[total]; std::unique_ptr<uint8_t[]> hold(buf); memset(buf, 0xee, total);
	PacketAssembler pa; V ref; long start = -1; // position of the current chunk's payload in ref
	static const long tss[] = { -1, 0, 0x1234, 0xffff }; int hv = allHeaders ? 1 + in(32) : in(4); bool header = hv; uint8_t fl = 0;
	if(header)
	{
		if(not allHeaders) hv = hv == 1 ? 1 : hv == 2 ? 1 + 2 : 1 + 2 + 12 + 16;
		long ts = tss[(hv - 1) & 3], tse = tss[((hv - 1) >> 2) & 3]; fl = uint8_t((hv - 1) & 16 ? 0xff : 0x83);
		size_t need_ = 1 + (ts >= 0 ? 2 : 0) + (tse >= 0 ? 2 : 0); if(need_ > capacity) return;
		pa.init(buf, margin, total, fl, ts, tse);
		uint8_t f = uint8_t((fl & ~(HEADER_FLAG_TS | HEADER_FLAG_TSE)) | (ts >= 0 ? HEADER_FLAG_TS : 0) | (tse >= 0 ? HEADER_FLAG_TSE : 0));
		ref.push_back(f); for(long t : { ts, tse }) if(t >= 0) { ref.push_back(uint8_t(t >> 8)); ref.push_back(uint8_t(t)); }
	}
	else pa.init(buf, margin, total);
	auto verify = [&] (const char *what) {
		need(pa.remaining() == capacity - ref.size(), fmt("%s: %zu bytes remain, expected %zu", what, pa.remaining(), capacity - ref.size()));
		V got = pa.toVector(); need(got.size() == margin + ref.size() and std::equal(ref.begin(), ref.end(), got.begin() + margin), fmt("%s: packet is %s, expected %s", what, hex(V(got.begin() + std::min(margin, got.size()), got.end())).c_str(), hex(ref).c_str()));
		for(size_t i = 0; i < margin; i++) need(buf[i] == 0xee, fmt("%s: wrote into the margin", what));
		if(header) need(pa.getTimeCriticalFlag() == bool(ref[0] & HEADER_FLAG_TC), fmt("%s: time critical flag", what));
	};
	verify("init");
	for(int d = 0; d < depth; d++)
	{
		bool open = start >= 0;
		int op = in(open ? 12 : 10); const char *what = "?"; bool r = true, want = true; V add;
		auto fits = [&] (const V &v) { want = v.size() <= capacity - ref.size(); if(want) ref.insert(ref.end(), v.begin(), v.end()); };
		switch(op)
		{
		case 0: { what = "start chunk"; V h { 0x10, 0, 0 }; fits(h); if(want) start = (long)ref.size(); r = pa.startChunk(0x10); break; }
		case 1: what = "push byte"; fits({ 7 }); r = pa.push(uint8_t(7)); break;
		case 2: { what = "push 3"; V v { 1, 2, 3 }; fits(v); r = pa.push(v.data(), 3); break; }
		case 3: { what = "push vector"; V v { 4, 5 }; fits(v); r = pa.push(v); break; }
		case 4: { what = "push nothing"; V v; fits(v); r = pa.push(v); break; }
		case 5: { what = "push field"; V v { 6, 6 }; fits({ 2, 6, 6 }); r = pa.pushField(v.data(), 2); break; }
		case 6: { what = "push field vector"; V v { 8 }; fits({ 1, 8 }); r = pa.pushField(v); break; }
		case 7: { what = "push empty field"; fits({ 0 }); r = pa.pushField(V()); break; }
		case 8: { what = "push integer"; fits(refEncode(300)); r = pa.pushVLU(300); break; }
		case 9: { what = "time critical"; if(header) { pa.setTimeCriticalFlag(); ref[0] |= HEADER_FLAG_TC; } else if(not open) { what = "roll back nothing"; pa.rollbackChunk(); } break; }
		case 10: { what = "commit"; size_t n = ref.size() - start; ref[start - 2] = uint8_t(n >> 8); ref[start - 1] = uint8_t(n); start = -1; pa.commitChunk(); break; }
		case 11: { what = "roll back"; ref.resize(start - 3); start = -1; pa.rollbackChunk(); break; }
		}
		in.log("%s", what);
		need(r == want, fmt("%s answered %d", what, r)); verify(what);
	}
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C26"; meta.hangCpuSeconds = 20;
	meta.assumptions = { "an assembler's buffer holds at least the packet header it is initialised with" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		v.push_back({ "values/small", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) { uintmax_t hi = in(64), n = th ? 65536 : 4096; for(uintmax_t i = 0; i < n; i++) value(hi * n + i); in.ctx.count("values", n); }); } });
		v.push_back({ "values/powers", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) { int k = in(65); uintmax_t b = k == 64 ? 0 : uintmax_t(1) << k; for(int d = -300; d <= 300; d++) value(b + d); in.ctx.count("values", 601); }); } });
		static const uint8_t alpha[] = { 0x00, 0x01, 0x02, 0x03, 0x7f, 0x80, 0x81, 0x82, 0xff };
		int maxLen = th ? 7 : 6;
		for(int len = 0; len <= maxLen; len++)
			v.push_back({ fmt("bytes/%d", len), 0, [=] (Ctx &c) { explore(c, std::min(3, len), [=] (Inner &in) { V d; for(int i = 0; i < len; i++) d.push_back(alpha[in(9)]); bytes(d); }); } });
		// around the width of the integer: a long prefix, then every ending
		v.push_back({ "bytes/long", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { int n = 6 + in(8); static const uint8_t f[] = { 0x80, 0x81, 0xff, 0x82 }; V d; d.push_back(f[in(4)]); uint8_t m = f[in(4)]; while((int)d.size() < n) d.push_back(m); for(int i = 0; i < 3; i++) d.push_back(alpha[in(9)]); bytes(d); }); } });
		v.push_back({ "options", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { options(in); }); } });
		for(size_t cap = 0; cap <= (th ? 16u : 10u); cap++)
			v.push_back({ fmt("assembler/%zu", cap), 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { assemble(in, cap, cap % 3 ? 4 : 0, th ? 6 : 5, false); }); } });
		for(size_t cap = 1; cap <= 20; cap++)
			v.push_back({ fmt("headers/%zu", cap), 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) { assemble(in, cap, 4, 3, true); }); } });
		return v;
	});
}
