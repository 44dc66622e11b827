// C35: checksums against their definitions for all inputs and splits, and every sequence of handle operations up to a depth.
#include "seq.hpp"
#include "rtmfp/Checksums.hpp"
#include "rtmfp/Object.hpp"
#include "rtmfp/Retainer.hpp"
using namespace com::zenomt;
using namespace mc;

typedef std::vector<uint8_t> V;
// definition: remainder of polynomial division, computed bit by bit over the whole message
static uint32_t refBe(uint32_t reg, const V &d) { for(uint8_t b : d) for(int i = 7; i >= 0; i--) { int in = (b >> i) & 1, top = reg >> 31; reg = (reg << 1) ^ ((in ^ top) ? 0x04c11db7u : 0); } return reg; }
static uint32_t rev(uint32_t x) { uint32_t r = 0; for(int i = 0; i < 32; i++) if(x >> i & 1) r |= 1u << (31 - i); return r; }
static uint8_t rev8(uint8_t x) { uint8_t r = 0; for(int i = 0; i < 8; i++) if(x >> i & 1) r |= 1 << (7 - i); return r; }
static uint32_t refLe(uint32_t reg, const V &d) { V m; for(auto b : d) m.push_back(rev8(b)); return rev(refBe(rev(reg), m)); }
static uint16_t refCk(const V &d) { uint64_t s = 0; for(size_t i = 0; i < d.size(); i += 2) s += i + 1 < d.size() ? d[i] * 256 + d[i + 1] : d[i]; while(s >> 16) s = (s >> 16) + (s & 0xffff); return (uint16_t)~s; }
static void sums(const V &d, bool splits)
{
	std::unique_ptr<uint8_t[]> h(new uint8_t[d.size() + 1]); if(d.size()) memcpy(h.get() + 1, d.data(), d.size()); const uint8_t *p = h.get() + 1; size_t n = d.size();
	need(crc32_be(p, n) == refBe(0xffffffffu, d), "big-endian CRC"); need(crc32_le(p, n) == refLe(0xffffffffu, d), "little-endian CRC"); need(in_cksum(p, n) == refCk(d), "internet checksum");
	for(uint32_t seed : { 0u, 1u, 0x80000000u, 0x12345678u }) { need(crc32_be(seed, p, n) == refBe(seed, d), "big-endian CRC from a given register"); need(crc32_le(seed, p, n) == refLe(seed, d), "little-endian CRC from a given register"); }
	if(splits) for(size_t k = 0; k <= n; k++) { need(crc32_be(crc32_be(p, k), p + k, n - k) == crc32_be(p, n), "incremental big-endian CRC"); need(crc32_le(crc32_le(p, k), p + k, n - k) == crc32_le(p, n), "incremental little-endian CRC"); }
}
static void shortOnes(Inner &in, int len) { static const uint8_t al[] = { 0, 1, 0x7f, 0x80, 0xfe, 0xff, 0x55 }; V d; for(int i = 0; i < len; i++) d.push_back(al[in(7)]); sums(d, true); }
static void lengths(Inner &in) { size_t n = in(700); int k = in(3); V d; for(size_t i = 0; i < n; i++) d.push_back(k == 0 ? 0xff : k == 1 ? uint8_t(i * 37 + 11) : uint8_t(i * i >> 3)); sums(d, n < 60); if(n == 0 and k == 0) { for(size_t m : { 1500, 65534, 65535, 65536 }) { V big(m, 0xff); sums(big, false); } } }
// sums around every carry: n words of all ones, then one or two words from the edges and from around n
static void carries(Inner &in)
{
	int n = in(600), m = in(16); auto edge = [&] (int k) { static const int e[] = { 0, 1, 2, 0x7fff, 0x8000, 0xfffd, 0xfffe, 0xffff }; return k < 8 ? e[k] : n + k - 11; };
	V d; auto word = [&] (int w) { d.push_back(w >> 8); d.push_back(w); }; for(int i = 0; i < n; i++) word(0xffff);
	word(edge(m)); if(n < 40) { word(edge(in(16))); if(in(2)) d.push_back(0xff); }
	std::unique_ptr<uint8_t[]> h(new uint8_t[d.size()]); memcpy(h.get(), d.data(), d.size());
	need(in_cksum(h.get(), d.size()) == refCk(d), fmt("internet checksum of %d words of all ones and another", n));
}
static void pairs(Inner &in) { V d { uint8_t(in(256)), uint8_t(in(256)) }; sums(d, true); }

// --- reference counting
static int alive[4];
struct Base : public Object { int id; Retainer<Base> next; std::shared_ptr<Base> sharedNext; Base(int i) : id(i) { alive[i]++; } ~Base() { alive[id]--; } long refs() const { return m_refcount; } };
struct Derived : public Base { Derived(int i) : Base(i) {} };
template<int NH> static void handles(Inner &in, int depth)
{
	const int NO = 2; memset(alive, 0, sizeof alive);
	int h[NH], sh[2] = { -1, -1 }; long raw[NO] = { 0, 0 }; for(int &x : h) x = -1; // what each handle refers to
	std::string err;
	{
		Retainer<Base> r[NH]; std::shared_ptr<Base> s[2]; Base *obj[NO] = { nullptr, nullptr }; bool made[NO] = {}, alias = false; int inner[NO] = { -1, -1 };
		auto refs = [&] (int o) { long n = raw[o]; for(int x : h) n += x == o; n += (sh[0] == o) + (sh[1] == o and not alias); for(int k = 0; k < NO; k++) if(inner[k] == o) n++; return n; };
		auto collect = [&] { for(bool more = true; more;) { more = false; for(int o = 0; o < NO; o++) if(obj[o] and refs(o) == 0) { obj[o] = nullptr; inner[o] = -1; more = true; } } };
		auto verify = [&] (const char *what) {
			for(int o = 0; o < NO; o++) { need(alive[o] == (obj[o] ? 1 : 0), fmt("after %s: object %d is %s", what, o, alive[o] ? "still alive with nobody retaining it" : "gone while retained")); if(obj[o]) need(obj[o]->refs() == refs(o) + 0, fmt("after %s: object %d has %ld references, expected %ld", what, o, obj[o]->refs(), refs(o))); }
			for(int i = 0; i < NH; i++) { need(r[i].get() == (h[i] < 0 ? nullptr : obj[h[i]]) and r[i].empty() == (h[i] < 0) and bool(r[i]) == (h[i] >= 0), fmt("after %s: handle %d", what, i)); need((r[i] == nullptr) == (h[i] < 0) and (nullptr != r[i]) == (h[i] >= 0), "comparison with null"); for(int j = 0; j < NH; j++) { need((r[i] == r[j]) == (h[i] == h[j]) and (r[i] != r[j]) == (h[i] != h[j]), "comparison"); need(int(r[i] < r[j]) + int(r[i] > r[j]) + int(r[i] == r[j]) == 1 and (r[i] <= r[j]) == not (r[i] > r[j]) and (r[i] >= r[j]) == not (r[i] < r[j]), "order"); } }
		};
		for(int d = 0; d < depth; d++)
		{
			int op = in(16); const char *what = "?"; int i = 0, j = 0;
			auto two = [&] { i = in(NH); j = in(NH); };
			switch(op)
			{
			case 0: what = "claim new"; i = in(NH); for(int o = 0; o < NO; o++) if(not made[o]) { made[o] = true; obj[o] = o ? new Derived(o) : new Base(o); h[i] = o; r[i] = claim_ref(obj[o]); break; } break;
			case 1: what = "copy assign"; two(); h[i] = h[j]; r[i] = r[j]; break;
			case 2: what = "move assign"; two(); if(i != j) { h[i] = h[j]; h[j] = -1; r[i] = std::move(r[j]); } break;
			case 3: what = "reset"; i = in(NH); h[i] = -1; r[i].reset(); break;
			case 4: what = "swap"; two(); std::swap(h[i], h[j]); r[i].swap(r[j]); break;
			case 5: what = "assign raw"; two(); h[i] = h[j]; r[i] = r[j].get(); break;
			case 6: what = "assign null"; i = in(NH); h[i] = -1; r[i] = nullptr; break;
			case 7: what = "share"; i = in(NH); alias = false; sh[0] = h[i]; s[0] = r[i] ? share_ref(r[i].get()) : std::shared_ptr<Base>(); break;
			case 8: what = "copy shared"; s[1] = s[0]; sh[1] = sh[0]; alias = true; break;
			case 9: what = "drop shared"; alias = false; sh[0] = -1; s[0].reset(); break;
			case 10: what = "drop the other shared"; alias = false; sh[1] = -1; s[1].reset(); break;
			case 11: what = "retain"; i = in(NH); if(h[i] >= 0 and raw[h[i]] < 2) { raw[h[i]]++; Object::retain(r[i].get()); } else Object::retain(nullptr); break;
			case 12: what = "release"; i = in(NO); if(obj[i] and raw[i]) { raw[i]--; Object::release(obj[i]); } else Object::release(nullptr); break;
			case 13: what = "temporary copies"; i = in(NH); { Retainer<Base> t(r[i]), u(t), v(std::move(t)), w = retain_ref(r[i].get()); Retainer<Object> c(v); std::vector<Retainer<Base> > vec { u, v }; vec.insert(vec.begin(), w); need(vec[0] == r[i] and t.empty() and c.get() == r[i].get(), "temporaries"); } break;
			case 14: what = "derived handles"; i = in(NH); if(h[i] == 1) { Retainer<Derived> dd(static_cast<Derived *>(r[i].get())), m(dd); Retainer<Base> b(dd), b2; b2 = dd; Retainer<Base> b3(std::move(m)); h[i] = 1; r[i] = std::move(dd); need(b == r[i] and b3 == b2 and m.empty() and dd.empty(), "derived"); } break;
			case 15: what = "store inside an object"; two(); if(h[i] >= 0 and h[j] != h[i] and not (h[j] >= 0 and inner[h[j]] == h[i])) { inner[h[i]] = h[j]; Base *o = r[i].get(); o->next = r[j]; } else if(h[i] >= 0 and inner[h[i]] >= 0) { what = "assign from inside"; int o = h[i]; h[i] = inner[o]; r[i] = r[i]->next; } break;
			}
			in.log("%s %d %d", what, i, j);
			collect(); verify(what);
		}
		for(int o = 0; o < NO; o++) while(raw[o]) { raw[o]--; Object::release(obj[o]); }
	}
	for(int o = 0; o < 2; o++) need(alive[o] == 0, fmt("object %d was never destroyed", o));
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C35"; meta.hangCpuSeconds = 30;
	meta.assumptions = { "the internet checksum of an odd length adds the last byte as it stands, as the library's own test defines", "checksummed data is at most 64 KiB" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		auto add = [&] (const std::string &n, int split, const std::function<void(Inner &)> &f) { v.push_back({ n, 0, [=] (Ctx &c) { explore(c, split, f); } }); };
		add("sums/lengths", 1, lengths); add("sums/pairs", 1, pairs); add("sums/carries", 1, carries);
		for(int n = 0; n <= (th ? 6 : 5); n++) add(fmt("sums/%d", n), std::min(n, 2), [=] (Inner &in) { shortOnes(in, n); });
		for(int n = 1; n <= (th ? 4 : 3); n++) add(fmt("three-handles/%d", n), std::min(n + 2, 5), [=] (Inner &in) { handles<3>(in, n); });
		for(int n = 4; n <= (th ? 5 : 4); n++) add(fmt("two-handles/%d", n), 5, [=] (Inner &in) { handles<2>(in, n); });
		return v;
	});
}
