// C27: AMF0 against an independent model, encoder and decoder.
#include "seq.hpp"
#include "rtmfp/AMF.hpp"
#include <math.h>
using namespace com::zenomt;
using namespace com::zenomt::rtmp;
using namespace mc;
typedef std::vector<uint8_t> Bytes_;
typedef std::shared_ptr<AMF0> P;

static std::string hex(const Bytes_ &v) { std::string s; for(size_t i = 0; i < v.size() and i < 64; i++) s += fmt("%02x", v[i]); return s; }
struct Exact { uint8_t *p; size_t n; Exact(const Bytes_ &v) : p(new uint8_t[v.size() ? v.size() : 1]), n(v.size()) { if(n) memcpy(p, v.data(), n); } ~Exact() { delete[] p; } const uint8_t *end() const { return p + n; } };

enum Kind { NUM, BOOL, STR, NUL, UND, OBJ, TYPED, ECMA, ARR };
struct V { Kind k = UND; uint64_t num = 0; std::string s; std::map<std::string, V> m; std::vector<V> a; };
static bool eq(const V &x, const V &y)
{
	if(x.k != y.k) return false;
	switch(x.k)
	{
	case NUM: return x.num == y.num;
	case BOOL: return x.num == y.num;
	case STR: return x.s == y.s;
	case NUL: case UND: return true;
	case TYPED: if(strcmp(x.s.c_str(), y.s.c_str())) return false; // className() is a C string; fallthrough
	case OBJ: case ECMA: { if(x.m.size() != y.m.size()) return false; for(auto &e : x.m) { auto it = y.m.find(e.first); if(it == y.m.end() or not eq(e.second, it->second)) return false; } return true; }
	case ARR: { if(x.a.size() != y.a.size()) return false; for(size_t i = 0; i < x.a.size(); i++) if(not eq(x.a[i], y.a[i])) return false; return true; }
	}
	return false;
}
static std::string show(const V &v)
{
	switch(v.k)
	{
	case NUM: { double d; memcpy(&d, &v.num, 8); return fmt("%.17g", d); }
	case BOOL: return v.num ? "true" : "false";
	case STR: return v.s.size() > 12 ? fmt("string of %zu", v.s.size()) : "\"" + v.s + "\"";
	case NUL: return "null"; case UND: return "undefined";
	case OBJ: case TYPED: case ECMA: { std::string r = v.k == OBJ ? "{" : v.k == ECMA ? "ecma{" : "typed:" + v.s.substr(0, 8) + "{"; for(auto &e : v.m) r += (e.first.size() > 8 ? fmt("<%zu>", e.first.size()) : e.first) + ":" + show(e.second) + " "; return r + "}"; }
	case ARR: { std::string r = "["; for(auto &e : v.a) r += show(e) + " "; return r + "]"; }
	}
	return "?";
}

static void put(Bytes_ &d, uint64_t v, int n) { for(int i = n - 1; i >= 0; i--) d.push_back(uint8_t(v >> (8 * i))); }
static void refEncode(const V &v, Bytes_ &d, uint32_t ecmaCount)
{
	auto str = [&] (const std::string &s) { put(d, s.size(), 2); d.insert(d.end(), s.begin(), s.end()); };
	auto members = [&] { for(auto &e : v.m) { str(e.first); refEncode(e.second, d, ecmaCount); } put(d, 9, 3); };
	switch(v.k)
	{
	case NUM: d.push_back(0); put(d, v.num, 8); break;
	case BOOL: d.push_back(1); d.push_back(v.num ? 1 : 0); break;
	case STR: if(v.s.size() > 65535) { d.push_back(12); put(d, v.s.size(), 4); d.insert(d.end(), v.s.begin(), v.s.end()); } else { d.push_back(2); str(v.s); } break;
	case NUL: d.push_back(5); break;
	case UND: d.push_back(6); break;
	case OBJ: d.push_back(3); members(); break;
	case TYPED: d.push_back(16); str(v.s); members(); break;
	case ECMA: d.push_back(8); put(d, ecmaCount, 4); members(); break;
	case ARR: d.push_back(10); put(d, v.a.size(), 4); for(auto &e : v.a) refEncode(e, d, ecmaCount); break;
	}
}

// reference decoder: the supported types, at most 32 levels below the outermost value
static bool refDecode(const Bytes_ &b, size_t &at, V &v, int depth = 0)
{
	if(depth > 32 or at >= b.size()) return false;
	auto u = [&] (int n, uint64_t &o) { if(b.size() - at < (size_t)n) return false; o = 0; while(n--) o = o << 8 | b[at++]; return true; };
	auto str = [&] (int n, std::string &s) { uint64_t l; if(not u(n, l) or b.size() - at < l) return false; s.assign((const char *)b.data() + at, l); at += l; return true; };
	auto members = [&] {
		for(;;)
		{
			std::string key; if(not str(2, key)) return false;
			if(key.empty() and at < b.size() and b[at] == 9) { at++; return true; }
			V x; if(not refDecode(b, at, x, depth + 1)) return false;
			v.m[key] = x;
		}
	};
	uint64_t n; int marker = b[at++];
	switch(marker)
	{
	case 0: v.k = NUM; return u(8, v.num);
	case 1: v.k = BOOL; if(not u(1, n)) return false; v.num = n != 0; return true;
	case 2: v.k = STR; return str(2, v.s);
	case 12: v.k = STR; return str(4, v.s);
	case 3: v.k = OBJ; return members();
	case 5: v.k = NUL; return true;
	case 6: case 13: v.k = UND; return true;
	case 8: v.k = ECMA; return u(4, n) and members();
	case 10: v.k = ARR; if(not u(4, n)) return false; for(uint64_t i = 0; i < n; i++) { V x; if(not refDecode(b, at, x, depth + 1)) return false; v.a.push_back(x); } return true;
	case 16: v.k = TYPED; return str(2, v.s) and members();
	}
	return false;
}

static P build(const V &v)
{
	switch(v.k)
	{
	case NUM: { double d; memcpy(&d, &v.num, 8); return AMF0::Number(d); }
	case BOOL: return v.num ? AMF0::True() : AMF0::False();
	case STR: return AMF0::String(v.s);
	case NUL: return AMF0::Null(); case UND: return AMF0::Undefined();
	case OBJ: { auto o = AMF0::Object(); for(auto &e : v.m) o->putValueAtKey(build(e.second), e.first); return o; }
	case TYPED: { auto o = AMF0::TypedObject(v.s.c_str()); for(auto &e : v.m) o->putValueAtKey(build(e.second), e.first); return o; }
	case ECMA: { auto o = AMF0::ECMAArray(); for(auto &e : v.m) o->putValueAtKey(build(e.second), e.first); return o; }
	case ARR: { auto o = AMF0::Array(); for(auto &e : v.a) o->appendValue(build(e)); return o; }
	}
	return nullptr;
}

// what the public interface says about a value
static V read(const P &p)
{
	V v; need(!!p, "a value is missing"); AMF0 *a = p.get();
	int kinds = a->isNumber() + a->isBoolean() + a->isString() + a->isNull() + a->isUndefined() + a->isArray() + (a->isTypedObject() or a->isECMAArray() or a->isObject());
	need(kinds == 1, fmt("a value claims %d kinds", kinds));
	auto members = [&] (AMF0Object *o) { need(o, "an object without members"); size_t n = 0; for(auto it = o->begin(); it != o->end(); ++it) { n++; v.m[it->first] = read(it->second); need(o->has(it->first) and o->getValueAtKey(it->first) == it->second, "a listed member is not found"); } need(n == o->size() and n == v.m.size(), "member count"); };
	switch(a->getType())
	{
	case AMF0::AMF0_NUMBER: { v.k = NUM; double d = a->doubleValue(); memcpy(&v.num, &d, 8); need(a->asNumber(), "asNumber"); need(a->isTruthy() == (d == d and d != 0), "truth of a number"); break; }
	case AMF0::AMF0_BOOLEAN: v.k = BOOL; v.num = a->booleanValue(); need(a->isTruthy() == a->booleanValue() and a->asBoolean(), "truth of a boolean"); break;
	case AMF0::AMF0_STRING: { v.k = STR; need(a->asString(), "asString"); v.s.assign(a->stringValue(), a->asString()->size()); need(a->isTruthy() == not v.s.empty(), "truth of a string"); break; }
	case AMF0::AMF0_NULL: v.k = NUL; need(a->isNull() and not a->isTruthy(), "null"); break;
	case AMF0::AMF0_UNDEFINED: v.k = UND; need(a->isUndefined() and not a->isTruthy(), "undefined"); break;
	case AMF0::AMF0_OBJECT: v.k = OBJ; need(a->isObject() and a->isTruthy(), "object"); members(a->asObject()); break;
	case AMF0::AMF0_TYPED_OBJECT: v.k = TYPED; need(a->asTypedObject(), "asTypedObject"); v.s = a->asTypedObject()->className(); members(a->asObject()); break;
	case AMF0::AMF0_ECMAARRAY: v.k = ECMA; need(a->asECMAArray(), "asECMAArray"); members(a->asObject()); break;
	case AMF0::AMF0_ARRAY: { v.k = ARR; need(a->asArray(), "asArray"); for(size_t i = 0; i < a->asArray()->size(); i++) v.a.push_back(read(a->getValueAtIndex(i))); need(a->getValueAtIndex(v.a.size())->isUndefined(), "past the end"); break; }
	default: need(false, "unknown type");
	}
	return v;
}

// JSON: a strict reader (RFC 8259)
struct Json {
	const std::string &s; size_t at = 0; Json(const std::string &s) : s(s) {}
	void ws() { while(at < s.size() and strchr(" \n\r\t", s[at])) at++; }
	bool lit(const char *l) { size_t n = strlen(l); if(s.compare(at, n, l)) return false; at += n; return true; }
	void str(std::string &o)
	{
		need(at < s.size() and s[at] == '"', "JSON: string expected"); at++;
		for(;;)
		{
			need(at < s.size(), "JSON: unterminated string"); unsigned char c = s[at++];
			if(c == '"') return;
			need(c >= 0x20, "JSON: control character in a string");
			if(c != '\\') { o += c; continue; }
			need(at < s.size(), "JSON: escape"); char e = s[at++];
			switch(e)
			{
			case 'b': o += 8; break; case 'f': o += 12; break; case 'n': o += 10; break; case 'r': o += 13; break; case 't': o += 9; break; case '"': case '\\': case '/': o += e; break;
			case 'u': { need(s.size() - at >= 4, "JSON: short \\u"); int v = 0; for(int i = 0; i < 4; i++) { need(isxdigit((unsigned char)s[at]), "JSON: \\u digits"); v = v * 16 + (isdigit((unsigned char)s[at]) ? s[at] - '0' : (s[at] | 32) - 'a' + 10); at++; } need(v < 0x80, "JSON: unexpected escape"); o += (char)v; break; }
			default: need(false, "JSON: unknown escape");
			}
		}
	}
	void match(const V &v)
	{
		ws(); need(at < s.size(), "JSON: ends early");
		switch(v.k)
		{
		case NUM:
		{
			double d; memcpy(&d, &v.num, 8);
			if(d != d) { need(lit("null"), "JSON: not-a-number is not null"); break; }
			size_t b = at; bool neg = s[at] == '-'; if(neg) at++;
			need(at < s.size() and isdigit((unsigned char)s[at]), "JSON: number expected at " + s.substr(b, 20)); if(s[at] == '0') at++; else while(at < s.size() and isdigit((unsigned char)s[at])) at++;
			if(at < s.size() and s[at] == '.') { at++; need(at < s.size() and isdigit((unsigned char)s[at]), "JSON: digit expected after the point in " + s.substr(b, 30)); while(at < s.size() and isdigit((unsigned char)s[at])) at++; }
			if(at < s.size() and (s[at] | 32) == 'e') { at++; if(at < s.size() and (s[at] == '-' or s[at] == '+')) at++; need(at < s.size() and isdigit((unsigned char)s[at]), "JSON: exponent in " + s.substr(b, 30)); while(at < s.size() and isdigit((unsigned char)s[at])) at++; }
			double g = strtod(s.substr(b, at - b).c_str(), nullptr);
			if(isinf(d)) need(isinf(g) and (g < 0) == (d < 0), "JSON: infinity became " + s.substr(b, at - b));
			else need(fabs(g - d) <= fabs(d) * 1e-12 + 5e-324 * 4 or (isinf(g) and fabs(d) > 1.797e308), fmt("JSON: %.17g became %s", d, s.substr(b, at - b).c_str()));
			break;
		}
		case BOOL: need(lit(v.num ? "true" : "false"), "JSON: boolean"); break;
		case STR: { std::string o; str(o); need(o == v.s, "JSON: a string changed"); break; }
		case NUL: case UND: need(lit("null"), "JSON: null"); break;
		case ARR: { need(lit("["), "JSON: ["); bool first = true; for(auto &e : v.a) { ws(); if(not first) need(lit(","), "JSON: comma"); first = false; match(e); } ws(); need(lit("]"), "JSON: ]"); break; }
		default:
		{
			need(lit("{"), "JSON: {"); std::set<std::string> left; for(auto &e : v.m) if(e.second.k != UND) left.insert(e.first);
			bool first = true;
			while(not left.empty()) { ws(); if(not first) need(lit(","), "JSON: comma"); first = false; ws(); std::string k; str(k); need(left.erase(k), "JSON: unexpected member"); ws(); need(lit(":"), "JSON: colon"); match(v.m.at(k)); }
			ws(); need(lit("}"), "JSON: }");
		}
		}
	}
	void whole(const V &v) { match(v); ws(); need(at == s.size(), "JSON: trailing text"); }
};

static int deep(const V &v) { int d = 0; for(auto &e : v.m) d = std::max(d, 1 + deep(e.second)); for(auto &e : v.a) d = std::max(d, 1 + deep(e)); return d; }

static bool json = true;
static void value(const V &v)
{
	P p = build(v);
	need(eq(read(p), v), "a value built through the interface reads differently: " + show(v));
	Bytes_ enc = AMF0::encode(p.get()); bool fits = deep(v) <= 32;
	V back; size_t at = 0; bool ok = refDecode(enc, at, back);
	need(ok == fits and (not ok or (at == enc.size() and eq(back, v))), "the encoding of " + show(v) + " is " + hex(enc));
	for(uint32_t count : { 0u, 1u, 77u, 0xffffffffu })
	{
		Bytes_ ref; refEncode(v, ref, count); bool more = count & 1; if(more) ref.push_back(0x00);
		Exact e(ref); const uint8_t *c = e.p; P d = AMF0::decode(&c, e.end());
		if(not fits) { need(not d and c == e.p, "a value nested too deep was decoded"); continue; }
		need(d and c == e.end() - more, "decoding " + show(v) + " from " + hex(ref)); need(eq(read(d), v), "decoded differently: " + show(v));
	}
	// several values, and prefixes
	std::vector<P> all { p, nullptr, AMF0::Null(), p }; Bytes_ seq = AMF0::encode(all); Bytes_ want(enc); want.push_back(5); want.insert(want.end(), enc.begin(), enc.end());
	need(seq == want, "a sequence is not the concatenation of its values"); Exact es(seq); std::vector<P> out;
	need(AMF0::decode(es.p, es.end(), out) == fits, "decoding a sequence");
	if(fits)
	{
		need(out.size() == 3 and eq(read(out[0]), v) and eq(read(out[2]), v), "decoding a sequence");
		P dup = p->duplicate(); need(dup and dup != p and eq(read(dup), v), "the duplicate of " + show(v) + " differs");
		if(enc.size() < 200) for(size_t k = 0; k < enc.size(); k++) { Exact e(Bytes_(enc.begin(), enc.begin() + k)); const uint8_t *c = e.p; need(not AMF0::decode(&c, e.end()) and c == e.p, fmt("a truncation to %zu of ", k) + hex(enc)); }
	}
	if(json) for(size_t ind : { 0, 4 }) { std::string j = p->toJSON(ind); Json(j).whole(v); p->repr(ind); }
}

static const std::string keys[] = { "", "a", "b", std::string("\0z", 2), "\"\\\n\x7f" };
static V num(double d) { V v; v.k = NUM; memcpy(&v.num, &d, 8); return v; }
static V str(const std::string &s) { V v; v.k = STR; v.s = s; return v; }
static V kind(Kind k) { V v; v.k = k; return v; }
static V gen(Inner &in, int &budget, int depth)
{
	budget--; int c = in(budget > 0 and depth < 4 ? 12 : 8); V v;
	switch(c)
	{
	case 0: return num(0.5); case 1: return num(NAN); case 2: { v.k = BOOL; v.num = 1; return v; } case 3: { v.k = BOOL; return v; }
	case 4: return str(""); case 5: return str(std::string("x\0\"", 3)); case 6: return kind(NUL); case 7: return kind(UND);
	case 11: v.k = ARR; { int n = in(std::min(3, budget + 1)); for(int i = 0; i < n; i++) v.a.push_back(gen(in, budget, depth + 1)); return v; }
	default: v.k = c == 8 ? OBJ : c == 9 ? TYPED : ECMA; if(c == 9) v.s = in(2) ? "" : "Cls"; { int n = in(std::min(3, budget + 1)), k = 0; for(int i = 0; i < n; i++) { k += in(2); std::string key = keys[std::min(k++, 4)]; v.m[key] = gen(in, budget, depth + 1); } return v; }
	}
}

static void bytes(const Bytes_ &b)
{
	V v; size_t at = 0; bool ok = refDecode(b, at, v);
	Exact e(b); const uint8_t *c = e.p; P p = AMF0::decode(&c, e.end());
	need(!!p == ok, fmt("%s was %s", hex(b).c_str(), p ? "accepted" : "refused"));
	if(not ok) { need(c == e.p, "a refused value moved the cursor: " + hex(b)); return; }
	need(c == e.p + at, "consumed bytes of " + hex(b)); need(eq(read(p), v), hex(b) + " decoded to something other than " + show(v));
	Bytes_ enc = AMF0::encode(p.get()); V again; size_t a2 = 0; need(refDecode(enc, a2, again) and a2 == enc.size() and eq(again, v), "re-encoding " + hex(b) + " gives " + hex(enc));
}

// ---- containers against a map and a vector
static void objectOps(Inner &in, int depth)
{
	std::map<std::string, int> ref; std::shared_ptr<AMF0Object> o; int t = in(3); if(t == 0) o = AMF0::Object(); else if(t == 1) o = AMF0::ECMAArray(); else o = AMF0::TypedObject("c");
	static const std::string huge(65536, 'k'), big(65535, 'k'); int serial = 0;
	for(int i = 0; i < depth; i++)
	{
		int k = in(3); const std::string key = k == 0 ? "a" : k == 1 ? "b" : "";
		switch(in(6))
		{
		case 0: o->putValueAtKey(AMF0::Number(++serial), key); ref[key] = serial; in.log("put %s", key.c_str()); break;
		case 1: { AMF0 *raw = new AMF0Number(++serial); o->putValueAtKey(raw, key); raw->release(); ref[key] = serial; in.log("put raw %s", key.c_str()); break; }
		case 2: o->erase(key); ref.erase(key); in.log("erase %s", key.c_str()); break;
		case 3: o->erase(key.c_str()); ref.erase(key); in.log("erase cstr %s", key.c_str()); break;
		case 4: if(k == 0) { o->clear(); ref.clear(); in.log("clear"); } else if(k == 1) { o->putValueAtKey(AMF0::Null(), huge); in.log("put an oversized key"); } else { o->putValueAtKey(AMF0::Number(++serial), big); ref[big] = serial; in.log("put the longest key"); } break;
		case 5: { P d = o->duplicate(); need(d and d->getType() == o->getType(), "duplicate"); o = share_ref(d->asObject()); in.log("duplicate"); break; }
		}
		need(o->size() == ref.size(), "object size");
		for(const std::string &q : { std::string("a"), std::string("b"), std::string(""), big, huge, std::string("zz") })
		{
			auto it = ref.find(q); need(o->has(q) == (it != ref.end()) and o->has(q.c_str()) == o->has(q), "has"); P g = o->getValueAtKey(q);
			need(g and (it == ref.end() ? g->isUndefined() : g->isNumber() and g->doubleValue() == it->second), "get");
		}
		size_t n = 0; const AMF0Object *co = o.get(); for(auto it = co->begin(); it != co->end(); ++it, n++) need(ref.count(it->first), "iteration lists an absent key"); need(n == ref.size(), "iteration");
	}
}
static void arrayOps(Inner &in, int depth)
{
	std::vector<int> ref; auto a = AMF0::Array(); int serial = 0; // 0: unset
	for(int i = 0; i < depth; i++)
	{
		uint32_t at = in(4);
		switch(in(8))
		{
		case 0: a->putValueAtIndex(AMF0::Number(++serial), at); if(ref.size() <= at) ref.resize(at + 1); ref[at] = serial; in.log("put %u", at); break;
		case 1: a->appendValue(AMF0::Number(++serial)); ref.push_back(serial); in.log("append"); break;
		case 2: { AMF0 *raw = new AMF0Number(++serial); a->appendValue(raw); raw->release(); ref.push_back(serial); in.log("append raw"); break; }
		case 3: a->resize(at); ref.resize(at); in.log("resize %u", at); break;
		case 4: a->reset(at); if(at < ref.size()) ref[at] = 0; in.log("reset %u", at); break;
		case 5: case 6: case 7:
		{
			static const size_t counts[] = { 0, 1, 2, 5, SIZE_MAX, SIZE_MAX - 1, (size_t)UINT32_MAX, (size_t)1 << 63 };
			size_t n = counts[in(8)]; a->remove(at, n); if(at < ref.size()) { size_t m = std::min(n, ref.size() - at); ref.erase(ref.begin() + at, ref.begin() + at + m); } in.log("remove %u, %zu", at, n); break;
		}
		}
		need(a->size() == ref.size(), fmt("array size %zu, not %zu", a->size(), ref.size()));
		for(size_t j = 0; j < ref.size() + 2; j++) { P g = a->getValueAtIndex(j); need(g and (j >= ref.size() or not ref[j] ? g->isUndefined() : g->isNumber() and g->doubleValue() == ref[j]), fmt("element %zu", j)); }
		need(a->getValueAtIndex(UINT32_MAX)->isUndefined(), "element far past the end");
	}
	P d = a->duplicate(); need(d and d->isArray() and d->asArray()->size() == ref.size(), "duplicate of an array");
}

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C27"; meta.hangCpuSeconds = 120;
	meta.assumptions = { "dates, XML documents, references and AMF3 values are not supported by the library and are refused", "values nest at most 32 levels (deeper ones are refused)", "strings are UTF-8 where JSON is concerned", "class names contain no NUL" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		int nodes = th ? 4 : 3;
		v.push_back({ "values/trees", 0, [=] (Ctx &c) { explore(c, 4, [=] (Inner &in) { int b = nodes; V x = gen(in, b, 0); in.log("%s", show(x).c_str()); value(x); }); } });
		v.push_back({ "values/numbers", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) {
			int e0 = in(128) * 16; static const uint64_t man[] = { 0, 1, 0x8000000000000ull, 0xfffffffffffffull, 0x999999999999aull, 0x3333333333333ull, 0xf000000000000ull, 0x10000, 0xffffffff, 0x7ffffffffffffull };
			for(int e = e0; e < e0 + 16; e++) for(uint64_t m : man) for(int s = 0; s < 2; s++) { V x = kind(NUM); x.num = uint64_t(s) << 63 | uint64_t(e) << 52 | m; in.log("%016llx", (unsigned long long)x.num); value(x); }
			in.ctx.count("values", 16 * 20);
		}); } });
		// decimals a person would write, and their neighbours
		v.push_back({ "values/decimals", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) {
			int ex = in(th ? 61 : 46) - 23, lead = in(10); for(int d = 0; d < (th ? 1000 : 100); d++) { double x = strtod(fmt("%d.%03de%d", lead, th ? d : d * 10 + 9, ex).c_str(), nullptr); for(double y : { x, nextafter(x, INFINITY), nextafter(x, 0) }) { V z = num(y); in.log("%.17g", y); value(z); } }
			in.ctx.count("values", th ? 3000 : 300);
		}); } });
		v.push_back({ "values/strings", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) {
			static const size_t lens[] = { 0, 1, 2, 255, 256, 65534, 65535, 65536, 65537, 131072 }; std::string s(lens[in(10)], 'q'); int where = in(4);
			V x; if(where == 0) x = str(s); else if(where == 1) { x = kind(ARR); x.a = { str(s), kind(NUL), str(s) }; } else if(where == 2) { x = kind(OBJ); if(s.size() < 65536) x.m[s] = str(s); else x.m["s"] = str(s); x.m["~"] = str("y"); } else { x = kind(TYPED); x.s = s.substr(0, 65535); x.m["k"] = str(s); }
			json = s.size() < 300; value(x); json = true;
		}); } });
		v.push_back({ "values/characters", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) { int a = in(256); for(int b = 0; b < 256; b++) { std::string s; s += char(a); s += char(b); V x = kind(OBJ); x.m[s] = str(s); value(x); } in.ctx.count("values", 256); }); } });
		v.push_back({ "values/class-name", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) { size_t n = 65533 + in(6); std::string s(n, 'c'); auto o = AMF0::TypedObject(s.c_str()); o->putValueAtKey(AMF0::True(), "t"); P d = o->duplicate(); need(d and d->isTypedObject() and d->asTypedObject()->className() == s.substr(0, 65535) and d->getValueAtKey("t")->isTruthy(), "an over-long class name"); }); } });
		// nesting around the limit, and far beyond it
		v.push_back({ "values/depth", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) {
			int k = in(5), n = 28 + in(10), leaf = in(2); V x = leaf ? str("z") : kind(ARR);
			for(int i = 0; i < n; i++) { V y = kind(k == 4 ? Kind(OBJ + i % 4) : Kind(OBJ + k)); if(y.k == ARR) y.a = { kind(NUL), x }; else y.m["n"] = x; x = y; }
			value(x);
		}); } });
		v.push_back({ "values/abyss", 0, [=] (Ctx &c) { explore(c, 2, [=] (Inner &in) {
			static const Bytes_ open[] = { { 3, 0, 1, 'a' }, { 16, 0, 0, 0, 1, 'a' }, { 8, 0, 0, 0, 0, 0, 1, 'a' }, { 10, 0, 0, 0, 1 }, { 10, 0xff, 0xff, 0xff, 0xff } }; int k = in(6); size_t n = in(2) ? 200000 : 33;
			Bytes_ b; for(size_t i = 0; i < n; i++) { const Bytes_ &o = open[k == 5 ? i % 5 : k]; b.insert(b.end(), o.begin(), o.end()); } if(in(2)) b.push_back(5);
			Exact e(b); const uint8_t *cur = e.p; need(not AMF0::decode(&cur, e.end()) and cur == e.p, "a bottomless value was decoded"); std::vector<P> out; need(not AMF0::decode(e.p, e.end(), out), "a bottomless sequence was decoded");
		}); } });
		static const uint8_t alpha[] = { 0x00, 0x01, 0x02, 0x03, 0x05, 0x06, 0x08, 0x09, 0x0a, 0x0c, 0x0d, 0x10, 0xff };
		int maxLen = th ? 7 : 6;
		for(int len = 0; len <= maxLen; len++)
			v.push_back({ fmt("bytes/%d", len), 0, [=] (Ctx &c) { explore(c, std::min(3, len), [=] (Inner &in) { Bytes_ b; for(int i = 0; i < len; i++) b.push_back(alpha[in(13)]); bytes(b); }); } });
		// container bodies: an opening, then every continuation
		v.push_back({ "bytes/bodies", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) {
			static const Bytes_ open[] = { { 3 }, { 16, 0, 1, 'T' }, { 8, 0, 0, 0, 2 }, { 10, 0, 0, 0, 2 }, { 3, 0, 1, 'k', 10, 0, 0, 0, 1 }, { 10, 0, 0, 0, 1, 3 }, { 3, 0, 0 }, { 12, 0, 0, 0 } };
			static const Bytes_ item[] = { { 0, 0, 9 }, { 0, 1, 'a' }, { 5 }, { 3 }, { 2, 0, 0 }, { 0 }, { 9 }, { 10, 0, 0, 0, 0 }, { 1, 1 }, { 0x0b }, { 0, 0 }, { 1 } };
			Bytes_ b = open[in(8)]; int n = th ? 5 : 4; for(int i = 0; i < n; i++) { const Bytes_ &x = item[in(12)]; b.insert(b.end(), x.begin(), x.end()); } bytes(b);
		}); } });
		v.push_back({ "bytes/mutations", 0, [=] (Ctx &c) { explore(c, 1, [=] (Inner &in) {
			V a = kind(ARR); a.a = { num(1), str("hi"), kind(UND) }; V o = kind(OBJ); o.m["k"] = a; o.m["l"] = str(""); V t = kind(TYPED); t.s = "C"; t.m["o"] = o; V m = kind(ECMA); m.m["t"] = t; m.m["x"] = kind(NUL);
			const V *s[] = { &a, &o, &t, &m }; int w = in(4); Bytes_ b; refEncode(*s[w], b, 1);
			size_t n = 0; for(size_t i = 0; i < b.size(); i++) for(int x = 0; x < 256; x++) { Bytes_ d = b; d[i] = x; bytes(d); n++; if(x % 16 == 0) for(size_t k = i; k < b.size(); k++) { bytes(Bytes_(d.begin(), d.begin() + k)); n++; } }
			for(size_t i = 0; i < b.size(); i++) for(size_t j = i + 1; j < b.size(); j++) { static const uint8_t vals[] = { 0, 1, 3, 9, 10, 16, 255 }; for(uint8_t x : vals) for(uint8_t y : vals) { Bytes_ d = b; d[i] = x; d[j] = y; bytes(d); n++; } }
			in.ctx.count("values", n);
		}); } });
		v.push_back({ "object operations", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { objectOps(in, th ? 4 : 3); }); } });
		v.push_back({ "array operations", 0, [=] (Ctx &c) { explore(c, 3, [=] (Inner &in) { arrayOps(in, th ? 4 : 3); }); } });
		return v;
	});
}
