// C29: addresses, hex and URIs against reference conversions, over all combinations of boundary values and all short strings.
#include "seq.hpp"
#include "rtmfp/Address.hpp"
#include "rtmfp/Hex.hpp"
#include "rtmfp/URIParse.hpp"
#include <arpa/inet.h>
using namespace com::zenomt;
using namespace com::zenomt::rtmfp;
using namespace mc;
typedef std::vector<uint8_t> V;

static const char *v4s[] = { "0.0.0.0", "0.0.0.1", "1.2.3.4", "10.0.0.255", "127.0.0.1", "128.0.0.0", "255.255.255.255", "9.10.11.12" };
static const char *v6s[] = { "::", "::1", "::ffff:1.2.3.4", "::ffff:0.0.0.0", "::fffe:1.2.3.4", "2001:db8::1", "fe80::1", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "ff02::1:ff00:0", "1:2:3:4:5:6:7:8", "8000::" };
static const unsigned ports[] = { 0, 1, 79, 80, 255, 256, 1935, 32767, 32768, 65535 };
const int N4 = 8, N6 = 11, NP = 10, NA = N4 + N6;
static V raw(int i) { V r(i < N4 ? 4 : 16); if(1 != inet_pton(i < N4 ? AF_INET : AF_INET6, i < N4 ? v4s[i] : v6s[i - N4], r.data())) abort(); return r; }
static Address make(int i, unsigned port, int origin) { V r = raw(i); Address a; a.setIPAddress(r.data(), r.size()); a.setPort(port); a.setOrigin((Address::Origin)origin); return a; }
static std::string text(const Address &a) { return a.getIPAddressLength() ? a.toPresentation() + fmt("/%d", a.getOrigin()) : "none"; }
static void same(const Address &a, const V &ip, unsigned port, int origin, const char *what)
{
	need(a.getFamily() == (ip.size() == 4 ? AF_INET : ip.size() == 16 ? AF_INET6 : 0), std::string(what) + ": family of " + text(a));
	need(a.getIPAddress() == ip and a.getIPAddressLength() == ip.size(), std::string(what) + ": address " + text(a));
	need(a.getPort() == port, std::string(what) + ": port of " + text(a)); need((int)a.getOrigin() == origin, std::string(what) + ": origin of " + text(a));
}

static void addresses(Inner &in)
{
	int i = in(NA); unsigned port = ports[in(NP)]; int origin = in(4); V ip = raw(i); Address a = make(i, port, origin); in.log("%s", text(a).c_str());
	same(a, ip, port, origin, "as set");
	int j = in(3) ? in(NA) : -1; // what the target held before
	auto target = [&] { return j < 0 ? Address() : make(j, 4242, 3); };
	// wire
	V want { uint8_t((ip.size() == 16 ? 0x80 : 0) | origin) }; want.insert(want.end(), ip.begin(), ip.end()); want.push_back(port >> 8); want.push_back(port & 255);
	need(a.encode() == want and a.getEncodedLength() == want.size(), "encoding of " + text(a));
	{ V buf(want.size() + 2, 0xee); need(a.encode(buf.data() + 1) == want.size() and buf[0] == 0xee and buf.back() == 0xee, "encoding in place"); }
	for(int reserved : { 0, 0x7c }) for(size_t extra : { 0, 3 })
	{
		size_t n = want.size(); std::unique_ptr<uint8_t[]> h(new uint8_t[n + extra]); memcpy(h.get(), want.data(), n); memset(h.get() + n, 1, extra); h[0] |= reserved;
		Address b = target(); need(b.setFromEncoding(h.get(), h.get() + n + extra) == n, "decoding " + text(a)); same(b, ip, port, origin, "decoded"); need(a == b and b == a and not (a < b) and not (b < a), "decoded address is not equal");
	}
	for(size_t n = 0; n < want.size(); n++) { std::unique_ptr<uint8_t[]> h(new uint8_t[n + 1]); memcpy(h.get(), want.data(), n); Address b = target(); need(0 == b.setFromEncoding(h.get(), h.get() + n), "a truncated encoding was accepted"); if(j >= 0) same(b, raw(j), 4242, 3, "after a refused encoding"); else same(b, V(), 0, 0, "after a refused encoding"); }
	{ Address b = target(); need(0 == b.setFromEncoding(want.data() + 1, want.data()), "a negative length was accepted"); }
	// socket address
	Address c = target(); need(c.setSockaddr(a.getSockaddr()), "socket address refused"); need(c.getSockaddrLen() == (ip.size() == 4 ? sizeof(sockaddr_in) : sizeof(sockaddr_in6)) and a.getSockaddrLen() == c.getSockaddrLen(), "socket address length"); same(c, ip, port, j < 0 ? 0 : 3, "from socket address");
	if(ip.size() == 4) { auto *s = (const sockaddr_in *)a.getSockaddr(); need(s->sin_family == AF_INET and ntohs(s->sin_port) == port and 0 == memcmp(&s->sin_addr, ip.data(), 4), "IPv4 socket address"); }
	else { auto *s = (const sockaddr_in6 *)a.getSockaddr(); need(s->sin6_family == AF_INET6 and ntohs(s->sin6_port) == port and 0 == memcmp(&s->sin6_addr, ip.data(), 16), "IPv6 socket address"); }
	{ size_t n = a.getSockaddrLen(); std::unique_ptr<uint8_t[]> h(new uint8_t[n]); memcpy(h.get(), a.getSockaddr(), n); Address d((const sockaddr *)h.get(), (Address::Origin)origin); same(d, ip, port, origin, "constructed from socket address"); }
	{ sockaddr_storage bad; memset(&bad, 7, sizeof bad); bad.ss_family = AF_UNIX; Address d = target(); need(not d.setSockaddr((sockaddr *)&bad) and not d.setSockaddr(nullptr), "a foreign socket address was accepted"); if(j >= 0) same(d, raw(j), 4242, 3, "after a refused socket address"); }
	// text
	char nt[64]; inet_ntop(ip.size() == 4 ? AF_INET : AF_INET6, ip.data(), nt, sizeof nt);
	std::string full = ip.size() == 4 ? fmt("%s:%u", nt, port) : fmt("[%s]:%u", nt, port);
	need(a.toPresentation() == full and a.toPresentation(true) == full, "text of " + text(a)); need(a.toPresentation(false) == nt, "text without port of " + text(a));
	{ std::unique_ptr<char[]> h(new char[Address::MAX_PRESENTATION_LENGTH]); a.toPresentation(h.get()); need(full == h.get(), "text in place"); a.toPresentation(h.get(), false); need(std::string(nt) == h.get(), "text in place without port"); }
	{ Address d = target(); need(d.setFromPresentation(full.c_str()), "own text refused: " + full); same(d, ip, port, j < 0 ? 0 : 3, "from text"); need(d == a, "text read back differs"); }
	{ Address d = target(); unsigned was = d.getPort(); need(d.setFromPresentation(nt, false), std::string("own text refused: ") + nt); need(d.getIPAddress() == ip, "from text without port"); if(j >= 0) need(d.getPort() == was, "the port was changed by text without a port"); }
	{ Address d = target(); std::string b = std::string("[") + nt + "]"; need(d.setFromPresentation(b.c_str(), false) and d.getIPAddress() == ip, "bracketed text refused: " + b); }
	// families
	static const uint8_t pre[12] = { 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff };
	bool mapped = ip.size() == 16 and 0 == memcmp(ip.data(), pre, 12);
	for(int fam : { AF_INET, AF_INET6 })
	{
		Address d = a; need(d.canMapToFamily(fam) == (fam == a.getFamily() or ip.size() == 4 or mapped), "can be mapped");
		need(d.setFamily(fam), "family refused"); V e = ip;
		if(fam == AF_INET and ip.size() == 16) e = mapped ? V(ip.begin() + 12, ip.end()) : V(4, 0);
		if(fam == AF_INET6 and ip.size() == 4) { e.assign(pre, pre + 12); e.insert(e.end(), ip.begin(), ip.end()); }
		same(d, e, port, origin, "family changed");
		need(not d.setFamily(AF_UNIX), "a foreign family was accepted"); same(d, e, port, origin, "after a refused family");
		if(d.canMapToFamily(a.getFamily())) { if(fam == a.getFamily() or ip.size() == 4 or mapped) { d.setFamily(a.getFamily()); need(d == a, "mapping there and back"); } }
	}
	for(size_t n : { 0, 3, 5, 15, 17 }) { V junk(n + 1, 9); Address d = target(); need(not d.setIPAddress(junk.data(), n), "an address of a wrong length was accepted"); if(j >= 0) same(d, raw(j), 4242, 3, "after a refused address"); }
	Address e = target(); e = a; same(e, ip, port, origin, "assigned"); Address f(a); same(f, ip, port, origin, "copied");
}

static void order(Inner &in)
{
	auto pick = [&] { int i = in(NA + 1); unsigned p = in(3) * 256 + 255; return i == NA ? Address() : make(i, p, in(2) * 2); };
	Address a = pick(), b = pick();
	auto key = [] (const Address &x) { V ip = x.getIPAddress(); return std::make_tuple(ip.size(), ip, x.getPort()); };
	bool lt = key(a) < key(b), eq = key(a) == key(b);
	need((a == b) == eq, "equality of " + text(a) + " and " + text(b));
	need(int(a < b) + int(b < a) + int(a == b) == 1, "not exactly one of less, greater, equal: " + text(a) + " " + text(b));
	(void)lt;
	Address c = pick();
	if(a < b and b < c) need(a < c, "order is not transitive: " + text(a) + " " + text(b) + " " + text(c));
	if(a == b) need((a < c) == (b < c) and (c < a) == (c < b), "order disagrees with equality");
}

// reference acceptor for textual addresses
static bool refText(const std::string &s, bool withPort, V &ip, unsigned &port)
{
	std::string h = s; port = 0;
	if(withPort)
	{
		size_t c = s.rfind(':'); if(c == std::string::npos) return false;
		std::string p = s.substr(c + 1); h = s.substr(0, c);
		if(p.empty() or p.size() > 5 or p.find_first_not_of("0123456789") != std::string::npos) return false;
		port = (unsigned)atoi(p.c_str()); if(port > 65535) return false;
	}
	bool br = h.size() >= 2 and h[0] == '[' and h.back() == ']'; if(br) h = h.substr(1, h.size() - 2);
	bool six = h.find(':') != std::string::npos; if(withPort and six and not br) return false;
	if(h.size() > 45) return false;
	ip.resize(six ? 16 : 4); return 1 == inet_pton(six ? AF_INET6 : AF_INET, h.c_str(), ip.data());
}
static void addressText(Inner &in, int len)
{
	static const char *tok[] = { "1.2.3.4", "255.0.0.1", "::1", "1:2::", "[", "]", ":", "80", "65535", "65536", "0", ".", " ", "-1", "x", "ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.255", "a" };
	std::string s; for(int i = 0; i < len; i++) s += tok[in(17)]; in.log("'%s'", s.c_str());
	std::unique_ptr<char[]> h(new char[s.size() + 1]); memcpy(h.get(), s.c_str(), s.size() + 1);
	for(bool wp : { true, false })
	{
		V ip; unsigned port; bool ok = refText(s, wp, ip, port); Address a = make(2, 4242, 1); bool r = a.setFromPresentation(h.get(), wp);
		need(r == ok, fmt("'%s' (%s port) was %s", s.c_str(), wp ? "with" : "without", r ? "accepted" : "refused"));
		if(ok) same(a, ip, wp ? port : 4242, 1, "read"); else same(a, raw(2), 4242, 1, "after refused text");
	}
}

static void hexText(Inner &in, int len)
{
	static const char al[] = { '0', '9', 'a', 'f', 'A', 'F', 'g', ' ', '\n', 'x', '/', ':', '@', '`', 'G', '\x80' };
	std::string s; for(int i = 0; i < len; i++) s += al[in(16)];
	// reference: bytes of exactly two adjacent digits, with white space between bytes
	V want; bool ok = true; auto dig = [] (unsigned char c) { return c >= '0' and c <= '9' ? c - '0' : c >= 'a' and c <= 'f' ? c - 'a' + 10 : c >= 'A' and c <= 'F' ? c - 'A' + 10 : -1; };
	for(size_t i = 0; i < s.size() and ok; i++) { if(s[i] == ' ' or s[i] == '\n') continue; int a = dig(s[i]), b = i + 1 < s.size() ? dig(s[i + 1]) : -1; if(a < 0 or b < 0) ok = false; else { want.push_back(a * 16 + b); i++; } }
	std::unique_ptr<char[]> h(new char[s.size() + 1]); memcpy(h.get(), s.c_str(), s.size() + 1);
	V got { 1, 2 }; bool r = Hex::decode(h.get(), got); V exp { 1, 2 }; if(ok) exp.insert(exp.end(), want.begin(), want.end());
	need(r == ok and got == exp, fmt("hex text '%s' decoded wrongly (%d)", s.c_str(), r));
	int a = s.size() > 0 ? dig(s[0]) : -1, b = s.size() > 1 ? dig(s[1]) : -1;
	need(Hex::decodeByte(h.get()) == (a < 0 or b < 0 ? -1 : a * 16 + b), fmt("byte of '%s'", s.c_str()));
	if(ok) { std::string e = Hex::encode(want); V back; need(Hex::decode(e.c_str(), back) and back == want and e.size() == 2 * want.size(), "encode and decode"); need(Hex::encode(want.data(), want.size()) == e and Hex::encode(want.data(), want.data() + want.size()) == e, "encode variants"); }
}
static void hexBytes(Inner &in) { V b; int n = 1 + in(2); for(int i = 0; i < n; i++) b.push_back(uint8_t(in(256))); std::string e = Hex::encode(b), w; for(auto x : b) w += fmt("%02x", x); need(e == w, "hex encoding"); V back; need(Hex::decode(e.c_str(), back) and back == b, "hex decoding"); for(auto &c : e) c = (char)toupper(c); back.clear(); need(Hex::decode(e.c_str(), back) and back == b, "upper case"); }

// --- URIs: reference parser working character by character
struct Ref { std::string scheme, schemePart, auth, authPart, path, query, queryPart, frag, fragPart, userinfo, userinfoPart, user, pass, passPart, hostinfo, host, port; };
static Ref refUri(const std::string &s)
{
	Ref r; size_t i = 0, n = s.size();
	size_t k = 0; while(k < n and not strchr(":/?#", s[k])) k++;
	if(k > 0 and k < n and s[k] == ':' and isalpha((unsigned char)s[0])) { r.scheme = s.substr(0, k); r.schemePart = r.scheme + ":"; i = k + 1; }
	std::string hier; while(i < n and s[i] != '?' and s[i] != '#') hier += s[i++];
	if(i < n and s[i] == '?') { r.queryPart = "?"; for(i++; i < n and s[i] != '#'; i++) { r.query += s[i]; r.queryPart += s[i]; } }
	if(i < n) { r.fragPart = s.substr(i); r.frag = s.substr(i + 1); }
	if(hier.size() >= 2 and hier[0] == '/' and hier[1] == '/') { size_t j = 2; while(j < hier.size() and hier[j] != '/') r.auth += hier[j++]; r.authPart = "//" + r.auth; r.path = hier.substr(j); } else r.path = hier;
	r.hostinfo = r.auth;
	for(size_t j = 0; j < r.auth.size(); j++) if(r.auth[j] == '@') { r.userinfo = r.auth.substr(0, j); r.userinfoPart = r.userinfo + "@"; r.hostinfo = r.auth.substr(j + 1); break; }
	bool colon = false; for(char c : r.userinfo) { if(c == ':' and not colon) { colon = true; r.passPart = ":"; continue; } if(colon) { r.pass += c; r.passPart += c; } else r.user += c; }
	std::string h = r.hostinfo, lit, rest = h; size_t e; if(not h.empty() and h[0] == '[' and (e = h.find(']')) != std::string::npos) { lit = h.substr(1, e - 1); rest = h.substr(e + 1); }
	size_t c = rest.find(':'); std::string name = rest.substr(0, c), port = c == std::string::npos ? "" : rest.substr(c + 1);
	bool ok = c == std::string::npos or (not port.empty() and port.find_first_not_of("0123456789") == std::string::npos);
	if(ok) { r.host = lit.empty() ? name : lit; r.port = port; }
	return r;
}
static void uriCheck(const std::string &s)
{
	URIParse u(s); Ref r = refUri(s);
	auto eq = [&] (const char *what, const std::string &got, const std::string &want) { need(got == want, fmt("%s of '%s' is '%s', expected '%s'", what, s.c_str(), got.c_str(), want.c_str())); };
	eq("uri", u.uri, s); eq("scheme", u.scheme, r.scheme); eq("scheme part", u.schemePart, r.schemePart); eq("authority", u.authority, r.auth); eq("authority part", u.authorityPart, r.authPart); eq("path", u.path, r.path); eq("query", u.query, r.query); eq("query part", u.queryPart, r.queryPart); eq("fragment", u.fragment, r.frag); eq("fragment part", u.fragmentPart, r.fragPart);
	eq("user info", u.userinfo, r.userinfo); eq("user info part", u.userinfoPart, r.userinfoPart); eq("user", u.user, r.user); eq("password", u.password, r.pass); eq("password part", u.passwordPart, r.passPart); eq("host info", u.hostinfo, r.hostinfo); eq("host", u.host, r.host); eq("port", u.port, r.port);
	eq("hierarchical part", u.hierpart, r.authPart + r.path);
	std::string lc = r.scheme; for(auto &c : lc) c = (char)tolower(c); eq("canonical scheme", u.canonicalScheme, lc);
	eq("public form", u.publicUri, r.schemePart + (r.authPart.empty() ? "" : "//" + r.hostinfo) + r.path + r.queryPart);
	eq("origin", u.origin, r.scheme.empty() or r.hostinfo.empty() ? "" : r.scheme + "://" + r.hostinfo);
	std::string ep = r.port; if(ep.empty() and not r.hostinfo.empty()) ep = lc == "http" or lc == "ws" ? "80" : lc == "https" or lc == "wss" or lc == "rtmps" ? "443" : lc == "rtmfp" or lc == "rtmp" ? "1935" : "";
	eq("effective port", u.effectivePort, ep);
	URIParse again("x://y:z@w:1/p?q#f"); again.parse(s); eq("path after parsing again", again.path, u.path); eq("port after parsing again", again.port, u.port); eq("user after parsing again", again.user, u.user); eq("fragment after parsing again", again.fragment, u.fragment);
}
static void uriStrings(Inner &in, int len, const char *prefix) { static const char al[] = "a:/?#@[]1Z"; std::string s = prefix; for(int i = 0; i < len; i++) s += al[in(10)]; uriCheck(s); }
static void uriBuilt(Inner &in)
{
	static const char *schemes[] = { "", "rtmfp", "HTTP", "wss", "rtmps", "ws", "https", "rtmp", "x+y" }, *users[] = { "", "u", "u:", "u:p", ":p" }, *hosts[] = { "", "h", "h.example", "10.0.0.1", "[::1]", "[]" }, *prts[] = { "", "1935", "0" }, *paths[] = { "", "/", "/a/b", "/a:b@c" }, *qs[] = { "-", "", "q=1", "a?b" }, *fs[] = { "-", "", "f", "a?b#c" };
	std::string sc = schemes[in(9)], us = users[in(5)], ho = hosts[in(6)], pt = prts[in(3)], pa = paths[in(4)], q = qs[in(4)], f = fs[in(4)];
	std::string s = (sc.empty() ? "" : sc + ":") + "//" + (us.empty() ? "" : us + "@") + ho + (pt.empty() ? "" : ":" + pt) + pa + (q == "-" ? "" : "?" + q) + (f == "-" ? "" : "#" + f);
	URIParse u(s); std::string bare = ho.size() > 1 and ho[0] == '[' ? ho.substr(1, ho.size() - 2) : ho;
	need(u.scheme == sc and u.userinfo == us and u.host == bare and u.port == pt and u.path == pa and u.query == (q == "-" ? "" : q) and u.fragment == (f == "-" ? "" : f), "components of " + s);
	uriCheck(s);
}
// RFC 3986 5.2.4, word by word
static std::string refDots(std::string in)
{
	std::string out; auto starts = [&] (const char *p) { return 0 == in.compare(0, strlen(p), p); };
	while(not in.empty())
	{
		if(starts("../")) in = in.substr(3);
		else if(starts("./")) in = in.substr(2);
		else if(starts("/./")) in = "/" + in.substr(3);
		else if(in == "/.") in = "/";
		else if(starts("/../") or in == "/..") { in = in == "/.." ? "/" : "/" + in.substr(4); size_t p = out.rfind('/'); out = p == std::string::npos ? "" : out.substr(0, p); }
		else if(in == "." or in == "..") in = "";
		else { size_t p = in.find('/', in[0] == '/' ? 1 : 0); out += in.substr(0, p); in = p == std::string::npos ? "" : in.substr(p); }
	}
	return out;
}
static std::string refResolve(const std::string &base, const std::string &rel)
{
	Ref b = refUri(base), r = refUri(rel); std::string sp, ap, path, qp;
	if(not r.schemePart.empty()) { sp = r.schemePart; ap = r.authPart; path = refDots(r.path); qp = r.queryPart; }
	else
	{
		sp = b.schemePart;
		if(not r.authPart.empty()) { ap = r.authPart; path = refDots(r.path); qp = r.queryPart; }
		else
		{
			ap = b.authPart;
			if(r.path.empty()) { path = b.path; qp = r.queryPart.empty() ? b.queryPart : r.queryPart; }
			else
			{
				if(r.path[0] == '/') path = refDots(r.path);
				else if(not b.authPart.empty() and b.path.empty()) path = refDots("/" + r.path);
				else { size_t p = b.path.rfind('/'); path = refDots((p == std::string::npos ? "" : b.path.substr(0, p + 1)) + r.path); }
				qp = r.queryPart;
			}
		}
	}
	return sp + ap + path + qp + r.fragPart;
}
static void dots(Inner &in, int len) { static const char al[] = "/.ab"; std::string s; for(int i = 0; i < len; i++) s += al[in(4)]; std::string g = URIParse::removeDotSegments(s); need(g == refDots(s), fmt("'%s' without dot segments is '%s', expected '%s'", s.c_str(), g.c_str(), refDots(s).c_str())); }
static void relative(Inner &in)
{
	static const char *bases[] = { "http://a/b/c/d;p?q", "http://a", "http://a/", "x:b", "x:b/c", "//h/p/q", "/p/q/", "", "http://a/b/../c", "a?b" }; std::string b = bases[in(10)];
	static const char *toks[] = { "", "a", "/", "..", ".", "//", "?", "#", ":", "g", "x" }; std::string r; for(int i = 0; i < 4; i++) r += toks[in(11)];
	std::string g = URIParse(b).transformRelativeReference(r); need(g == refResolve(b, r), fmt("'%s' relative to '%s' is '%s', expected '%s'", r.c_str(), b.c_str(), g.c_str(), refResolve(b, r).c_str()));
}
static void splits(Inner &in, int len)
{
	static const char al[] = "a,;b"; std::string s; for(int i = 0; i < len; i++) s += al[in(4)]; size_t max = in(5); int how = in(3); std::string seps = how == 0 ? "," : how == 1 ? ";," : "";
	std::vector<std::string> want; if(not seps.empty()) { std::string cur; for(char c : s) { if(seps.find(c) != std::string::npos and not (max and want.size() + 1 >= max)) { want.push_back(cur); cur.clear(); } else cur += c; } want.push_back(cur); }
	auto got = URIParse::split(s, seps, max); need(got == want, fmt("splitting '%s' on '%s' into at most %zu gave %zu parts, expected %zu", s.c_str(), seps.c_str(), max, got.size(), want.size()));
	if(how == 0) need(URIParse::split(s, ',', max) == want, "splitting on one separator");
}
static void percent(Inner &in, int len)
{
	static const char al[] = { '%', '0', '4', '1', 'f', 'F', 'g', 'a', '\xc3' }; std::string s; for(int i = 0; i < len; i++) s += al[in(9)];
	auto dig = [] (unsigned char c) { return c >= '0' and c <= '9' ? c - '0' : c >= 'a' and c <= 'f' ? c - 'a' + 10 : c >= 'A' and c <= 'F' ? c - 'A' + 10 : -1; };
	std::string want; bool ok = true; for(size_t i = 0; i < s.size() and ok; i++) { if(s[i] != '%') { want += s[i]; continue; } int a = i + 2 < s.size() + 0 ? dig(s[i + 1]) : -1, b = i + 2 < s.size() ? dig(s[i + 2]) : -1; if(a < 0 or b < 0 or a * 16 + b == 0) ok = false; else { want += char(a * 16 + b); i += 2; } }
	if(not ok) want = ""; std::string g = URIParse::percentDecode(s), sg = URIParse::safePercentDecode(s);
	need(g == want, fmt("percent-decoding '%s' gave '%s', expected '%s'", s.c_str(), g.c_str(), want.c_str())); need(sg == (ok ? want : s), fmt("safely percent-decoding '%s' gave '%s'", s.c_str(), sg.c_str()));
}
static void longOnes(Inner &in)
{
	size_t n = in(2) ? 300000 : 5000; int where = in(7); std::string f(n, 'a'); if(in(2)) for(size_t i = 0; i < n; i += 2) f[i] = '.';
	const char *pre[] = { "rtmfp://h/", "", "rtmfp://", "rtmfp://u@", "x:/?", "x:#", "http://[" }; uriCheck(pre[where] + f);
	std::string d; for(size_t i = 0; i < 3000; i++) d += i % 3 ? "/.." : "/a"; need(URIParse::removeDotSegments(d) == refDots(d), "long dots");
}
static void percentAll(Inner &in) { int b = 1 + in(255); bool up = in(2); std::string s = "x" + fmt(up ? "%%%02X" : "%%%02x", b) + "y"; std::string w = std::string("x") + char(b) + "y"; need(URIParse::percentDecode(s) == w and URIParse::safePercentDecode(s) == w, "percent-decoding " + s); need(URIParse::percentDecode("a%00b") == "", "a NUL was decoded"); }

int main(int argc, char **argv)
{
	mc::Meta meta; meta.property = "C29"; meta.hangCpuSeconds = 30;
	meta.assumptions = { "strings are C strings (no embedded NUL)", "IPv6 scope and flow labels are not part of an address's identity", "line breaks inside URIs excluded" };
	return mc::runMain(argc, argv, meta, [] (const std::string &tier) {
		bool th = tier == "thorough"; std::vector<mc::Scenario> v;
		auto add = [&] (const std::string &n, int split, const std::function<void(Inner &)> &f) { v.push_back({ n, 0, [=] (Ctx &c) { explore(c, split, f); } }); };
		add("addresses", 2, addresses); add("order", 2, order); add("hex/bytes", 2, hexBytes); add("uri/built", 3, uriBuilt); add("uri/relative", 3, relative); add("uri/long", 2, longOnes); add("percent/all", 1, percentAll);
		for(int n = 0; n <= (th ? 5 : 4); n++) add(fmt("address-text/%d", n), std::min(n, 2), [=] (Inner &in) { addressText(in, n); });
		for(int n = 0; n <= (th ? 6 : 5); n++) add(fmt("hex/%d", n), std::min(n, 2), [=] (Inner &in) { hexText(in, n); });
		for(int n = 0; n <= (th ? 6 : 5); n++) add(fmt("uri/%d", n), std::min(n, 3), [=] (Inner &in) { uriStrings(in, n, ""); });
		for(const char *p : { "//", "rtmfp://", "//u:p@", "ws://[", "a:" }) add(fmt("uri/%s", p), 3, [=] (Inner &in) { uriStrings(in, th ? 6 : 4, p); });
		for(int n = 0; n <= (th ? 12 : 9); n++) add(fmt("dots/%d", n), std::min(n, 3), [=] (Inner &in) { dots(in, n); });
		for(int n = 0; n <= (th ? 9 : 7); n++) add(fmt("split/%d", n), std::min(n, 3), [=] (Inner &in) { splits(in, n); });
		for(int n = 0; n <= (th ? 7 : 6); n++) add(fmt("percent/%d", n), std::min(n, 3), [=] (Inner &in) { percent(in, n); });
		return v;
	});
}
