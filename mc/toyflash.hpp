#pragma once
// The real Flash-profile adapter (src/FlashCryptoAdapter.cpp) over small deterministic primitives.
#include "sim.hpp"
#include "rtmfp/FlashCryptoAdapter.hpp"

namespace toy {
using namespace sim;

class Hmac : public HMACSHA256_Context {
public:
	bool init(const void *key, size_t len) override { if(m_init) return false; m_init = true; m_key.assign((const uint8_t *)key, (const uint8_t *)key + len); return true; }
	bool compute(void *md, const void *msg, size_t len) override { if(not m_init) return false; hashBytes((uint8_t *)md, 32, { B("hmac"), m_key, Bytes((const uint8_t *)msg, (const uint8_t *)msg + len) }); return true; }
	bool m_init = false; Bytes m_key;
};
// CBC over a 4-round Feistel permutation
class Aes : public AES_Context {
public:
	bool init(const void *key, size_t len, bool enc) override { if(m_init or len != 16) return false; m_init = true; m_enc = enc; memcpy(m_key, key, 16); return true; }
	uint64_t round(uint64_t half, int r) const { uint64_t a = m_key[0] ^ (uint64_t(r) * 0x9e3779b97f4a7c15ull), b = m_key[1] + half; b ^= a; b *= 0xff51afd7ed558ccdull; b ^= b >> 32; b += a; b *= 0xc4ceb9fe1a85ec53ull; b ^= b >> 29; return b; }
	void block(uint64_t x[2], bool enc) const { if(enc) for(int r = 0; r < 4; r++) { uint64_t t = x[0] ^ round(x[1], r); x[0] = x[1]; x[1] = t; } else for(int r = 3; r >= 0; r--) { uint64_t t = x[1] ^ round(x[0], r); x[1] = x[0]; x[0] = t; } }
	bool crypt_cbc(void *dst_, const void *src_, size_t len, uint8_t *iv) override
	{
		if(not m_init or (len & 15)) return false;
		uint8_t *dst = (uint8_t *)dst_; const uint8_t *src = (const uint8_t *)src_; uint64_t prev[2], x[2], c[2]; memcpy(prev, iv, 16);
		for(size_t i = 0; i < len; i += 16)
		{
			memcpy(c, src + i, 16); x[0] = c[0]; x[1] = c[1];
			if(m_enc) { x[0] ^= prev[0]; x[1] ^= prev[1]; block(x, true); prev[0] = x[0]; prev[1] = x[1]; } else { block(x, false); x[0] ^= prev[0]; x[1] ^= prev[1]; prev[0] = c[0]; prev[1] = c[1]; }
			memcpy(dst + i, x, 16);
		}
		memcpy(iv, prev, 16); return true;
	}
	bool m_init = false, m_enc = false; uint64_t m_key[2];
};
const uint64_t P = (uint64_t(1) << 61) - 1;
inline uint64_t power(uint64_t g, uint64_t e) { unsigned __int128 r = 1, b = g; while(e) { if(e & 1) r = r * b % P; b = b * b % P; e >>= 1; } return (uint64_t)r; }
class Dh : public DH_Context {
public:
	Dh(uint64_t seed) : m_e(seed % (P - 3) + 2) {}
	bool init(int group) override { if(m_g) return false; if(group != 2 and group != 14 and group != 16) return false; m_g = group == 2 ? 3 : group == 14 ? 5 : 7; return true; }
	static Bytes enc(uint64_t v) { Bytes r; for(int i = 56; i >= 0; i -= 8) r.push_back(uint8_t(v >> i)); return r; }
	Bytes getPublicKey() const override { return enc(power(m_g, m_e)); }
	bool computeSharedSecret(const void *other, size_t len, Bytes &dst) const override
	{
		if(not m_g or len != 8) return false;
		uint64_t v = 0; for(int i = 0; i < 8; i++) v = v << 8 | ((const uint8_t *)other)[i];
		if(v < 2 or v > P - 2) return false;
		dst = enc(power(v, m_e)); return true;
	}
	uint64_t m_g = 0, m_e;
};
class Flash : public FlashCryptoAdapter {
public:
	Flash(const std::string &name, std::vector<int> groups = { 2 }) : m_name(name), m_groups(groups) {}
	Bytes rnd(size_t n) { m_ctr++; return H(n, { B("flash"), B(m_name), B(fmt("%lu", m_ctr)) }); }
	void pseudoRandomBytes(uint8_t *dst, size_t n) override { Bytes r = rnd(n); memcpy(dst, r.data(), n); }
	std::vector<int> getSupportedDHGroups() const override { return m_groups; }
	void sha256(void *dst, const void *msg, size_t n) const override { hashBytes((uint8_t *)dst, 32, { B("sha"), Bytes((const uint8_t *)msg, (const uint8_t *)msg + n) }); }
	std::shared_ptr<HMACSHA256_Context> makeHMAC_Context() override { return share_ref(new Hmac(), false); }
	std::shared_ptr<AES_Context> makeAES_Context() override { return share_ref(new Aes(), false); }
	std::shared_ptr<DH_Context> makeDH_Context() override { Bytes r = rnd(8); uint64_t s; memcpy(&s, r.data(), 8); return share_ref(new Dh(s), false); }
	Bytes cert() { return getNearEncodedCertForEPD(nullptr, 0); }
	std::shared_ptr<FlashCryptoCert> asCert() { Bytes c = cert(); return decodeFlashCertificate(c.data(), c.size()); }
	std::string m_name; std::vector<int> m_groups; unsigned long m_ctr = 0;
};

} // namespace toy
