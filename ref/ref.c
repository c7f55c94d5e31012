/*
 * Reference implementations used to *generate* inputs (chunk pools, expected
 * images, encrypted bodies). They are independent of /repo and are themselves
 * checked against spec/Buzhash.tla and spec/XChaCha20.tla by the C09 / C15
 * checks.
 */
#include <stdint.h>
#include <stddef.h>
#include <string.h>

static uint32_t T[256];
void ref_set_table(const uint32_t *t) { memcpy(T, t, sizeof(T)); }

static uint32_t rol(uint32_t x, unsigned n) { n &= 31; return n ? x << n | x >> (32 - n) : x; }

/* hash of the 48 bytes ending before p, by definition */
static uint32_t winhash(const uint8_t *p)
{
	uint32_t h = 0;
	for (unsigned j = 0; j < 48; j++)
		h ^= rol(T[p[-1 - (int)j]], j);
	return h;
}

/* writes chunk ends to out, returns their number */
size_t ref_chunk(const uint8_t *d, size_t len, uint32_t min, uint32_t max, uint64_t D, uint64_t *out, size_t outmax)
{
	size_t n = 0, start = 0;
	while (start < len) {
		size_t e = 0;
		uint32_t h = 0;
		size_t lo = min > 48 ? min : 48;
		for (size_t s = lo; start + s <= len; s++) {
			if (s == lo)
				h = winhash(d + start + s);
			else
				h = rol(h, 1) ^ rol(T[d[start + s - 49]], 48) ^ T[d[start + s - 1]];
			if (s >= max || h % D == D - 1) {
				e = start + s;
				break;
			}
		}
		if (!e)
			e = len;
		if (n < outmax)
			out[n] = e;
		n++;
		start = e;
	}
	return n;
}

static uint32_t ld(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static void st(uint8_t *p, uint32_t v) { p[0] = v; p[1] = v >> 8; p[2] = v >> 16; p[3] = v >> 24; }
static void qr(uint32_t *x, int a, int b, int c, int d)
{
	x[a] += x[b]; x[d] = rol(x[d] ^ x[a], 16);
	x[c] += x[d]; x[b] = rol(x[b] ^ x[c], 12);
	x[a] += x[b]; x[d] = rol(x[d] ^ x[a], 8);
	x[c] += x[d]; x[b] = rol(x[b] ^ x[c], 7);
}
static void rounds(uint32_t *x)
{
	for (int i = 0; i < 10; i++) {
		for (int j = 0; j < 4; j++)
			qr(x, j, 4 + j, 8 + j, 12 + j);
		for (int j = 0; j < 4; j++)
			qr(x, j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4);
	}
}
static const char sigma[] = "expand 32-byte k";
void ref_xchacha(const uint8_t *key, const uint8_t *nonce24, const uint8_t *in, uint8_t *out, size_t len)
{
	uint32_t s[16], sub[8];
	for (int i = 0; i < 4; i++)
		s[i] = ld((const uint8_t*)sigma + 4 * i);
	for (int i = 0; i < 8; i++)
		s[4 + i] = ld(key + 4 * i);
	for (int i = 0; i < 4; i++)
		s[12 + i] = ld(nonce24 + 4 * i);
	rounds(s);
	for (int i = 0; i < 4; i++) {
		sub[i] = s[i];
		sub[4 + i] = s[12 + i];
	}
	uint64_t ctr = 0;
	for (size_t o = 0; o < len; o += 64, ctr++) {
		uint32_t b[16], w[16];
		for (int i = 0; i < 4; i++)
			b[i] = ld((const uint8_t*)sigma + 4 * i);
		for (int i = 0; i < 8; i++)
			b[4 + i] = sub[i];
		b[12] = ctr;
		b[13] = ctr >> 32;
		b[14] = ld(nonce24 + 16);
		b[15] = ld(nonce24 + 20);
		memcpy(w, b, 64);
		rounds(w);
		uint8_t ks[64];
		for (int i = 0; i < 16; i++)
			st(ks + 4 * i, w[i] + b[i]);
		for (size_t i = 0; i < 64 && o + i < len; i++)
			out[o + i] = in[o + i] ^ ks[i];
	}
}
