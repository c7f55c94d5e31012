/* Small independent SHA-256, used by the AF_ALG emulation of the shim. */
#ifndef REFSHA_H
#define REFSHA_H
#include <stdint.h>
#include <string.h>
struct refsha { uint32_t h[8]; uint64_t n; uint8_t b[64]; };
static const uint32_t refsha_k[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,
0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,
0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,
0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,
0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
#define REFSHA_R(x,n) (((x)>>(n))|((x)<<(32-(n))))
static inline void refsha_block(struct refsha *s, const uint8_t *p)
{
	uint32_t w[64], v[8];
	for (int i = 0; i < 16; i++)
		w[i] = (uint32_t)p[4*i]<<24 | p[4*i+1]<<16 | p[4*i+2]<<8 | p[4*i+3];
	for (int i = 16; i < 64; i++)
		w[i] = w[i-16] + w[i-7] + (REFSHA_R(w[i-15],7)^REFSHA_R(w[i-15],18)^(w[i-15]>>3)) +
		       (REFSHA_R(w[i-2],17)^REFSHA_R(w[i-2],19)^(w[i-2]>>10));
	memcpy(v, s->h, 32);
	for (int i = 0; i < 64; i++) {
		uint32_t t1 = v[7] + (REFSHA_R(v[4],6)^REFSHA_R(v[4],11)^REFSHA_R(v[4],25)) +
		              ((v[4]&v[5])^(~v[4]&v[6])) + refsha_k[i] + w[i];
		uint32_t t2 = (REFSHA_R(v[0],2)^REFSHA_R(v[0],13)^REFSHA_R(v[0],22)) +
		              ((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2]));
		v[7]=v[6]; v[6]=v[5]; v[5]=v[4]; v[4]=v[3]+t1; v[3]=v[2]; v[2]=v[1]; v[1]=v[0]; v[0]=t1+t2;
	}
	for (int i = 0; i < 8; i++)
		s->h[i] += v[i];
}
static inline void refsha_init(struct refsha *s)
{
	static const uint32_t iv[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19};
	memcpy(s->h, iv, 32);
	s->n = 0;
}
static inline void refsha_update(struct refsha *s, const void *d_, size_t n)
{
	const uint8_t *d = d_;
	while (n--) {
		s->b[s->n++ % 64] = *d++;
		if (s->n % 64 == 0)
			refsha_block(s, s->b);
	}
}
static inline void refsha_final(struct refsha *s, uint8_t *out)
{
	uint64_t bits = s->n * 8;
	uint8_t x = 0x80;
	refsha_update(s, &x, 1);
	x = 0;
	while (s->n % 64 != 56)
		refsha_update(s, &x, 1);
	uint8_t l[8];
	for (int i = 0; i < 8; i++)
		l[i] = bits >> (56 - 8*i);
	refsha_update(s, l, 8);
	for (int i = 0; i < 32; i++)
		out[i] = s->h[i/4] >> (24 - 8*(i%4));
}
#endif
