/* FIPS 180-4 and RFC 1321, written from the standards: whole message digests */
static uint32_t ror(uint32_t x, unsigned n) { return x >> n | x << (32 - n); }
static uint32_t rol(uint32_t x, unsigned n) { return x << n | x >> (32 - n); }
static const uint32_t K256[64] = {
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
static const uint32_t K5[64] = {
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
static const uint8_t S5[16] = { 7,12,17,22, 5,9,14,20, 4,11,16,23, 6,10,15,21 };
/* the forms below are the standards' functions up to the lemmas of unit `forms` */
static uint32_t mux(uint32_t x, uint32_t y, uint32_t z) { return (x & (y ^ z)) ^ z; }
static uint32_t major(uint32_t x, uint32_t y, uint32_t z) { return ((x | y) & z) | (x & y); }
static uint32_t le(const uint8_t *p) { return *(const uint32_t *)p; }
static uint32_t be(const uint8_t *p) { uint32_t x = le(p); return (rol(x, 24) & 0xFF00FF00u) | (rol(x, 8) & 0x00FF00FFu); }
static void s_block(int kind, uint32_t *s, const uint8_t *p)
{
	uint32_t w[80], v[8];
	for (int i = 0; i < 16; i++) w[i] = kind == 2 ? le(p + i*4)
		: kind == 1 ? be(p + i*4) : (uint32_t)p[i*4] << 24 | (uint32_t)p[i*4+1] << 16 | (uint32_t)p[i*4+2] << 8 | p[i*4+3];
	int words = kind == 0 ? 8 : kind == 1 ? 5 : 4;
	for (int i = 0; i < words; i++) v[i] = s[i];
	if (kind == 0)
	{
		for (int i = 16; i < 64; i++) w[i] = (ror(w[i-2],17) ^ ror(w[i-2],19) ^ w[i-2] >> 10) + w[i-7] + (ror(w[i-15],7) ^ ror(w[i-15],18) ^ w[i-15] >> 3) + w[i-16];
		for (int i = 0; i < 64; i++)
		{
			uint32_t t1 = v[7] + (ror(v[4],6) ^ ror(v[4],11) ^ ror(v[4],25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K256[i] + w[i];
			uint32_t t2 = (ror(v[0],2) ^ ror(v[0],13) ^ ror(v[0],22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
			v[7] = v[6]; v[6] = v[5]; v[5] = v[4]; v[4] = v[3] + t1; v[3] = v[2]; v[2] = v[1]; v[1] = v[0]; v[0] = t1 + t2;
		}
	}
	else if (kind == 1)
	{
		for (int i = 16; i < 80; i++) w[i] = rol(w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16], 1);
		for (int i = 0; i < 80; i++)
		{
			uint32_t f = i < 20 ? mux(v[1], v[2], v[3]) : i < 40 || i >= 60 ? v[1] ^ v[2] ^ v[3] : major(v[1], v[2], v[3]);
			uint32_t k = i < 20 ? 0x5a827999u : i < 40 ? 0x6ed9eba1u : i < 60 ? 0x8f1bbcdcu : 0xca62c1d6u;
			uint32_t t = v[4] + (f + w[i] + k + rol(v[0],5));
			v[4] = v[3]; v[3] = v[2]; v[2] = rol(v[1],30); v[1] = v[0]; v[0] = t;
		}
	}
	else for (int i = 0; i < 64; i++)
	{
		int g = i < 16 ? i : i < 32 ? (5*i + 1) % 16 : i < 48 ? (3*i + 5) % 16 : 7*i % 16;
		uint32_t f = i < 16 ? mux(v[1], v[2], v[3]) : i < 32 ? mux(v[3], v[1], v[2]) : i < 48 ? v[1] ^ v[2] ^ v[3] : v[2] ^ (v[1] | ~v[3]);
		uint32_t t = rol(v[0] + (f + w[g] + K5[i]), S5[i / 16 * 4 + i % 4]) + v[1];
		v[0] = v[3]; v[3] = v[2]; v[2] = v[1]; v[1] = t;
	}
	for (int i = 0; i < words; i++) s[i] += v[i];
}
