// Models of iconv (to/from UTF-8, the encodings the harnesses use) and of SHA-1.
// SHA-1 is replaced by a digest whose bytes are a mix of the bytes fed: two feeds of equal content give equal digests,
// and (up to 19 bytes) different contents give different ones.  Native replay uses the real functions.
#include <iconv.h>
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <openssl/sha.h>
#include <string>
extern "C" {
enum { K_NONE, K_UTF8, K_L1, K_ASCII, K_U16, K_U16L, K_U16B, K_U32, K_U32L, K_U32B };
struct Cd { int from, to; int bom; };
static int kindOfEnc(const char *n) {
    std::string u; for (; *n; ++n) u += (char)(*n >= 'a' && *n <= 'z' ? *n - 32 : *n);
    if (u == "UTF-8" || u == "UTF8") return K_UTF8;
    if (u == "ISO-8859-1" || u == "LATIN1" || u == "ISO8859-1" || u == "ISO_8859-1") return K_L1;
    if (u == "ASCII" || u == "US-ASCII") return K_ASCII;
    if (u == "UTF-16" || u == "UTF16") return K_U16;
    if (u == "UTF-16LE" || u == "UTF16LE") return K_U16L;
    if (u == "UTF-16BE" || u == "UTF16BE") return K_U16B;
    if (u == "UTF-32" || u == "UTF32") return K_U32;
    if (u == "UTF-32LE") return K_U32L;
    if (u == "UTF-32BE") return K_U32B;
    return K_NONE;
}
iconv_t iconv_open(const char *to, const char *from) {
    int t = kindOfEnc(to), f = kindOfEnc(from);
    if (!t || !f) { errno = EINVAL; return (iconv_t)-1; }
    Cd *c = (Cd *)calloc(1, sizeof(Cd)); c->from = f; c->to = t; return (iconv_t)c;
}
int iconv_close(iconv_t c) { if (c == (iconv_t)-1) { errno = EBADF; return -1; } free((void *)c); return 0; }
static int get(Cd *c, const unsigned char *p, size_t n, uint32_t &cp) {   // >0 bytes used, 0 incomplete, -1 invalid
    switch (c->from) {
    case K_UTF8:
        if (p[0] < 0x80) { cp = p[0]; return 1; }
        if (p[0] >= 0xC2 && p[0] < 0xE0) { if (n < 2) return 0; if ((p[1] & 0xC0) != 0x80) return -1; cp = (p[0] & 0x1fu) << 6 | (p[1] & 0x3fu); return 2; }
        if (p[0] >= 0xE0 && p[0] < 0xF0) {
            if (n >= 2) { if ((p[1] & 0xC0) != 0x80) return -1; if (p[0] == 0xE0 && p[1] < 0xA0) return -1; if (p[0] == 0xED && p[1] >= 0xA0) return -1; }
            if (n < 3) { return 0; }
            if ((p[2] & 0xC0) != 0x80) return -1;
            cp = (p[0] & 0xfu) << 12 | (p[1] & 0x3fu) << 6 | (p[2] & 0x3fu); return 3;
        }
        if (p[0] >= 0xF0 && p[0] < 0xF5) {
            if (n >= 2) { if ((p[1] & 0xC0) != 0x80) return -1; if (p[0] == 0xF0 && p[1] < 0x90) return -1; if (p[0] == 0xF4 && p[1] >= 0x90) return -1; }
            if (n >= 3 && (p[2] & 0xC0) != 0x80) return -1;
            if (n < 4) return 0;
            if ((p[3] & 0xC0) != 0x80) return -1;
            cp = (p[0] & 7u) << 18 | (p[1] & 0x3fu) << 12 | (p[2] & 0x3fu) << 6 | (p[3] & 0x3fu); return 4;
        }
        return -1;
    case K_L1: cp = p[0]; return 1;
    case K_ASCII: if (p[0] >= 0x80) return -1; cp = p[0]; return 1;
    case K_U16: case K_U16L: case K_U16B: {
        if (n < 2) return 0;
        bool be = c->from == K_U16B || c->bom == 2;
        uint32_t u = be ? p[0] << 8 | p[1] : p[1] << 8 | p[0];
        if (u >= 0xD800 && u < 0xDC00) { if (n < 4) return 0; uint32_t l = be ? p[2] << 8 | p[3] : p[3] << 8 | p[2]; if (l < 0xDC00 || l > 0xDFFF) return -1; cp = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00); return 4; }
        if (u >= 0xDC00 && u <= 0xDFFF) return -1;
        cp = u; return 2; }
    default: {
        if (n < 4) return 0;
        bool be = c->from == K_U32B || c->bom == 2;
        uint32_t u = be ? (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3] : (uint32_t)p[3] << 24 | p[2] << 16 | p[1] << 8 | p[0];
        if (u > 0x10FFFF || (u >= 0xD800 && u <= 0xDFFF)) return -1;
        cp = u; return 4; }
    }
}
size_t iconv(iconv_t cd, char **in, size_t *inl, char **out, size_t *outl) {
    Cd *c = (Cd *)cd;
    if (!in || !*in) { c->bom = 0; return 0; }
    if ((c->from == K_U16 || c->from == K_U32) && !c->bom) {
        size_t w = c->from == K_U16 ? 2 : 4;
        if (*inl < w) { if (!*inl) return 0; errno = EINVAL; return (size_t)-1; }
        const unsigned char *p = (const unsigned char *)*in;
        c->bom = 1;
        if (w == 2) { if (p[0] == 0xFF && p[1] == 0xFE) { *in += 2; *inl -= 2; } else if (p[0] == 0xFE && p[1] == 0xFF) { c->bom = 2; *in += 2; *inl -= 2; } }
        else { if (p[0] == 0xFF && p[1] == 0xFE && !p[2] && !p[3]) { *in += 4; *inl -= 4; } else if (!p[0] && !p[1] && p[2] == 0xFE && p[3] == 0xFF) { c->bom = 2; *in += 4; *inl -= 4; } }
    }
    while (*inl) {
        uint32_t cp; int l = get(c, (const unsigned char *)*in, *inl, cp);
        if (l < 0) { errno = EILSEQ; return (size_t)-1; }
        if (!l) { errno = EINVAL; return (size_t)-1; }
        unsigned char b[4]; size_t k;
        if (cp < 0x80) { b[0] = cp; k = 1; }
        else if (cp < 0x800) { b[0] = 0xC0 | cp >> 6; b[1] = 0x80 | (cp & 0x3f); k = 2; }
        else if (cp < 0x10000) { b[0] = 0xE0 | cp >> 12; b[1] = 0x80 | (cp >> 6 & 0x3f); b[2] = 0x80 | (cp & 0x3f); k = 3; }
        else { b[0] = 0xF0 | cp >> 18; b[1] = 0x80 | (cp >> 12 & 0x3f); b[2] = 0x80 | (cp >> 6 & 0x3f); b[3] = 0x80 | (cp & 0x3f); k = 4; }
        if (*outl < k) { errno = E2BIG; return (size_t)-1; }
        for (size_t i = 0; i < k; ++i) (*out)[i] = (char)b[i];
        *out += k; *outl -= k; *in += l; *inl -= l;
    }
    return 0;
}
// digest model
struct Sh { unsigned char d[20]; unsigned n; };
int SHA1_Init(SHA_CTX *c) { memset(c, 0, sizeof *c); return 1; }
int SHA1_Update(SHA_CTX *c, const void *p, size_t n) { Sh *s = (Sh *)c; const unsigned char *q = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) { unsigned k = s->n++; s->d[k % 19] = (unsigned char)(s->d[k % 19] * 5 + q[i]); } return 1; }
int SHA1_Final(unsigned char *md, SHA_CTX *c) { Sh *s = (Sh *)c; memcpy(md, s->d, 19); md[19] = (unsigned char)s->n; return 1; }
unsigned char *SHA1(const unsigned char *p, size_t n, unsigned char *md) { static unsigned char st[20]; if (!md) md = st; SHA_CTX c; SHA1_Init(&c); SHA1_Update(&c, p, n); SHA1_Final(md, &c); return md; }
}
