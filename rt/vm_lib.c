// Models of the external libraries: each honours the documented contract of the functions the code under test calls.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "vh.h"
#include "vm.h"
// ---- OpenSSL digests. The model is injective on messages up to size-2 bytes, and keeps length, a position-dependent fold and a
// weighted sum of longer ones. The empty message has its real digest because the code under test contains it as a constant.
typedef struct VmMd { int size; const char *name; } VmMd;
typedef struct VmMdCtx { const VmMd *md; uint64_t len; uint8_t first[64]; uint8_t fold[64]; uint64_t sumC, sumS; const uint8_t *key; int keyLen; } VmMdCtx;
static const VmMd mdSha1 = {20, "sha1"}, mdSha256 = {32, "sha256"}, mdMd5 = {16, "md5"};
static const uint8_t zeroSha1[20] = {0xda, 0x39, 0xa3, 0xee, 0x5e, 0x6b, 0x4b, 0x0d, 0x32, 0x55, 0xbf, 0xef, 0x95, 0x60, 0x18, 0x90, 0xaf, 0xd8, 0x07, 0x09};
static const uint8_t zeroSha256[32] = {0xe3, 0xb0, 0xc4, 0x42, 0x98, 0xfc, 0x1c, 0x14, 0x9a, 0xfb, 0xf4, 0xc8, 0x99, 0x6f, 0xb9, 0x24, 0x27, 0xae, 0x41, 0xe4, 0x64, 0x9b, 0x93, 0x4c, 0xa4, 0x95, 0x99, 0x1b, 0x78, 0x52, 0xb8, 0x55};
uint32_t vm_digestCount;
const void *vm_EVP_get_digestbyname(const char *n) { return strcmp(n, "sha1") == 0 ? &mdSha1 : strcmp(n, "sha256") == 0 ? &mdSha256 : strcmp(n, "md5") == 0 ? &mdMd5 : NULL; }
const void *vm_EVP_sha1(void) { return &mdSha1; }
const void *vm_EVP_sha256(void) { return &mdSha256; }
int vm_EVP_MD_get_size(const VmMd *m) { return m->size; }
int vm_EVP_MD_size(const VmMd *m) { return m->size; }
void *vm_EVP_MD_CTX_new(void) { VmMdCtx *c = malloc(sizeof *c); memset(c, 0, sizeof *c); return c; }
void vm_EVP_MD_CTX_free(VmMdCtx *c) { free(c); }
int vm_EVP_DigestInit_ex(VmMdCtx *c, const VmMd *m, void *e) { (void)e; memset(c, 0, sizeof *c); c->md = m; return 1; }
int vm_EVP_DigestUpdate(VmMdCtx *c, const uint8_t *d, size_t n)
{
    unsigned sz = (unsigned)c->md->size, lanes = sz - 12;
    if (n && vh_hash_bulk(d, n, c->len, c->first, sz - 2, c->fold, lanes, &c->sumC)) { c->len += n; return 1; }
    for (size_t i = 0; i < n; i++)
    {
        uint64_t p = c->len + i, w = (p + 1) * 0x9E3779B97F4A7C15ULL; w ^= w >> 30; w *= 0xBF58476D1CE4E5B9ULL; w ^= w >> 27; w |= 1;
        if (p < sz - 2) c->first[p] = d[i];
        unsigned r = (unsigned)(p / lanes) & 7, k = (unsigned)(p % lanes); uint8_t v = d[i];
        c->fold[k] ^= (uint8_t)((v << r) | (v >> ((8 - r) & 7)));
        if (vh_is_symbolic(v)) c->sumS += v * w; else c->sumC += v * w;
    }
    c->len += n; return 1;
}
int vm_EVP_DigestFinal_ex(VmMdCtx *c, uint8_t *out, unsigned *len)
{
    unsigned sz = (unsigned)c->md->size; vm_digestCount++;
    if (len) *len = sz;
    if (c->len == 0 && c->md == &mdSha1) { memcpy(out, zeroSha1, 20); return 1; }
    if (c->len == 0 && c->md == &mdSha256) { memcpy(out, zeroSha256, 32); return 1; }
    memset(out, 0, sz);
    if (c->len <= sz - 2) { out[0] = 0x5a; out[1] = (uint8_t)c->len; memcpy(out + 2, c->first, c->len); }
    else { out[0] = 0xa5; out[1] = (uint8_t)c->len; out[2] = (uint8_t)(c->len >> 8); out[3] = (uint8_t)(c->len >> 16); uint64_t h = c->sumC + c->sumS; memcpy(out + 4, c->fold, sz - 12); memcpy(out + sz - 8, &h, 8); }
    return 1;
}
// HMAC: digest of key then message
uint8_t *vm_HMAC(const VmMd *m, const void *key, int kl, const uint8_t *d, size_t n, uint8_t *out, unsigned *ol)
{
    VmMdCtx c; vm_EVP_DigestInit_ex(&c, m, NULL); uint8_t k = (uint8_t)kl; vm_EVP_DigestUpdate(&c, &k, 1); vm_EVP_DigestUpdate(&c, key, (size_t)kl); vm_EVP_DigestUpdate(&c, d, n); vm_EVP_DigestFinal_ex(&c, out, ol); return out;
}
int vm_OPENSSL_init_crypto(uint64_t o, const void *s) { (void)o; (void)s; return 1; }
int vm_OPENSSL_init_ssl(uint64_t o, const void *s) { (void)o; (void)s; return 1; }
unsigned long vm_ERR_get_error(void) { return 1; }
void vm_ERR_clear_error(void) {}
const char *vm_ERR_reason_error_string(unsigned long e) { (void)e; return "model error"; }
static uint8_t rnd;
int vm_RAND_bytes(uint8_t *b, int n) { for (int i = 0; i < n; i++) b[i] = (uint8_t)(0x31 + (rnd++ & 63)); return 1; }
// ---- Compression. A stream is a sequence of chunks [length 1..254][bytes] or [255][count of zeros] and ends with a zero length. Output that does not fit is
// kept and delivered by the following calls, as the libraries do.
// One byte says which format it is. In stingy mode a compressor takes input only while there is room for output.
#include <bzlib.h>
#include <lz4frame.h>
#include <zlib.h>
#include <zstd.h>
int vm_codecStingy, vm_codecRuns;
typedef struct VmCodec { uint8_t *p; size_t head, size, cap; bool end, zero, count; unsigned left; bool havePrior, begun; uint8_t format; } VmCodec;
static VmCodec *codecNew(uint8_t format) { VmCodec *c = malloc(sizeof *c); memset(c, 0, sizeof *c); c->format = format; return c; }
static void codecFree(VmCodec *c) { if (c) { free(c->p); free(c); } }
static void codecPut(VmCodec *c, const uint8_t *d, size_t n)
{
    if (c->head == c->size) c->head = c->size = 0;
    if (c->size + n > c->cap) { size_t k = (c->size + n) * 2 + 64; uint8_t *x = malloc(k); if (c->size) memcpy(x, c->p, c->size); free(c->p); c->p = x; c->cap = k; }
    memcpy(c->p + c->size, d, n); c->size += n;
}
static void codecBegin(VmCodec *c) { if (!c->begun) { c->begun = true; codecPut(c, &c->format, 1); } }
static bool codecZero(const uint8_t *d, size_t n) { if (!vm_codecRuns) return false; for (size_t i = 0; i < n; i++) if (d[i]) return false; return true; }
static void codecIn(VmCodec *c, const uint8_t *d, size_t n) { codecBegin(c); while (n) { uint8_t l = n > 254 ? 254 : (uint8_t)n; if (l >= 8 && codecZero(d, l)) { uint8_t m[2] = {255, l}; codecPut(c, m, 2); } else { codecPut(c, &l, 1); codecPut(c, d, l); } d += l; n -= l; } }
static void codecEnd(VmCodec *c) { codecBegin(c); if (!c->end) { uint8_t z = 0; codecPut(c, &z, 1); c->end = true; } }
static size_t codecOut(VmCodec *c, uint8_t *o, size_t n) { size_t a = c->size - c->head; if (n > a) n = a; if (n) memcpy(o, c->p + c->head, n); c->head += n; return n; }
// Compress: returns input taken
static size_t codecCompress(VmCodec *c, const uint8_t *in, size_t inN, uint8_t *out, size_t outN, size_t *outUsed)
{
    size_t i = 0, o = 0;
    if (!vm_codecStingy) { if (inN) codecIn(c, in, inN); i = inN; o = codecOut(c, out, outN); }
    else { o = codecOut(c, out, outN); while (i < inN && o < outN) { codecIn(c, in + i, 1); i++; o += codecOut(c, out + o, outN - o); } }
    *outUsed = o; return i;
}
// Decode: consume input and produce output, stopping when either is exhausted or the stream ends. The end is consumed only after
// everything was delivered, as with the libraries (trailer, or a byte that is held back). Returns false on a format error.
static bool codecDecode(VmCodec *c, const uint8_t *in, size_t inN, size_t *inUsed, uint8_t *out, size_t outN, size_t *outUsed)
{
    size_t i = 0, o = 0; *inUsed = *outUsed = 0;
    if (!c->begun && inN) { if (in[0] != c->format) return false; c->begun = true; i = 1; }
    while (!c->end)
    {
        if (c->left == 0) { if (i == inN) break; uint8_t l = in[i++]; if (c->count) { c->left = l; c->count = false; c->zero = true; continue; } if (l == 0) { c->end = true; break; } if (l == 255) { c->count = true; continue; } c->left = l; c->zero = false; continue; }
        size_t n = c->left; if (!c->zero && n > inN - i) n = inN - i; if (n > outN - o) n = outN - o;
        if (n == 0) break;
        if (c->zero) memset(out + o, 0, n); else { memcpy(out + o, in + i, n); i += n; }
        o += n; c->left -= (unsigned)n;
    }
    *inUsed = i; *outUsed = o; return true;
}
int vm_deflateInit2_(z_streamp s, int l, int m, int w, int ml, int st, const char *v, int sz) { (void)l; (void)m; (void)ml; (void)st; (void)v; (void)sz; s->state = (void *)codecNew(w & 16 ? 'g' : 'r'); s->total_in = s->total_out = 0; return Z_OK; }
int vm_deflateEnd(z_streamp s) { codecFree((VmCodec *)s->state); s->state = NULL; return Z_OK; }
int vm_deflate(z_streamp s, int flush)
{
    VmCodec *c = (VmCodec *)s->state; bool progress = flush == Z_FINISH && !c->end; size_t o, n;
    n = codecCompress(c, s->next_in, s->avail_in, s->next_out, s->avail_out, &o); s->next_in += n; s->total_in += n; s->avail_in -= (unsigned)n; s->next_out += o; s->avail_out -= (unsigned)o; s->total_out += o; if (n || o) progress = true;
    if (flush == Z_FINISH && s->avail_in == 0) { codecEnd(c); o = codecOut(c, s->next_out, s->avail_out); s->next_out += o; s->avail_out -= (unsigned)o; s->total_out += o; if (o) progress = true; if (c->head == c->size) return Z_STREAM_END; }
    return progress ? Z_OK : Z_BUF_ERROR;
}
int vm_inflateInit2_(z_streamp s, int w, const char *v, int sz) { (void)v; (void)sz; s->state = (void *)codecNew(w & 16 ? 'g' : 'r'); s->total_in = s->total_out = 0; return Z_OK; }
int vm_inflateEnd(z_streamp s) { codecFree((VmCodec *)s->state); s->state = NULL; return Z_OK; }
int vm_inflate(z_streamp s, int flush)
{
    (void)flush; VmCodec *c = (VmCodec *)s->state; size_t i, o; if (!codecDecode(c, s->next_in, s->avail_in, &i, s->next_out, s->avail_out, &o)) return Z_DATA_ERROR;
    s->next_in += i; s->avail_in -= (unsigned)i; s->total_in += i; s->next_out += o; s->avail_out -= (unsigned)o; s->total_out += o;
    return c->end ? Z_STREAM_END : i || o ? Z_OK : Z_BUF_ERROR;
}
int vm_BZ2_bzCompressInit(bz_stream *s, int l, int v, int w) { (void)l; (void)v; (void)w; s->state = codecNew('b'); return BZ_OK; }
int vm_BZ2_bzCompressEnd(bz_stream *s) { codecFree(s->state); s->state = NULL; return BZ_OK; }
int vm_BZ2_bzCompress(bz_stream *s, int action)
{
    VmCodec *c = s->state; size_t o, n = codecCompress(c, (const uint8_t *)s->next_in, s->avail_in, (uint8_t *)s->next_out, s->avail_out, &o); s->next_in += n; s->avail_in -= (unsigned)n; s->next_out += o; s->avail_out -= (unsigned)o;
    if (action == BZ_FINISH) { if (s->avail_in == 0) { codecEnd(c); o = codecOut(c, (uint8_t *)s->next_out, s->avail_out); s->next_out += o; s->avail_out -= (unsigned)o; if (c->head == c->size) return BZ_STREAM_END; } return BZ_FINISH_OK; }
    return n || o ? BZ_RUN_OK : BZ_PARAM_ERROR;                     // no progress possible is an error
}
int vm_BZ2_bzDecompressInit(bz_stream *s, int v, int small) { (void)v; (void)small; s->state = codecNew('b'); return BZ_OK; }
int vm_BZ2_bzDecompressEnd(bz_stream *s) { codecFree(s->state); s->state = NULL; return BZ_OK; }
int vm_BZ2_bzDecompress(bz_stream *s)
{
    VmCodec *c = s->state; size_t i, o; if (c->end) return BZ_SEQUENCE_ERROR; if (!codecDecode(c, (const uint8_t *)s->next_in, s->avail_in, &i, (uint8_t *)s->next_out, s->avail_out, &o)) return BZ_DATA_ERROR_MAGIC;
    s->next_in += i; s->avail_in -= (unsigned)i; s->next_out += o; s->avail_out -= (unsigned)o; return c->end ? BZ_STREAM_END : BZ_OK;
}
// LZ4: the output must have room for the announced bound. Input may be kept until the end (stingy) or is compressed at once.
#define LZ4_ERR ((size_t)-1)
unsigned vm_LZ4F_isError(size_t r) { return r == LZ4_ERR; }
const char *vm_LZ4F_getErrorName(size_t r) { (void)r; return "model error"; }
size_t vm_LZ4F_createCompressionContext(void **c, unsigned v) { (void)v; *c = codecNew('l'); return 0; }
size_t vm_LZ4F_freeCompressionContext(VmCodec *c) { codecFree(c); return 0; }
size_t vm_LZ4F_compressBegin(VmCodec *c, uint8_t *d, size_t n, const void *p) { (void)p; if (n < LZ4F_HEADER_SIZE_MAX) return LZ4_ERR; codecFree(NULL); c->head = c->size = 0; c->end = c->begun = false; codecBegin(c); return codecOut(c, d, n); }
size_t vm_LZ4F_compressBound(size_t n, const void *p) { (void)p; return n + n / 255 + 100; }
size_t vm_LZ4F_compressUpdate(VmCodec *c, uint8_t *d, size_t n, const uint8_t *s, size_t sn, const void *o) { (void)o; if (n < vm_LZ4F_compressBound(sn, NULL) || !c->begun) return LZ4_ERR; if (sn) codecIn(c, s, sn); if (vm_codecStingy && c->size - c->head < 64) return 0; return codecOut(c, d, n); }
size_t vm_LZ4F_compressEnd(VmCodec *c, uint8_t *d, size_t n, const void *o) { (void)o; if (n < vm_LZ4F_compressBound(0, NULL) || !c->begun) return LZ4_ERR; codecEnd(c); return codecOut(c, d, n); }
size_t vm_LZ4F_createDecompressionContext(void **c, unsigned v) { (void)v; *c = codecNew('l'); return 0; }
size_t vm_LZ4F_freeDecompressionContext(VmCodec *c) { codecFree(c); return 0; }
size_t vm_LZ4F_decompress(VmCodec *c, uint8_t *d, size_t *dn, const uint8_t *s, size_t *sn, const void *o)
{
    (void)o; if (c->end) { c->end = c->begun = false; } size_t i, k; if (!codecDecode(c, s, *sn, &i, d, *dn, &k)) return LZ4_ERR; *sn = i; *dn = k; return c->end ? 0 : 1;
}
#define ZST_ERR ((size_t)-1)
unsigned vm_ZSTD_isError(size_t r) { return r == ZST_ERR; }
const char *vm_ZSTD_getErrorName(size_t r) { (void)r; return "model error"; }
void *vm_ZSTD_createCStream(void) { return codecNew('z'); }
size_t vm_ZSTD_freeCStream(VmCodec *c) { codecFree(c); return 0; }
size_t vm_ZSTD_initCStream(VmCodec *c, int l) { (void)c; (void)l; return 0; }
size_t vm_ZSTD_CCtx_setParameter(VmCodec *c, int p, int v) { (void)c; (void)p; (void)v; return 0; }
size_t vm_ZSTD_compressStream(VmCodec *c, ZSTD_outBuffer *out, ZSTD_inBuffer *in) { size_t o, n = codecCompress(c, (const uint8_t *)in->src + in->pos, in->size - in->pos, (uint8_t *)out->dst + out->pos, out->size - out->pos, &o); in->pos += n; out->pos += o; return 1; }
size_t vm_ZSTD_endStream(VmCodec *c, ZSTD_outBuffer *out) { codecEnd(c); out->pos += codecOut(c, (uint8_t *)out->dst + out->pos, out->size - out->pos); return c->size - c->head; }
void *vm_ZSTD_createDStream(void) { return codecNew('z'); }
size_t vm_ZSTD_freeDStream(VmCodec *c) { codecFree(c); return 0; }
size_t vm_ZSTD_initDStream(VmCodec *c) { (void)c; return 1; }
size_t vm_ZSTD_decompressStream(VmCodec *c, ZSTD_outBuffer *out, ZSTD_inBuffer *in)
{
    if (c->end) c->end = c->begun = false;
    size_t i, k; if (!codecDecode(c, (const uint8_t *)in->src + in->pos, in->size - in->pos, &i, (uint8_t *)out->dst + out->pos, out->size - out->pos, &k)) return ZST_ERR; in->pos += i; out->pos += k; return c->end ? 0 : 1;
}
// ---- OpenSSL ciphers: blocks of 16 bytes chained and padded like aes-256-cbc, each byte combined with the key, the previous block and
// its position. Not secret, but the result differs from the data and depends on key, salt and all earlier data, and a wrong key or
// damaged data is noticed by the padding as with the real one.
typedef struct VmCipherCtx { uint8_t key[32], prev[16], hold[16]; unsigned n; bool enc, full; } VmCipherCtx;
static const int cipherAes = 1;
const void *vm_EVP_get_cipherbyname(const char *n) { return strcmp(n, "aes-256-cbc") == 0 ? &cipherAes : NULL; }
int vm_EVP_BytesToKey(const void *cipher, const VmMd *md, const uint8_t *salt, const uint8_t *d, int n, int count, uint8_t *key, uint8_t *iv)
{
    (void)cipher; (void)count; uint8_t h[64]; VmMdCtx c; (void)md;
    for (unsigned r = 0; r < 2; r++) { uint8_t t = (uint8_t)('k' + r); vm_EVP_DigestInit_ex(&c, &mdSha256, NULL); vm_EVP_DigestUpdate(&c, &t, 1); vm_EVP_DigestUpdate(&c, d, (size_t)n); vm_EVP_DigestUpdate(&c, salt, 8); vm_EVP_DigestFinal_ex(&c, h, NULL); vm_digestCount--; if (r == 0) memcpy(key, h, 32); else memcpy(iv, h + 8, 16); }
    return 32;
}
void *vm_EVP_CIPHER_CTX_new(void) { VmCipherCtx *c = malloc(sizeof *c); memset(c, 0, sizeof *c); return c; }
void vm_EVP_CIPHER_CTX_free(VmCipherCtx *c) { free(c); }
int vm_EVP_CipherInit_ex(VmCipherCtx *c, const void *cipher, void *e, const uint8_t *key, const uint8_t *iv, int enc) { (void)cipher; (void)e; memset(c, 0, sizeof *c); memcpy(c->key, key, 32); memcpy(c->prev, iv, 16); c->enc = enc != 0; return 1; }
static void cipherBlock(VmCipherCtx *c, const uint8_t *in, uint8_t *out)
{
    uint8_t o[16]; for (unsigned i = 0; i < 16; i++) { uint8_t k = (uint8_t)(c->key[i] + 3 * c->key[16 + i] + i * 29 + 0x5d); o[i] = (uint8_t)(in[i] ^ k ^ (uint8_t)(c->prev[i] + c->prev[(i + 5) & 15])); }
    memcpy(c->prev, c->enc ? o : in, 16); memcpy(out, o, 16);
}
int vm_EVP_CipherUpdate(VmCipherCtx *c, uint8_t *out, int *outN, const uint8_t *in, int n)
{
    int o = 0;
    for (int i = 0; i < n; i++)
    {
        // When decrypting the last block is kept since it may be the padding
        if (c->n == 16) { uint8_t p[16]; memcpy(p, c->hold, 16); cipherBlock(c, p, out + o); o += 16; c->n = 0; }
        c->hold[c->n++] = in[i]; c->full = true;
        if (c->enc && c->n == 16) { uint8_t p[16]; memcpy(p, c->hold, 16); cipherBlock(c, p, out + o); o += 16; c->n = 0; }
    }
    *outN = o; return 1;
}
int vm_EVP_CipherFinal(VmCipherCtx *c, uint8_t *out, int *outN)
{
    *outN = 0; uint8_t p[16];
    if (c->enc) { uint8_t pad = (uint8_t)(16 - c->n); for (unsigned i = c->n; i < 16; i++) c->hold[i] = pad; memcpy(p, c->hold, 16); cipherBlock(c, p, out); *outN = 16; return 1; }
    if (c->n != 16) return 0;
    cipherBlock(c, c->hold, p); uint8_t pad = p[15]; if (pad == 0 || pad > 16) return 0; bool ok = true; for (unsigned i = 0; i < 16; i++) if (i >= 16u - pad) ok = vh_and(ok, p[i] == pad);
    if (!ok) return 0;
    memcpy(out, p, 16u - pad); *outN = (int)(16u - pad); return 1;
}
int vm_EVP_CipherFinal_ex(VmCipherCtx *c, uint8_t *out, int *outN) { return vm_EVP_CipherFinal(c, out, outN); }

// ---- libpq: each connection belongs to a server that the harness plays
typedef struct VmPgConn { int server; int sent; VmPgRes res; int pipeFd, pipeFdW; } VmPgConn;
int vm_pipe(int p[2]);
void *vm_PQconnectdb(const char *info) { VmPgConn *c = malloc(sizeof *c); memset(c, 0, sizeof *c); c->server = vm.onPgConnect ? vm.onPgConnect(info) : -1; c->pipeFd = -1; return c; }
int vm_PQstatus(VmPgConn *c) { return c->server < 0 ? 1 : 0; }
char *vm_PQerrorMessage(VmPgConn *c) { return c->res.error ? (char *)c->res.error : "model error"; }
void *vm_PQsetNoticeProcessor(VmPgConn *c, void *p, void *a) { (void)c; (void)p; (void)a; return NULL; }
int vm_close(int fd);
void vm_PQfinish(VmPgConn *c) { if (c->server >= 0 && vm.onPgClose) vm.onPgClose(c->server); if (c->pipeFd >= 0) { vm_close(c->pipeFd); vm_close(c->pipeFdW); } free(c); }
int vm_PQsendQuery(VmPgConn *c, const char *sql) { if (c->server < 0) return 0; memset(&c->res, 0, sizeof c->res); c->res.status = 7; c->res.error = "not understood"; vm.onPgQuery(c->server, sql, &c->res); c->sent = 1; return 1; }
int vm_PQconsumeInput(VmPgConn *c) { (void)c; return 1; }
int vm_PQisBusy(VmPgConn *c) { return c->res.busy; }
int vm_PQsocket(VmPgConn *c) { if (c->pipeFd < 0) { int p[2]; vm_pipe(p); c->pipeFd = p[0]; c->pipeFdW = p[1]; } return c->pipeFd; }
void *vm_PQgetCancel(VmPgConn *c) { return c; }
int vm_PQcancel(VmPgConn *c, char *e, int n) { (void)e; (void)n; c->res.busy = false; c->res.status = 7; c->res.error = "canceled"; return 1; }
void vm_PQfreeCancel(void *c) { (void)c; }
VmPgRes *vm_PQgetResult(VmPgConn *c) { if (c->sent == 1) { c->sent = c->res.extra ? 2 : 0; return &c->res; } if (c->sent == 2) { c->sent = 0; return &c->res; } return NULL; }
int vm_PQresultStatus(VmPgRes *r) { return r ? r->status : 7; }
char *vm_PQresultErrorMessage(VmPgRes *r) { return r && r->error ? (char *)r->error : ""; }
int vm_PQntuples(VmPgRes *r) { return r->rows; }
int vm_PQnfields(VmPgRes *r) { return r->cols; }
unsigned vm_PQftype(VmPgRes *r, int c) { return r->type[c]; }
char *vm_PQgetvalue(VmPgRes *r, int row, int col) { const char *v = r->val[row * r->cols + col]; return v ? (char *)v : ""; }
int vm_PQgetisnull(VmPgRes *r, int row, int col) { return r->val[row * r->cols + col] == NULL; }
void vm_PQclear(VmPgRes *r) { (void)r; }
