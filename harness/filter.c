// Compression and encryption: what is stored gives back exactly the data, whatever the boundaries of reads, writes and buffers
#include "hcommon.h"
#include "common/compress/helper.h"
#include "common/crypto/cipherBlock.h"
#include "common/crypto/hash.h"
#include "common/crypto/spec.h"
#include "common/io/filter/group.h"
#include "common/io/filter/size.h"
#include "common/type/pack.h"
static const CompressType types[] = {compressTypeNone, compressTypeGz, compressTypeBz2, compressTypeLz4, compressTypeZst};
static bool viaPack;
// The filter, or as made by another process from its parameters
static IoFilter *via(IoFilter *const f)
{
    if (!viaPack) return f;
    IoFilter *const r = compressFilterPack(ioFilterType(f), ioFilterParamList(f));
    if (r != NULL) return r;
    if (ioFilterType(f) == CIPHER_BLOCK_FILTER_TYPE) return cipherBlockNewPack(ioFilterParamList(f));
    if (ioFilterType(f) == CRYPTO_HASH_FILTER_TYPE) return cryptoHashNewPack(ioFilterParamList(f));
    return f;
}
static const CipherSpec *spec(const char *const pass) { return cipherSpecNew(cipherTypeAes256Cbc, BUFSTRZ(pass)); }
static Buffer *encode(const uint8_t *const data, const unsigned size, const CompressType type, const bool raw, const bool cipher, const unsigned chunk, String **const hash, uint64_t *const sizeIn, uint64_t *const sizeOut)
{
    Buffer *const result = bufNew(0); IoWrite *const w = ioBufferWriteNew(result); IoFilterGroup *const g = ioWriteFilterGroup(w);
    ioFilterGroupAdd(g, ioSizeNew()); ioFilterGroupAdd(g, via(cryptoHashNew(hashTypeSha1)));
    if (type != compressTypeNone) ioFilterGroupAdd(g, via(compressFilterP(type, 1, .raw = raw)));
    if (cipher) ioFilterGroupAdd(g, via(cipherBlockNewP(cipherModeEncrypt, spec("secret"), .raw = raw)));
    ioFilterGroupAdd(g, ioSizeNew());
    ioWriteOpen(w);
    for (unsigned at = 0; at < size; at += chunk) { const unsigned n = size - at < chunk ? size - at : chunk; ioWrite(w, BUF(data + at, n)); }
    ioWriteClose(w);
    if (sizeIn != NULL) { *sizeIn = pckReadU64P(ioFilterGroupResultP(g, SIZE_FILTER_TYPE)); *sizeOut = pckReadU64P(ioFilterGroupResultP(g, SIZE_FILTER_TYPE, .idx = 1)); *hash = strNewEncode(encodingHex, pckReadBinP(ioFilterGroupResultP(g, CRYPTO_HASH_FILTER_TYPE))); }
    return result;
}
static Buffer *decode(const Buffer *const in, const CompressType type, const bool raw, const bool cipher, const unsigned chunk, String **const hash, uint64_t *const sizeOut)
{
    Buffer *const result = bufNew(0); IoRead *const r = ioBufferReadNew(in); IoFilterGroup *const g = ioReadFilterGroup(r);
    if (cipher) ioFilterGroupAdd(g, via(cipherBlockNewP(cipherModeDecrypt, spec("secret"), .raw = raw)));
    if (type != compressTypeNone) ioFilterGroupAdd(g, via(decompressFilterP(type, .raw = raw)));
    ioFilterGroupAdd(g, via(cryptoHashNew(hashTypeSha1))); ioFilterGroupAdd(g, ioSizeNew());
    ioReadOpen(r);
    Buffer *const b = bufNew(chunk);
    while (!ioReadEof(r)) { bufUsedZero(b); ioRead(r, b); bufCat(result, b); }
    ioReadClose(r);
    if (hash != NULL) { *hash = strNewEncode(encodingHex, pckReadBinP(ioFilterGroupResultP(g, CRYPTO_HASH_FILTER_TYPE))); *sizeOut = pckReadU64P(ioFilterGroupResultP(g, SIZE_FILTER_TYPE)); }
    return result;
}
#define NMAX 64
static uint8_t data[512];
static bool zeros;
static void fill(const unsigned n) { if (zeros) { memset(data, 0, n); return; } for (unsigned i = 0; i < n; i++) data[i] = i < NMAX && (!vh_arg(8) || i == vh_arg(8) - 1 || i == n - 1) ? vh_u8("data") : (uint8_t)(i * 7 + 1); }
static unsigned pick(const char *const name, const unsigned *const list, const unsigned n) { return list[vh_choose(name, 0, n - 1)]; }
#define PICK(name, ...) pick(name, (const unsigned[]){__VA_ARGS__}, sizeof((const unsigned[]){__VA_ARGS__}) / sizeof(unsigned))
// 0: 1 cipher, 1: wider sets, 2: type + 1 (0: any)
void chain(void)
{
    hInit(); const bool cipher = vh_arg(0) & 1, wide = vh_arg(1) & 1;
    const CompressType type = types[vh_arg(2) ? vh_arg(2) - 1 : vh_choose("compression", cipher ? 0 : 1, 4)]; const bool raw = vh_choose("raw", 0, 1); viaPack = vh_choose("filters made by another process", 0, 1); vm_codecStingy = (int)vh_choose("compressor keeps little", 0, 1);
    zeros = vm_codecRuns = vh_choose("zeros", 0, 1);
    const unsigned size = zeros ? PICK("data size", 8, 40, 400) : wide ? PICK("data size", 0, 1, 2, 15, 16, 17, 31, 33, 48, 64) : PICK("data size", 0, 1, 16, 33); fill(size);
    const size_t bufs = wide ? PICK("buffer size", 1, 2, 15, 16, 17, 40, 128) : PICK("buffer size", 1, 16, 128); const unsigned wchunk = wide ? PICK("write size", 1, 5, 16, 1000) : PICK("write size", 3, 1000), rchunk = wide ? PICK("read size", 1, 7, 16, 200) : PICK("read size", 5, 200);
    MEM_CONTEXT_TEMP_BEGIN()
    {
        ioBufferSizeSet(bufs); String *h1 = NULL, *h2 = NULL; uint64_t in = 0, out = 0, back = 0;
        Buffer *const stored = encode(data, size, type, raw, cipher, wchunk, &h1, &in, &out);
        vh_assert(in == size && out == bufUsed(stored), "sizes reported by the filters differ from the data");
        vh_assert(strEq(h1, strNewEncode(encodingHex, cryptoHashOne(hashTypeSha1, BUF(data, size)))), "hash reported while storing differs from the hash of the data");
        if (cipher) { vh_assert(bufUsed(stored) >= (raw ? 8 : 16) + 16 && (raw || memcmp(bufPtr(stored), "Salted__", 8) == 0), "encrypted data has no header"); if (type == compressTypeNone) vh_assert(bufUsed(stored) == (raw ? 8 : 16) + (size / 16 + 1) * 16, "encrypted size"); }
        ioBufferSizeSet(wide ? bufs : PICK("buffer size when reading", 1, 64));
        TRY_BEGIN() { Buffer *const result = decode(stored, type, raw, cipher, rchunk, &h2, &back); vh_assert(bufUsed(result) == size && back == size, "size of the data read back differs"); bool same = true; for (unsigned i = 0; i < size; i++) same = vh_and(same, bufPtr(result)[i] == data[i]); vh_assert(same, "data read back differs from the data stored"); vh_assert(strEq(h1, h2), "hash differs after reading back"); }
        CATCH_FATAL() { vh_prints("error", errorMessage()); vh_fail("stored data could not be read back"); } TRY_END();
        hObsBuf(bufPtr(stored), 1); vh_reach("read back");
        // The same data stored again is read back too, and is not the same bytes when encrypted
        if (cipher && !viaPack) { Buffer *const again = encode(data, size, type, raw, cipher, wchunk, NULL, NULL, NULL); vh_assert(!bufEq(BUF(bufPtr(again) + (raw ? 0 : 8), 8), BUF(bufPtr(stored) + (raw ? 0 : 8), 8)), "salt used again"); }
    }
    MEM_CONTEXT_TEMP_END();
}
// A stream that was cut, is empty or is of another type is refused
void damage(void)
{
    hInit(); const bool cipher = vh_arg(0) & 1; viaPack = false; vm_codecStingy = 0;
    const CompressType type = types[cipher ? 0 : vh_choose("compression", 1, 4)]; const bool raw = vh_choose("raw", 0, 1);
    const unsigned size = PICK("data size", 0, 1, 20, 33); fill(size);
    const size_t bufs = PICK("buffer size", 1, 7, 64); const unsigned rchunk = PICK("read size", 3, 200);
    MEM_CONTEXT_TEMP_BEGIN()
    {
        ioBufferSizeSet(bufs); Buffer *stored = encode(data, size, type, raw, cipher, 1000, NULL, NULL, NULL); bool error = false; CompressType as = type;
        const unsigned what = (unsigned)vh_choose("damage", 0, cipher ? 2 : 1);
        if (what == 0) { const size_t cut = vh_choose("cut at", 0, bufUsed(stored) - 1); if (cipher) { const size_t head = raw ? 8 : 16; vh_assume(cut <= head || (cut - head) % 16 != 0); } stored = bufNewC(bufPtr(stored), cut); }
        else if (what == 1 && !cipher) { as = types[vh_choose("read as", 1, 4)]; vh_assume(as != type); }
        else if (what == 1) { vh_assume(!raw); bufPtr(stored)[vh_choose("byte of the header", 0, 7)] ^= 0x20; }
        else { vh_assume(!raw); bufPtr(stored)[0] = 'X'; }
        TRY_BEGIN() { decode(stored, as, raw, cipher, rchunk, NULL, NULL); }
        CATCH_FATAL() { error = true; H_NO_ASSERT(); } TRY_END();
        vh_assert(error, "a stream that was cut or is of another type was accepted"); vh_observe(error); vh_reach("refused");
    }
    MEM_CONTEXT_TEMP_END();
}
