// Encodings of values: what is written is read back exactly, anything else is refused
#include "hcommon.h"
#include "command/archive/common.h"
#include "common/encode.h"
#include "common/time.h"
#include "common/type/convert.h"
#include "common/type/stringId.h"
#include "postgres/interface.h"
static bool same(const void *a, const void *b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = vh_and(r, ((const char *)a)[i] == ((const char *)b)[i]); return r; }
static void oneError(void) { vh_assert(errorType() == &FormatError, "refused with another error than a format error"); }
// Symbolic text of n bytes other than NUL
static char *text(size_t n, const char *name) { char *z = malloc(n + 1); if (n) vh_bytes(z, n, name); for (size_t i = 0; i < n; i++) vh_assume(z[i] != 0); z[n] = 0; return z; }
static uint8_t ref64(unsigned v, bool url) { return (uint8_t)vh_ite(v < 26, 'A' + v, vh_ite(v < 52, 'a' + v - 26, vh_ite(v < 62, '0' + v - 52, vh_ite(v == 62, url ? '-' : '+', url ? '_' : '/')))); }
static uint8_t refHex(unsigned v) { return (uint8_t)vh_ite(v < 10, '0' + v, 'a' + v - 10); }
void encode(void)
{
    hInit(); static const EncodingType types[] = {encodingBase64, encodingBase64Url, encodingHex}; unsigned t = (unsigned)vh_choose("type", 0, 2), n = (unsigned)vh_choose("size", 0, vh_arg(0));
    uint8_t *d = malloc(n + 1); if (n) vh_bytes(d, n, "data"); char e[64]; unsigned k = 0;
    if (t == 2) for (unsigned i = 0; i < n; i++) { e[k++] = (char)refHex(d[i] >> 4); e[k++] = (char)refHex(d[i] & 15); }
    else for (unsigned i = 0; i < n; i += 3)
    {
        unsigned left = n - i, x = (unsigned)d[i] << 16 | (left > 1 ? (unsigned)d[i + 1] << 8 : 0) | (left > 2 ? d[i + 2] : 0);
        e[k++] = (char)ref64(x >> 18, t == 1); e[k++] = (char)ref64(x >> 12 & 63, t == 1);
        if (left > 1) e[k++] = (char)ref64(x >> 6 & 63, t == 1); else if (t == 0) e[k++] = '=';
        if (left > 2) e[k++] = (char)ref64(x & 63, t == 1); else if (t == 0) e[k++] = '=';
    }
    volatile bool ok = false;
    TRY_BEGIN()
    {
        size_t size = encodeToStrSize(types[t], n); vh_assert(size == k, "size of the encoding wrong"); char *o = malloc(size + 1); encodeToStr(types[t], d, n, o);
        vh_assert(vh_and(same(o, e, k), o[k] == 0), "encoding wrong");
        if (t != 1) { size_t back = decodeToBinSize(types[t], o); vh_assert(back == n, "decoded size wrong"); uint8_t *b = malloc(n); decodeToBin(types[t], o, b); vh_assert(same(b, d, n), "decoded data differs"); }
        ok = true;
    }
    CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
    vh_assert(ok, "data cannot be encoded"); vh_reach("done");
}
static unsigned val64(uint8_t c) { return (unsigned)vh_ite(vh_and(c >= 'A', c <= 'Z'), c - 'A', vh_ite(vh_and(c >= 'a', c <= 'z'), c - 'a' + 26u, vh_ite(vh_and(c >= '0', c <= '9'), c - '0' + 52u, vh_ite(c == '+', 62, vh_ite(c == '/', 63, 255))))); }
static unsigned valHex(uint8_t c) { return (unsigned)vh_ite(vh_and(c >= '0', c <= '9'), c - '0', vh_ite(vh_and(c >= 'a', c <= 'f'), c - 'a' + 10u, vh_ite(vh_and(c >= 'A', c <= 'F'), c - 'A' + 10u, 255))); }
void decode(void)
{
    hInit(); unsigned t = (unsigned)vh_arg(1), n = (unsigned)vh_choose("size", 0, vh_arg(0)); char *z = text(n, "text"); EncodingType type = t == 0 ? encodingBase64 : encodingHex;
    bool valid = n % (t == 0 ? 4 : 2) == 0; unsigned pad = 0;
    if (valid && t == 0 && n > 0) { if (z[n - 1] == '=') { pad = 1; if (z[n - 2] == '=') pad = 2; } }
    if (valid) for (unsigned i = 0; i < n - pad; i++) valid = vh_and(valid, t == 0 ? val64((uint8_t)z[i]) < 64 : valHex((uint8_t)z[i]) < 16);
    volatile bool ok = false; volatile size_t size = 0; uint8_t *volatile b = NULL;
    TRY_BEGIN() { size = decodeToBinSize(type, z); b = malloc(size); decodeToBin(type, z, b); ok = true; }
    CATCH_FATAL() { oneError(); } TRY_END();
    vh_assert(ok == valid, ok ? "invalid encoding accepted" : "valid encoding refused");
    if (ok)
    {
        vh_assert(size == (t == 0 ? n / 4 * 3 - pad : n / 2), "decoded size wrong"); bool r = true;
        for (unsigned i = 0; i < size; i++)
        {
            if (t == 1) { r = vh_and(r, b[i] == (valHex((uint8_t)z[i * 2]) << 4 | valHex((uint8_t)z[i * 2 + 1]))); continue; }
            unsigned g = i / 3 * 4, a = val64((uint8_t)z[g]), c = val64((uint8_t)z[g + 1]), e = val64((uint8_t)z[g + 2]), f = val64((uint8_t)z[g + 3]);
            r = vh_and(r, b[i] == (uint8_t)(i % 3 == 0 ? a << 2 | c >> 4 : i % 3 == 1 ? c << 4 | e >> 2 : e << 6 | f));
        }
        vh_assert(r, "decoded data wrong"); vh_reach("valid");
    }
    else vh_reach("refused");
    vh_reach("done");
}
void varint(void)
{
    hInit(); volatile bool ok = false;
    if (vh_arg(0) == 0)
    {
        uint64_t v = vh_u64("value"); uint8_t b[16]; memset(b, 0xEE, 16); size_t pos = (size_t)vh_choose("position", 0, 2), start = pos;
        TRY_BEGIN() { cvtUInt64ToVarInt128(v, b, &pos, 16); size_t end = pos; pos = start; uint64_t r = cvtUInt64FromVarInt128(b, &pos, end); vh_assert(r == v && pos == end, "number changed"); vh_assert(end - start <= 10, "encoding too long"); ok = true; }
        CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
        vh_assert(ok, "number cannot be encoded");
    }
    else
    {
        unsigned n = (unsigned)vh_choose("size", 0, 11); uint8_t *b = malloc(n + 1); if (n) vh_bytes(b, n, "data"); size_t pos = 0; volatile uint64_t r = 0; unsigned e = 0; uint64_t x = 0; bool end = false;
        for (e = 0; e < n && e < 10; e++) { x |= (uint64_t)(b[e] & 0x7f) << (7 * e); if (b[e] < 0x80) { end = true; e++; break; } }
        uint8_t *p = malloc(n); memcpy(p, b, n);
        TRY_BEGIN() { r = cvtUInt64FromVarInt128(p, &pos, n); ok = true; } CATCH_FATAL() { oneError(); } TRY_END();
        vh_assert(ok == end, ok ? "unterminated number accepted" : "number refused"); if (ok) vh_assert(r == x && pos == e, "number decoded wrong"); vh_reach(ok ? "valid" : "refused");
    }
    vh_reach("done");
}
void strid(void)
{
    hInit(); unsigned n = (unsigned)vh_choose("size", 1, vh_arg(0)), seq = (unsigned)vh_choose("sequence", 0, 4); static const unsigned seqs[] = {STRING_ID_SEQ_NONE, 0, 3, 6, 30}; char *z = text(n, "text"); bool five = n <= 12, six = n <= 10;
    // With a larger sequence there is room for one character less
    if (seq >= 3) { vh_assume(n < 10); }
    for (unsigned i = 0; i < n; i++)
    {
        uint8_t c = (uint8_t)z[i]; bool l = vh_or(vh_and(c >= 'a', c <= 'z'), c == '-'); five = vh_and(five, vh_or(l, vh_or(c == '2', vh_or(c == '5', c == '6')))); six = vh_and(six, vh_or(l, vh_or(vh_and(c >= '0', c <= '9'), vh_and(c >= 'A', c <= 'Z'))));
    }
    volatile bool ok = false; bool valid = vh_or(five, six);
    TRY_BEGIN()
    {
        StringId id = strIdFromZN(z, n, seqs[seq]); char b[32]; size_t k = strIdToZ(id, b); vh_assert(k == n && same(b, z, n) && b[k] == 0, "identifier changed"); if (seq) vh_assert(strIdSeq(id) == seqs[seq], "sequence changed"); ok = true;
    }
    CATCH_FATAL() { oneError(); } TRY_END();
    vh_assert(ok == valid, ok ? "text accepted that an identifier cannot hold" : "text refused"); vh_reach(ok ? "valid" : "refused"); vh_reach("done");
}
// Numbers in text: 0 type (0 int, 1 int64, 2 uint, 3 uint64, 4 mode), 1 length
void number(void)
{
    hInit(); unsigned t = (unsigned)vh_choose("type", 0, 4), n = (unsigned)vh_choose("length", 0, vh_arg(1)), form = (unsigned)vh_arg(0); char *z;
    static const char *const prefix[5][3] = {{"21474836", "-21474836", "9999999999"}, {"92233720368547758", "-92233720368547758", "99999999999999999"}, {"42949672", "-", "+"}, {"184467440737095516", "1844674407370955161", "-"}, {"0", "7777", "377777777"}};
    if (form == 0) z = text(n, "text"); else { unsigned f = (unsigned)vh_choose("prefix", 0, 2); const char *p = prefix[t][f]; size_t k = strlen(p); char *x = text(n, "text"); z = malloc(k + n + 1); memcpy(z, p, k); memcpy(z + k, x, n + 1); n += (unsigned)k; }
    // Reference: optional sign, digits, in range
    unsigned i = 0; bool neg = false, valid; __uint128_t v = 0; unsigned base = t == 4 ? 8 : 10;
    if (n > 0 && z[0] == '-') { neg = true; i = 1; } else if (n > 0 && z[0] == '+') i = 1;
    valid = i < n; for (; valid && i < n; i++) { if (z[i] < '0' || z[i] >= (char)('0' + base)) valid = false; else { v = v * base + (unsigned)(z[i] - '0'); if (v > (__uint128_t)1 << 70) v = (__uint128_t)1 << 70; } }
    __uint128_t max = t == 0 ? (__uint128_t)INT_MAX + neg : t == 1 ? (__uint128_t)INT64_MAX + neg : t == 2 ? UINT_MAX : t == 4 ? (__uint128_t)UINT_MAX : (__uint128_t)UINT64_MAX;
    if (valid && v > max) valid = false;
    if (valid && t >= 2 && neg) valid = false;                      // unsigned values have no sign, not even for zero
    volatile bool ok = false; volatile uint64_t r = 0;
    TRY_BEGIN() { r = t == 0 ? (uint64_t)(int64_t)cvtZToInt(z) : t == 1 ? (uint64_t)cvtZToInt64(z) : t == 2 ? cvtZToUInt(z) : t == 3 ? cvtZToUInt64(z) : cvtZToMode(z); ok = true; } CATCH_FATAL() { oneError(); } TRY_END();
    if (ok != valid) vh_prints("text", z);
    vh_assert(ok == valid, ok ? "invalid number accepted" : "number refused"); if (ok) vh_assert(r == (neg ? 0 - (uint64_t)v : (uint64_t)v), "number wrong"); vh_reach(ok ? "valid" : "refused"); vh_reach("done");
}
// Date and time with any digits. 0: 0 date, 1 time of day and fraction, 2 time zone, 3 any one byte of a valid text changed
static int64_t days(int64_t y, unsigned m, unsigned d)              // days since 1970-01-01 (proleptic Gregorian calendar)
{
    y -= m <= 2; int64_t era = y / 400; unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3u : 9u)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + (int64_t)doe - 719468;
}
void datetime(void)
{
    hInit(); unsigned mode = (unsigned)vh_arg(0); char z[48]; snprintf(z, sizeof z, "2024-02-29 12:34:56%s", mode == 1 ? ".123+02" : mode == 2 ? "+00:00" : "+00"); int off = 0; bool valid = true; unsigned y = 2024, mo = 2, d = 29, h = 12, mi = 34, s = 56;
    if (mode == 0)
    {
        static const unsigned years[] = {1900, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2023, 2024, 2037, 2038, 2039, 2040, 2096, 2099, 2100, 2101, 2104, 2399, 2400, 2800, 3000, 9996, 9999};
        // Any year in the thorough tier
        if (vh_arg(1)) { unsigned c = (unsigned)vh_choose("century", 19, 99); y = c * 100 + (unsigned)vh_range("year", 0, 99); } else y = years[vh_choose("year", 0, sizeof(years) / sizeof(years[0]) - 1)];
        unsigned c = (unsigned)vh_concretize(y / 100); mo = (unsigned)vh_choose("month", 0, 13); d = (unsigned)vh_range("day", 0, 33);
        z[0] = (char)('0' + c / 10); z[1] = (char)('0' + c % 10); z[2] = (char)('0' + y % 100 / 10); z[3] = (char)('0' + y % 10); z[5] = (char)('0' + mo / 10); z[6] = (char)('0' + mo % 10); z[8] = (char)('0' + d / 10); z[9] = (char)('0' + d % 10);
        static const unsigned dm[] = {0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31, 0}; bool leap = vh_or(vh_and(y % 4 == 0, y % 100 != 0), y % 400 == 0); unsigned last = (unsigned)(mo == 2 ? vh_ite(leap, 29, 28) : dm[mo]);
        valid = vh_and(y >= 1970, vh_and(d >= 1, d <= last));
    }
    else if (mode == 1)
    {
        h = (unsigned)vh_range("hour", 0, 99); mi = (unsigned)vh_range("minute", 0, 99); s = (unsigned)vh_range("second", 0, 99); off = 7200;
        z[11] = (char)('0' + h / 10); z[12] = (char)('0' + h % 10); z[14] = (char)('0' + mi / 10); z[15] = (char)('0' + mi % 10); z[17] = (char)('0' + s / 10); z[18] = (char)('0' + s % 10);
        valid = vh_and(h < 24, vh_and(mi < 60, s < 60)); unsigned cut = (unsigned)vh_choose("fraction", 0, 3); if (cut < 3) { size_t k = 20 + cut; memmove(z + k, "+02", 4); } z[19] = vh_bool("comma") ? ',' : '.';
    }
    else if (mode == 2)
    {
        // Time zones are multiples of 15 minutes from -12:00 to +14:00
        bool neg = vh_choose("west", 0, 1); unsigned oh = (unsigned)vh_range("hours", 0, 99), om = 0; unsigned form = (unsigned)vh_choose("form", 0, 2); z[19] = neg ? '-' : '+'; z[20] = (char)('0' + oh / 10); z[21] = (char)('0' + oh % 10); z[22] = 0;
        if (form) { om = (unsigned)vh_range("minutes", 0, 59); unsigned k = 22; if (form == 1) z[k++] = ':'; z[k++] = (char)('0' + om / 10); z[k++] = (char)('0' + om % 10); z[k] = 0; }
        valid = vh_and(om % 15 == 0, vh_or(oh < (neg ? 12u : 14u), vh_and(oh == (neg ? 12u : 14u), om == 0))); off = (int)(oh * 3600 + om * 60); if (neg) off = -off;
    }
    else
    {
        unsigned k = (unsigned)vh_choose("position", 0, 21); char old = z[k]; uint8_t c = vh_u8("byte"); vh_assume(c != 0 && c != (uint8_t)old && !(c >= '0' && c <= '9') && !(k == 19 && (c == '-' || c == '.' || c == ','))); z[k] = (char)c; valid = false;
    }
    volatile bool ok = false; volatile int64_t r = 0;
    TRY_BEGIN() { r = cvtZToTime(z); ok = true; } CATCH_FATAL() { oneError(); } TRY_END();
    vh_assert(ok == valid, ok ? "invalid time accepted" : "time refused");
    if (ok) { int64_t e = days(y, mo, d) * 86400 + h * 3600 + mi * 60 + s - off; vh_assert(r == e, "time wrong"); vh_reach("valid"); } else vh_reach("refused");
    vh_reach("done");
}
// LSN and WAL segment names. 0: log2 of the WAL segment size
static unsigned hexv(const char *p, unsigned n) { unsigned r = 0; for (unsigned i = 0; i < n; i++) r = r << 4 | (unsigned)vh_ite((uint8_t)p[i] <= '9', (uint8_t)(p[i] - '0'), (uint8_t)(p[i] - 'A' + 10)); return r; }
static uint64_t segNo(const char *z, uint64_t per) { return (uint64_t)hexv(z + 8, 8) * per + hexv(z + 16, 8); }
static bool hexText(const char *z, unsigned n) { bool r = true; for (unsigned i = 0; i < n; i++) { uint8_t c = (uint8_t)z[i]; r = vh_and(r, vh_or(vh_and(c >= '0', c <= '9'), vh_and(c >= 'A', c <= 'F'))); } return r; }
void lsn(void)
{
    hInit(); uint64_t size = 1ULL << vh_choose("segment size", 20, 30), per = 0x100000000ULL / size; uint64_t a = vh_u64("lsn"); uint32_t tl = vh_u32("timeline"); vh_assume(tl != 0); volatile bool ok = false;
    unsigned span = (unsigned)vh_choose("segments", 0, vh_arg(0)); uint64_t off = vh_range("offset", 0, size - 1), b = a / size * size + span * size + off; vh_assume(vh_and(b >= a, a < UINT64_MAX - 0x200000000ULL)); vh_assume(a >> 32 < 0x1000); if (vh_arg(1) == 0) { vh_assume(tl < 0x100); }
    TRY_BEGIN()
    {
        const String *s = pgLsnToWalSegment(tl, a, (unsigned)size); vh_assert(strSize(s) == 24 && hexText(strZ(s), 24) && hexv(strZ(s), 8) == tl && segNo(strZ(s), per) == a / size, "WAL segment of a location wrong"); vh_assert(pgTimelineFromWalSegment(s) == tl, "timeline of a WAL segment wrong");
        const StringList *l = pgLsnRangeToWalSegmentList(tl, a, b, (unsigned)size); vh_assert(strLstSize(l) == span + 1, "number of WAL segments in a range wrong");
        for (unsigned i = 0; i <= span; i++) vh_assert(hexv(strZ(strLstGet(l, i)), 8) == tl && segNo(strZ(strLstGet(l, i)), per) == a / size + i, "WAL segments of a range wrong");
        const StringList *q = walSegmentRange(s, size, span + 1); vh_assert(strLstSize(q) == span + 1, "number of following WAL segments wrong");
        for (unsigned i = 0; i <= span; i++) vh_assert(same(strZ(strLstGet(q, i)), strZ(strLstGet(l, i)), 25), "following WAL segments wrong");
        ok = true;
    }
    CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
    vh_assert(ok, "WAL segments cannot be determined"); vh_reach("done");
}
void lsntext(void)
{
    hInit(); volatile bool ok = false; unsigned k1 = (unsigned)vh_choose("digits", 1, 8), k2 = (unsigned)vh_choose("digits", 1, 8); if (vh_arg(0) == 0) vh_assume(k1 == 1 || k1 == 8 || k2 == 1 || k2 == 8);
    uint64_t hi = vh_range("high", k1 == 1 ? 0 : 1ULL << (k1 * 4 - 4), (1ULL << k1 * 4) - 1), lo = vh_range("low", k2 == 1 ? 0 : 1ULL << (k2 * 4 - 4), (1ULL << k2 * 4) - 1), v = hi << 32 | lo;
    TRY_BEGIN() { const String *s = pgLsnToStr(v); vh_assert(strSize(s) == k1 + k2 + 1, "length of a location wrong"); vh_assert(pgLsnFromStr(s) == v, "location changed"); ok = true; } CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
    vh_assert(ok, "location cannot be read back"); vh_reach("done");
}
