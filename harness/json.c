// JSON: what is written is read back exactly, anything else is read or refused without harm
#include "hcommon.h"
#include "common/type/json.h"
#include "common/type/keyValue.h"
#include "common/type/variant.h"
static bool bytesSame(const char *a, const char *b, size_t n) { bool r = true; for (size_t i = 0; i < n; i++) r = vh_and(r, a[i] == b[i]); return r; }
// A string of any bytes (no NUL) as scalar, in an array, as object value; also skipped
void strings(void)
{
    hInit(); unsigned n = (unsigned)vh_choose("length", 0, vh_arg(0)); char *z = malloc(n + 1); if (n) vh_bytes(z, n, "text"); z[n] = 0;
    for (unsigned i = 0; i < n; i++) vh_assume(z[i] != 0);
    String *s = strNewZN(z, n); unsigned how = (unsigned)vh_choose("how", 0, 3); volatile bool ok = false;
    TRY_BEGIN()
    {
        if (how == 0)
        {
            const String *j = jsonFromVar(varNewStr(s)); jsonValidate(j); const String *r = varStr(jsonToVar(j));
            vh_assert(strSize(r) == n && bytesSame(strZ(r), z, n), "string changed");
        }
        else if (how == 1)
        {
            StringList *l = strLstNew(); strLstAdd(l, s); strLstAddZ(l, "x"); const String *j = jsonWriteResult(jsonWriteStrLst(jsonWriteNewP(), l)); jsonValidate(j);
            const StringList *r = jsonReadStrLst(jsonReadNew(j)); vh_assert(strLstSize(r) == 2 && strSize(strLstGet(r, 0)) == n && bytesSame(strZ(strLstGet(r, 0)), z, n) && strEqZ(strLstGet(r, 1), "x"), "string list changed");
        }
        else
        {
            JsonWrite *w = jsonWriteObjectBegin(jsonWriteNewP()); jsonWriteStr(jsonWriteKeyZ(w, "a"), s); jsonWriteUInt64(jsonWriteKeyZ(w, "b"), 7); jsonWriteBool(jsonWriteKeyZ(w, "c"), true); jsonWriteObjectEnd(w);
            const String *j = jsonWriteResult(w); jsonValidate(j); JsonRead *r = jsonReadNew(j); jsonReadObjectBegin(r);
            if (how == 2) { const String *v = jsonReadStr(jsonReadKeyRequireZ(r, "a")); vh_assert(strSize(v) == n && bytesSame(strZ(v), z, n), "string value changed"); }
            vh_assert(!jsonReadKeyExpectZ(r, "aa"), "key found that does not exist");
            vh_assert(jsonReadUInt64(jsonReadKeyRequireZ(r, "b")) == 7, "value after a string wrong");
            vh_assert(jsonReadKeyExpectZ(r, "c") && jsonReadBool(r), "last value wrong"); jsonReadObjectEnd(r);
        }
        ok = true;
    }
    CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
    vh_assert(ok, "what was written cannot be read"); vh_reach("done");
}
// Numbers: any value of a type, read back as any other type exactly when it fits
void numbers(void)
{
    hInit(); unsigned t = (unsigned)vh_choose("type", 0, 3), r = (unsigned)vh_choose("read", 0, 4); uint64_t v = vh_u64("value"); int64_t i = 0; bool neg = false;
    // The number of digits is chosen first to keep the paths apart
    unsigned d = (unsigned)vh_choose("digits", 1, 20); uint64_t lo = 1, hi; for (unsigned x = 1; x < d; x++) lo *= 10; hi = d == 20 ? UINT64_MAX : lo * 10 - 1; if (d == 1) lo = 0;
    uint64_t m = vh_range("magnitude", lo, hi); (void)v;
    // Only the last digits vary, the others are those of either bound or of a limit of a type
    if (d > 3) { uint64_t base = vh_choose("base", 0, 5), b = base == 0 ? lo : base == 1 ? hi : base == 2 ? INT_MAX : base == 3 ? UINT_MAX : base == 4 ? INT64_MAX : (uint64_t)UINT_MAX * 2; vh_assume(b >= lo && b <= hi); uint64_t q = vh_arg(0) ? vh_arg(0) : 1; vh_assume(m >= b - q || b < q); vh_assume(m <= b || m - b <= q); m = vh_concretize(m); }
    if (t == 1 || t == 3) neg = vh_bool("negative");
    volatile bool ok = false, got = false; volatile uint64_t ru = 0; volatile int64_t ri = 0; volatile bool negR = false;
    if (t == 0) { vh_assume(m <= UINT_MAX); } else if (t == 1) { vh_assume(m <= (uint64_t)INT_MAX + neg); } else if (t == 3) vh_assume(m <= (uint64_t)INT64_MAX + neg);
    if (neg) { vh_assume(m != 0); i = (int64_t)(0 - m); } else i = (int64_t)m;
    const String *volatile j = NULL;
    TRY_BEGIN()
    {
        JsonWrite *w = jsonWriteArrayBegin(jsonWriteNewP());
        if (t == 0) jsonWriteUInt(w, (unsigned)m); else if (t == 1) jsonWriteInt(w, (int)i); else if (t == 2) jsonWriteUInt64(w, m); else jsonWriteInt64(w, i);
        jsonWriteArrayEnd(w); j = jsonWriteResult(w); jsonValidate(j); ok = true;
    }
    CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
    vh_assert(ok, "number cannot be written");
    TRY_BEGIN()
    {
        JsonRead *x = jsonReadNew(j); jsonReadArrayBegin(x);
        if (r == 0) ru = jsonReadUInt(x);
        else if (r == 1) { ri = jsonReadInt(x); negR = true; }
        else if (r == 2) ru = jsonReadUInt64(x);
        else if (r == 3) { ri = jsonReadInt64(x); negR = true; }
        else { const Variant *q = jsonReadVar(x); if (varType(q) == varTypeUInt64) ru = varUInt64(q); else { ri = varInt64(q); negR = true; } }
        jsonReadArrayEnd(x); got = true;
    }
    CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
    bool fits = r == 0 ? !neg && m <= UINT_MAX : r == 1 ? m <= (uint64_t)INT_MAX + neg : r == 2 ? !neg : r == 3 ? m <= (uint64_t)INT64_MAX + neg : true;
    vh_assert(got == fits, "number accepted or refused wrongly");
    if (got) { vh_assert(negR ? ri == i && (neg || m <= INT64_MAX) : !neg && ru == m, "number changed"); vh_reach("read"); } else vh_reach("refused");
    vh_reach("done");
}
// Any text: read, validated or refused with a format error; a text that validates reads, and both agree after writing it again
void text(void)
{
    hInit(); unsigned n = (unsigned)vh_choose("length", 0, vh_arg(0)); const char *pre = vh_arg(1) == 1 ? "{\"" : vh_arg(1) == 2 ? "[\"\\u00" : vh_arg(1) == 3 ? "[1," : "", *post = vh_arg(1) == 1 ? "}" : vh_arg(1) == 2 ? "\"]" : "";
    size_t p = strlen(pre), q = vh_arg(2) ? 0 : strlen(post); char *z = malloc(p + n + q + 1); memcpy(z, pre, p); if (n) vh_bytes(z + p, n, "text"); memcpy(z + p + n, post, q); z[p + n + q] = 0;
    for (unsigned i = 0; i < n; i++) vh_assume(vh_and(z[p + i] != 0, z[p + i] != '\t'));
    const String *s = strNewZN(z, p + n + q); volatile bool valid = false, read = false; const String *volatile a = NULL, *volatile b = NULL;
    TRY_BEGIN() { jsonValidate(s); valid = true; } CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
    TRY_BEGIN() { a = jsonFromVar(jsonToVar(s)); read = true; } CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
    if (read && strlen(strZ(a)) != strSize(a)) vh_end();   // an escaped NUL cannot be represented
    if (read) { TRY_BEGIN() { jsonValidate(a); b = jsonFromVar(jsonToVar(a)); } CATCH_FATAL() { vh_prints("error", errorMessage()); vh_fail("what was written cannot be read"); } TRY_END(); vh_assert(strEq(a, b), "value changed when written and read again"); vh_reach("read"); }
    else vh_reach("refused");
    if (valid) vh_reach("valid");
    vh_reach("done");
}
// An object with any sorted keys: exactly the keys that exist are found
void keys(void)
{
    hInit(); unsigned n = (unsigned)vh_choose("keys", 1, 3); char k[3][4]; size_t l[3]; static const char *const names[] = {"a", "ab", "aba", "b", "ba", "bab"}; unsigned prev = 0;
    JsonWrite *w = jsonWriteObjectBegin(jsonWriteNewP()); unsigned sel[3];
    for (unsigned i = 0; i < n; i++) { sel[i] = (unsigned)vh_choose("key", 0, 5); vh_assume(i == 0 || sel[i] > prev); prev = sel[i]; jsonWriteUInt(jsonWriteKeyZ(w, names[sel[i]]), sel[i]); } (void)k; (void)l;
    jsonWriteObjectEnd(w); volatile bool ok = false; unsigned want1 = (unsigned)vh_choose("want", 0, 5), want2 = (unsigned)vh_choose("then", 0, 5); vh_assume(want2 > want1);
    TRY_BEGIN()
    {
        JsonRead *r = jsonReadNew(jsonWriteResult(w)); jsonReadObjectBegin(r); bool has1 = false, has2 = false;
        for (unsigned i = 0; i < n; i++) { has1 |= sel[i] == want1; has2 |= sel[i] == want2; }
        bool f1 = jsonReadKeyExpectZ(r, names[want1]); vh_assert(f1 == has1, "key lookup wrong"); if (f1) vh_assert(jsonReadUInt(r) == want1, "value of another key");
        bool f2 = jsonReadKeyExpectZ(r, names[want2]); vh_assert(f2 == has2, "key lookup wrong"); if (f2) { vh_assert(jsonReadUInt(r) == want2, "value of another key"); vh_reach("found"); }
        else vh_reach("absent");
        ok = true;
    }
    CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
    vh_assert(ok, "read failed"); vh_reach("done");
}
