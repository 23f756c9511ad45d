// Concrete runs of the library against an oracle written from the definitions.  Used to replay the
// verifier's counterexamples on the real code, and to look for a failing input where it gives none.
//   hunt replay  CASE...                 run one case ("e_name arg arg ...")
//   hunt cases   FILE                    run the cases in FILE (a '?' argument stands for every predicate)
//   hunt search  value|safety SECONDS SEED e_name...   generate cases for these entries
//   hunt history SECONDS SEED            same calls in other orders and in threads give the same results
// HUNT_UCD names the file with the Unicode data.
#include "string.hxx"
#include "string_trim.hxx"
#include "string_splitjoin.hxx"
#ifndef NO_INTERNALS
#include "internal/string_decode_utf8.hxx"
#include "string_internal.hxx"
#endif
#include "codepages.h"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <setjmp.h>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <thread>
#include <unistd.h>
#include <vector>
using std::string; using std::vector; using std::u16string; using std::u32string; using std::wstring;
typedef uint32_t u32;
typedef vector<u32> U;
using namespace ansak;

// ------------------------------------------------------------------ arguments and results
struct Arg { char k; U u; vector<U> vv; uint64_t n; string p; };
struct Out { string got; vector<string> want; string bad; };
typedef vector<Arg> Args;

static string hexs(const U& u) { string r; char b[16]; for (size_t i = 0; i < u.size(); ++i) { snprintf(b, 16, i ? ",%x" : "%x", u[i]); r += b; } return r; }
static string lineOf(const string& e, const Args& a)
{
    string r = e;
    for (auto& x : a) {
        r += ' ';
        if (x.k == 'b') r += "b" + hexs(x.u);
        else if (x.k == '0') r += "null";
        else if (x.k == 'n') r += std::to_string(x.n);
        else if (x.k == 'p') r += x.p;
        else if (x.k == 'v') { r += 'v'; for (auto& e : x.vv) r += ";" + hexs(e); }
    }
    return r;
}
static U parseU(const string& s) { U u; std::stringstream ss(s); string t; while (std::getline(ss, t, ',')) if (!t.empty()) u.push_back((u32)std::stoul(t, nullptr, 16)); return u; }
static Arg parseArg(const string& t)
{
    Arg a; a.n = 0;
    if (t == "null") a.k = '0';
    else if (t[0] == 'b') { a.k = 'b'; a.u = parseU(t.substr(1)); }
    else if (t[0] == 'v') { a.k = 'v'; size_t p = 1; while (p < t.size()) { size_t q = t.find(';', p + 1); if (q == string::npos) q = t.size(); a.vv.push_back(parseU(t.substr(p + 1, q - p - 1))); p = q; } }
    else if (t[0] == 'p' || t == "-" || t == "?") { a.k = 'p'; a.p = t; }
    else { a.k = 'n'; a.n = std::stoull(t); }
    return a;
}
template <class S> U toU(const S& s) { U u; for (auto c : s) u.push_back((u32)(typename std::make_unsigned<typename std::conditional<sizeof(c) == 1, char, typename std::conditional<sizeof(c) == 2, short, int>::type>::type>::type)c); return u; }
template <class S> S fromU(const U& u) { S s; for (auto c : u) s.push_back((typename S::value_type)c); return s; }
static string RS(const U& u) { return "[" + hexs(u) + "]"; }
template <class S> string R(const S& s) { return RS(toU(s)); }
static string RN(uint64_t n) { return std::to_string(n); }
template <class S> string RV(const vector<S>& v) { string r = "{"; for (auto& x : v) r += RS(toU(x)); return r + "}"; }

// ------------------------------------------------------------------ guarded buffers
static const size_t POOL = 1 << 20;
struct Guard {
    char* base;
    Guard() { size_t pg = 4096; base = (char*)mmap(nullptr, POOL + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(base, pg, PROT_NONE); mprotect(base + pg + POOL, pg, PROT_NONE); base += pg; }
    ~Guard() { munmap(base - 4096, POOL + 8192); }
    template <class C> C* put(const U& u, bool nul)
    {
        size_t n = u.size() + (nul ? 1 : 0);
        if (n * sizeof(C) > POOL) { fprintf(stderr, "case too long\n"); exit(3); }
        C* p = (C*)(base + POOL) - n;
        for (size_t i = 0; i < u.size(); ++i) p[i] = (C)u[i];
        if (nul) p[u.size()] = 0;
        return p;
    }
};
static Guard& G1() { static thread_local Guard g; return g; }

// ------------------------------------------------------------------ oracle: encodings
enum { FINE, BAD, CUT };
struct Dec { U cps; int end; u32 first; };
static U untilNul(const U& u) { U r; for (auto c : u) { if (!c) break; r.push_back(c); } return r; }
static int seqLen(u32 b) { return b < 0x80 ? 1 : b < 0xc0 ? 0 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : b < 0xf8 ? 4 : b < 0xfc ? 5 : b < 0xfe ? 6 : 0; }
static bool isHi(u32 c) { return c >= 0xd800 && c < 0xdc00; }
static bool isLo(u32 c) { return c >= 0xdc00 && c < 0xe000; }
// one plain sequence at i; returns FINE/BAD/CUT
static int seq8(const U& s, size_t i, u32& c, size_t& n)
{
    static const u32 least[] = { 0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
    int len = seqLen(s[i]);
    if (!len) return BAD;
    n = len;
    if (len == 1) { c = s[i]; return FINE; }
    c = s[i] & (0x7f >> len);
    for (int k = 1; k < len; ++k) {
        if (i + k >= s.size()) return CUT;
        if ((s[i + k] & 0xc0) != 0x80) return BAD;
        c = c << 6 | (s[i + k] & 0x3f);
    }
    return c < least[len] ? BAD : FINE;
}
static Dec dec8(const U& s, bool lenMode)
{
    Dec d; d.end = FINE; d.first = 0;
    for (size_t i = 0; i < s.size();) {
        u32 c, lo; size_t n, m;
        int r = seq8(s, i, c, n);
        d.first = s[i];
        if (r == CUT && lenMode && s[i] == 0xed && i + 1 < s.size() && s[i + 1] >= 0xb0) r = BAD;
        if (r == FINE && isLo(c) && n == 3) r = BAD;
        if (r == FINE && isHi(c) && n == 3) {
            if (i + 3 >= s.size()) r = CUT;
            else if (s[i + 3] < 0xe0 || s[i + 3] > 0xef) r = BAD;
            else {
                // the second half may have any form: what counts is that it is one
                if (i + 4 >= s.size()) r = CUT;
                else if ((s[i + 4] & 0xc0) != 0x80) r = BAD;
                else if (i + 5 >= s.size()) r = CUT;
                else if ((s[i + 5] & 0xc0) != 0x80) r = BAD;
                else {
                    m = 3; lo = (s[i + 3] & 15) << 12 | (s[i + 4] & 63) << 6 | (s[i + 5] & 63);
                    if (!isLo(lo)) r = BAD;
                    else { c = 0x10000 + (c - 0xd800) * 0x400 + (lo - 0xdc00); n += m; }
                }
            }
        }
        if (r != FINE) { d.end = r; return d; }
        d.cps.push_back(c);
        i += n;
    }
    return d;
}
static Dec dec16(const U& s)
{
    Dec d; d.end = FINE; d.first = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        u32 c = s[i];
        d.first = c;
        if (isLo(c)) { d.end = BAD; return d; }
        if (isHi(c)) {
            if (i + 1 >= s.size()) { d.end = CUT; return d; }
            if (!isLo(s[i + 1])) { d.end = BAD; return d; }
            c = 0x10000 + (c - 0xd800) * 0x400 + (s[++i] - 0xdc00);
        }
        d.cps.push_back(c);
    }
    return d;
}
static Dec dec32(const U& s)
{
    Dec d; d.end = FINE; d.first = 0;
    for (auto c : s) { d.first = c; if (isHi(c) || isLo(c)) { d.end = BAD; return d; } d.cps.push_back(c); }
    return d;
}
static Dec decW(const U& s, int w) { return w == 1 ? dec8(s, false) : w == 2 ? dec16(s) : dec32(s); }
static void enc8(U& o, u32 c)
{
    if (c < 0x80) { o.push_back(c); return; }
    int n = c < 0x800 ? 2 : c < 0x10000 ? 3 : c < 0x200000 ? 4 : c < 0x4000000 ? 5 : 6;
    static const u32 lead[] = { 0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc };
    o.push_back(lead[n] | c >> 6 * (n - 1));
    for (int k = n - 2; k >= 0; --k) o.push_back(0x80 | (c >> 6 * k & 0x3f));
}
static void enc16(U& o, u32 c) { if (c < 0x10000) o.push_back(c); else { c -= 0x10000; o.push_back(0xd800 + (c >> 10)); o.push_back(0xdc00 + (c & 0x3ff)); } }
enum To { T8, T16, T2, T4 };
static U encAll(const U& cps, To t)
{
    static const u32 lim[] = { 0x7fffffff, 0x10ffff, 0xffff, 0xffffffff };
    U o;
    for (auto c : cps) { if (c > lim[t]) return U(); if (t == T8) enc8(o, c); else if (t == T16) enc16(o, c); else o.push_back(c); }
    return o;
}
static U convW(const U& s, int w, To t) { Dec d = decW(untilNul(s), w); return d.end == BAD ? U() : encAll(d.cps, t); }

// ------------------------------------------------------------------ oracle: classes, lower case
static vector<char> assigned(0x110000, 0);
static std::map<u32, u32> lower;
static std::map<u32, vector<u32>> lowerKnown;     // known findings: also tolerated
static void loadUcd()
{
    const char* f = getenv("HUNT_UCD");
    std::ifstream in(f ? f : "");
    string k; u32 a, b;
    while (in >> k >> std::hex >> a >> b) {
        if (k == "A") for (u32 c = a; c <= b; ++c) assigned[c] = 1;
        else if (k == "L") lower[a] = b;
        else if (k == "K") lowerKnown[a].push_back(b);
    }
}
static bool cAssigned(u32 c) { return c < 0x110000 && assigned[c]; }
static bool cPrivate(u32 c) { return (c >= 0xe000 && c <= 0xf8ff) || (c >= 0xf0000 && c <= 0xffffd) || (c >= 0x100000 && c <= 0x10fffd); }
static bool cControl(u32 c) { return c < 0x20 || (c >= 0x7f && c <= 0x9f); }
static bool cWhite(u32 c) { return (c >= 9 && c <= 13) || c == 0x20 || c == 0x85 || c == 0xa0 || c == 0x1680 || (c >= 0x2000 && c <= 0x200a) || c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000; }
static bool cls(u32 c, int t) { return t == 1 ? cAssigned(c) : t == 2 ? cPrivate(c) : t == 3 ? cControl(c) : t == 4 ? cWhite(c) : true; }
static u32 low(u32 c, bool tk) { if (tk && c == 0x49) return 0x131; auto i = lower.find(c); return i == lower.end() ? c : i->second; }
static bool turkic(const U* lang)
{
    if (!lang) return false;
    string s = fromU<string>(untilNul(*lang));
    for (auto l : { "az", "aze", "azj", "azb", "kk", "kaz", "tt", "tat", "tr", "tur" }) if (s == l) return true;
    return false;
}

// ------------------------------------------------------------------ oracle: predicates
static EncodingCheckPredicate mkPred(const string& p)
{
    EncodingCheckPredicate r;
    bool first = true;
    for (size_t i = 1; i + 1 < p.size() + 0; i += 2) {
        EncodingType t = (EncodingType)(p[i + 1] - '0');
        if (first) r = p[i] == '+' ? validIf(t) : validIfNot(t);
        else if (p[i] == '+') r.andIf(t);
        else r.andIfNot(t);
        first = false;
    }
    return r;
}
static bool predHolds(const string& p, u32 c)
{
    for (size_t i = 1; i + 1 < p.size(); i += 2) {
        int t = p[i + 1] - '0';
        if (t < 1 || t > 4) continue;
        if (cls(c, t) != (p[i] == '+')) return false;
    }
    return true;
}
static const u32 LIM[] = { 0x7f, 0x7fffffff, 0xffff, 0x10ffff, 0xffffffff, 0x10ffff };
static bool isOracle(const string& fn, const U& s0, int64_t t, const string& pred)
{
    if (t < 0 || t > 5) return false;
    U s = untilNul(s0);
    Dec d;
    if (fn == "isUcs2") { d.end = FINE; for (auto c : s) { if (isHi(c) || isLo(c)) { d.end = BAD; break; } d.cps.push_back(c); } }
    else d = fn == "isUtf8" ? dec8(s, false) : fn == "isUtf16" ? dec16(s) : dec32(s);
    for (auto c : d.cps) if (c > LIM[t] || !predHolds(pred, c)) return false;
    if (d.end == BAD) return false;
    if (d.end == CUT) {
        if (fn == "isUtf16") return t != 0 && t != 2;
        if (t == 0) return false;
        if (t == 2) return d.first <= 0xef;
        if (t == 3 || t == 5) return d.first <= 0xf4;
    }
    return true;
}
static bool isLenOracle(const U& s, const string& pred) { Dec d = dec8(s, true); for (auto c : d.cps) if (!predHolds(pred, c)) return false; return d.end != BAD; }
static vector<string> lenOracle(const U& s0, int w, bool lenMode)
{
    U s = lenMode ? s0 : untilNul(s0);
    Dec d = w == 1 ? dec8(s, lenMode) : decW(s, w);
    if (w == 1) for (auto c : d.cps) if (c > 0x10ffff) return { "0" };
    if (d.end == BAD) return { "0" };
    u32 n = (u32)d.cps.size();
    if (d.end == CUT && !lenMode) return { RN(n), RN((u32)(n - 1)) };    // known finding C09
    return { RN(n) };
}

// ------------------------------------------------------------------ the entries
struct Entry { string sig; std::function<Out(Args&)> f; };
static std::map<string, Entry> E;
template <class C> struct Ptr8 {};
// pointer argument, checked for being left alone
template <class C> struct PA {
    const C* p; U keep; size_t n;
    PA(const Arg& a, bool nul = true) : p(nullptr), n(0) { if (a.k == '0') return; C* q = G1().put<C>(a.u, nul); p = q; n = a.u.size(); keep.assign(a.u.begin(), a.u.end()); }
    bool same() const { for (size_t i = 0; i < n; ++i) if (p[i] != (C)keep[i]) return false; return true; }
};
static const U& UA(const Arg& a) { return a.u; }
#define WROTE(x) do { if (!(x)) o.bad = "an input was written to"; } while (0)
template <class C, class F> void convP(const string& e, const string& sig, int w, To t, F f)
{
    E[e] = { sig, [=](Args& a) { Out o; PA<C> p(a[0]); o.got = R(f(p.p)); WROTE(p.same()); o.want = { RS(a[0].k == '0' ? U() : convW(a[0].u, w, t)) }; return o; } };
}
template <class S, class F> void convS(const string& e, const string& sig, int w, To t, F f)
{
    E[e] = { sig, [=](Args& a) { Out o; S s = fromU<S>(a[0].u), k = s; o.got = R(f(s)); WROTE(k == s); o.want = { RS(convW(a[0].u, w, t)) }; return o; } };
}
template <class C, class F> void isP(const string& e, const string& sig, const string& fn, int mode, int deft, F f)
{
    E[e] = { sig, [=](Args& a) { Out o; PA<C> p(a[0]);
        int64_t t = mode & 1 ? (int64_t)a[1].n : deft; string pr = mode & 2 ? a.back().p : "-";
        EncodingCheckPredicate q = mkPred(pr);
        o.got = RN(f(p.p, (RangeType)t, q)); WROTE(p.same());
        o.want = { RN(isOracle(fn, a[0].k == '0' ? U() : a[0].u, t, pr)) }; return o; } };
}
template <class S, class F> void isS(const string& e, const string& sig, const string& fn, int mode, int deft, F f)
{
    E[e] = { sig, [=](Args& a) { Out o; S s = fromU<S>(a[0].u), k = s;
        int64_t t = mode & 1 ? (int64_t)a[1].n : deft; string pr = mode & 2 ? a.back().p : "-";
        EncodingCheckPredicate q = mkPred(pr);
        o.got = RN(f(s, (RangeType)t, q)); WROTE(k == s);
        o.want = { RN(isOracle(fn, a[0].u, t, pr)) }; return o; } };
}
static U trimBy(U u, std::function<bool(u32)> in) { while (!u.empty() && in(u.back())) u.pop_back(); while (!u.empty() && in(u.front())) u.erase(u.begin()); return u; }
static bool tws(u32 c) { return c == 9 || c == 10 || c == 13 || c == 32 || c == 0xa0 || (c >= 0x2000 && c <= 0x200a) || c == 0x202f || c == 0x205f || c == 0x3000; }
template <class S> void trims(const string& x, char sg)
{
    E["e_trim_" + x] = { string(1, sg), [](Args& a) { Out o; S s = fromU<S>(a[0].u); trim(s); o.got = R(s); o.want = { RS(trimBy(a[0].u, [](u32 c) { return c == 32; })) }; return o; } };
    E["e_trimset_" + x] = { string(2, sg) + "", [](Args& a) { Out o; S s = fromU<S>(a[0].u), b = fromU<S>(a[1].u), k = b; trim(s, b); WROTE(k == b); o.got = R(s); U set = a[1].u; o.want = { RS(trimBy(a[0].u, [set](u32 c) { return std::find(set.begin(), set.end(), c) != set.end(); })) }; return o; } };
    E["e_split_" + x] = { string(1, sg) + "d", [](Args& a) { Out o; S s = fromU<S>(a[0].u), k = s; typedef typename S::value_type C; C d = (C)a[1].n;
        auto v = split(s, d); o.got = RV(v) + " joined " + R(join(v, d)); WROTE(k == s);
        vector<U> w; if (!a[0].u.empty()) { w.push_back(U()); for (auto c : a[0].u) if ((C)c == d) w.push_back(U()); else w.back().push_back(c); }
        o.want = { RV(w) + " joined " + RS(a[0].u) }; return o; } };
    E["e_join_" + x] = { string("v") + (char)(sg) + "d", [](Args& a) { Out o; typedef typename S::value_type C; C d = (C)a[1].n; vector<S> v; for (auto& e : a[0].vv) v.push_back(fromU<S>(e)); auto k = v;
        o.got = R(join(v, d)); WROTE(k == v); U w; bool f = true; for (auto& e : a[0].vv) { if (!f) w.push_back((u32)(typename std::make_unsigned<typename std::conditional<sizeof(C) == 1, char, typename std::conditional<sizeof(C) == 2, short, int>::type>::type>::type)d); f = false; w.insert(w.end(), e.begin(), e.end()); }
        o.want = { RS(w) }; return o; } };
}
static U lowAll(U u, bool tk) { for (auto& c : u) c = low(c, tk); return u; }
// known findings: a result that differs only where a listed character is left as it is tolerated
static vector<string> lowWants(const U& cps, bool tk, To t)
{
    U a = lowAll(cps, tk);
    vector<string> w = { RS(t == T4 ? a : encAll(a, t)) };
    bool any = false;
    U b = a;
    for (size_t i = 0; i < cps.size(); ++i) { auto k = lowerKnown.find(cps[i]); if (k != lowerKnown.end()) { b[i] = k->second[0]; any = true; } }
    if (any) w.push_back(RS(t == T4 ? b : encAll(b, t)));
    return w;
}
template <class F> void charE(const string& e, const string& sig, F f) { E[e] = { sig, f }; }

static void fill()
{
    convP<char>("e_toUcs4_p8", "1", 1, T4, [](const char* p) { return toUcs4(p); });
    convP<char>("e_toUtf16_p8", "1", 1, T16, [](const char* p) { return toUtf16(p); });
    convP<char>("e_toUcs2_p8", "1", 1, T2, [](const char* p) { return toUcs2(p); });
    convP<char16_t>("e_toUtf8_p16", "2", 2, T8, [](const char16_t* p) { return toUtf8(p); });
    convP<char16_t>("e_toUcs4_p16", "2", 2, T4, [](const char16_t* p) { return toUcs4(p); });
    convP<char32_t>("e_toUtf8_p32", "4", 4, T8, [](const char32_t* p) { return toUtf8(p); });
    convP<char32_t>("e_toUtf16_p32", "4", 4, T16, [](const char32_t* p) { return toUtf16(p); });
    convP<char32_t>("e_toUcs2_p32", "4", 4, T2, [](const char32_t* p) { return toUcs2(p); });
    convS<string>("e_toUcs4_s8", "a", 1, T4, [](const string& p) { return toUcs4(p); });
    convS<string>("e_toUtf16_s8", "a", 1, T16, [](const string& p) { return toUtf16(p); });
    convS<string>("e_toUcs2_s8", "a", 1, T2, [](const string& p) { return toUcs2(p); });
    convS<u16string>("e_toUtf8_s16", "b", 2, T8, [](const u16string& p) { return toUtf8(p); });
    convS<u16string>("e_toUcs4_s16", "b", 2, T4, [](const u16string& p) { return toUcs4(p); });
    convS<u32string>("e_toUtf8_s32", "c", 4, T8, [](const u32string& p) { return toUtf8(p); });
    convS<u32string>("e_toUtf16_s32", "c", 4, T16, [](const u32string& p) { return toUtf16(p); });
    convS<u32string>("e_toUcs2_s32", "c", 4, T2, [](const u32string& p) { return toUcs2(p); });
#define IS(fn, C, S, sp, ss, dt) \
    isP<C>("e_" #fn "_p", sp "tp", #fn, 3, dt, [](const C* p, RangeType t, const EncodingCheckPredicate& q) { return fn(p, t, q); }); \
    isP<C>("e_" #fn "_pt", sp "t", #fn, 1, dt, [](const C* p, RangeType t, const EncodingCheckPredicate&) { return fn(p, t); }); \
    isP<C>("e_" #fn "_d", sp, #fn, 0, dt, [](const C* p, RangeType, const EncodingCheckPredicate&) { return fn(p); }); \
    isP<C>("e_" #fn "_pp", sp "p", #fn, 2, dt, [](const C* p, RangeType, const EncodingCheckPredicate& q) { return fn(p, q); }); \
    isS<S>("e_" #fn "_s", ss "tp", #fn, 3, dt, [](const S& p, RangeType t, const EncodingCheckPredicate& q) { return fn(p, t, q); }); \
    isS<S>("e_" #fn "_st", ss "t", #fn, 1, dt, [](const S& p, RangeType t, const EncodingCheckPredicate&) { return fn(p, t); }); \
    isS<S>("e_" #fn "_sd", ss, #fn, 0, dt, [](const S& p, RangeType, const EncodingCheckPredicate&) { return fn(p); }); \
    isS<S>("e_" #fn "_sp", ss "p", #fn, 2, dt, [](const S& p, RangeType, const EncodingCheckPredicate& q) { return fn(p, q); });
    IS(isUtf8, char, string, "1", "a", 1)
    IS(isUtf16, char16_t, u16string, "2", "b", 3)
    IS(isUcs2, char16_t, u16string, "2", "b", 2)
    IS(isUcs4, char32_t, u32string, "4", "c", 4)
    // length-limited: NULs inside are for the safety runs only
    E["e_isUtf8_len"] = { "xp", [](Args& a) { Out o; PA<char> p(a[0], false); EncodingCheckPredicate q = mkPred(a[1].p); o.got = RN(isUtf8(p.p, (unsigned)a[0].u.size(), q)); WROTE(p.same()); o.want = { RN(isLenOracle(a[0].u, a[1].p)) }; return o; } };
    E["e_isUtf8_lend"] = { "x", [](Args& a) { Out o; PA<char> p(a[0], false); o.got = RN(isUtf8(p.p, (unsigned)a[0].u.size())); WROTE(p.same()); o.want = { RN(isLenOracle(a[0].u, "-")) }; return o; } };
    E["e_len_n8"] = { "x", [](Args& a) { Out o; PA<char> p(a[0], false); o.got = RN(unicodeLength(p.p, (unsigned)a[0].u.size())); WROTE(p.same()); o.want = lenOracle(a[0].u, 1, true); return o; } };
    E["e_len_n16"] = { "y", [](Args& a) { Out o; PA<char16_t> p(a[0], false); o.got = RN(unicodeLength(p.p, (unsigned)a[0].u.size())); WROTE(p.same()); o.want = lenOracle(a[0].u, 2, true); return o; } };
    E["e_len_n32"] = { "z", [](Args& a) { Out o; PA<char32_t> p(a[0], false); o.got = RN(unicodeLength(p.p, (unsigned)a[0].u.size())); WROTE(p.same()); o.want = lenOracle(a[0].u, 4, true); return o; } };
#define LEN(x, C, S, w, sp, ss) \
    E["e_len_p" x] = { sp, [](Args& a) { Out o; PA<C> p(a[0]); o.got = RN(unicodeLength(p.p)); WROTE(p.same()); o.want = lenOracle(a[0].k == '0' ? U() : a[0].u, w, false); return o; } }; \
    E["e_len_s" x] = { ss, [](Args& a) { Out o; S s = fromU<S>(a[0].u), k = s; o.got = RN(unicodeLength(s)); WROTE(k == s); o.want = lenOracle(a[0].u, w, false); return o; } };
    LEN("8", char, string, 1, "1", "a")
    LEN("16", char16_t, u16string, 2, "2", "b")
    LEN("32", char32_t, u32string, 4, "4", "c")
    E["e_toLower_8"] = { "al", [](Args& a) { Out o; string s = fromU<string>(a[0].u); PA<char> l(a[1]); o.got = R(toLower(s, l.p)); Dec d = dec8(untilNul(a[0].u), false); o.want = d.end == BAD ? vector<string>{ "[]" } : lowWants(d.cps, turkic(a[1].k == '0' ? nullptr : &a[1].u), T8); return o; } };
    E["e_toLower_16"] = { "bl", [](Args& a) { Out o; u16string s = fromU<u16string>(a[0].u); PA<char> l(a[1]); o.got = R(toLower(s, l.p)); Dec d = dec16(untilNul(a[0].u)); o.want = d.end == BAD ? vector<string>{ "[]" } : lowWants(d.cps, turkic(a[1].k == '0' ? nullptr : &a[1].u), T16); return o; } };
    E["e_toLower_32"] = { "cl", [](Args& a) { Out o; u32string s = fromU<u32string>(a[0].u); PA<char> l(a[1]); o.got = R(toLower(s, l.p)); o.want = lowWants(a[0].u, turkic(a[1].k == '0' ? nullptr : &a[1].u), T4); return o; } };
    E["e_codepage"] = { "1e", [](Args& a) { Out o; PA<char> p(a[0]); o.got = R(toUtf8(p.p, (SourceEncoding)(int)a[1].n)); WROTE(p.same()); U s = a[0].k == '0' ? U() : untilNul(a[0].u), w;
        if (a[1].n == 0) w = s;
        else if (a[1].n == 1 || a[1].n == 2) for (auto b : s) { u32 c = b < 0x80 ? b : (a[1].n == 1 ? CP1252 : CP1250)[b - 0x80]; if (!c) { w.clear(); break; } enc8(w, c); }
        o.want = { RS(w) }; return o; } };
#ifndef NO_INTERNALS
    E["e_decode"] = { "N", [](Args& a) { Out o; PA<char> p(a[0]); const char* q = p.p; char32_t c = internal::decodeUtf8(q); o.got = RN(c) + " at " + (q ? std::to_string(q - p.p) : string("null"));
        U s = untilNul(a[0].u); if (s.empty()) { o.want = { "0 at 0" }; return o; }
        // the first item decoded alone
        for (size_t n = 1; n <= s.size(); ++n) { U t(s.begin(), s.begin() + n); Dec d = dec8(t, false); if (d.end == CUT) { if (n == s.size()) o.want = { "0 at " + std::to_string(n) }; continue; } if (d.end == BAD) o.want = { "0 at null" }; else o.want = { RN(d.cps[0]) + " at " + std::to_string(n - 1) }; break; }
        return o; } };
#endif
    // wchar_t
    auto uni = [](const U& u0) { for (auto c : untilNul(u0)) if (c > 0x10ffff || isHi(c) || isLo(c)) return false; return true; };
    auto ucs2 = [uni](const U& u0) { if (!uni(u0)) return false; for (auto c : untilNul(u0)) if (c > 0xffff) return false; return true; };
#define WIS(fn, orc) \
    E["e_w_" #fn "_p"] = { "4", [=](Args& a) { Out o; PA<wchar_t> p(a[0]); o.got = RN(fn(p.p)); WROTE(p.same()); o.want = { RN(a[0].k == '0' || orc(a[0].u)) }; return o; } }; \
    E["e_w_" #fn "_s"] = { "c", [=](Args& a) { Out o; wstring s = fromU<wstring>(a[0].u); o.got = RN(fn(s)); o.want = { RN(orc(a[0].u)) }; return o; } };
    WIS(isUtf8, uni) WIS(isUtf16, uni) WIS(isUcs2, ucs2) WIS(isUcs4, uni)
    auto copyIf = [uni](const Arg& a) { return a.k == '0' || !uni(a.u) ? U() : untilNul(a.u); };
#define WTO(fn, t) \
    E["e_w_" #fn "_p"] = { "4", [=](Args& a) { Out o; PA<wchar_t> p(a[0]); o.got = R(fn(p.p)); WROTE(p.same()); o.want = { RS(a[0].k == '0' ? U() : t == T4 ? copyIf(a[0]) : convW(a[0].u, 4, t)) }; return o; } }; \
    E["e_w_" #fn "_s"] = { "c", [=](Args& a) { Out o; wstring s = fromU<wstring>(a[0].u); o.got = R(fn(s)); o.want = { RS(t == T4 ? copyIf(a[0]) : convW(a[0].u, 4, t)) }; return o; } };
    WTO(toUtf8, T8) WTO(toUtf16, T16) WTO(toUcs2, T2) WTO(toUcs4, T4)
#define ISW(x, C, S, fn, t, sp, ss) \
    E["e_isW_p" x] = { sp, [](Args& a) { Out o; PA<C> p(a[0]); o.got = RN(isWstring(p.p)); WROTE(p.same()); o.want = { RN(isOracle(fn, a[0].k == '0' ? U() : a[0].u, t, "-")) }; return o; } }; \
    E["e_isW_s" x] = { ss, [](Args& a) { Out o; S s = fromU<S>(a[0].u); o.got = RN(isWstring(s)); o.want = { RN(isOracle(fn, a[0].u, t, "-")) }; return o; } };
    ISW("8", char, string, "isUtf8", 3, "1", "a") ISW("16", char16_t, u16string, "isUtf16", 4, "2", "b") ISW("32", char32_t, u32string, "isUcs4", 3, "4", "c")
#define TOW(x, C, S, w, sp, ss) \
    E["e_toW_p" x] = { sp, [=](Args& a) { Out o; PA<C> p(a[0]); o.got = R(toWstring(p.p)); WROTE(p.same()); o.want = { RS(a[0].k == '0' ? U() : w == 4 ? copyIf(a[0]) : convW(a[0].u, w, T4)) }; return o; } }; \
    E["e_toW_s" x] = { ss, [=](Args& a) { Out o; S s = fromU<S>(a[0].u); o.got = R(toWstring(s)); o.want = { RS(w == 4 ? copyIf(a[0]) : convW(a[0].u, w, T4)) }; return o; } };
    TOW("8", char, string, 1, "1", "a") TOW("16", char16_t, u16string, 2, "2", "b") TOW("32", char32_t, u32string, 4, "4", "c")
    trims<string>("8", 'A'); trims<u16string>("16", 'B'); trims<u32string>("32", 'C'); trims<wstring>("w", 'C');
    E["e_trim7"] = { "A", [](Args& a) { Out o; string s = fromU<string>(a[0].u); trimAscii7WhiteSpace(s); o.got = R(s); o.want = { RS(trimBy(a[0].u, [](u32 c) { return c == 9 || c == 10 || c == 13 || c == 32; })) }; return o; } };
    E["e_trimws_16"] = { "B", [](Args& a) { Out o; u16string s = fromU<u16string>(a[0].u); trimWhiteSpace(s); o.got = R(s); o.want = { RS(trimBy(a[0].u, tws)) }; return o; } };
    E["e_trimws_32"] = { "C", [](Args& a) { Out o; u32string s = fromU<u32string>(a[0].u); trimWhiteSpace(s); o.got = R(s); o.want = { RS(trimBy(a[0].u, tws)) }; return o; } };
    E["e_trimws_8"] = { "A", [](Args& a) { Out o; string s = fromU<string>(a[0].u); trimWhiteSpace(s); o.got = R(s);
        bool ok = untilNul(a[0].u).size() == a[0].u.size(); Dec d = dec8(a[0].u, false); if (d.end != FINE) ok = false; for (auto c : d.cps) if (c > 0x10ffff) ok = false;
        if (ok) o.want = { RS(encAll(trimBy(d.cps, tws), T8)) }; else o.want = { o.got }; return o; } };
    // characters
#ifndef NO_INTERNALS
    charE("e_lower", "u", [](Args& a) { Out o; o.got = RN(internal::toLower((char32_t)a[0].n)); o.want = { RN(low((u32)a[0].n, false)) }; auto k = lowerKnown.find((u32)a[0].n); if (k != lowerKnown.end()) o.want.push_back(RN(k->second[0])); return o; });
    charE("e_turkic", "u", [](Args& a) { Out o; o.got = RN(internal::turkicToLower((char32_t)a[0].n)); o.want = { RN(low((u32)a[0].n, true)) }; auto k = lowerKnown.find((u32)a[0].n); if (k != lowerKnown.end()) o.want.push_back(RN(k->second[0])); return o; });
#define CLS(nm, fn, k) \
    charE("e_" nm "8", "s", [](Args& a) { Out o; o.got = RN(internal::fn((char)a[0].n)); o.want = { RN(cls((unsigned char)a[0].n, k)) }; return o; }); \
    charE("e_" nm "16", "r", [](Args& a) { Out o; o.got = RN(internal::fn((char16_t)a[0].n)); o.want = { RN(cls((char16_t)a[0].n, k)) }; return o; }); \
    charE("e_" nm "32", "u", [](Args& a) { Out o; o.got = RN(internal::fn((char32_t)a[0].n)); o.want = { RN(cls((u32)a[0].n, k)) }; return o; });
    CLS("assigned", isUnicodeAssigned, 1) CLS("private", isUnicodePrivate, 2) CLS("control", isControlChar, 3) CLS("white", isWhitespaceChar, 4)
#endif
    charE("e_pred_8", "ps", [](Args& a) { Out o; EncodingCheckPredicate q = mkPred(a[0].p); o.got = RN(q((char)a[1].n)); o.want = { RN(predHolds(a[0].p, (unsigned char)a[1].n)) }; return o; });
    charE("e_pred_16", "pr", [](Args& a) { Out o; EncodingCheckPredicate q = mkPred(a[0].p); o.got = RN(q((char16_t)a[1].n)); o.want = { RN(predHolds(a[0].p, (char16_t)a[1].n)) }; return o; });
    charE("e_pred_32", "pu", [](Args& a) { Out o; EncodingCheckPredicate q = mkPred(a[0].p); o.got = RN(q((char32_t)a[1].n)); o.want = { RN(predHolds(a[0].p, (u32)a[1].n)) }; return o; });
    // C06: the object andIf is called on and the one it returns mean the same
    charE("x_pred_chain", "pu", [](Args& a) { Out o; string p = a[0].p; u32 c = (u32)a[1].n; EncodingCheckPredicate r; bool ok = true, first = true;
        for (size_t i = 1; i + 1 < p.size(); i += 2) { EncodingType t = (EncodingType)(p[i + 1] - '0'); if (first) { r = p[i] == '+' ? validIf(t) : validIfNot(t); first = false; continue; }
            EncodingCheckPredicate s = p[i] == '+' ? r.andIf(t) : r.andIfNot(t); if (s((char32_t)c) != r((char32_t)c)) ok = false; }
        o.got = RN(r((char32_t)c)) + (ok ? " same" : " different"); o.want = { RN(predHolds(p, c)) + string(" same") }; return o; });
    // C06: with a predicate a check is the check without it and the predicate on every complete code point
#define REL(fn, C, w, sp) \
    E["x_rel_" #fn] = { sp "tp", [](Args& a) { Out o; PA<C> p(a[0]); EncodingCheckPredicate q = mkPred(a[2].p); RangeType t = (RangeType)(int64_t)a[1].n; \
        o.got = RN(fn(p.p, t, q)); bool ok = fn(p.p, t); WROTE(p.same()); if (ok && a[0].k != '0') for (auto c : decW(untilNul(a[0].u), w).cps) if (!predHolds(a[2].p, c)) ok = false; o.want = { RN(ok) }; return o; } };
    REL(isUtf8, char, 1, "1") REL(isUtf16, char16_t, 2, "2") REL(isUcs2, char16_t, 4, "2") REL(isUcs4, char32_t, 4, "4")
    // C07: a string that passes the check re-encodes
#define REENC(x, C, isf, w, sp, conv) \
    E["x_reenc_" x] = { sp "g", [](Args& a) { Out o; PA<C> p(a[0]); int t = (int)a[1].n; if (a[0].k == '0') { o.got = "-"; o.want = { "-" }; return o; } if (!isf(p.p, (RangeType)t)) { o.got = "not accepted"; o.want = { o.got }; return o; } \
        Dec d = decW(untilNul(a[0].u), w); To to = t == 1 ? T8 : t == 2 ? T2 : t == 3 ? T16 : T4; U e = encAll(d.cps, to); conv; o.want = { RS(e) }; if (e.empty() && !d.cps.empty()) o.bad = "accepted, and does not fit the target"; return o; } };
    REENC("8", char, isUtf8, 1, "1", o.got = t == 1 ? RS(encAll(d.cps, T8)) : t == 2 ? R(toUcs2(p.p)) : t == 3 ? R(toUtf16(p.p)) : R(toUcs4(p.p)))
    REENC("16", char16_t, isUtf16, 2, "2", o.got = t == 1 ? R(toUtf8(p.p)) : t == 2 || t == 3 ? RS(e) : R(toUcs4(p.p)))
    REENC("32", char32_t, isUcs4, 4, "4", o.got = t == 1 ? R(toUtf8(p.p)) : t == 2 ? R(toUcs2(p.p)) : t == 3 ? R(toUtf16(p.p)) : RS(e))
    // C08: round trips and ways round
    E["x_round"] = { "q", [](Args& a) { Out o; U cps; u32 most = 0; for (auto c : a[0].u) { if (!c || isHi(c) || isLo(c) || c > 0x7fffffff) continue; cps.push_back(c); most = std::max(most, c); }
        string s8 = fromU<string>(encAll(cps, T8)); u32string s4 = fromU<u32string>(cps); std::ostringstream g, w;
        g << R(toUtf8(toUcs4(s8))) << R(toUcs4(toUtf8(s4))); w << R(s8) << R(s4);
        if (most <= 0x10ffff) { u16string s16 = fromU<u16string>(encAll(cps, T16));
            g << R(toUtf8(toUtf16(s8))) << R(toUcs4(toUtf16(s4))) << R(toUtf16(toUtf8(s16))) << R(toUtf16(toUcs4(s16))) << R(toUtf16(toUcs4(s8))) << R(toUtf16(s8)) << R(toUcs4(toUtf16(s8))) << R(toUtf8(toUcs4(s16))) << R(toUtf8(toUtf16(s4)));
            w << R(s8) << R(s4) << R(s16) << R(s16) << R(s16) << R(s16) << R(s4) << R(s8) << R(s8); }
        if (most <= 0xffff) { u16string s2 = fromU<u16string>(cps); g << R(toUtf8(toUcs2(s8))) << R(toUcs4(toUcs2(s4))) << R(toUcs2(toUtf8(s2))) << R(toUcs2(toUcs4(s2))); w << R(s8) << R(s4) << R(s2) << R(s2); }
        o.got = g.str(); o.want = { w.str() }; return o; } };
}

// ------------------------------------------------------------------ running one case
static sigjmp_buf jb;
static volatile sig_atomic_t inCase;
static string* curLine;
static void onSig(int s) { if (inCase) siglongjmp(jb, s); _exit(9); }
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void onDeath() { if (curLine) { printf("FOUND %s | sanitizer report\n", curLine->c_str()); fflush(stdout); } }
// a limit on processor time, and a wide one on time
static void arm(long ms)
{
    if (__sanitizer_set_death_callback) ms *= 4;
    itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = ms / 1000; t.it_value.tv_usec = ms % 1000 * 1000; setitimer(ITIMER_PROF, &t, nullptr);
    t.it_value.tv_sec *= 8; setitimer(ITIMER_REAL, &t, nullptr);
}

// true if the case fails; mode: 'v' values too, 's' crashes, hangs and writes only
static bool runCase(const string& e, Args& a, char mode, string& why)
{
    auto it = E.find(e);
    if (it == E.end()) return false;
    Out o;
    int s = sigsetjmp(jb, 1);
    if (s) { inCase = 0; arm(0); why = s == SIGALRM || s == SIGPROF ? "does not end" : s == SIGABRT ? "aborts" : s == SIGILL ? "undefined behaviour" : "reads outside its input, or crashes"; return true; }
    string* keep = curLine;
    string line; if (__sanitizer_set_death_callback) { line = lineOf(e, a); curLine = &line; }
    inCase = 1;
    size_t all = 0; for (auto& x : a) { all += x.u.size(); for (auto& y : x.vv) all += y.size(); }
    arm(5000 + (long)all);      // quadratic is not endless
    o = it->second.f(a);
    arm(0);
    inCase = 0;
    curLine = keep;
    if (!o.bad.empty()) { why = o.bad; if (mode == 's' && o.bad != "an input was written to") return false; return true; }
    if (mode == 's') return false;
    if (std::find(o.want.begin(), o.want.end(), o.got) != o.want.end()) return false;
    auto cut = [](const string& x) { return x.size() > 400 ? x.substr(0, 400) + "..." : x; };
    why = "result " + cut(o.got) + " where it should be " + cut(o.want.empty() ? "?" : o.want[0]);
    return true;
}
static vector<string> allPreds()
{
    vector<string> r = { "-" };
    for (int m = 1; m < 81; ++m) { string p = "p"; int x = m; for (int t = 1; t <= 4; ++t, x /= 3) { if (x % 3 == 1) p += string("+") + char('0' + t); if (x % 3 == 2) p += string("-") + char('0' + t); } r.push_back(p); }
    for (auto s : { "p+1-1", "p-1+1", "p+2-2", "p-2+2", "p+3-3", "p-3+3", "p+4-4", "p-4+4", "p+0", "p-0", "p+5", "p-5+1", "p+1+1", "p-2-2", "p+3-1", "p-1-2-3-4", "p+4+3-1", "p-2+1-3", "p+0-1", "p-1+0", "p+5+1", "p-3-4", "p-4-3" }) r.push_back(s);
    return r;
}
static bool tryCase(const string& e, Args& a, char mode)
{
    string why;
    for (size_t i = 0; i < a.size(); ++i)
        if (a[i].k == 'p' && a[i].p == "?") { Args b = a; for (auto& p : allPreds()) { b[i].p = p; if (tryCase(e, b, mode)) return true; } return false; }
    if (runCase(e, a, mode, why)) { printf("FOUND %s | %s\n", lineOf(e, a).c_str(), why.c_str()); fflush(stdout); return true; }
    return false;
}

// ------------------------------------------------------------------ generation
static thread_local uint64_t rs;
static uint64_t rnd() { uint64_t z = (rs += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
static u32 below(u32 n) { return (u32)(rnd() % n); }
static vector<u32> points, spec;
static void fillPoints()
{
    points = { 1, 8, 9, 10, 11, 12, 13, 14, 0x1f, 0x20, 0x21, 0x41, 0x49, 0x5a, 0x61, 0x69, 0x7e, 0x7f, 0x80, 0x81, 0x85, 0x9f, 0xa0, 0xa1, 0xbf, 0xc0, 0xd7, 0xdf, 0xff, 0x100, 0x130, 0x131, 0x17f, 0x378, 0x7fe, 0x7ff, 0x800, 0x801,
        0xfff, 0x1000, 0x1680, 0x1fff, 0x2000, 0x2005, 0x200a, 0x200b, 0x2028, 0x2029, 0x202f, 0x205f, 0x2060, 0x3000, 0x3001, 0x30ff, 0xcfff, 0xd000, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xf8ff, 0xf900, 0xfdd0, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001,
        0x103ff, 0x10400, 0x1f600, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0x2fa1d, 0xe0001, 0xeffff, 0xf0000, 0xffffd, 0xfffff, 0x100000, 0x10fffd, 0x10fffe, 0x10ffff };
    spec = { 0x110000, 0x110001, 0x13ffff, 0x140000, 0x1fffff, 0x200000, 0x200001, 0xffffff, 0x1000000, 0x3ffffff, 0x4000000, 0x4000001, 0x3fffffff, 0x40000000, 0x7ffffffe, 0x7fffffff };
    for (auto& k : lower) if (rnd() % 8 == 0) { points.push_back(k.first); }
}
static u32 somePoint(bool wide)
{
    u32 k = below(16);
    if (k < 6) return points[below((u32)points.size())];
    if (k < 8 && wide) return spec[below((u32)spec.size())];
    if (k < 10) return 1 + below(0x7f);
    if (k < 13) { u32 c = 1 + below(0xffff); return isHi(c) || isLo(c) ? 0x61 : c; }
    if (k < 15 || !wide) return 0x10000 + below(0x100000);
    return below(0x80000000u - 1) + 1;
}
static void someSeq8(U& o)
{
    U t;
    u32 k = below(20), c;
    if (k < 4) { o.push_back(1 + below(0x7f)); return; }
    if (k < 12) { enc8(o, somePoint(true)); return; }
    if (k == 12) { u32 h = 0xd800 + below(0x800); enc8(t, h); }                       // any surrogate
    else if (k == 13) { c = 0x10000 + below(0x100000); if (below(3) == 0) c = below(2) ? 0x10000 : 0x10ffff; U p; enc16(p, c); enc8(t, p[0]); enc8(t, p[1]); }   // pair
    else if (k == 14) { c = somePoint(true); enc8(t, c); size_t n = t.size(); if (n < 6) { static const u32 lead[] = { 0, 0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc }; size_t m = n + 1 + below((u32)(6 - n)); t.clear(); t.push_back(lead[m] | (m < 6 || 1 ? (c >> 6 * (m - 1)) : 0)); for (int q = (int)m - 2; q >= 0; --q) t.push_back(0x80 | (c >> 6 * q & 63)); } }   // overlong
    else if (k == 15) { enc8(t, somePoint(true)); t[below((u32)t.size())] = 1 + below(0xff); }
    else if (k == 16) { enc8(t, somePoint(true)); if (t.size() > 1) t.resize(1 + below((u32)t.size() - 1)); }
    else if (k == 17) { U p; enc16(p, 0x10000 + below(0x100000)); enc8(t, p[0]); enc8(t, p[1]); t.resize(1 + below((u32)t.size())); }
    else if (k == 18) { enc8(t, 0xd800 + below(0x400)); enc8(t, below(2) ? somePoint(false) : 0xdc00 + below(0x400)); if (below(3) == 0) t[3 < t.size() ? 3 : 0] = 0x80 + below(0x80); }
    else t.push_back(1 + below(0xff));
    o.insert(o.end(), t.begin(), t.end());
}
static u32 some16() { u32 k = below(10); return k < 3 ? 0xd800 + below(0x800) : k < 4 ? (u32[]){ 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000 }[below(6)] : k < 7 ? (u32)std::min<u32>(somePoint(false), 0xffff) : 1 + below(0xffff); }
static u32 some32() { u32 k = below(12); return k < 1 ? 0xd800 + below(0x800) : k < 2 ? (u32[]){ 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffffffff, 0x80000000, 0x80000041, 0xfffffffe, 0x110000, 0x10ffff }[below(12)] : k < 10 ? somePoint(true) : k < 11 ? (u32)rnd() | 1 : somePoint(true) | 0x80000000; }
static size_t someCount() { u32 k = below(40); return k < 30 ? below(5) : k < 38 ? below(14) : k == 38 ? 14 + below(40) : below(4) ? 250 + below(20) : below(3) ? 1000 + below(4000) : 65530 + below(12); }
static U someU(int w)
{
    U o;
    auto piece = [&](bool odd) {
        if (w == 1) { if (odd) someSeq8(o); else enc8(o, below(4) ? 0x20 + below(0x5f) : somePoint(false)); }
        else if (w == 2) { if (odd) { if (below(3) == 0) enc16(o, 0x10000 + below(0x100000)); else o.push_back(some16()); } else enc16(o, somePoint(false)); }
        else o.push_back(odd ? some32() : somePoint(false));
    };
    if (below(25) == 0) {                      // long runs of one element, odd ends
        u32 m = below(6) ? 20 + below(600) : below(8) ? below(5000) : below(70000);
        u32 c = below(3) ? 0x61 : below(4) ? 0x20 + below(0x5f) : somePoint(false);
        if (below(2)) piece(below(3) != 0);
        for (u32 i = 0; i < m; ++i) if (w == 1) enc8(o, c); else if (w == 2) enc16(o, c); else o.push_back(c);
        for (u32 k = below(3); k; --k) piece(below(3) != 0);
        return o;
    }
    if (below(12) == 0) {                      // valid text of some length, everything mixed
        bool wide = below(2), big = below(2);
        for (u32 m = 8 + below(below(4) ? 40 : 300); m; --m) {
            u32 c = big && wide && below(3) ? 0x4000000 + below(0x7c000000 - 1) : big && below(3) ? 0x10000 + below(0x100000) : somePoint(wide);
            if (w == 1) enc8(o, c); else if (w == 2) enc16(o, c > 0x10ffff ? c & 0xffff | 0x10000 : c); else o.push_back(c);
        }
        return o;
    }
    size_t n = someCount();
    bool dull = n > 30 || below(4) == 0;      // mostly valid text, so that what is odd is reached
    for (size_t i = 0; i < n; ++i) {
        bool odd = !dull || below((u32)n + 2) == 0;
        piece(odd);
    }
    if (o.size() > 200000) o.resize(200000);
    return o;
}
static U blanky(int w)
{
    static const u32 bl[] = { 9, 10, 13, 32, 0xa0, 0x2000, 0x200a, 0x202f, 0x205f, 0x3000, 11, 12, 0x85, 0x1680, 0x200b, 0x2028, 0, 8, 0x1f, 0x21 };
    U o;
    auto some = [&]() { u32 n = below(5) ? below(4) : below(300); while (n--) { u32 c = below(3) ? bl[below(10)] : bl[below(20)]; if (below(4)) c = 32; if (w == 1 && c > 0x7f) enc8(o, c); else o.push_back(c); } };
    some();
    u32 m = below(4);
    while (m--) { U t = someU(w); if (t.size() > 200) t.resize(200); o.insert(o.end(), t.begin(), t.end()); if (below(2)) some(); }
    some();
    return o;
}
static Arg gen(const string& sig, size_t& k, char mode)
{
    Arg a; a.n = 0; a.k = 'b';
    char c = sig[k];
    auto withNul = [&](U u) { if (sig.size() == 2 && sig[1] == 'l' && below(2)) u.insert(u.begin() + (below(2) ? u.size() : 0), 0x49); if (below(6) == 0) u.insert(u.begin() + below((u32)u.size() + 1), 0); return u; };
    switch (c) {
    case 'N': a.u = someU(1); for (auto& x : a.u) if (!x) x = 1; return a;
    case '1': case '2': case '4': if (below(200) == 0) { a.k = '0'; return a; } a.u = someU(c - '0'); for (auto& x : a.u) if (!x) x = 1; return a;
    case 'a': a.u = withNul(someU(1)); return a;
    case 'b': a.u = withNul(someU(2)); return a;
    case 'c': a.u = withNul(someU(4)); return a;
    case 'q': a.u = someU(4); return a;
    case 'x': case 'y': case 'z': do { a.u = someU(c == 'x' ? 1 : c == 'y' ? 2 : 4); if (below(2) && a.u.size() > 1) a.u.resize(1 + below((u32)a.u.size())); } while (a.u.empty()); for (auto& x : a.u) if (!x) x = 1; if (mode == 's' && below(3) == 0) a.u[below((u32)a.u.size())] = 0; return a;
    case 'A': case 'B': case 'C': a.u = blanky(c == 'A' ? 1 : c == 'B' ? 2 : 4); if (sig == "Ad" || sig == "Bd" || sig == "Cd") { u32 d = below(3) ? 0x2c : 0; for (auto& x : a.u) if (below(4) == 0) x = d; }
        if (below(60) == 0) {                  // a long run of one element somewhere
            static const u32 ms[] = { 126, 254, 510, 1022, 4094, 32766, 65534, 131070 };
            u32 r = below(40), m = ms[r < 25 ? below(3) : r < 35 ? below(5) : below(8)] + below(5), d = below(3) == 0 ? 0x20 : below(3) == 0 ? 0x2c : 0x61;
            a.u.insert(a.u.begin() + below((u32)a.u.size() + 1), m, d);
        }
        return a;
    case 't': a.k = 'n'; a.n = below(9); if (a.n == 7) a.n = (uint64_t)-1 & 0xffffffff; if (a.n == 8) a.n = 0x7fffffff; if (a.n == 0xffffffff) a.n = 6; return a;
    case 'g': a.k = 'n'; a.n = 1 + below(4); return a;
    case 'e': a.k = 'n'; { u32 z = below(12); a.n = z < 9 ? z % 3 : z == 9 ? 3 : z == 10 ? 0x7fffffff : 0xffffffff; } return a;
    case 'p': { a.k = 'p'; static const vector<string> ps = allPreds(); a.p = ps[below((u32)ps.size())]; return a; }
    case 'd': a.k = 'n'; { u32 z = below(8); a.n = z < 4 ? 0x2c : z < 6 ? 0 : z == 6 ? 0x20 : (sig[0] == 'A' || sig[1] == 'A') ? below(256) : (sig[0] == 'B' || sig[1] == 'B') ? below(0x10000) : (u32)rnd(); } return a;
    case 'v': { a.k = 'v'; int w = sig[k + 1] == 'A' ? 1 : sig[k + 1] == 'B' ? 2 : 4; ++k; u32 n = below(8) ? below(5) : below(300); if (below(400) == 0) { n = below(4) ? 254 + below(6) : 65534 + below(5); a.vv.assign(n, U(1, 0x61)); n = below(3); } while (n--) { U u = blanky(w); if (below(3) == 0) u.clear(); if (u.size() > 100) u.resize(100); a.vv.push_back(u); } return a; }
    case 'l': { static const char* ls[] = { "az", "aze", "azj", "azb", "kk", "kaz", "tt", "tat", "tr", "tur", "", "t", "en", "de", "trk", "turk", "AZ", "TR", "tur ", "tr-TR", "tr_TR", "ta", "tu", "ka", "kz", "azz", "aza", "kkk", "ttt", "trr", "ku", "taz", "azee", "az\x80", "lt", "lit", "rt", "za" };
        u32 z = below(6); if (z == 0) { a.k = '0'; return a; } if (z < 5) { for (const char* q = ls[below(38)]; *q; ++q) a.u.push_back((unsigned char)*q); return a; }
        if (below(4)) { for (const char* q = ls[below(10)]; *q; ++q) a.u.push_back((unsigned char)*q); u32 w = below(4), at = below((u32)a.u.size()), ch = below(3) ? 'a' + below(26) : 1 + below(255); if (w < 2) a.u[at] = ch; else if (w == 2) a.u.insert(a.u.begin() + below((u32)a.u.size() + 1), ch); else a.u.erase(a.u.begin() + at); return a; }
        u32 n = below(5); while (n--) a.u.push_back(below(3) ? "abekjzturt"[below(10)] : 1 + below(255)); return a; }
    case 'u': a.k = 'n'; a.n = below(4) ? somePoint(true) : below(2) ? below(0x110000) : (u32)rnd(); return a;
    case 'r': a.k = 'n'; a.n = below(0x10000); return a;
    case 's': a.k = 'n'; a.n = below(256); return a;
    }
    return a;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
// systematic part: every single element, and the corners of the sequences
static void systematic(const string& sig, vector<U>& out)
{
    char c = sig[0];
    out.push_back(U());
    if (c == '1' || c == 'a' || c == 'x' || c == 'N') {
        static const u32 b2[] = { 0x01, 0x41, 0x7f, 0x80, 0x84, 0x87, 0x88, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xe0, 0xed, 0xef, 0xf0, 0xff };
        static const u32 b3[] = { 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xed };
        static const u32 ld[] = { 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xf9, 0xfb, 0xfc, 0xfd, 0xfe, 0xff };
        for (u32 x = 1; x < 256; ++x) { out.push_back({ x }); out.push_back({ x, 0x80 }); out.push_back({ x, 0x80, 0x80 }); out.push_back({ x, 0xbf, 0xbf, 0xbf }); out.push_back({ 0x41, x }); out.push_back({ 0xed, 0xa0, 0x80, x }); out.push_back({ 0xed, 0xa0, 0x80, 0xed, x }); out.push_back({ 0xed, 0xa0, 0x80, 0xed, x, 0x80 }); out.push_back({ 0xed, 0xaf, 0xbf, 0xed, 0xbf, x }); out.push_back({ 0xed, x, 0x80 }); out.push_back({ 0xf4, x, 0xbf, 0xbf }); out.push_back({ 0xf8, x, 0x80, 0x80, 0x80 }); out.push_back({ 0xfc, x, 0x80, 0x80, 0x80, 0x80 }); out.push_back({ 0xe0, x, 0x80 }); out.push_back({ 0xf0, x, 0x80, 0x80 }); }
        for (u32 l : ld) for (u32 x : b2) { out.push_back({ l, x }); for (u32 y : b3) { out.push_back({ l, x, y }); out.push_back({ 0x41, l, x, y, 0x42 }); for (u32 z : b3) { out.push_back({ l, x, y, z }); for (u32 v : b3) { out.push_back({ l, x, y, z, v }); out.push_back({ l, x, y, z, v, 0x80 }); } } } }
        for (u32 p : points) { U u; enc8(u, p); out.push_back(u); U v = u; enc8(v, 0x1f600); out.push_back(v); U t = u; t.push_back(0x41); out.push_back(t); for (u32 q : { 0x41u, 0x7ffu, 0xffffu, 0x10ffffu }) { U z = u; enc8(z, q); out.push_back(z); for (size_t n = 1; n < z.size(); ++n) { U y(z.begin(), z.begin() + n); out.push_back(y); } } }
        for (u32 p : spec) { U u; enc8(u, p); out.push_back(u); u.push_back(0x41); out.push_back(u); U v = { 0x41 }; enc8(v, p); out.push_back(v); }
        for (u32 p = 1; p < 0x110000; p += p < 0x900 ? 1 : 37) if (!isHi(p) && !isLo(p)) { U u; enc8(u, p); out.push_back(u); }
    } else if (c == '2' || c == 'b' || c == 'y') {
        for (u32 x = 1; x < 0x10000; ++x) out.push_back({ x });
        static const u32 v[] = { 0x41, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xffff };
        for (u32 x : v) for (u32 y : v) { out.push_back({ x, y }); for (u32 z : v) { out.push_back({ x, y, z }); for (u32 q : v) out.push_back({ x, y, z, q }); } }
        for (u32 x = 0xd700; x < 0xe100; ++x) { out.push_back({ x, 0xdc00 }); out.push_back({ 0xd800, x }); out.push_back({ 0x41, 0xdbff, x, 0x42 }); }
    } else if (c == '4' || c == 'c' || c == 'z' || c == 'q') {
        for (u32 x = 1; x < 0x112000; x += x < 0x12000 ? 1 : 5) out.push_back({ x });
        for (u32 x : spec) { out.push_back({ x }); out.push_back({ 0x41, x, 0x42 }); }
        for (u32 b = 0; b < 32; ++b) for (int d = -2; d <= 2; ++d) { u32 x = (1u << b) + d; if (x) { out.push_back({ x }); out.push_back({ 0x41, x }); out.push_back({ x, 0x41 }); } }
        for (u32 x : { 0xd7ffu, 0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0xe000u }) for (u32 y : { 0x41u, 0xd800u, 0xdc00u, 0x10ffffu, 0xffffffffu }) { out.push_back({ x, y }); out.push_back({ y, x }); }
        out.push_back({ 0xffffffff }); out.push_back({ 0xfffffffe });
    } else if (c == 'A' || c == 'B' || c == 'C') {
        u32 lim = c == 'A' ? 256 : 0x3100;
        for (u32 x = 0; x < lim; ++x) { out.push_back({ x }); out.push_back({ x, 0x41 }); out.push_back({ 0x41, x }); out.push_back({ x, 0x41, x }); out.push_back({ 0x20, x, 0x20 }); }
        for (u32 x = 0; x < 0x3100; ++x) if (c == 'A' && x > 0x7f) { U u; enc8(u, x); out.push_back(u); u.push_back(0x41); out.push_back(u); }
    }
}
static long ran;
static std::set<string> shapes;
static void note(const string& e, const Args& a) { ++ran; if (shapes.size() < 4000000) { string k = e; for (auto& x : a) k += '/' + std::to_string(std::min<size_t>(x.u.size(), 8)) + (x.u.empty() ? "" : ":" + std::to_string(x.u[0]) + "," + std::to_string(x.u.back())) + x.p + std::to_string(x.n & 0xff); shapes.insert(k); } }
static int search(char mode, double secs, uint64_t seed, vector<string> names)
{
    rs = seed * 7919 + 17;
    double t0 = now();
    names.erase(std::remove_if(names.begin(), names.end(), [](const string& s) { return !E.count(s); }), names.end());
    if (names.empty()) { printf("RAN 0 0\n"); return 0; }
    // systematic
    for (auto& e : names) {
        const string& sig = E[e].sig;
        double t1 = now();
        vector<U> us;
        systematic(sig, us);
        if (us.size() > 1 && sig.size() <= 3 && string("124abcxyzqABCN").find(sig[0]) != string::npos) {
            bool ok = true;
            for (size_t k = 1; k < sig.size(); ++k) if (string("tplegd").find(sig[k]) == string::npos) ok = false;
            if (!ok) continue;
            for (size_t i = 0; i < us.size(); ++i) {
                if (now() - t1 > secs * 0.6 / names.size() + 0.05) break;
                if ((sig[0] == 'x' || sig[0] == 'y' || sig[0] == 'z') && us[i].empty()) continue;
                Args a; Arg x; x.k = 'b'; x.n = 0; x.u = us[i]; a.push_back(x);
                for (size_t k = 1; k < sig.size(); ++k) a.push_back(gen(sig, k, mode));
                note(e, a);
                if (tryCase(e, a, mode)) return 1;
            }
        }
        if (sig == "u") for (u32 x = 0; x < 0x111000; ++x) { Args a(1); a[0].k = 'n'; a[0].n = x; ++ran; if (tryCase(e, a, mode)) return 1; }
        if (sig == "r") for (u32 x = 0; x < 0x10000; ++x) { Args a(1); a[0].k = 'n'; a[0].n = x; ++ran; if (tryCase(e, a, mode)) return 1; }
        if (sig == "s") for (u32 x = 0; x < 0x100; ++x) { Args a(1); a[0].k = 'n'; a[0].n = x; ++ran; if (tryCase(e, a, mode)) return 1; }
    }
    for (size_t i = 0; now() - t0 < secs; ++i) {
        const string& e = names[i % names.size()];
        const string& sig = E[e].sig;
        Args a;
        for (size_t k = 0; k < sig.size(); ++k) a.push_back(gen(sig, k, mode));
        note(e, a);
        if (tryCase(e, a, mode)) return 1;
    }
    printf("RAN %ld %zu\n", ran, shapes.size());
    return 0;
}
// given first arguments, for every entry that takes such
static int seeds(const char* file, char mode, vector<string> names)
{
    std::ifstream in(file);
    string l;
    auto width = [](char c) { return string("1axNA").find(c) != string::npos ? 1 : string("2byB").find(c) != string::npos ? 2 : string("4czqC").find(c) != string::npos ? 4 : 0; };
    while (std::getline(in, l)) {
        std::stringstream ss(l);
        int w; string t;
        ss >> w >> t;
        U u = t.size() > 1 ? parseU(t.substr(1)) : U();
        for (auto& e : names) {
            if (!E.count(e) || width(E[e].sig[0]) != w) continue;
            const string& sig = E[e].sig;
            for (int v = 0; v < 3; ++v) {
                Arg x; x.k = 'b'; x.n = 0; x.u = u;
                if (v == 1) x.u.push_back(0x41);
                if (v == 2) x.u.insert(x.u.begin(), 0x41);
                if (string("xyz").find(sig[0]) != string::npos && x.u.empty()) continue;
                for (int r = 0; r < (sig.size() > 1 ? 24 : 1); ++r) {
                    Args a; a.push_back(x);
                    for (size_t k = 1; k < sig.size(); ++k) a.push_back(gen(sig, k, mode));
                    if (tryCase(e, a, mode)) return 1;
                }
            }
        }
    }
    printf("HOLDS\n");
    return 0;
}
// the same calls in other orders, and at the same time in several threads
static int history(double secs, uint64_t seed)
{
    double t0 = now();
    long calls = 0, rounds = 0;
    vector<string> names;
    for (auto& e : E) names.push_back(e.first);
    while (now() - t0 < secs) {
        rs = seed * 104729 + rounds++;
        vector<std::pair<string, Args>> cs;
        for (int i = 0; i < 300; ++i) {
            string e = names[below((u32)names.size())];
            const string& sig = E[e].sig;
            Args a;
            for (size_t k = 0; k < sig.size(); ++k) { a.push_back(gen(sig, k, 'v')); if (a.back().u.size() > 40) a.back().u.resize(40); }
            int m = below(4) ? 1 : 3;
            cs.push_back({ e, a });
            // neighbours: same entry, nearly the same arguments
            while (--m) { Args b = a; for (auto& x : b) if (x.k == 'b' && !x.u.empty() && (sig[0] != '1' || 1)) { u32 q = below((u32)x.u.size()); u32 v = (x.u[q] ^ (1u << below(6))) & (string("1axA").find(sig[0]) != string::npos ? 0xff : string("2byB").find(sig[0]) != string::npos ? 0xffff : 0xffffffff); if (v) x.u[q] = v; } cs.push_back({ e, b }); }
        }
        vector<string> first(cs.size());
        vector<size_t> order(cs.size());
        for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        string prev = "(first call)";
        for (int round = 0; round < 3; ++round) {
            if (round) for (size_t i = order.size() - 1; i > 0; --i) std::swap(order[i], order[below((u32)i + 1)]);
            for (size_t i : order) {
                Out o = E[cs[i].first].f(cs[i].second);
                ++calls;
                if (!o.bad.empty() && o.bad == "an input was written to") { printf("FOUND %s | %s\n", lineOf(cs[i].first, cs[i].second).c_str(), o.bad.c_str()); return 1; }
                if (round == 0) first[i] = o.got;
                else if (first[i] != o.got) { printf("FOUND %s | result %.300s, and %.300s after other calls (the last one: %s)\n", lineOf(cs[i].first, cs[i].second).c_str(), first[i].c_str(), o.got.c_str(), prev.c_str()); return 1; }
                prev = lineOf(cs[i].first, cs[i].second);
            }
        }
        std::atomic<int> bad(-1);
        vector<std::thread> ts;
        for (int t = 0; t < 6; ++t) ts.emplace_back([&, t]() {
            rs = seed + 1000 * rounds + t;
            vector<size_t> ord = order;
            for (size_t i = ord.size() - 1; i > 0; --i) std::swap(ord[i], ord[below((u32)i + 1)]);
            for (size_t i : ord) { Args a = cs[i].second; if (E[cs[i].first].f(a).got != first[i]) { bad = (int)i; return; } }
        });
        for (auto& t : ts) t.join();
        calls += 6 * (long)cs.size();
        if (bad >= 0) { printf("FOUND %s | another result while other threads call the library\n", lineOf(cs[bad].first, cs[bad].second).c_str()); return 1; }
    }
    printf("RAN %ld %ld\n", calls, rounds);
    return 0;
}
int main(int c, char** v)
{
    if (c < 2) return 2;
    rs = 1;
    loadUcd();
    fill();
    fillPoints();
    struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler = onSig; s.sa_flags = SA_NODEFER;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
    else { sigaction(SIGSEGV, &s, nullptr); sigaction(SIGBUS, &s, nullptr); }
    sigaction(SIGABRT, &s, nullptr); sigaction(SIGILL, &s, nullptr); sigaction(SIGALRM, &s, nullptr); sigaction(SIGPROF, &s, nullptr);
    string m = v[1];
    char mode = getenv("HUNT_SAFETY") ? 's' : 'v';
    auto one = [&](const string& line) { std::stringstream ss(line); string e, t; ss >> e; Args a; while (ss >> t) a.push_back(parseArg(t)); return tryCase(e, a, mode); };
    if (m == "replay") { string l; for (int i = 2; i < c; ++i) l += string(v[i]) + " "; if (one(l)) return 1; printf("HOLDS\n"); return 0; }
    if (m == "cases") { std::ifstream in(v[2]); string l; while (std::getline(in, l)) if (!l.empty() && one(l)) return 1; printf("HOLDS\n"); return 0; }
    if (m == "search") { vector<string> n(v + 5, v + c); return search(v[2][0], atof(v[3]), strtoull(v[4], nullptr, 10), n); }
    if (m == "seeds") { vector<string> n(v + 3, v + c); return seeds(v[2], mode, n); }
    if (m == "history") return history(atof(v[2]), strtoull(v[3], nullptr, 10));
    if (m == "show") { Args a; for (int i = 3; i < c; ++i) a.push_back(parseArg(v[i])); if (!E.count(v[2])) return 2; Out o = E[v[2]].f(a); printf("%s\n%s\n", o.got.c_str(), o.want.empty() ? "?" : o.want[0].c_str()); return 0; }
    if (m == "list") { for (auto& e : E) printf("%s %s\n", e.first.c_str(), e.second.sig.c_str()); return 0; }
    return 2;
}
