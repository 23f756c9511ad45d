// Entry points for the verifier: each calls one function of the library as a user would, so that
// every overload, inline function and template instance is there to be verified.
#include "string.hxx"
#include "string_trim.hxx"
#include "string_splitjoin.hxx"
#include "internal/string_decode_utf8.hxx"
#include "string_internal.hxx"
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
using namespace ansak;
typedef EncodingCheckPredicate P;
extern "C" {
// pointer conversions
std::u32string e_toUcs4_p8(const char* p) { return toUcs4(p); }
std::u16string e_toUtf16_p8(const char* p) { return toUtf16(p); }
std::u16string e_toUcs2_p8(const char* p) { return toUcs2(p); }
std::string e_toUtf8_p16(const char16_t* p) { return toUtf8(p); }
std::u32string e_toUcs4_p16(const char16_t* p) { return toUcs4(p); }
std::string e_toUtf8_p32(const char32_t* p) { return toUtf8(p); }
std::u16string e_toUtf16_p32(const char32_t* p) { return toUtf16(p); }
std::u16string e_toUcs2_p32(const char32_t* p) { return toUcs2(p); }
// string conversions
std::u32string e_toUcs4_s8(const std::string& s) { return toUcs4(s); }
std::u16string e_toUtf16_s8(const std::string& s) { return toUtf16(s); }
std::u16string e_toUcs2_s8(const std::string& s) { return toUcs2(s); }
std::string e_toUtf8_s16(const std::u16string& s) { return toUtf8(s); }
std::u32string e_toUcs4_s16(const std::u16string& s) { return toUcs4(s); }
std::string e_toUtf8_s32(const std::u32string& s) { return toUtf8(s); }
std::u16string e_toUtf16_s32(const std::u32string& s) { return toUtf16(s); }
std::u16string e_toUcs2_s32(const std::u32string& s) { return toUcs2(s); }
// checks
bool e_isUtf8_p(const char* p, RangeType t, const P& pr) { return isUtf8(p, t, pr); }
bool e_isUtf16_p(const char16_t* p, RangeType t, const P& pr) { return isUtf16(p, t, pr); }
bool e_isUcs2_p(const char16_t* p, RangeType t, const P& pr) { return isUcs2(p, t, pr); }
bool e_isUcs4_p(const char32_t* p, RangeType t, const P& pr) { return isUcs4(p, t, pr); }
bool e_isUtf8_s(const std::string& p, RangeType t, const P& pr) { return isUtf8(p, t, pr); }
bool e_isUtf16_s(const std::u16string& p, RangeType t, const P& pr) { return isUtf16(p, t, pr); }
bool e_isUcs2_s(const std::u16string& p, RangeType t, const P& pr) { return isUcs2(p, t, pr); }
bool e_isUcs4_s(const std::u32string& p, RangeType t, const P& pr) { return isUcs4(p, t, pr); }
bool e_isUtf8_pt(const char* p, RangeType t) { return isUtf8(p, t); }
bool e_isUtf16_pt(const char16_t* p, RangeType t) { return isUtf16(p, t); }
bool e_isUcs2_pt(const char16_t* p, RangeType t) { return isUcs2(p, t); }
bool e_isUcs4_pt(const char32_t* p, RangeType t) { return isUcs4(p, t); }
bool e_isUtf8_st(const std::string& p, RangeType t) { return isUtf8(p, t); }
bool e_isUtf16_st(const std::u16string& p, RangeType t) { return isUtf16(p, t); }
bool e_isUcs2_st(const std::u16string& p, RangeType t) { return isUcs2(p, t); }
bool e_isUcs4_st(const std::u32string& p, RangeType t) { return isUcs4(p, t); }
bool e_isUtf8_d(const char* p) { return isUtf8(p); }
bool e_isUtf16_d(const char16_t* p) { return isUtf16(p); }
bool e_isUcs2_d(const char16_t* p) { return isUcs2(p); }
bool e_isUcs4_d(const char32_t* p) { return isUcs4(p); }
bool e_isUtf8_sd(const std::string& p) { return isUtf8(p); }
bool e_isUtf16_sd(const std::u16string& p) { return isUtf16(p); }
bool e_isUcs2_sd(const std::u16string& p) { return isUcs2(p); }
bool e_isUcs4_sd(const std::u32string& p) { return isUcs4(p); }
bool e_isUtf8_pp(const char* p, const P& pr) { return isUtf8(p, pr); }
bool e_isUtf16_pp(const char16_t* p, const P& pr) { return isUtf16(p, pr); }
bool e_isUcs2_pp(const char16_t* p, const P& pr) { return isUcs2(p, pr); }
bool e_isUcs4_pp(const char32_t* p, const P& pr) { return isUcs4(p, pr); }
bool e_isUtf8_sp(const std::string& p, const P& pr) { return isUtf8(p, pr); }
bool e_isUtf16_sp(const std::u16string& p, const P& pr) { return isUtf16(p, pr); }
bool e_isUcs2_sp(const std::u16string& p, const P& pr) { return isUcs2(p, pr); }
bool e_isUcs4_sp(const std::u32string& p, const P& pr) { return isUcs4(p, pr); }
bool e_isUtf8_len(const char* p, unsigned int n, const P& pr) { return isUtf8(p, n, pr); }
bool e_isUtf8_lend(const char* p, unsigned int n) { return isUtf8(p, n); }
// counts
unsigned int e_len_p8(const char* p) { return unicodeLength(p); }
unsigned int e_len_p16(const char16_t* p) { return unicodeLength(p); }
unsigned int e_len_p32(const char32_t* p) { return unicodeLength(p); }
unsigned int e_len_n8(const char* p, unsigned int n) { return unicodeLength(p, n); }
unsigned int e_len_n16(const char16_t* p, unsigned int n) { return unicodeLength(p, n); }
unsigned int e_len_n32(const char32_t* p, unsigned int n) { return unicodeLength(p, n); }
unsigned int e_len_s8(const std::string& p) { return unicodeLength(p); }
unsigned int e_len_s16(const std::u16string& p) { return unicodeLength(p); }
unsigned int e_len_s32(const std::u32string& p) { return unicodeLength(p); }
// lower case
std::string e_toLower_8(const std::string& s, const char* lang) { return toLower(s, lang); }
std::u16string e_toLower_16(const std::u16string& s, const char* lang) { return toLower(s, lang); }
std::u32string e_toLower_32(const std::u32string& s, const char* lang) { return toLower(s, lang); }
char32_t e_lower(char32_t c) { return internal::toLower(c); }
char32_t e_turkic(char32_t c) { return internal::turkicToLower(c); }
// classes
bool e_assigned16(char16_t c) { return internal::isUnicodeAssigned(c); }
bool e_assigned32(char32_t c) { return internal::isUnicodeAssigned(c); }
bool e_assigned8(char c) { return internal::isUnicodeAssigned(c); }
bool e_private8(char c) { return internal::isUnicodePrivate(c); }
bool e_private16(char16_t c) { return internal::isUnicodePrivate(c); }
bool e_private32(char32_t c) { return internal::isUnicodePrivate(c); }
bool e_control8(char c) { return internal::isControlChar(c); }
bool e_control16(char16_t c) { return internal::isControlChar(c); }
bool e_control32(char32_t c) { return internal::isControlChar(c); }
bool e_white8(char c) { return internal::isWhitespaceChar(c); }
bool e_white16(char16_t c) { return internal::isWhitespaceChar(c); }
bool e_white32(char32_t c) { return internal::isWhitespaceChar(c); }
// predicates
void e_pred_default(P* o) { *o = P(); }
void e_pred_if(P* o, EncodingType t) { *o = validIf(t); }
void e_pred_ifnot(P* o, EncodingType t) { *o = validIfNot(t); }
void e_pred_andif(P* o, P* p, EncodingType t) { *o = p->andIf(t); }
void e_pred_andifnot(P* o, P* p, EncodingType t) { *o = p->andIfNot(t); }
bool e_pred_8(const P* p, char c) { return (*p)(c); }
bool e_pred_16(const P* p, char16_t c) { return (*p)(c); }
bool e_pred_32(const P* p, char32_t c) { return (*p)(c); }
bool e_pred_eq(const P* p, const P* q) { return *p == *q; }
bool e_pred_ne(const P* p, const P* q) { return *p != *q; }
// code pages
std::string e_codepage(const char* p, SourceEncoding e) { return toUtf8(p, e); }
// decodeUtf8
char32_t e_decode(const char** p) { return internal::decodeUtf8(*p); }
// wchar_t
bool e_w_isUtf8_p(const wchar_t* p) { return isUtf8(p); }
bool e_w_isUtf16_p(const wchar_t* p) { return isUtf16(p); }
bool e_w_isUcs2_p(const wchar_t* p) { return isUcs2(p); }
bool e_w_isUcs4_p(const wchar_t* p) { return isUcs4(p); }
bool e_w_isUtf8_s(const std::wstring& p) { return isUtf8(p); }
bool e_w_isUtf16_s(const std::wstring& p) { return isUtf16(p); }
bool e_w_isUcs2_s(const std::wstring& p) { return isUcs2(p); }
bool e_w_isUcs4_s(const std::wstring& p) { return isUcs4(p); }
bool e_isW_p8(const char* p) { return isWstring(p); }
bool e_isW_p16(const char16_t* p) { return isWstring(p); }
bool e_isW_p32(const char32_t* p) { return isWstring(p); }
bool e_isW_s8(const std::string& p) { return isWstring(p); }
bool e_isW_s16(const std::u16string& p) { return isWstring(p); }
bool e_isW_s32(const std::u32string& p) { return isWstring(p); }
std::string e_w_toUtf8_p(const wchar_t* p) { return toUtf8(p); }
std::u16string e_w_toUtf16_p(const wchar_t* p) { return toUtf16(p); }
std::u16string e_w_toUcs2_p(const wchar_t* p) { return toUcs2(p); }
std::u32string e_w_toUcs4_p(const wchar_t* p) { return toUcs4(p); }
std::string e_w_toUtf8_s(const std::wstring& p) { return toUtf8(p); }
std::u16string e_w_toUtf16_s(const std::wstring& p) { return toUtf16(p); }
std::u16string e_w_toUcs2_s(const std::wstring& p) { return toUcs2(p); }
std::u32string e_w_toUcs4_s(const std::wstring& p) { return toUcs4(p); }
std::wstring e_toW_p8(const char* p) { return toWstring(p); }
std::wstring e_toW_p16(const char16_t* p) { return toWstring(p); }
std::wstring e_toW_p32(const char32_t* p) { return toWstring(p); }
std::wstring e_toW_s8(const std::string& p) { return toWstring(p); }
std::wstring e_toW_s16(const std::u16string& p) { return toWstring(p); }
std::wstring e_toW_s32(const std::u32string& p) { return toWstring(p); }
// trim
void e_trim_8(std::string& s) { trim(s); }
void e_trim_16(std::u16string& s) { trim(s); }
void e_trim_32(std::u32string& s) { trim(s); }
void e_trim_w(std::wstring& s) { trim(s); }
void e_trimset_8(std::string& s, const std::string& b) { trim(s, b); }
void e_trimset_16(std::u16string& s, const std::u16string& b) { trim(s, b); }
void e_trimset_32(std::u32string& s, const std::u32string& b) { trim(s, b); }
void e_trimset_w(std::wstring& s, const std::wstring& b) { trim(s, b); }
void e_trim7(std::string& s) { trimAscii7WhiteSpace(s); }
void e_trimws_8(std::string& s) { trimWhiteSpace(s); }
void e_trimws_16(std::u16string& s) { trimWhiteSpace(s); }
void e_trimws_32(std::u32string& s) { trimWhiteSpace(s); }
// split and join
std::vector<std::string> e_split_8(const std::string& s, char d) { return split(s, d); }
std::vector<std::u16string> e_split_16(const std::u16string& s, char16_t d) { return split(s, d); }
std::vector<std::u32string> e_split_32(const std::u32string& s, char32_t d) { return split(s, d); }
std::vector<std::wstring> e_split_w(const std::wstring& s, wchar_t d) { return split(s, d); }
std::string e_join_8(const std::vector<std::string>& v, char d) { return join(v, d); }
std::u16string e_join_16(const std::vector<std::u16string>& v, char16_t d) { return join(v, d); }
std::u32string e_join_32(const std::vector<std::u32string>& v, char32_t d) { return join(v, d); }
std::wstring e_join_w(const std::vector<std::wstring>& v, wchar_t d) { return join(v, d); }
}
