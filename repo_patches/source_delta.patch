From af07181b53e840c42d574a062394431ef033e402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 01/14] fix: join() with a NUL delimiter dropped the delimiters

The delimiter was appended as a C string, so join(v, '\0') concatenated
the elements without separating them.
---
 interface/string_splitjoin.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interface/string_splitjoin.hxx b/interface/string_splitjoin.hxx
index 6121fe5..b9cfbcb 100644
--- a/interface/string_splitjoin.hxx
+++ b/interface/string_splitjoin.hxx
@@ -126,15 +126,13 @@ std::basic_string<C> join(const std::vector< std::basic_string<C> >& src, C deli
     }
     else
     {
-        C delimStr[2] = {0};
-        delimStr[0] = delim;
         return_type r;
         bool first = true;
         for (auto s : src)
         {
             if (!first)
             {
-                r.append(delimStr);
+                r.push_back(delim);
             }
             first = false;
             r.append(s);
-- 
2.43.0


From 63b98d548ec48a118f9cd9464d658c3494c8742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 02/14] fix: toUtf8 from UTF-16 accepted an unpaired
 second-half surrogate

It encoded DC00..DFFF as a 3-byte sequence that the library itself rejects
as UTF-8; toUcs4 already returns an empty string for the same input.
---
 source/string.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 97a658f..e093c65 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -503,6 +503,10 @@ string toUtf8(const char16_t* src)
                 char32_t c32 = rawDecodeUtf16(c, c1);
                 encodeUtf8(c32, adder);
             }
+            else if (isSecondHalfUtf16(c))
+            {
+                return string();
+            }
             else
             {
                 encodeUtf8(c, adder);
-- 
2.43.0


From b222ce9fabf0aa62720ea378fe9d4ce0281b8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:09 +0000
Subject: [PATCH 03/14] fix: isUtf16 applied its predicate to the first half of
 a surrogate pair

The predicate is now asked about the decoded code point, as isUtf8 and
isUcs4 do.
---
 source/string.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index e093c65..7eb81ed 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -378,7 +378,7 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
         {
             return false;
         }
-        auto c = *p;
+        char32_t c = *p;
         RangeTypeFlags charFlag;
         /* Never hit, 2nd half UTF16 is invalid range
         if (isSecondHalfUtf16(c))
@@ -392,8 +392,10 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
             {
                 return false;
             }
+            // any predicate checks the code point, not its first half
+            c = rawDecodeUtf16(static_cast<char16_t>(c), c1);
             // Could make this function call but it is unnecessary
-            // charFlag = getCharEncodableRangeFlags(rawDecodeUtf16(c, c1));
+            // charFlag = getCharEncodableRangeFlags(c);
             charFlag = k21BitUnicodeFlags;
         }
         else
-- 
2.43.0


From 3ca639ed9bfff7fa01520b1b91b90c398331837a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:49 +0000
Subject: [PATCH 04/14] fix: is* functions accepted values above 10FFFF for a
 kUtf16 target

isUtf8(s, kUtf16) and isUcs4(s, kUtf16) were true for 110000..1FFFFF, which
UTF-16 cannot represent and which toUtf16 refuses, so a string could pass
the check and still fail to re-encode.
---
 source/string_internal.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 0409b51..ccae1e3 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -68,9 +68,10 @@ enum RangeTypeFlags : int {
 
     k7BitFlags  = kAsciiFlag | kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3f
     k16BitFlags =              kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3e
-    k21BitFlags =              kUtf8Flag |             kUtf16Flag | kUcs4Flag,                  // 0x1a
+    k21BitFlags =              kUtf8Flag |                          kUcs4Flag,                  // 0x12
 
-    k21BitUnicodeFlags = k21BitFlags | kUnicodeFlag,                             // 0x3a,
+    // UTF-16 can hold the Unicode (up to 10ffff) part of the 21-bit values, no others
+    k21BitUnicodeFlags = k21BitFlags | kUtf16Flag | kUnicodeFlag,                // 0x3a,
     k31BitFlags =              kUtf8Flag |                          kUcs4Flag,   // 0x12
     k32BitFlags =                                                   kUcs4Flag    // 0x10
 };
@@ -173,7 +174,7 @@ RangeTypeFlags getCharEncodableRangeFlags(C c)
     }
     else if (c < 0x200000)
     {
-        return static_cast<RangeTypeFlags>(k21BitFlags | getUnicodeEncodableRangeFlag(c));
+        return getUnicodeEncodableRangeFlag(c) == kUnicodeFlag ? k21BitUnicodeFlags : k21BitFlags;
     }
     else
     {
-- 
2.43.0


From 00e81e9c09bbd4c658a3ed0fb36fffaf8d5c2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:58 +0000
Subject: [PATCH 05/14] fix: length-terminated scans read past the given length

isUtf8 and unicodeLength looked at a third byte of a 3-byte sequence when
only two were left, and unicodeLength of UTF-16 always looked one element
ahead.
---
 source/string.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 7eb81ed..662d03c 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -181,8 +181,9 @@ inline bool isFirstHalfUtf16AsUtf8
 // Utility function to decide if a to-be-decoded character must be teh second
 // half of a UTF-16 character in two UTF-8 values.
 //
-// Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+// Note: Call only if p points to 3-character sequence start AND there is
+//       at least one more byte available in the character stream: the first
+//       two bytes decide, the third one may not be there to read
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isSecondHalfUtf16
 
@@ -194,7 +195,7 @@ inline bool isSecondHalfUtf16AsUtf8
     return isSecondHalfUtf16(rawDecodeUtf8(
                 static_cast<unsigned char>(p[0]),
                 static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+                static_cast<unsigned char>(0x80)));
 }
 
 //=========================================================================
@@ -880,7 +881,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         }
 
         // or if null terminated, is there another piece?
-        auto c1 = p[1];
+        char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
             return r - 1;
-- 
2.43.0


From 5e1163106751a149c65a0314144d0bb0d8f12422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:07 +0000
Subject: [PATCH 06/14] fix: length-terminated unicodeLength counted up to an
 invalid lead byte

A byte that cannot start a UTF-8 sequence was taken for a sequence cut off
by the length, so the count so far was returned in place of 0.
---
 source/string.cxx | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 662d03c..2c12510 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -775,8 +775,13 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         // sequence, quit, now
         if (lengthTerminated)
         {
-            // result will always be positive, p is never nullptr
-            unsigned int seqStarts = sequenceSizeCharStarts(p);
+            // p is never nullptr, but may point to a byte that starts nothing
+            int seqSize = sequenceSizeCharStarts(p);
+            if (seqSize < 0)
+            {
+                return 0;
+            }
+            unsigned int seqStarts = seqSize;
             // "3" long sequences might be UTF-16 parts
             if (seqStarts == 3)
             {
-- 
2.43.0


From e777bef7c05f1bc5ccfb0ab7f20aeb37d8fc5acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:15 +0000
Subject: [PATCH 07/14] fix: length-terminated scans ignored broken sequences
 near the end

A sequence that announces more bytes than are left was accepted whatever
those bytes were (isUtf8("\xF0\x41", 2) was true); only beginnings of
sequences are incomplete, as in null-terminated scans.
---
 source/string.cxx | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 2c12510..ea344cd 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -198,6 +198,36 @@ inline bool isSecondHalfUtf16AsUtf8
                 static_cast<unsigned char>(0x80)));
 }
 
+//=========================================================================
+// Utility function to decide if the bytes at the end of a length-terminated
+// buffer can be the beginning of a longer UTF-8 sequence.
+//
+// Note: Call only if p points to a valid first-character-in-UTF-8 sequence
+//       that needs more than the lengthLeft bytes available
+//
+// Returns true if all the bytes after the first can be where they are
+
+bool isPartialSequence
+(
+    const char*         p,          // I - points to the first byte of a sequence
+    unsigned int        lengthLeft  // I - how many bytes there are of it
+)
+{
+    bool isThree = sequenceSizeCharStarts(p) == 3;
+    for (unsigned int i = 1; i < lengthLeft; ++i)
+    {
+        auto uc = static_cast<unsigned char>(p[i]);
+        // where a 3-byte sequence is followed, it's by another 3-byte sequence
+        bool isFine = (isThree && i == 3) ? (uc >= 0xe0 && uc <= 0xef) :
+                                            (uc >= 0x80 && uc <= 0xbf);
+        if (!isFine)
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 //=========================================================================
 // Utility function to check the UTF-8 encoding of a length- or null-
 // terminated string of bytes.
@@ -266,7 +296,7 @@ bool isUtf8
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return true;
+                return isPartialSequence(p, lengthLeft);
             }
         }
 
@@ -799,7 +829,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return r;
+                return isPartialSequence(p, lengthLeft) ? r : 0;
             }
         }
         // GUARANTEE: if lengthTerminated, lengthLeft >= to-be-usedThisTime
-- 
2.43.0


From 2e637591026d4e393a142e8a5ec7357024486eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:23 +0000
Subject: [PATCH 08/14] fix: unicodeLength of a null UTF-16 or UCS-4 pointer
 crashed

It is 0, as for UTF-8.
---
 source/string.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index ea344cd..006dbb8 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -888,6 +888,11 @@ unsigned int unicodeLength(const utf16String& src)
 
 unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
 {
+    if (!src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
@@ -967,6 +972,11 @@ unsigned int unicodeLength(const ucs4String& src)
 
 unsigned int unicodeLength(const char32_t* src, unsigned int testLength)
 {
+    if (!src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
-- 
2.43.0


From 580531227df6202007c4dbb240ed5337bc5855e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:04 +0000
Subject: [PATCH 09/14] fix: copying conversions to and from wchar_t threw on a
 null pointer

A null pointer passes the is* check and was then given to a basic_string
constructor; every other conversion returns an empty string for it.
---
 interface/string.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b3dc096..ca6a304 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -665,7 +665,7 @@ inline utf8String toUtf8(const std::wstring& src)
 inline utf16String toUtf16(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUtf16(redirect))
+    if (redirect && isUtf16(redirect))
     {
         return utf16String(redirect);
     }
@@ -681,7 +681,7 @@ inline utf16String toUtf16(const std::wstring& src)
 inline ucs2String toUcs2(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUcs2(redirect))
+    if (redirect && isUcs2(redirect))
     {
         return ucs2String(redirect);
     }
@@ -711,7 +711,7 @@ inline std::wstring toWstring(const utf8String& src)
 
 inline std::wstring toWstring(const char16_t* src)
 {
-    if (isUtf16(src))
+    if (src && isUtf16(src))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
@@ -958,7 +958,7 @@ inline ucs2String toUcs2(const std::wstring& src)
 
 inline ucs4String toUcs4(const wchar_t* src)
 {
-    if (isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
+    if (src && isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
     {
         return ucs4String(reinterpret_cast<const char32_t*>(src));
     }
@@ -997,7 +997,7 @@ inline std::wstring toWstring(const ucs2String& src)
 
 inline std::wstring toWstring(const char32_t* src)
 {
-    if (isUcs4(src, kUtf16))
+    if (src && isUcs4(src, kUtf16))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
-- 
2.43.0


From db08e057fae1fefa2b3615ec4598950123e90406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:21 +0000
Subject: [PATCH 10/14] fix: contradictory predicates accepted characters

validIf(X).andIfNot(X) and validIfNot(X).andIf(X) both behaved as
validIf(X); no character meets both conditions.
---
 source/encoding_check_predicate.cxx | 8 ++++++++
 source/string_internal.hxx          | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/encoding_check_predicate.cxx b/source/encoding_check_predicate.cxx
index 1200c8b..e549629 100644
--- a/source/encoding_check_predicate.cxx
+++ b/source/encoding_check_predicate.cxx
@@ -89,6 +89,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIf
 )
 {
     EncodingCheckPredicate other(toCheckFor);
+    if (((m_value ^ other.m_value) & m_mask & other.m_mask) != 0)
+    {
+        m_value |= kNeverFlag;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
@@ -103,6 +107,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIfNot
 )
 {
     EncodingCheckPredicate other(toCheckFor, false);
+    if (((m_value ^ other.m_value) & m_mask & other.m_mask) != 0)
+    {
+        m_value |= kNeverFlag;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index ccae1e3..b3765a0 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -85,7 +85,8 @@ enum EncodingTypeFlags : int {
     kIsAssignedFlag =       0x0001,
     kIsPrivateFlag =        0x0002,
     kIsControlFlag =        0x0004,
-    kIsWhiteSpaceFlag =     0x0008
+    kIsWhiteSpaceFlag =     0x0008,
+    kNeverFlag =            0x8000      // no character has it, no mask selects it
 };
 
 //=========================================================================
-- 
2.43.0


From 4310cece1a8727012d372c5dbd201e56477aaa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:45 +0000
Subject: [PATCH 11/14] fix: toLower turned the multiplication sign into the
 division sign

U+00D7 is not a letter and has no lower case; it was mapped to U+00F7.
---
 source/bits10/char_to_lower.cxx | 6 +++---
 source/bits11/char_to_lower.cxx | 6 +++---
 source/bits12/char_to_lower.cxx | 6 +++---
 source/bits13/char_to_lower.cxx | 6 +++---
 source/bits14/char_to_lower.cxx | 6 +++---
 source/bits15/char_to_lower.cxx | 6 +++---
 source/bits16/char_to_lower.cxx | 6 +++---
 source/bits7/char_to_lower.cxx  | 6 +++---
 source/bits8/char_to_lower.cxx  | 6 +++---
 source/bits9/char_to_lower.cxx  | 6 +++---
 10 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 68a1ef1..b7ce5e8 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 9a582fa..00bdb73 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 7d6ad65..a2f8374 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index b1b6a32..32add43 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index d411f80..a24268d 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 5efc45b..67f3ba3 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
-- 
2.43.0


From 424fe905e41e9f2b568493ca4b948e381184c39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:51 +0000
Subject: [PATCH 12/14] fix: toLower changed the lower-case letters U+1E96,
 1E98, 1E9A and 1E9C

1E96..1E9D are lower case letters without upper case partners.
---
 source/bits10/char_to_lower.cxx | 2 +-
 source/bits11/char_to_lower.cxx | 2 +-
 source/bits12/char_to_lower.cxx | 2 +-
 source/bits13/char_to_lower.cxx | 2 +-
 source/bits14/char_to_lower.cxx | 2 +-
 source/bits15/char_to_lower.cxx | 2 +-
 source/bits16/char_to_lower.cxx | 2 +-
 source/bits7/char_to_lower.cxx  | 2 +-
 source/bits8/char_to_lower.cxx  | 2 +-
 source/bits9/char_to_lower.cxx  | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index 1719cd2..3c93cda 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 1719cd2..3c93cda 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index b7ce5e8..2c57133 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 00bdb73..ee0bb72 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 8c97017..dc673a6 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 8c97017..dc673a6 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index a2f8374..bfbe774 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -283,7 +283,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index 32add43..6edf8de 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -264,7 +264,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index a24268d..8d72bb0 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 67f3ba3..597e183 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
-- 
2.43.0


From 8169180c842945cdeb5077d7265f2f903afd3dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:12 +0000
Subject: [PATCH 13/14] fix: toLower missed capitals that came with Unicode 11

Georgian Mtavruli (1C90..1CBF) and Medefaidrin (16E40..16E5F) have been in
the standard since 11.0 and were left alone in 11 to 16.
---
 source/bits11/char_to_lower.cxx | 13 +++++++++++++
 source/bits12/char_to_lower.cxx | 13 +++++++++++++
 source/bits13/char_to_lower.cxx | 13 +++++++++++++
 source/bits14/char_to_lower.cxx | 13 +++++++++++++
 source/bits15/char_to_lower.cxx | 13 +++++++++++++
 source/bits16/char_to_lower.cxx | 10 ++++++++++
 6 files changed, 75 insertions(+)

diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 3c93cda..fe4271b 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        // Georgian Mtavruli
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -538,6 +546,11 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        // Medefaidrin
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 2c57133..37ee68c 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        // Georgian Mtavruli
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -543,6 +551,11 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        // Medefaidrin
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index ee0bb72..5b2e8f5 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        // Georgian Mtavruli
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -546,6 +554,11 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        // Medefaidrin
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index dc673a6..9d1f9b7 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        // Georgian Mtavruli
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +558,11 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        // Medefaidrin
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index dc673a6..9d1f9b7 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -271,6 +271,14 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        // Georgian Mtavruli
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +558,11 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        // Medefaidrin
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index bfbe774..d7ab21e 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -276,6 +276,11 @@ char16_t toLower1000(char16_t c)
         {
             return 0x1C8A;
         }
+        // Georgian Mtavruli
+        if ((c >= 0x1C90 && c <= 0x1CBA) || (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            return c - 0xBC0;
+        }
         break;
 
     case 0x1E:
@@ -569,6 +574,11 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        // Medefaidrin
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
-- 
2.43.0


From bbb442ac253a4c687fabbd210b125609f0f10c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:16 +0000
Subject: [PATCH 14/14] fix: toLower for Unicode 16 changed unassigned values
 among Vithkuqi

1057B, 1058B and 10593 are not assigned and have no lower case.
---
 source/bits16/char_to_lower.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index d7ab21e..f6af3da 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -557,7 +557,7 @@ char32_t toLower(char32_t c)
         {
             return c + 0x28;
         }
-        else if (c >= 0x10570 && c <= 0x10595)
+        else if (c >= 0x10570 && c <= 0x10595 && c != 0x1057B && c != 0x1058B && c != 0x10593)
         {
             return c + 0x27;
         }
-- 
2.43.0

