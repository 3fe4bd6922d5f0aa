From bbe9759c5395c49e1b1da8e93fbe8333a136263d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 01/21] fix: stack buffer overflow when an encoding name is
 longer than any known name

---
 lib/iconv.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index d2cd52e..c093a0d 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -72,9 +72,29 @@ _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
     return bp - outbuf;
 }
 
+/**
+ * @brief Get the length that a name will have once canonicalized.
+ */
+static size_t canonicalized_length(const char *name)
+{
+    size_t length = 0;
+    for (; *name; name++)
+    {
+        if (*name != '-' && *name != '_')
+        {
+            length++;
+        }
+    }
+    return length;
+}
+
 _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 {
     char buf[MAX_WORD_LENGTH + 2];
+    if (canonicalized_length(encoding) > MAX_WORD_LENGTH)
+    {
+        return -1; // Longer than every known name.
+    }
     size_t buf_len = reiconv_name_canonicalize(encoding, buf);
 
     const struct alias *ap = aliases_lookup(buf, buf_len);
@@ -144,8 +164,15 @@ _CPPP_API reiconv_t reiconv_open_from_name(const char *fromcode, const char *toc
 
 _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 {
-    char fromcode_buf[MAX_WORD_LENGTH + 2];
-    char tocode_buf[MAX_WORD_LENGTH + 2];
+    // The longest known name, and the longest suffix that we know.
+    char fromcode_buf[MAX_WORD_LENGTH + sizeof("//IGNORE")];
+    char tocode_buf[MAX_WORD_LENGTH + sizeof("//IGNORE")];
+
+    if (canonicalized_length(fromcode) >= sizeof(fromcode_buf) || canonicalized_length(tocode) >= sizeof(tocode_buf))
+    {
+        errno = EINVAL;
+        return (reiconv_t)(-1);
+    }
 
     size_t fromcode_len = reiconv_name_canonicalize(fromcode, fromcode_buf);
     size_t tocode_len = reiconv_name_canonicalize(tocode, tocode_buf);
-- 
2.43.0


From f60eee35e493c5e72327b745d0dcfd591a25cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 02/21] fix: out-of-bounds read when looking up a negative or
 too large codepage

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index c093a0d..87ebb29 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -103,6 +103,10 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 
 _CPPP_API int reiconv_lookup_from_codepage(int codepage)
 {
+    if (codepage < 0 || (size_t)codepage >= sizeof(codepage_to_eindex) / sizeof(codepage_to_eindex[0]))
+    {
+        return -1;
+    }
     return codepage_to_eindex[codepage] - 1;
 }
 
-- 
2.43.0


From ddc469d349ec5c7221f348b1cab4fbb2549a1d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 03/21] fix: output buffer overflow when flushing a buffered
 character into a full buffer

---
 lib/loop_unicode.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 3753ec1..6fa411a 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -178,7 +178,14 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
             {
                 unsigned char *outptr = (unsigned char *)*outbuf;
                 size_t outleft = *outbytesleft;
-                int outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+                int outcount;
+                if (outleft == 0)
+                {
+                    cd->istate = last_istate;
+                    errno = E2BIG;
+                    return -1;
+                }
+                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 /* Handle Unicode tag characters (range U+E0000..U+E007F). */
-- 
2.43.0


From a103bea05471fadf0eb0c0fb715002955bea3d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 04/21] fix: HZ encoder did not escape the tilde, so its output
 decoded to different text

---
 lib/converters/hz.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 583fdf7..ec46370 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -135,6 +135,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
         if (buf[0] < 0x80)
         {
             int count = (state ? 3 : 1);
+            if (buf[0] == '~')
+                count++; /* Encoded as "~~". */
             if (n < count)
                 return RET_TOOSMALL;
             if (state)
@@ -144,6 +146,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
                 r += 2;
                 state = 0;
             }
+            if (buf[0] == '~')
+                *r++ = '~';
             r[0] = buf[0];
             conv->ostate = state;
             return count;
-- 
2.43.0


From d63c6dbb473491ca3a07611e9df2111dcca8b706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 05/21] fix: HZ decoder accepted bytes outside ASCII in ASCII
 mode

---
 lib/converters/hz.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index ec46370..d07ac78 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -93,6 +93,8 @@ static int hz_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n)
     }
     if (state == 0)
     {
+        if (c >= 0x80)
+            goto ilseq;
         *pwc = (ucs4_t)c;
         conv->istate = state;
         return count + 1;
-- 
2.43.0


From 4178bbd72810c40daec3294209c0e03cdeb961ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 06/21] fix: UTF-7 decoder and encoder let unpaired surrogates
 through

---
 lib/converters/utf7.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 3335a58..8d10ac9 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -178,6 +178,7 @@ active:
       if (!(wc2 >= 0xdc00 && wc2 < 0xe000)) goto ilseq;
       *pwc = 0x10000 + ((wc1 - 0xd800) << 10) + (wc2 - 0xdc00);
     } else {
+      if (wc >= 0xdc00 && wc < 0xe000) goto ilseq; /* lone Low Surrogate */
       *pwc = wc;
     }
     conv->istate = base64state;
@@ -219,6 +220,8 @@ utf7_wctomb (conv_t conv, unsigned char *r, ucs4_t iwc, size_t n)
   state_t state = conv->ostate;
   unsigned int wc = iwc;
   int count = 0;
+  if (wc >= 0xd800 && wc < 0xe000)
+    return RET_ILUNI;
   if (state & 3)
     goto active;
 
-- 
2.43.0


From 14892f12b5ccb9148650276b218edfc344bd8e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:29 +0000
Subject: [PATCH 07/21] fix: C99 and Java escapes accepted non-hexadecimal
 digits and emitted lone surrogates

---
 lib/converters/c99.h  | 12 ++++++++----
 lib/converters/java.h | 10 ++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 673d143..d1185ae 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -61,9 +61,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
@@ -85,9 +85,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
@@ -115,6 +115,10 @@ static int c99_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
         *r = wc;
         return 1;
     }
+    else if (wc >= 0xd800 && wc < 0xe000)
+    {
+        return RET_ILUNI;
+    }
     else
     {
         int result;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index b93172b..fa2292d 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -57,9 +57,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
@@ -88,9 +88,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
@@ -114,6 +114,8 @@ static int java_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
     }
     else if (wc < 0x10000)
     {
+        if (wc >= 0xd800 && wc < 0xe000)
+            return RET_ILUNI;
         if (n >= 6)
         {
             unsigned int i;
-- 
2.43.0


From b92f2e4ef7cc8a9b31f095912958c1f2faa6a722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:48 +0000
Subject: [PATCH 08/21] fix: reiconv_result_size left the descriptor in a
 modified state

---
 lib/iconv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index 87ebb29..81892f6 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -239,6 +239,8 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     char tmpbuf[TEMP_BUFFER_SIZE];
     char *inptr = (char *)start;
     size_t insize = inlength;
+    // Measuring must not change how the descriptor reads the real conversion.
+    const unsigned int ibyteorder = ((conv_t)cd)->ibyteorder;
     while (insize > 0)
     {
         char *outptr = tmpbuf;
@@ -250,6 +252,9 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
             {
                 errno = EILSEQ;
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            ((conv_t)cd)->ibyteorder = ibyteorder;
             return (size_t)(-1);
         }
         count += outptr - tmpbuf;
@@ -261,9 +266,11 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     {
         // Return to the initial state.
         reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+        ((conv_t)cd)->ibyteorder = ibyteorder;
         return (size_t)(-1);
     }
     reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+    ((conv_t)cd)->ibyteorder = ibyteorder;
     return count + outptr - tmpbuf;
 }
 
-- 
2.43.0


From 3cd8226fe9528a744a66ce0c31992d0e046668e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:48 +0000
Subject: [PATCH 09/21] fix: reiconv_convert_static_size left the descriptor in
 a modified state after an error

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index 81892f6..48661af 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -292,12 +292,16 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
             }
             else
             {
+                // Return to the initial state.
+                reiconv_iconv(cd, NULL, NULL, NULL, NULL);
                 return -1;
             }
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
+        // Return to the initial state.
+        reiconv_iconv(cd, NULL, NULL, NULL, NULL);
         return -1;
     }
     return 0;
-- 
2.43.0


From 647e97c5460e0eb2245e3c461bcd2435d76772a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:48 +0000
Subject: [PATCH 10/21] fix: reiconv_convert_static_size silently dropped a
 truncated character and reported success

---
 lib/iconv.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 48661af..df1e017 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -288,14 +288,11 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
         {
             if (errno == EINVAL)
             {
-                break;
-            }
-            else
-            {
-                // Return to the initial state.
-                reiconv_iconv(cd, NULL, NULL, NULL, NULL);
-                return -1;
+                errno = EILSEQ; // The input is truncated, as in reiconv_result_size().
             }
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            return -1;
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
-- 
2.43.0


From e74eab7e0a9a8cbf69df185af85ff5cda8eae16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:48 +0000
Subject: [PATCH 11/21] fix: reiconv_convert accepted a NULL output length
 pointer that is documented as an error

---
 lib/iconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index df1e017..b745895 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -318,7 +318,7 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         *output_length_ptr = output_length;
     }
 
-    if (output_data_ptr == NULL)
+    if (output_data_ptr == NULL || output_length_ptr == NULL)
     {
         errno = EINVAL;
         return -1;
-- 
2.43.0


From fbd094f7d9ce5c0abb0386bc815eaf979a0a6e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:48 +0000
Subject: [PATCH 12/21] fix: reiconv_convert did not check for allocation
 failure

---
 lib/iconv.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index b745895..17b2a21 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -324,8 +324,14 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         return -1;
     }
 
-    *output_data_ptr =
-        (*output_data_ptr == NULL ? (char *)malloc(output_length) : (char *)realloc(*output_data_ptr, output_length));
+    // Allocate at least one byte, realloc(ptr, 0) frees the buffer.
+    char *output_data = (char *)realloc(*output_data_ptr, output_length > 0 ? output_length : 1);
+    if (output_data == NULL)
+    {
+        errno = ENOMEM;
+        return -1;
+    }
+    *output_data_ptr = output_data;
 
     if (reiconv_convert_static_size(cd, input_data, input_length, *output_data_ptr, output_length) == -1)
     {
-- 
2.43.0


From d1d03ea0035c574b12a7549d2dad1564e3dd9f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:48 +0000
Subject: [PATCH 13/21] fix: reiconv::convert threw std::length_error and
 leaked for input that cannot be converted

---
 lib/reiconv.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index f1bc597..4ad9aee 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -60,13 +60,20 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
         throw std::system_error(errno, std::system_category(), "reiconv_open_from_index");
     }
     std::size_t outlen = ::reiconv_result_size(cd, input.data(), input.size());
+    if (outlen == static_cast<std::size_t>(-1))
+    {
+        const int error = errno;
+        ::reiconv_handle_close(cd);
+        throw std::system_error(error, std::system_category(), "reiconv_result_size");
+    }
 
     std::string res(outlen, '\0');
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
+        const int error = errno;
         ::reiconv_handle_close(cd);
-        throw std::system_error(errno, std::system_category(), "reiconv_convert");
+        throw std::system_error(error, std::system_category(), "reiconv_convert");
     }
 
     ::reiconv_handle_close(cd);
-- 
2.43.0


From a63c1dcf9cb04e1b009799dcd9a4c19db9e95a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:48 +0000
Subject: [PATCH 14/21] fix: reiconv::convert leaked the descriptor when
 allocating the result failed

---
 lib/reiconv.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index 4ad9aee..9b251ed 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -67,7 +67,16 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
         throw std::system_error(error, std::system_category(), "reiconv_result_size");
     }
 
-    std::string res(outlen, '\0');
+    std::string res;
+    try
+    {
+        res.resize(outlen);
+    }
+    catch (...)
+    {
+        ::reiconv_handle_close(cd);
+        throw;
+    }
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
-- 
2.43.0


From 9aa9e6f8e53ade3c3d678b117818ffb3d107d061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:14 +0000
Subject: [PATCH 15/21] fix: a dropped character needed room in the output, so
 whole-string conversion failed

A character that produces no output (a tag character, or one dropped with
REICONV_DISCARD_ILSEQ) at the end of the input was answered with E2BIG when
the output buffer was full. reiconv_convert and reiconv::convert, which
allocate exactly what reiconv_result_size reports, could never succeed then.
---
 lib/loop_unicode.h | 43 ++++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 6fa411a..0903cae 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -34,6 +34,28 @@
 #include <stdlib.h>
 #include <string.h>
 
+/**
+ * @brief Encode a character, where there may be no room left at all.
+ * @note The converters need room for one byte. Without it, find out whether the character needs any:
+ * it may be one that is dropped or buffered.
+ */
+static int unicode_loop_encode(conv_t cd, unsigned char *outptr, ucs4_t wc, size_t outleft)
+{
+    if (outleft > 0)
+    {
+        return cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+    }
+    unsigned char scratch[64];
+    state_t last_ostate = cd->ostate;
+    int outcount = cd->ofuncs.xxx_wctomb(cd, scratch, wc, sizeof(scratch));
+    if (outcount > 0)
+    {
+        cd->ostate = last_ostate;
+        return RET_TOOSMALL;
+    }
+    return outcount;
+}
+
 static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *inbytesleft, char **outbuf,
                                    size_t *outbytesleft)
 {
@@ -105,14 +127,7 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
         else
         {
             /* Case 4: k bytes read, making up a wide character */
-            if (outleft == 0)
-            {
-                cd->istate = last_istate;
-                errno = E2BIG;
-                result = -1;
-                break;
-            }
-            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+            outcount = unicode_loop_encode(cd, outptr, wc, outleft);
             if (outcount != RET_ILUNI)
                 goto outcount_ok;
             /* Handle Unicode tag characters (range U+E0000..U+E007F). */
@@ -124,7 +139,7 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
                 outcount = 0;
                 goto outcount_ok;
             }
-            outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);
+            outcount = unicode_loop_encode(cd, outptr, 0xFFFD, outleft);
             if (outcount != RET_ILUNI)
                 goto outcount_ok;
             cd->istate = last_istate;
@@ -179,13 +194,7 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
                 unsigned char *outptr = (unsigned char *)*outbuf;
                 size_t outleft = *outbytesleft;
                 int outcount;
-                if (outleft == 0)
-                {
-                    cd->istate = last_istate;
-                    errno = E2BIG;
-                    return -1;
-                }
-                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+                outcount = unicode_loop_encode(cd, outptr, wc, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 /* Handle Unicode tag characters (range U+E0000..U+E007F). */
@@ -197,7 +206,7 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
                     outcount = 0;
                     goto outcount_ok;
                 }
-                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, 0xFFFD, outleft);
+                outcount = unicode_loop_encode(cd, outptr, 0xFFFD, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 cd->istate = last_istate;
-- 
2.43.0


From 379c3ed9cfdd51e94137137e3abf495a71ae9fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:10 +0000
Subject: [PATCH 16/21] fix: a character that is dropped failed with E2BIG when
 less room was left than it would have needed

---
 lib/loop_unicode.h | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 0903cae..5d9f692 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -35,23 +35,27 @@
 #include <string.h>
 
 /**
- * @brief Encode a character, where there may be no room left at all.
- * @note The converters need room for one byte. Without it, find out whether the character needs any:
- * it may be one that is dropped or buffered.
+ * @brief Encode a character, where there may be little or no room left.
+ * @note The converters ask for room before they know whether the character needs it: it may be one that is
+ * dropped or buffered. So when there is too little, find out how much it really needs.
  */
 static int unicode_loop_encode(conv_t cd, unsigned char *outptr, ucs4_t wc, size_t outleft)
 {
-    if (outleft > 0)
+    int outcount = outleft > 0 ? cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft) : RET_TOOSMALL;
+    if (outcount == RET_TOOSMALL)
     {
-        return cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
-    }
-    unsigned char scratch[64];
-    state_t last_ostate = cd->ostate;
-    int outcount = cd->ofuncs.xxx_wctomb(cd, scratch, wc, sizeof(scratch));
-    if (outcount > 0)
-    {
-        cd->ostate = last_ostate;
-        return RET_TOOSMALL;
+        unsigned char scratch[64];
+        state_t last_ostate = cd->ostate;
+        outcount = cd->ofuncs.xxx_wctomb(cd, scratch, wc, sizeof(scratch));
+        if (outcount > 0 && (size_t)outcount > outleft)
+        {
+            cd->ostate = last_ostate;
+            return RET_TOOSMALL;
+        }
+        if (outcount > 0)
+        {
+            memcpy(outptr, scratch, outcount);
+        }
     }
     return outcount;
 }
-- 
2.43.0


From c39c8214e914d41564153b434e1bf421c5088016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:10 +0000
Subject: [PATCH 17/21] fix: GB18030:2005 wrote four bytes into a two-byte
 output buffer

---
 lib/converters/gb18030_2005.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/gb18030_2005.h b/lib/converters/gb18030_2005.h
index 649b3ea..803ec8b 100644
--- a/lib/converters/gb18030_2005.h
+++ b/lib/converters/gb18030_2005.h
@@ -399,6 +399,8 @@ static int gb18030_2005_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t
                         }
                         else
                         {
+                            if (n < 4)
+                                return RET_TOOSMALL;
                             r[0] = (c >> 24);
                             r[1] = (c >> 16) & 0xff;
                             r[2] = (c >> 8) & 0xff;
-- 
2.43.0


From 218937cc79f070061ed0bd8b0a350d00337da916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:05 +0000
Subject: [PATCH 18/21] fix: dropping a value above 10FFFF changed the output
 buffer behind the result

---
 lib/converters/utf16.h | 2 +-
 lib/converters/utf7.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/converters/utf16.h b/lib/converters/utf16.h
index 63fbb93..632de0a 100644
--- a/lib/converters/utf16.h
+++ b/lib/converters/utf16.h
@@ -95,7 +95,7 @@ ilseq:
 /* The state is 0 at the beginning, 1 after the BOM has been written. */
 static int utf16_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
 {
-    if (wc != 0xfffe && !(wc >= 0xd800 && wc < 0xe000))
+    if (wc < 0x110000 && wc != 0xfffe && !(wc >= 0xd800 && wc < 0xe000))
     {
         int count = 0;
         if (!conv->ostate)
diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 8d10ac9..2f4f456 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -220,7 +220,7 @@ utf7_wctomb (conv_t conv, unsigned char *r, ucs4_t iwc, size_t n)
   state_t state = conv->ostate;
   unsigned int wc = iwc;
   int count = 0;
-  if (wc >= 0xd800 && wc < 0xe000)
+  if ((wc >= 0xd800 && wc < 0xe000) || wc >= 0x110000)
     return RET_ILUNI;
   if (state & 3)
     goto active;
-- 
2.43.0


From 9e89313f60333db852dd2e084b2add07a55fcc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:03 +0000
Subject: [PATCH 19/21] fix: out-of-bounds read when looking up a name with a
 byte above 7F

The generated hash function has a table for ASCII only.
---
 lib/iconv.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index 17b2a21..65e4f96 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -96,6 +96,13 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
         return -1; // Longer than every known name.
     }
     size_t buf_len = reiconv_name_canonicalize(encoding, buf);
+    for (size_t i = 0; i < buf_len; i++)
+    {
+        if ((unsigned char)buf[i] >= 0x80)
+        {
+            return -1; // Known names are ASCII, and so is the table of the hash function.
+        }
+    }
 
     const struct alias *ap = aliases_lookup(buf, buf_len);
     return ap ? ap->encoding_index : -1;
-- 
2.43.0


From 5a41f55f6d692ae01aa93f716234697c34186fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:28 +0000
Subject: [PATCH 20/21] fix: on Windows the names reported for code pages 932,
 949, 950 and 1258 denoted other encodings

locale_charset() answered SHIFT_JIS, KS_C_5601-1987, BIG5 and VISCII, which
are different encodings in this library than the code pages CP932, CP949,
CP950 and CP1258.
---
 lib/localecharset/windows_getcp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/localecharset/windows_getcp.h b/lib/localecharset/windows_getcp.h
index 60c2768..dab63ce 100644
--- a/lib/localecharset/windows_getcp.h
+++ b/lib/localecharset/windows_getcp.h
@@ -61,7 +61,7 @@ static const char *windows_getcp()
         // cppp-reiconv's GB2312, GBK, CP936 is different.
         return "CP936";
     case 950:
-        return "BIG5";
+        return "CP950";
     case 10002: // We don't support it yet.
         return "X-MAC-CHINESETRAD";
     case 10008: // We don't support it yet.
@@ -86,7 +86,7 @@ static const char *windows_getcp()
     case 54936:
         return "GB18030";
     case 932:
-        return "SHIFT_JIS";
+        return "CP932";
     case 10001: // We don't support it yet.
         return "X-MAC-JAPANESE";
     case 20290: // We don't support it yet.
@@ -106,7 +106,7 @@ static const char *windows_getcp()
     case 51932:
         return "EUC-JP";
     case 949:
-        return "KS_C_5601-1987";
+        return "CP949";
     case 1361:
         return "JOHAB";
     case 10003: // We don't support it yet.
@@ -210,7 +210,7 @@ static const char *windows_getcp()
     case 1257:
         return "WINDOWS-1257";
     case 1258:
-        return "VISCII";
+        return "WINDOWS-1258";
     case 10000:
         return "MACINTOSH";
     case 10004:
-- 
2.43.0


From fbe394e3c4d460f162e6047206dbc187f33e7c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:40 +0000
Subject: [PATCH 21/21] fix: a run of more than 1 GiB of shift sequences or
 byte order marks was misread

---
 lib/loop_unicode.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 5d9f692..f6746ae 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -30,6 +30,7 @@
 #include <cppp/reiconv.h>
 
 #include <errno.h>
+#include <limits.h>
 #include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
@@ -75,7 +76,9 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
         ucs4_t wc;
         int incount;
         int outcount;
-        incount = cd->ifuncs.xxx_mbtowc(cd, &wc, inptr, inleft);
+        /* A run of shift sequences or byte order marks may be longer than the return value can express: take it in
+           parts. */
+        incount = cd->ifuncs.xxx_mbtowc(cd, &wc, inptr, inleft < RET_COUNT_MAX ? inleft : RET_COUNT_MAX);
         if (incount < 0)
         {
             if ((unsigned int)(-1 - incount) % 2 == (unsigned int)(-1 - RET_ILSEQ) % 2)
-- 
2.43.0

