From 5c7a3a244b3e46c6c1cf813a05288cb0fdcda547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 01/67] fix: ToInt32/ToUint32 and the other modular conversions
 for numbers of 2^63 and above, and >>> operands

---
 include/ratjs/rjs_operation.h | 27 +++++++++++++++++++++------
 src/lib/rjs_number.c          | 11 ++++++++---
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index cd5419e..820bdcd 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -723,6 +723,21 @@ rjs_to_integer_or_infinity (RJS_Runtime *rt, RJS_Value *v, RJS_Number *pn)
     return RJS_OK;
 }
 
+/**
+ * Truncate the finite number to an integer which has the same low 32 bits.
+ * \param n The finite number.
+ * \return The integer number.
+ */
+static inline int64_t
+rjs_number_to_modulo_int (RJS_Number n)
+{
+    /*The number is out of the range of int64_t.*/
+    if (fabs(n) >= 9223372036854775808.0)
+        n = fmod(n, 4294967296.0);
+
+    return (int64_t)n;
+}
+
 /**
  * Convert the value to 8 bits signed integer.
  * \param rt The current runtime.
@@ -743,7 +758,7 @@ rjs_to_int8 (RJS_Runtime *rt, RJS_Value *v, int8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_modulo_int(n);
     }
 
     return RJS_OK;
@@ -769,7 +784,7 @@ rjs_to_uint8 (RJS_Runtime *rt, RJS_Value *v, uint8_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_modulo_int(n);
     }
 
     return RJS_OK;
@@ -834,7 +849,7 @@ rjs_to_int16 (RJS_Runtime *rt, RJS_Value *v, int16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_modulo_int(n);
     }
 
     return RJS_OK;
@@ -860,7 +875,7 @@ rjs_to_uint16 (RJS_Runtime *rt, RJS_Value *v, uint16_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_modulo_int(n);
     }
 
     return RJS_OK;
@@ -886,7 +901,7 @@ rjs_to_int32 (RJS_Runtime *rt, RJS_Value *v, int32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_modulo_int(n);
     }
 
     return RJS_OK;
@@ -912,7 +927,7 @@ rjs_to_uint32 (RJS_Runtime *rt, RJS_Value *v, uint32_t *pi)
     if (isnan(n) || isinf(n) || (n == 0)) {
         *pi = 0;
     } else {
-        *pi = (int64_t)n;
+        *pi = rjs_number_to_modulo_int(n);
     }
 
     return RJS_OK;
diff --git a/src/lib/rjs_number.c b/src/lib/rjs_number.c
index 2df6116..7a1606c 100644
--- a/src/lib/rjs_number.c
+++ b/src/lib/rjs_number.c
@@ -95,9 +95,14 @@ rjs_number_signed_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJ
 void
 rjs_number_unsigned_right_shift (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Value *rv)
 {
-    uint32_t n1 = rjs_value_get_number(rt, v1);
-    uint32_t n2 = rjs_value_get_number(rt, v2);
-    uint32_t rn = n1 >> n2;
+    uint32_t n1 = 0;
+    uint32_t n2 = 0;
+    uint32_t rn;
+
+    rjs_to_uint32(rt, v1, &n1);
+    rjs_to_uint32(rt, v2, &n2);
+
+    rn = n1 >> (n2 & 31);
 
     rjs_value_set_number(rt, rv, rn);
 }
-- 
2.43.0


From 6104114034b3edaec7143415c90c4c39f2b77093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:22 +0000
Subject: [PATCH 02/67] fix: a return statement without a value may be ended by
 the closing brace on its line

---
 src/lib/rjs_parser.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 53b76d5..f7ad69c 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7170,7 +7170,9 @@ parse_return_stmt (RJS_Runtime *rt, RJS_Value *vs)
     }
 
     tok = get_token(rt);
-    if ((tok->location.first_line == parser->last_line) && (tok->type != RJS_TOKEN_semicolon)) {
+    if ((tok->location.first_line == parser->last_line) && (tok->type != RJS_TOKEN_semicolon)
+            && (tok->type != RJS_TOKEN_rbrace)
+            && (tok->type != RJS_TOKEN_END)) {
         RJS_Ast *ast;
 
         unget_token(rt);
-- 
2.43.0


From aeaed91a9199eab967333b4be3b8798e2704ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 03/67] fix: Number.prototype.toFixed of negative zero has no
 minus sign

---
 src/lib/rjs_number_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 9f304f2..771f407 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -390,7 +390,7 @@ static RJS_NF(Number_prototype_toFixed)
     kv = se - sb;
     nv = decpt;
 
-    if (sign)
+    if (n < 0)
         *dc ++ = '-';
 
     if (kv <= nv) {
-- 
2.43.0


From 661bc93f0a69ae9b5b574d38cfdae090cb383c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 04/67] fix: parseInt, parseFloat and Number accept only the
 numeric string grammar

---
 src/lib/rjs_global_object.c | 20 +++++++++++++-------
 src/lib/rjs_string.c        | 34 ++++++++++++++++++++++++++++++++++
 src/lib/rjs_strtoi.c        | 23 +++++++++++++++++++++--
 3 files changed, 68 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_global_object.c b/src/lib/rjs_global_object.c
index f173525..7a1380e 100644
--- a/src/lib/rjs_global_object.c
+++ b/src/lib/rjs_global_object.c
@@ -156,11 +156,20 @@ static RJS_NF(global_parseFloat)
     if (len == 0) {
         d = NAN;
     } else {
-        d = rjs_strtod(cstr, &end);
-        if (end == cstr) {
-            d = NAN;
-        } else if ((errno == ERANGE) && ((d == HUGE_VAL) || (d == -HUGE_VAL))) {
+        const char *nstr = cstr;
+
+        if ((*nstr == '+') || (*nstr == '-'))
+            nstr ++;
+
+        if (!strncmp(nstr, "Infinity", 8)) {
+            d = (*cstr == '-') ? -INFINITY : INFINITY;
+        } else if (!isdigit(*nstr) && (*nstr != '.')) {
+            /*Do not accept the other words known by strtod.*/
             d = NAN;
+        } else {
+            d = rjs_strtod(cstr, &end);
+            if (end == cstr)
+                d = NAN;
         }
     }
 
@@ -228,9 +237,6 @@ static RJS_NF(global_parseInt)
         goto end;
     }
 
-    if ((d == INFINITY) || (d == -INFINITY))
-        d = NAN;
-
     rjs_value_set_number(rt, rv, d);
     r = RJS_OK;
 end:
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index d0e2059..ee27646 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -585,6 +585,29 @@ end:
     return r;
 }
 
+/*Check if the string has only the characters of a string numeric literal.
+ *The lexer also accepts comments, escape sequences and spaces after the sign.*/
+static RJS_Bool
+string_is_numeric_literal (RJS_Runtime *rt, RJS_Value *str)
+{
+    const RJS_UChar *c    = rjs_string_get_uchars(rt, str);
+    const RJS_UChar *last = c + rjs_string_get_length(rt, str);
+    RJS_Bool         sign = RJS_FALSE;
+
+    for (; c < last; c ++) {
+        if (rjs_uchar_is_white_space(*c) || rjs_uchar_is_line_terminator(*c)) {
+            if (sign)
+                return RJS_FALSE;
+        } else if (!rjs_uchar_is_alnum(*c) && (*c != '+') && (*c != '-') && (*c != '.')) {
+            return RJS_FALSE;
+        }
+
+        sign = (*c == '+') || (*c == '-');
+    }
+
+    return RJS_TRUE;
+}
+
 /*Parse the string to a value.*/
 static RJS_Result
 parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v)
@@ -595,6 +618,17 @@ parse_string (RJS_Runtime *rt, RJS_Value *str, RJS_Bool is_big_int, RJS_Value *v
     RJS_Result  r;
     int         sign = 0;
 
+    if (!string_is_numeric_literal(rt, str)) {
+#if ENABLE_BIG_INT
+        if (is_big_int)
+            rjs_value_set_undefined(rt, v);
+        else
+#endif /*ENABLE_BIG_INT*/
+            rjs_value_set_number(rt, v, NAN);
+
+        return RJS_OK;
+    }
+
     if ((r = rjs_string_input_init(rt, &si, str)) == RJS_ERR)
         return r;
 
diff --git a/src/lib/rjs_strtoi.c b/src/lib/rjs_strtoi.c
index e30d5e6..5b15503 100644
--- a/src/lib/rjs_strtoi.c
+++ b/src/lib/rjs_strtoi.c
@@ -38,6 +38,7 @@ rjs_strtoi (const char *str, char **end, int base)
     const char *p    = str;
     int         sign = 1;
     double      d    = 0;
+    const char *digits;
 
     assert((base == 0) || ((base >= 2) && (base <= 36)));
 
@@ -66,8 +67,7 @@ rjs_strtoi (const char *str, char **end, int base)
     if (base == 0)
         base = 10;
 
-    if (base == 10)
-        return rjs_strtod(str, end);
+    digits = p;
 
     while (*p) {
         int v;
@@ -98,6 +98,25 @@ rjs_strtoi (const char *str, char **end, int base)
         p ++;
     }
 
+    /*No digit, nothing can be converted.*/
+    if (p == digits)
+        p = str;
+
+    /*The decimal number must be rounded correctly.*/
+    if ((base == 10) && (d > 9007199254740991.)) {
+        size_t  len = p - digits;
+        char   *dup = malloc(len + 1);
+
+        if (dup) {
+            memcpy(dup, digits, len);
+            dup[len] = 0;
+
+            d = rjs_strtod(dup, NULL);
+
+            free(dup);
+        }
+    }
+
     if (end)
         *end = (char*)p;
 
-- 
2.43.0


From 0542b29f6e8f378f149f5cffa86a362fdb36db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 05/67] fix: toFixed, toExponential and toPrecision pick the
 larger value when two are equally close

---
 src/lib/rjs_dtoa.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_dtoa.c b/src/lib/rjs_dtoa.c
index f12c0e7..25578d2 100644
--- a/src/lib/rjs_dtoa.c
+++ b/src/lib/rjs_dtoa.c
@@ -5375,7 +5375,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		j += k;
 		if (ilim == 0) {
 			S = mhi = 0;
-			if (res > (5ull << j))
+			if (res >= (5ull << j))
 				goto one_digit;
 			goto no_digits;
 			}
@@ -5421,8 +5421,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 				  case 2: goto Roundup;
 				  }
 				ures = 2*res;
-				if (ures > den
-				|| (ures == den && dig & 1)
+				if (ures >= den
 				|| (spec_case && res <= ulp && 2*res >= ulp))
 					goto Roundup;
 				goto retc;
@@ -5470,7 +5469,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 				  }
 #endif
 				hb = 1ull << j;
-				if (res & hb && (dig & 1 || res & (hb-1)))
+				if (res & hb)
 					goto Roundup;
 				if (spec_case && res <= ulp && 2*res >= ulp) {
  Roundup:
@@ -5946,7 +5945,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 #ifdef ROUND_BIASED
 				if (dval(&u) >= ds)
 #else
-				if (dval(&u) > ds || (dval(&u) == ds && L & 1))
+				if (dval(&u) >= ds)
 #endif
 					{
  bump_up:
@@ -6038,7 +6037,7 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 		}
 #endif
 	if (ilim <= 0 && (mode == 3 || mode == 5)) {
-		if (ilim < 0 || cmp(b,S = multadd(S,5,0 MTb)) <= 0) {
+		if (ilim < 0 || cmp(b,S = multadd(S,5,0 MTb)) < 0) {
 			/* no digits, fcvt style */
  no_digits:
 			k = -1 - ndigits;
@@ -6181,7 +6180,8 @@ dtoa_r(double dd, int mode, int ndigits, int *decpt, int *sign, char **rve, char
 #ifdef ROUND_BIASED
 	if (j >= 0)
 #else
-	if (j > 0 || (j == 0 && dig & 1))
+	/* ECMAScript selects the larger value when the two are equally close. */
+	if (j >= 0)
 #endif
 		{
  roundoff:
-- 
2.43.0


From 1f5dac48b1695d39a0b451a8d0ed36824d895390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:28 +0000
Subject: [PATCH 06/67] fix: Number.prototype.toString with a radix converts
 fractions and large integers

---
 src/lib/rjs_number_object_inc.c | 149 ++++++++++++++++++++------------
 1 file changed, 96 insertions(+), 53 deletions(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 771f407..920ea3b 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -575,12 +575,105 @@ end:
     return r;
 }
 
+/*Convert the finite number to string with the specified radix.*/
+static RJS_Result
+number_to_radix_string (RJS_Runtime *rt, RJS_Number n, int radix, RJS_Value *rv)
+{
+    static const char digits[] = "0123456789abcdefghijklmnopqrstuvwxyz";
+
+    char     buf[2400];
+    char    *mid   = buf + RJS_N_ELEM(buf) / 2;
+    char    *start = mid;
+    char    *end   = mid;
+    char    *c;
+    int64_t  i;
+    int      exp;
+    double   v     = fabs(n);
+    double   ip    = floor(v);
+    double   fp    = v - ip;
+
+    /*Output the fraction until the number can be identified.*/
+    if (fp > 0) {
+        /*Half of the distance to the next number.*/
+        double delta = RJS_MAX(0.5 * (nextafter(v, INFINITY) - v), nextafter(0., 1.));
+
+        *end ++ = '.';
+
+        do {
+            int d;
+
+            fp    *= radix;
+            delta *= radix;
+
+            d   = fp;
+            fp -= d;
+
+            *end ++ = digits[d];
+
+            if (((fp > 0.5) || ((fp == 0.5) && (d & 1))) && (fp + delta > 1)) {
+                /*Round up and propagate the carry.*/
+                while (1) {
+                    end --;
+
+                    if (end == mid) {
+                        ip += 1;
+                        break;
+                    }
+
+                    d = strchr(digits, *end) - digits;
+                    if (d + 1 < radix) {
+                        *end ++ = digits[d + 1];
+                        break;
+                    }
+                }
+                break;
+            }
+        } while (fp >= delta);
+    }
+
+    *end = 0;
+
+    /*Output the integer part: mantissa * 2^exponent.*/
+    if (ip < 9007199254740992.) {
+        i   = ip;
+        exp = 0;
+    } else {
+        i    = ldexp(frexp(ip, &exp), 53);
+        exp -= 53;
+    }
+
+    do {
+        *-- start = i % radix;
+        i /= radix;
+    } while (i > 0);
+
+    for (; exp > 0; exp --) {
+        int carry = 0;
+
+        for (c = mid - 1; c >= start; c --) {
+            carry += *c * 2;
+            *c     = carry % radix;
+            carry /= radix;
+        }
+
+        if (carry)
+            *-- start = carry;
+    }
+
+    for (c = start; c < mid; c ++)
+        *c = digits[(int)*c];
+
+    if (n < 0)
+        *-- start = '-';
+
+    return rjs_string_from_chars(rt, rv, start, -1);
+}
+
 /*Number.prototype.toString*/
 static RJS_NF(Number_prototype_toString)
 {
     RJS_Value *radixv = rjs_argument_get(rt, args, argc, 0);
     RJS_Number n, rn;
-    int64_t    i;
     int        radix;
     RJS_Result r;
 
@@ -601,62 +694,12 @@ static RJS_NF(Number_prototype_toString)
         radix = rn;
     }
 
-    if (radix == 10) {
+    if ((radix == 10) || isnan(n) || isinf(n)) {
         r = rjs_number_to_string(rt, n, rv);
         goto end;
     }
 
-    i = n;
-    if (n == (RJS_Number)i) {
-        char    buf[256];
-        char   *c;
-        int     sign;
-        int64_t left;
-
-        if (i < 0) {
-            sign = 1;
-            i    = -i;
-        } else {
-            sign = 0;
-        }
-
-        c = buf + RJS_N_ELEM(buf) - 1;
-        *c -- = 0;
-
-        left = i;
-
-        while (1) {
-            int n;
-            int end;
-
-            if (left < radix) {
-                n   = left;
-                end = 1;
-            } else {
-                n     = left % radix;
-                left /= radix;
-                end   = 0;
-            }
-
-            if (n < 10)
-                *c = n + '0';
-            else
-                *c = n - 10 + 'a';
-
-            c --;
-
-            if (end)
-                break;
-        }
-
-        if (sign)
-            *c -- = '-';
-
-        r = rjs_string_from_chars(rt, rv, c + 1, -1);
-            goto end;
-    }
-
-    r = rjs_number_to_string(rt, n, rv);
+    r = number_to_radix_string(rt, n, radix, rv);
 end:
     return r;
 }
-- 
2.43.0


From 3c3b5357caf46eb0d70b7bc984fdc48285cab9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:31 +0000
Subject: [PATCH 07/67] fix: Number() of a BigInt beyond 64 bits

---
 src/lib/rjs_number_object_inc.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_number_object_inc.c b/src/lib/rjs_number_object_inc.c
index 920ea3b..0dc9c18 100644
--- a/src/lib/rjs_number_object_inc.c
+++ b/src/lib/rjs_number_object_inc.c
@@ -49,7 +49,18 @@ static RJS_NF(Number_constructor)
             if ((r = rjs_big_int_to_int64(rt, prim, &i)) == RJS_ERR)
                 goto end;
 
-            n = i;
+            if ((r = rjs_big_int_from_int64(rt, nv, i)) == RJS_ERR)
+                goto end;
+
+            if (rjs_big_int_same_value(rt, prim, nv)) {
+                n = i;
+            } else {
+                /*Beyond the 64 bits integer's range.*/
+                if ((r = rjs_to_string(rt, prim, nv)) == RJS_ERR)
+                    goto end;
+
+                n = rjs_string_to_number(rt, nv);
+            }
         } else
 #endif /*ENABLE_BIG_INT*/
         {
-- 
2.43.0


From a4787a18f2c5489e909b36dd7210df5c02acd42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 08/67] fix: BigInt subtraction and division clear the borrow

---
 src/lib/rjs_big_int_internal_opt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index d40a6fc..45ca8c6 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1168,7 +1168,8 @@ bi_self_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, src1, i, v)) == RJS_ERR)
@@ -1220,7 +1221,8 @@ bi_sub_greater (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst)
             v    = res + 0x100000000ull;
             left = 1;
         } else {
-            v = res;
+            v    = res;
+            left = 0;
         }
 
         if ((r = bi_set_item(rt, dst, i, v)) == RJS_ERR)
-- 
2.43.0


From baa1fa928b7c4b6bc7e21b7c515fa2e82193adeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 09/67] fix: the sign of a BigInt product when the low word of
 the second operand is 1

---
 src/lib/rjs_big_int_internal_opt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index 45ca8c6..ce51236 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -318,7 +318,12 @@ bi_mul_int (RJS_Runtime *rt, RJS_BI *src, uint32_t n, RJS_BI *dst, int shift)
         bi_set_0(dst);
         return RJS_OK;
     } else if ((n == 1) && (shift == 0)) {
-        return bi_dup(rt, dst, src);
+        if ((r = bi_dup(rt, dst, src)) == RJS_ERR)
+            return r;
+
+        /*The result has no sign.*/
+        dst->size = size;
+        return RJS_OK;
     }
 
     bi_set_0(dst);
-- 
2.43.0


From 0640851006e12d7a63174c0d62a94eb82f7ed255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 10/67] fix: a negative BigInt to the power of 1

---
 src/lib/rjs_big_int_internal_opt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index ce51236..b9f8e1c 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1781,6 +1781,8 @@ rjs_big_int_exponentiate (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2, RJS_Val
     } else if (e == 1) {
         if ((r = bi_dup(rt, dst, src1)) == RJS_ERR)
             goto end;
+
+        dst->size = RJS_ABS(dst->size);
     } else {
         bi_map_resize(rt, &emap, 1);
         pbi = emap.items;
-- 
2.43.0


From a9d290976909e3d12a3122889ddae6a433830599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:19 +0000
Subject: [PATCH 11/67] fix: shifts of negative BigInts

---
 src/lib/rjs_big_int_internal_opt.c | 69 +++++++++++++-----------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index b9f8e1c..d3d5eb1 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -1836,15 +1836,10 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
     int         pos1  = bi_positive(src1);
     int         pos2  = bi_positive(src2);
     int         size, i, j, off, bits;
-    RJS_BI      inp, res;
-    RJS_BI     *s, *d;
     uint32_t    y;
     RJS_Result  r;
 
-    bi_init(&inp);
-    bi_init(&res);
-
-    if (pos2 == 0) {
+    if ((pos1 == 0) || (pos2 == 0)) {
         r = bi_dup(rt, dst, src1);
         goto end;
     }
@@ -1868,84 +1863,78 @@ bi_shift (RJS_Runtime *rt, RJS_BI *src1, RJS_BI *src2, RJS_BI *dst, RJS_Bool rev
         }
     }
 
-    if (pos1 < 0) {
-        if ((r = bi_complement(rt, src1, &inp)) == RJS_ERR)
-            goto end;
-
-        s = &inp;
-        d = &res;
-    } else {
-        s = src1;
-        d = dst;
-    }
-
     y    = src2->n[0];
     off  = y / 32;
     bits = y % 32;
 
+    /*Shift the absolute value.*/
     if (pos2 < 0) {
+        uint32_t lost = 0;
+
         size = size1 - off;
 
         for (i = 0; i < size; i ++) {
             uint64_t v;
 
             j = i + off;
-            v = s->n[j];
+            v = src1->n[j];
 
-            if (j + 1 < size1) {
-                v |= ((uint64_t)s->n[j + 1]) << 32;
-            } else if (pos1 < 0) {
-                v |= 0xffffffff00000000ull;
-            }
+            if (j + 1 < size1)
+                v |= ((uint64_t)src1->n[j + 1]) << 32;
 
             v >>= bits;
 
-            if ((r = bi_set_item(rt, d, i, v & 0xffffffff)) == RJS_ERR)
+            if ((r = bi_set_item(rt, dst, i, v & 0xffffffff)) == RJS_ERR)
                 goto end;
         }
+
+        bi_end(dst);
+
+        /*Round the negative value to negative infinity.*/
+        if (pos1 < 0) {
+            for (i = 0; i < RJS_MIN(off, size1); i ++)
+                lost |= src1->n[i];
+
+            if (off < size1)
+                lost |= src1->n[off] & ~(0xffffffff << bits);
+
+            if (lost) {
+                if ((r = bi_self_add_int(rt, dst, 1)) == RJS_ERR)
+                    goto end;
+            }
+        }
     } else {
         uint32_t left = 0;
 
         for (i = 0; i < off; i ++) {
-            if ((r = bi_set_item(rt, d, i, 0)) == RJS_ERR)
+            if ((r = bi_set_item(rt, dst, i, 0)) == RJS_ERR)
                 goto end;
         }
 
         for (j = 0; j < size1; j ++, i ++) {
             uint64_t v;
 
-            v = s->n[j];
+            v = src1->n[j];
             v <<= bits;
             v |= left;
 
-            if ((r = bi_set_item(rt, d, i, v & 0xffffffff)) == RJS_ERR)
+            if ((r = bi_set_item(rt, dst, i, v & 0xffffffff)) == RJS_ERR)
                 goto end;
 
             left = v >> 32;
         }
 
         if (left) {
-            if (pos1 < 0)
-                left |= 0xffffffff << bits;
-
-            if ((r = bi_set_item(rt, d, i, left)) == RJS_ERR)
+            if ((r = bi_set_item(rt, dst, i, left)) == RJS_ERR)
                 goto end;
         }
     }
 
-    bi_end(d);
-
-    if (pos1 < 0) {
-        if ((r = bi_complement(rt, d, dst)) == RJS_ERR)
-            goto end;
-
+    if (pos1 < 0)
         dst->size = - dst->size;
-    }
 
     r = RJS_OK;
 end:
-    bi_deinit(rt, &inp);
-    bi_deinit(rt, &res);
     return r;
 }
 
-- 
2.43.0


From a211c6f1fd5dd5ad479cb9e1abf8951cbbee5f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 12/67] fix: BigInt.asIntN and asUintN of negative values, zero
 and huge bit counts

---
 src/lib/rjs_big_int_internal_opt.c | 46 +++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/lib/rjs_big_int_internal_opt.c b/src/lib/rjs_big_int_internal_opt.c
index d3d5eb1..c6426e2 100644
--- a/src/lib/rjs_big_int_internal_opt.c
+++ b/src/lib/rjs_big_int_internal_opt.c
@@ -2230,30 +2230,42 @@ bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
     RJS_BI    *inp;
     int        size;
     int64_t    off, b, i;
-    uint32_t   n;
+    uint32_t   n, fill;
     RJS_Result r;
 
     bi_init(&tmp);
 
+    size = bi_size(src);
+    off  = bits / 32;
+    b    = bits % 32;
+
     if (bi_positive(src) < 0) {
-        inp = &tmp;
+        if (off > INT_MAX - 1) {
+            r = rjs_throw_range_error(rt, _("bits number is too big"));
+            goto end;
+        }
+
+        inp  = &tmp;
+        fill = 0xffffffff;
 
         if ((r = bi_complement(rt, src, inp)) == RJS_ERR)
             goto end;
     } else {
-        inp = src;
-    }
-
-    size = bi_size(inp);
+        inp  = src;
+        fill = 0;
 
-    off = bits / 32;
-    b   = bits % 32;
+        /*All the words are kept.*/
+        if (off >= size) {
+            r = bi_dup(rt, dst, src);
+            goto end;
+        }
+    }
 
     for (i = 0; i < off; i ++) {
         if (i < size)
             n = inp->n[i];
         else
-            n = 0;
+            n = fill;
 
         if ((r = bi_set_item(rt, dst, i, n)) == RJS_ERR)
             goto end;
@@ -2263,7 +2275,7 @@ bi_bits (RJS_Runtime *rt, RJS_BI *src, RJS_BI *dst, int64_t bits)
         if (i < size)
             n = inp->n[i];
         else
-            n = 0;
+            n = fill;
 
         n &= ~(0xffffffff << b);
 
@@ -2302,6 +2314,18 @@ rjs_big_int_as_int_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv
 
     bi_init(&res);
 
+    if (bits == 0) {
+        bi_set_0(dst);
+        r = RJS_OK;
+        goto end;
+    }
+
+    /*The value can be represented in these bits.*/
+    if (bits / 32 > bi_size(src)) {
+        r = bi_dup(rt, dst, src);
+        goto end;
+    }
+
     if ((r = bi_bits(rt, src, &res, bits)) == RJS_ERR)
         goto end;
 
@@ -2311,7 +2335,7 @@ rjs_big_int_as_int_n (RJS_Runtime *rt, int64_t bits, RJS_Value *v, RJS_Value *rv
 
     if (size > off) {
         n = res.n[off];
-        if (n & (1 << b)) {
+        if (n & (1u << b)) {
             n |= (0xffffffff << b);
             bi_set_item(rt, &res, off, n);
             pos = -1;
-- 
2.43.0


From eb83671ef58cd4b9e8361e182403fcdbec0fe173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:45 +0000
Subject: [PATCH 13/67] fix: the source text of an arrow function with an
 expression body contains the whole expression

---
 src/lib/include/rjs_parser.h | 1 +
 src/lib/rjs_parser.c         | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/include/rjs_parser.h b/src/lib/include/rjs_parser.h
index d0b7241..101f408 100644
--- a/src/lib/include/rjs_parser.h
+++ b/src/lib/include/rjs_parser.h
@@ -199,6 +199,7 @@ struct RJS_Parser_s {
     RJS_Token     curr_token;  /**< Current token.*/
     RJS_Token     next_token;  /**< Next token.*/
     int           last_line;   /**< The last line number.*/
+    RJS_Location  last_loc;    /**< The location of the token before the current token.*/
     RJS_AstFunc  *func_stack;  /**< The function stack.*/
     RJS_AstClass *class_stack; /**< The class stack.*/
     RJS_AstNoStrictListStack *no_strict_list_stack; /**< No strict token list stack.*/
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index f7ad69c..901029a 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -1558,6 +1558,7 @@ get_token_flags (RJS_Runtime *rt, int flags)
     }
 
     parser->last_line = parser->curr_token.location.last_line;
+    parser->last_loc  = parser->curr_token.location;
 
     if (parser->status & RJS_PARSE_ST_NEXT_TOKEN) {
         parser->curr_token.type     = parser->next_token.type;
@@ -4562,7 +4563,11 @@ parse_arrow_function (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vl)
 
         rjs_list_append(&func->stmt_list, &ret_stmt->ast.ln);
 
-        loc_update_last(&func->ast.location, &ast_expr->location);
+        /*The function is ended by the last token of the expression.*/
+        if (parser->status & RJS_PARSE_ST_CURR_TOKEN)
+            loc_update_last(&func->ast.location, &parser->last_loc);
+        else
+            loc_update_last(&func->ast.location, &parser->curr_token.location);
     }
 
     loc_update_last(&fr->ast.location, &func->ast.location);
-- 
2.43.0


From e51290e38f1bd12b1c56c549d09b752a09b67875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:06 +0000
Subject: [PATCH 14/67] fix: the source of a regular expression does not escape
 escaped characters again

---
 src/lib/rjs_regexp.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index a3bdcc3..1de2e70 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1492,6 +1492,8 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     RJS_UCharBuffer  ucb;
     const RJS_UChar *c, *e;
     size_t           len;
+    RJS_Bool         escaped  = RJS_FALSE;
+    RJS_Bool         in_class = RJS_FALSE;
 
     len = rjs_string_get_length(rt, src);
     if (len == 0) {
@@ -1505,23 +1507,48 @@ gen_source (RJS_Runtime *rt, RJS_Value *src, RJS_Value *str)
     rjs_uchar_buffer_init(rt, &ucb);
 
     while (c < e) {
+        const char *esc = NULL;
+
         switch (*c) {
         case '\n':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, 'n');
+            esc = "n";
             break;
         case '\r':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, 'r');
+            esc = "r";
+            break;
+        case 0x2028:
+            esc = "u2028";
+            break;
+        case 0x2029:
+            esc = "u2029";
             break;
         case '/':
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
-            rjs_uchar_buffer_append_uchar(rt, &ucb, '/');
+            if (!in_class)
+                esc = "/";
+            break;
+        case '[':
+            if (!escaped)
+                in_class = RJS_TRUE;
+            break;
+        case ']':
+            if (!escaped)
+                in_class = RJS_FALSE;
             break;
         default:
-            rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             break;
         }
+
+        if (esc) {
+            /*The character may be escaped already.*/
+            if (!escaped)
+                rjs_uchar_buffer_append_uchar(rt, &ucb, '\\');
+
+            rjs_uchar_buffer_append_chars(rt, &ucb, esc, -1);
+        } else {
+            rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
+        }
+
+        escaped = !escaped && (*c == '\\');
         c ++;
     }
 
-- 
2.43.0


From 522e8ef6d95a0a27e8bbc4dfd0d815ddbea30f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:48 +0000
Subject: [PATCH 15/67] fix: the groups of a regular expression that do not
 participate are own properties of the result

---
 src/lib/rjs_regexp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 1de2e70..497a754 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -2970,6 +2970,7 @@ rjs_regexp_builtin_exec (RJS_Runtime *rt, RJS_Value *v, RJS_Value *str, RJS_Valu
 
         if ((start == -1) || (end == -1)) {
             rjs_value_set_undefined(rt, sub);
+            rjs_create_data_property_or_throw_index(rt, rv, i, sub);
 
             if (has_indices)
                 rjs_value_set_undefined(rt, indice);
-- 
2.43.0


From e2050893a038bb17ec5a247980e47495b4491ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:58 +0000
Subject: [PATCH 16/67] fix: decodeURI and decodeURIComponent reject invalid
 UTF-8 sequences and a truncated escape

---
 src/lib/rjs_uri_functions_inc.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_uri_functions_inc.c b/src/lib/rjs_uri_functions_inc.c
index 1d7c8fc..703d8c0 100644
--- a/src/lib/rjs_uri_functions_inc.c
+++ b/src/lib/rjs_uri_functions_inc.c
@@ -66,9 +66,9 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             rjs_uchar_buffer_append_uchar(rt, &ucb, *c);
             c ++;
         } else {
-            int uc, n;
+            int uc, n, min;
 
-            if (e - c < 2) {
+            if (e - c < 3) {
                 r = throw_uri_error(rt);
                 goto end;
             }
@@ -106,15 +106,19 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
             c += 3;
 
             if (!(uc & 0x80)) {
-                n = 0;
+                n   = 0;
+                min = 0;
             } else if ((uc & 0xe0) == 0xc0) {
                 n   = 1;
+                min = 0x80;
                 uc &= 0x1f;
             } else if ((uc & 0xf0) == 0xe0) {
                 n   = 2;
+                min = 0x800;
                 uc &= 0x0f;
             } else if ((uc & 0xf8) == 0xf0) {
                 n   = 3;
+                min = 0x10000;
                 uc &= 0x07;
             } else {
                 r = throw_uri_error(rt);
@@ -152,6 +156,12 @@ uri_decode (RJS_Runtime *rt, RJS_Value *str, RJS_Bool comp, RJS_Value *rv)
                 n --;
             }
 
+            /*Check if it is a valid UTF-8 encoding.*/
+            if ((uc < min) || (uc > 0x10ffff) || ((uc >= 0xd800) && (uc <= 0xdfff))) {
+                r = throw_uri_error(rt);
+                goto end;
+            }
+
             rjs_uchar_buffer_append_uc(rt, &ucb, uc);
         }
     }
-- 
2.43.0


From f5e817c2843eab0bc9962a93335f3595df37e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 17/67] fix: hours, minutes and seconds of dates before 1970
 and the expanded years of toISOString

---
 src/lib/rjs_date_object_inc.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 7c1fc18..f985f32 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -247,9 +247,7 @@ hour_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_HOUR) % RJS_HOURS_PER_DAY;
-    if (v < 0)
-        v += RJS_HOURS_PER_DAY;
+    v = (time_within_day(t) / RJS_MS_PER_HOUR) % RJS_HOURS_PER_DAY;
 
     return v;
 }
@@ -260,9 +258,7 @@ min_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
-    if (v < 0)
-        v += RJS_MINUTES_PER_HOUR;
+    v = (time_within_day(t) / RJS_MS_PER_MINUTE) % RJS_MINUTES_PER_HOUR;
 
     return v;
 }
@@ -273,9 +269,7 @@ sec_from_time (int64_t t)
 {
     int v;
 
-    v = (t / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
-    if (v < 0)
-        v += RJS_SECONDS_PER_MINUTE;
+    v = (time_within_day(t) / RJS_MS_PER_SECOND) % RJS_SECONDS_PER_MINUTE;
 
     return v;
 }
@@ -2170,7 +2164,7 @@ static RJS_NF(Date_prototype_toISOString)
         r = rjs_throw_range_error(rt, _("date value overflow"));
     } else {
         int  y, m, d, h, min, sec, ms;
-        char buf[256];
+        char buf[256], ybuf[32];
 
         y   = year_from_time(t);
         m   = month_from_time(t);
@@ -2180,8 +2174,13 @@ static RJS_NF(Date_prototype_toISOString)
         sec = sec_from_time(t);
         ms  = ms_from_time(t);
 
-        snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
-                y, m + 1, d, h, min, sec, ms);
+        if ((y >= 0) && (y <= 9999))
+            snprintf(ybuf, sizeof(ybuf), "%04d", y);
+        else
+            snprintf(ybuf, sizeof(ybuf), "%c%06d", (y < 0) ? '-' : '+', RJS_ABS(y));
+
+        snprintf(buf, sizeof(buf), "%s-%02d-%02dT%02d:%02d:%02d.%03dZ",
+                ybuf, m + 1, d, h, min, sec, ms);
 
         r = rjs_string_from_chars(rt, rv, buf, -1);
     }
-- 
2.43.0


From 80ec578054d6cad5463b0ba50ef667e8e497875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:02 +0000
Subject: [PATCH 18/67] fix: date components whose year is too large give NaN

---
 src/lib/rjs_date_object_inc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index f985f32..873f6d6 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -37,6 +37,7 @@ typedef struct {
 #define RJS_SECONDS_PER_MINUTE  60
 #define RJS_MS_PER_SECOND       1000
 #define RJS_MS_PER_MINUTE       (RJS_MS_PER_SECOND * RJS_SECONDS_PER_MINUTE)
+#define RJS_MAX_YEAR            1000000
 #define RJS_MS_PER_HOUR         (RJS_MS_PER_MINUTE * RJS_MINUTES_PER_HOUR)
 
 /*Week day strings.*/
@@ -463,12 +464,12 @@ make_day (RJS_Runtime *rt, RJS_Number y, RJS_Number m, RJS_Number d)
         rjs_to_integer_or_infinity(rt, v, &d);
 
         y += floor(m / 12);
-        if (isinf(y)) {
+        if (RJS_ABS(y) > RJS_MAX_YEAR) {
             dv = NAN;
             goto end;
         }
 
-        mon = ((int64_t)m) % 12;
+        mon = fmod(m, 12);
         if (mon < 0)
             mon += 12;
 
-- 
2.43.0


From bd4d42118f5d4ac7d3fdf02447ec3aff2c9a9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 19/67] fix: Date.parse accepts 24:00:00 and rejects the day 00

---
 src/lib/rjs_date_object_inc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 873f6d6..4da76d4 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -937,7 +937,16 @@ date_parse (RJS_Runtime *rt, RJS_Value *v, RJS_Number *t)
         if (day > month_days[mon - 1])
             goto end;
     }
-    if ((hour > 23) || (min > 59) || (sec > 59))
+    if (day < 1)
+        goto end;
+    if (hour == 24) {
+        /*The end of the day.*/
+        if (min || sec || ms)
+            goto end;
+    } else if (hour > 23) {
+        goto end;
+    }
+    if ((min > 59) || (sec > 59))
         goto end;
     if ((off_hour > 23) || (off_min > 59))
         goto end;
-- 
2.43.0


From 4298f5147f65dcfa3588c0f5b5a6f336a025de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 20/67] fix: assigning to a const throws a TypeError in sloppy
 code too

---
 src/lib/rjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 901029a..3935b36 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -7430,7 +7430,7 @@ parse_lexical_decl (RJS_Runtime *rt, RJS_Value *vs)
         dtype = RJS_AST_DECL_LET;
     } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_const)) {
         type  = RJS_AST_ConstDecl;
-        dtype = RJS_AST_DECL_CONST;
+        dtype = RJS_AST_DECL_STRICT;
     } else {
         parse_unexpect_error(rt, &tok->location, _("`let\' or `const\'"));
         goto end;
-- 
2.43.0


From 9ac494882312c4b225bec0b71ac9ca8d4a0394ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 21/67] fix: deleting an optional chain ends the chain

---
 src/lib/rjs_bc_gen.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 022eb19..5e13255 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -1131,6 +1131,30 @@ bc_gen_delete_expr (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstUnaryExpr *expr, int
         assert(0);
     }
 
+    if (ref.opt_expr) {
+        int lend = bc_label_add(rt, bg);
+
+        cid = bc_cmd_add(rt, bg, RJS_BC_jump, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->jump.label = lend;
+
+        /*The optional chain is ended, the result is true.*/
+        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->stub.label = bg->opt_end_label;
+
+        bg->opt_end_label = ref.old_opt_label;
+        bg->opt_res_reg   = ref.old_opt_reg;
+
+        cid = bc_cmd_add(rt, bg, RJS_BC_load_true, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->load.dest = rid;
+
+        cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+        cmd = bc_cmd_get(bg, cid);
+        cmd->stub.label = lend;
+    }
+
     return RJS_OK;
 }
 
-- 
2.43.0


From 1aad3399724cb481c193769e524183a266d67c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 22/67] fix: strict code can delete a property reached by an
 optional chain

---
 src/lib/rjs_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 3935b36..a4ef223 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -2046,9 +2046,9 @@ check_delete_operand_internal (RJS_Runtime *rt, RJS_Value *v)
         switch (ast->type) {
         case RJS_AST_Id:
         case RJS_AST_PrivMemberExpr:
-        case RJS_AST_OptionalExpr:
             r = RJS_FALSE;
             break;
+        case RJS_AST_OptionalExpr:
         case RJS_AST_ParenthesesExpr: {
             RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)ast;
 
-- 
2.43.0


From f461724ce9a2d6e399d381e743008e4d5092b77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:59 +0000
Subject: [PATCH 23/67] fix: only canonical array index strings name array
 elements

---
 src/lib/rjs_string.c | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index ee27646..ddc8d77 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -494,24 +494,17 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
     uc  = string_get_uchars(s);
     len = s->length;
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            break;
-
-        uc  ++;
-        len --;
-    }
-
     if (!len)
         goto end;
-        
-    if (!rjs_uchar_is_digit(*uc))
+
+    /*"0" is the only index with a leading zero.*/
+    if ((*uc == '0') && (len > 1))
         goto end;
 
     n = 0;
     while (len) {
-        if (!rjs_uchar_is_digit(*uc))
-            break;
+        if ((*uc < '0') || (*uc > '9'))
+            goto end;
 
         n *= 10;
         n += *uc - '0';
@@ -523,14 +516,6 @@ rjs_string_to_index_internal (RJS_Runtime *rt, RJS_Value *v, int64_t *pi)
         len --;
     }
 
-    while (len) {
-        if (!rjs_uchar_is_white_space(*uc))
-            goto end;
-
-        uc  ++;
-        len --;
-    }
-
     is_idx = RJS_TRUE;
     *pi    = n;
 end:
-- 
2.43.0


From 39427dc5aed81a7dc43101e27e23b23b0eea4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:07 +0000
Subject: [PATCH 24/67] fix: a for-in head without a declaration inside
 parentheses or other nested code

---
 src/lib/rjs_parser.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index a4ef223..80a7db9 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6400,6 +6400,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     RJS_Token      *tok, *ntok;
     RJS_AstForStmt *stmt        = NULL;
     RJS_Parser     *parser      = rt->parser;
+    int             old_flags   = parser->flags;
     RJS_Result      r           = RJS_ERR;
     RJS_Bool        is_decl     = RJS_FALSE;
     RJS_Bool        is_async_of = RJS_FALSE;
@@ -6434,6 +6435,9 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     if ((r = get_token_expect(rt, RJS_TOKEN_lparenthese)) == RJS_ERR)
         goto end;
 
+    /*"in" is not an operator in the initializer.*/
+    parser->flags &= ~RJS_PARSE_FL_IN;
+
     tok = get_token(rt);
     if (tok->type == RJS_TOKEN_semicolon) {
         unget_token(rt);
@@ -6490,6 +6494,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
         }
     }
 
+    parser->flags = old_flags;
+
     if (is_decl) {
         RJS_AstList *l = ast_get(rt, &stmt->init);
 
@@ -6642,6 +6648,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
     r = RJS_OK;
 end:
+    parser->flags = old_flags;
+
     if (stmt) {
         if (parser->decl_stack) {
             if (parser->decl_stack == stmt->decl)
-- 
2.43.0


From 211b7ac9ead28bebbe901c8ad745c0bf5fea25ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:14 +0000
Subject: [PATCH 25/67] fix: only canonical index strings name the characters
 of a string

---
 src/lib/rjs_primitive_object.c | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/lib/rjs_primitive_object.c b/src/lib/rjs_primitive_object.c
index a08c7e0..b83004e 100644
--- a/src/lib/rjs_primitive_object.c
+++ b/src/lib/rjs_primitive_object.c
@@ -65,31 +65,15 @@ static RJS_Result
 string_get_own_property (RJS_Runtime *rt, RJS_Value *o, RJS_Value *p, RJS_PropertyDesc *pd)
 {
     RJS_PrimitiveObject *po;
-    RJS_Result           r;
-    RJS_Number           n;
-    uint64_t             idx;
+    int64_t              idx;
     size_t               len;
 
-    if (rjs_value_is_string(rt, p)) {
-        if ((r = rjs_to_number(rt, p, &n)) == RJS_ERR)
-            return r;
-    } else {
-        return RJS_FALSE;
-    }
-
-    if (isinf(n) || isnan(n))
-        return RJS_FALSE;
-
-    if (signbit(n))
-        return RJS_FALSE;
-
-    if (floor(n) != n)
+    if (!rjs_value_is_string(rt, p) || !rjs_string_to_index(rt, p, &idx))
         return RJS_FALSE;
 
     po  = (RJS_PrimitiveObject*)rjs_value_get_object(rt, o);
     len = rjs_string_get_length(rt, &po->value);
 
-    idx = n;
     if (idx >= len)
         return RJS_FALSE;
 
-- 
2.43.0


From 36610cee6df0d0cc984a3b1ec0c2316bf4bb173a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:37 +0000
Subject: [PATCH 26/67] fix: U+0085 is not a white space character

---
 src/lib/rjs_uchar_icu_opt.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_uchar_icu_opt.c b/src/lib/rjs_uchar_icu_opt.c
index 8cd659e..e26b86c 100644
--- a/src/lib/rjs_uchar_icu_opt.c
+++ b/src/lib/rjs_uchar_icu_opt.c
@@ -34,7 +34,8 @@
 RJS_Bool
 rjs_uchar_is_white_space (int c)
 {
-    return u_isUWhiteSpace(c) || (c == 0xfeff);
+    /*U+0085 is not a white space in ECMAScript.*/
+    return (u_isUWhiteSpace(c) && (c != 0x85)) || (c == 0xfeff);
 }
 
 /**
-- 
2.43.0


From b63e4f496fa0e4ad480d9a40939d2c70f4cac7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 27/67] fix: a legacy octal literal has no fraction or exponent

---
 src/lib/rjs_lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 9f7ca6c..e08612a 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -555,7 +555,7 @@ lex_number (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
             break;
         case 8:
             if (!rjs_uchar_is_octal(c)) {
-                if (legacy_oct && (rjs_uchar_is_digit(c) || (c == '.') || (c == 'e') || (c == 'E'))) {
+                if (legacy_oct && rjs_uchar_is_digit(c)) {
                     base = 10;
                 } else if (!dn) {
                     rjs_input_get_location(lex->input, &loc);
-- 
2.43.0


From 08dc6840c95a11c6b49cee2a50d4ff63cc060927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 28/67] fix: JSON.stringify reads each property once

---
 src/lib/rjs_json_opt.c | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 32031fa..0aaea38 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -694,7 +694,6 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
     RJS_Value         *stepback = rjs_value_stack_push(rt);
     RJS_Value         *indent   = rjs_value_stack_push(rt);
     RJS_Value         *keys     = rjs_value_stack_push(rt);
-    RJS_Value         *kv       = rjs_value_stack_push(rt);
     RJS_Value         *str      = rjs_value_stack_push(rt);
     RJS_Bool           empty    = RJS_TRUE;
     RJS_UCharBuffer    ucb;
@@ -739,10 +738,9 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
             r = rjs_object_get_own_property(rt, value, &pn, &pd);
-            if (r == RJS_OK) {
-                if (r && !(pd.flags & RJS_PROP_FL_ENUMERABLE))
-                    rjs_value_set_undefined(rt, key);
-            }
+            if ((r == RJS_FALSE)
+                    || ((r == RJS_OK) && !(pd.flags & RJS_PROP_FL_ENUMERABLE)))
+                rjs_value_set_undefined(rt, key);
             rjs_property_name_deinit(rt, &pn);
 
             if (r == RJS_ERR)
@@ -759,23 +757,20 @@ serialize_json_object (RJS_Runtime *rt, RJS_JsonState *js, RJS_Value *value, RJS
 
             rjs_property_name_init(rt, &pn, key);
 
-            r = rjs_get(rt, value, &pn, kv);
+            r = serialize_json_property(rt, js, &pn, value, str);
             if (r == RJS_OK) {
-                r = serialize_json_property(rt, js, &pn, value, str);
-                if (r == RJS_OK) {
-                    if (rjs_value_is_string(rt, str)) {
-                        if (!empty)
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
+                if (rjs_value_is_string(rt, str)) {
+                    if (!empty)
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
 
-                        if (js->gap) {
-                            rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
-                            rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
-                        }
+                    if (js->gap) {
+                        rjs_uchar_buffer_append_uchar(rt, &ucb, '\n');
+                        rjs_uchar_buffer_append_string(rt, &ucb, js->indent);
+                    }
 
-                        serialize_key_value(rt, js, &ucb, key, str);
+                    serialize_key_value(rt, js, &ucb, key, str);
 
-                        empty = RJS_FALSE;
-                    }
+                    empty = RJS_FALSE;
                 }
             }
 
-- 
2.43.0


From fb3dd521cce9a320b1aec7206ea4dac633878548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 29/67] fix: an optional regular expression iteration must not
 match the empty string

---
 src/lib/rjs_regexp.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 497a754..899f5e4 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -2548,13 +2548,12 @@ match_term (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpPattern *pat, RJS_R
     if ((term->min == 0) && (term->max == 0))
         return RJS_REGEXP_NEXT;
 
-    if (cnt > term->min) {
-        if ((term->max != -1) && (cnt > term->max))
-            return RJS_REGEXP_NEXT;
+    /*An optional iteration must not match the empty string.*/
+    if ((cnt - 1 > term->min) && (pos == ctxt->pos))
+        return RJS_REGEXP_REJECT;
 
-        if ((cnt > 1) && (pos == ctxt->pos))
-            return RJS_REGEXP_NEXT;
-    }
+    if ((cnt > term->min) && (term->max != -1) && (cnt > term->max))
+        return RJS_REGEXP_NEXT;
 
     if (cnt <= term->min) {
         size_t         jid;
-- 
2.43.0


From 1fc2d08283682a08f196a36a5b8da65e0acb033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 30/67] fix: case insensitive matching never maps a non-ASCII
 character to ASCII

---
 src/lib/rjs_regexp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 899f5e4..2ee03fa 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1865,6 +1865,8 @@ canonicalize (int c, int flags)
 
         if (rjs_uchars_to_upper(&cin, 1, &cout, 1, "") > 1)
             r = c;
+        else if ((c >= 128) && (cout < 128))
+            r = c;
         else
             r = cout;
     } else {
-- 
2.43.0


From 4ca938a4c849127ffeb56a5aadee588ad2e6cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:48 +0000
Subject: [PATCH 31/67] fix: word characters of a unicode case insensitive
 regular expression

---
 src/lib/rjs_regexp.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 2ee03fa..7e8dfdd 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1990,9 +1990,16 @@ regexp_adv_str_index (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, size_t index, RJS_B
 
 /*Check if the character is a word.*/
 static RJS_Bool
-is_word (int c)
+is_word (int c, int flags)
 {
-    return rjs_uchar_is_alnum(c) || (c == '_');
+    if (rjs_uchar_is_alnum(c) || (c == '_'))
+        return RJS_TRUE;
+
+    /*The characters folded to a basic word character.*/
+    if ((flags & RJS_REGEXP_FL_I) && (flags & RJS_REGEXP_FL_U))
+        return (c == 0x17f) || (c == 0x212a);
+
+    return RJS_FALSE;
 }
 
 /*Match the alternative.*/
@@ -2113,7 +2120,7 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_w:
-        r = is_word(c);
+        r = is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_S:
         r = !rjs_uchar_is_white_space(c);
@@ -2122,7 +2129,7 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         r = !rjs_uchar_is_digit(c);
         break;
     case RJS_REGEXP_CHAR_W:
-        r = !is_word(c);
+        r = !is_word(c, flags);
         break;
     case RJS_REGEXP_CHAR_NORMAL:
         r = canonicalize(c, flags) == canonicalize(d->c, flags);
@@ -2414,14 +2421,14 @@ match_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpTerm *term)
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) == is_word(nc))
+        if (is_word(c, ctxt->flags) == is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_B:
         c  = get_char(rt, ctxt, ctxt->pos - 1);
         nc = get_char(rt, ctxt, ctxt->pos);
 
-        if (is_word(c) != is_word(nc))
+        if (is_word(c, ctxt->flags) != is_word(nc, ctxt->flags))
             return RJS_REGEXP_REJECT;
         break;
     case RJS_REGEXP_TERM_BR_ID:
-- 
2.43.0


From 5f9824ddf486b061dc7ba75801c80fcf7101bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 32/67] fix: escapes and trailing dash in regular expression
 classes

---
 src/lib/rjs_regexp.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 7e8dfdd..d061fa0 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -922,6 +922,10 @@ parse_class_atom (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpChar *mc)
             mc->type = RJS_REGEXP_CHAR_NORMAL;
             mc->c.c  = '\b';
             break;
+        case '-':
+            mc->type = RJS_REGEXP_CHAR_NORMAL;
+            mc->c.c  = '-';
+            break;
         default:
             if ((r = parse_escape(rt, p, c, mc)) == RJS_ERR)
                 return r;
@@ -971,23 +975,21 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
 
         c = get_uc(rt, p);
         if (c == '-') {
-            if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
-                regexp_parse_error(rt, p, _("only normal character can be used in range"));
-                return RJS_ERR;
-            }
-
-            min = mc.c.c;
-            max = mc.c.c;
-
             c = get_uc(rt, p);
             unget_uc(rt, p, c);
-
             if (c == ']') {
                 unget_uc(rt, p, '-');
 
-                ca.type  = mc.type;
-                ca.a.c.c = mc.c.c;
+                ca.type = mc.type;
+                ca.a.c  = mc.c;
             } else {
+                if (mc.type != RJS_REGEXP_CHAR_NORMAL) {
+                    regexp_parse_error(rt, p, _("only normal character can be used in range"));
+                    return RJS_ERR;
+                }
+
+                min = mc.c.c;
+
                 if ((r = parse_class_atom(rt, p, &mc)) == RJS_ERR)
                     return r;
 
@@ -1015,8 +1017,8 @@ parse_class (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpTerm *term)
         } else {
             unget_uc(rt, p, c);
 
-            ca.type  = mc.type;
-            ca.a.c.c = mc.c.c;
+            ca.type = mc.type;
+            ca.a.c  = mc.c;
         }
 
         rjs_vector_append(&term->t.clazz.atoms, ca, rt);
-- 
2.43.0


From 75b407283b2db41ccef7d60450eaf7a3be234a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 33/67] fix: huge regular expression repeat counts overflowed

---
 src/lib/rjs_regexp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index d061fa0..0158bc1 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1068,8 +1068,12 @@ parse_regexp_number (RJS_Runtime *rt, RJS_RegExpParser *p, int64_t *pv)
             break;
         }
 
-        v *= 10;
-        v += c - '0';
+        if (v > (INT64_MAX - 9) / 10) {
+            v = INT64_MAX;
+        } else {
+            v *= 10;
+            v += c - '0';
+        }
     }
 
     *pv = v;
-- 
2.43.0


From 769e7832c256f1f2025b55cb72b423571e6a697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:10 +0000
Subject: [PATCH 34/67] fix: a regular expression without the u flag is a
 sequence of code units

---
 src/lib/rjs_regexp.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index 0158bc1..ea4ecff 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -432,14 +432,31 @@ regexp_parser_deinit (RJS_Runtime *rt, RJS_RegExpParser *p)
 static int
 get_uc (RJS_Runtime *rt, RJS_RegExpParser *p)
 {
-    return rjs_input_get_uc(rt, &p->si);
+    int c = rjs_input_get_uc(rt, &p->si);
+
+    /*The pattern is a sequence of code units if it is not unicode.*/
+    if (!(p->flags & RJS_REGEXP_FL_U) && (c > 0xffff)) {
+        RJS_UChar l, t;
+
+        rjs_uc_to_surrogate_pair(c, &l, &t);
+        p->si.pos --;
+        c = l;
+    }
+
+    return c;
 }
 
 /*Push back a unicode character.*/
 static void
 unget_uc (RJS_Runtime *rt, RJS_RegExpParser *p, int uc)
 {
-    rjs_input_unget_uc(rt, &p->si, uc);
+    if (!(p->flags & RJS_REGEXP_FL_U)
+            && (rjs_uchar_is_leading_surrogate(uc) || rjs_uchar_is_trailing_surrogate(uc))) {
+        p->si.pos --;
+        p->si.column --;
+    } else {
+        rjs_input_unget_uc(rt, &p->si, uc);
+    }
 }
 
 /*Output parse error message.*/
@@ -593,6 +610,13 @@ parse_uc (RJS_Runtime *rt, RJS_RegExpParser *p, int flags)
         }
         if ((c = parse_uc_escape_seq(rt, p, flags)) == RJS_ERR)
             return RJS_ERR;
+    } else if (rjs_uchar_is_leading_surrogate(c) && (flags & RJS_REGEXP_FL_U)) {
+        int c2 = get_uc(rt, p);
+
+        if (rjs_uchar_is_trailing_surrogate(c2))
+            c = rjs_surrogate_pair_to_uc(c, c2);
+        else
+            unget_uc(rt, p, c2);
     }
 
     return c;
-- 
2.43.0


From ff0441338de629166f9a0285fb67af5a0af3eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:11 +0000
Subject: [PATCH 35/67] fix: case insensitive character ranges and unicode
 properties

---
 src/lib/rjs_regexp.c | 114 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 105 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_regexp.c b/src/lib/rjs_regexp.c
index ea4ecff..0f1b71e 100644
--- a/src/lib/rjs_regexp.c
+++ b/src/lib/rjs_regexp.c
@@ -1314,8 +1314,12 @@ parse_term (RJS_Runtime *rt, RJS_RegExpParser *p, RJS_RegExpAlter *alter)
                         break;
                     }
 
-                    v *= 10;
-                    v += c - '0';
+                    if (v > (INT_MAX - 9) / 10) {
+                        v = INT_MAX;
+                    } else {
+                        v *= 10;
+                        v += c - '0';
+                    }
                 }
 
                 term->type       = RJS_REGEXP_TERM_BR_ID;
@@ -2136,6 +2140,74 @@ job_success (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpJob *job, RJS_RegE
     return r;
 }
 
+/*Convert the case of a character.*/
+static int
+convert_case (int c, RJS_Bool upper)
+{
+    RJS_UChar in[2], out[2];
+    int       n = 1, r;
+
+    if (c > 0xffff) {
+        rjs_uc_to_surrogate_pair(c, &in[0], &in[1]);
+        n = 2;
+    } else {
+        in[0] = c;
+    }
+
+    if (upper)
+        r = rjs_uchars_to_upper(in, n, out, 2, "");
+    else
+        r = rjs_uchars_to_lower(in, n, out, 2, "");
+
+    if ((r == 2) && rjs_uchar_is_leading_surrogate(out[0])
+            && rjs_uchar_is_trailing_surrogate(out[1]))
+        return rjs_surrogate_pair_to_uc(out[0], out[1]);
+
+    return (r == 1) ? out[0] : c;
+}
+
+/*Check if the character has a variant in another case.*/
+static RJS_Bool
+has_other_case (int c)
+{
+    return (rjs_uchar_fold_case(c) != c)
+            || (convert_case(c, RJS_TRUE) != c)
+            || (convert_case(c, RJS_FALSE) != c);
+}
+
+#if ENABLE_UNICODE_PROPERTY
+
+/*Match the unicode property.*/
+static RJS_Bool
+match_property (int prop, int value, RJS_Bool has, int c, int flags)
+{
+    int v, vars[4], i;
+
+    if (!unicode_property_match(prop, value, c) == !has)
+        return RJS_TRUE;
+
+    if (!(flags & RJS_REGEXP_FL_I))
+        return RJS_FALSE;
+
+    /*Check the case variants.*/
+    v = canonicalize(c, flags);
+
+    vars[0] = v;
+    vars[1] = convert_case(c, RJS_TRUE);
+    vars[2] = convert_case(c, RJS_FALSE);
+    vars[3] = convert_case(v, RJS_TRUE);
+
+    for (i = 0; i < 4; i ++) {
+        if ((canonicalize(vars[i], flags) == v)
+                && (!unicode_property_match(prop, value, vars[i]) == !has))
+            return RJS_TRUE;
+    }
+
+    return RJS_FALSE;
+}
+
+#endif /*ENABLE_UNICODE_PROPERTY*/
+
 /*Match the character.*/
 static RJS_Bool
 match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c, int flags)
@@ -2166,10 +2238,10 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
         break;
 #if ENABLE_UNICODE_PROPERTY
     case RJS_REGEXP_CHAR_p:
-        r = unicode_property_match(d->p.prop, d->p.value, canonicalize(c, flags));
+        r = match_property(d->p.prop, d->p.value, RJS_TRUE, c, flags);
         break;
     case RJS_REGEXP_CHAR_P:
-        r = !unicode_property_match(d->p.prop, d->p.value, canonicalize(c, flags));
+        r = match_property(d->p.prop, d->p.value, RJS_FALSE, c, flags);
         break;
 #endif /*ENABLE_UNICODE_PROPERTY*/
     default:
@@ -2181,6 +2253,34 @@ match_char (RJS_Runtime *rt, RJS_RegExpCharType t, RJS_RegExpCharData *d, int c,
     return r;
 }
 
+/*Check if the range contains a character equal to c when the case is ignored.*/
+static RJS_Bool
+match_range (int min, int max, int c, int flags)
+{
+    int v, i;
+
+    if ((c >= min) && (c <= max))
+        return RJS_TRUE;
+
+    if (!(flags & RJS_REGEXP_FL_I))
+        return RJS_FALSE;
+
+    v = canonicalize(c, flags);
+    if ((v >= min) && (v <= max) && (canonicalize(v, flags) == v))
+        return RJS_TRUE;
+
+    /*A character without case variants is only equal to itself.*/
+    if ((v == c) && !has_other_case(c))
+        return RJS_FALSE;
+
+    for (i = min; i <= max; i ++) {
+        if (canonicalize(i, flags) == v)
+            return RJS_TRUE;
+    }
+
+    return RJS_FALSE;
+}
+
 /*Match the class atom.*/
 static RJS_Bool
 match_class_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpClassAtom *atom, int c)
@@ -2190,11 +2290,7 @@ match_class_atom (RJS_Runtime *rt, RJS_RegExpCtxt *ctxt, RJS_RegExpClassAtom *at
     if (atom->type != -1) {
         r = match_char(rt, atom->type, &atom->a.c, c, ctxt->flags);
     } else {
-        int min = canonicalize(atom->a.range.min, ctxt->flags);
-        int max = canonicalize(atom->a.range.max, ctxt->flags);
-        int v   = canonicalize(c, ctxt->flags);
-
-        r = (v >= min) && (v <= max);
+        r = match_range(atom->a.range.min, atom->a.range.max, c, ctxt->flags);
     }
 
     return r;
-- 
2.43.0


From 5e4307710709373a74c9b2f854e9b88ec76e1624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 36/67] fix: String.prototype.replace passes undefined for
 groups that did not match

---
 src/lib/rjs_regexp_object_inc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 6b75315..8b780f4 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -423,8 +423,12 @@ replace_func (RJS_Runtime *rt, RJS_Value *s, RJS_Value *fn, RJS_Value *mstr, siz
         arg = rjs_value_buffer_item(rt, args, aid);
         aid ++;
 
-        if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
-            goto end;
+        if (rjs_value_is_undefined(rt, cap)) {
+            rjs_value_set_undefined(rt, arg);
+        } else {
+            if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
+                goto end;
+        }
     }
 
     arg = rjs_value_buffer_item(rt, args, aid);
-- 
2.43.0


From 53c219946e4d01dd187dc27495e159f0820e201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:45 +0000
Subject: [PATCH 37/67] fix: RegExp replace collects all the matches before it
 calls the replacer

---
 src/lib/rjs_regexp_object_inc.c | 97 +++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 8b780f4..3542e0b 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -473,7 +473,8 @@ static RJS_NF(RegExp_prototype_replace)
     RJS_Value *mstrv   = rjs_value_stack_push(rt);
     RJS_Value *mstr    = rjs_value_stack_push(rt);
     RJS_Value *rstr    = rjs_value_stack_push(rt);
-    size_t     len, start;
+    RJS_Value *results = rjs_value_stack_push(rt);
+    size_t     len, start, ri, rn;
     RJS_Bool   func_rep, global, unicode = RJS_FALSE;
     RJS_UCharBuffer  ucb;
     const RJS_UChar *chars;
@@ -512,13 +513,14 @@ static RJS_NF(RegExp_prototype_replace)
             goto end;
     }
 
-    chars = rjs_string_get_uchars(rt, s);
-    start = 0;
+    if ((r = rjs_array_new(rt, results, 0, NULL)) == RJS_ERR)
+        goto end;
+
+    rn = 0;
 
+    /*Collect the results.*/
     while (1) {
-        RJS_Number posn;
-        size_t     pos;
-        int64_t    idx;
+        int64_t idx;
 
         if ((r = rjs_regexp_exec(rt, thiz, s, match)) == RJS_ERR)
             goto end;
@@ -526,61 +528,76 @@ static RJS_NF(RegExp_prototype_replace)
         if (rjs_value_is_null(rt, match))
             break;
 
-        if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, results, rn, match)) == RJS_ERR)
             goto end;
 
-        if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
-            goto end;
+        rn ++;
 
-        pos = RJS_CLAMP(posn, 0, len);
+        if (!global)
+            break;
 
-        if (pos >= start) {
-            if (pos > start) {
-                rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
-            }
+        if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
+            goto end;
 
-            if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
+        if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            goto end;
+
+        if (rjs_string_get_length(rt, mstr) == 0) {
+            if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
                 goto end;
 
-            if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
                 goto end;
 
-            if (func_rep) {
-                r = replace_func(rt, s, repv, mstr, pos, match, rstr);
-            } else {
-                r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
-            }
+            idx = adv_str_index(rt, s, idx, unicode);
+
+            rjs_value_set_number(rt, idxv, idx);
 
-            if (r == RJS_ERR)
+            if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
                 goto end;
+        }
+    }
 
-            rjs_uchar_buffer_append_string(rt, &ucb, rstr);
+    chars = rjs_string_get_uchars(rt, s);
+    start = 0;
 
-            if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
-                goto end;
+    /*Replace.*/
+    for (ri = 0; ri < rn; ri ++) {
+        RJS_Number posn;
+        size_t     pos;
 
-            if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
-                goto end;
+        if ((r = rjs_get_index(rt, results, ri, match)) == RJS_ERR)
+            goto end;
 
-            start = idx + rjs_string_get_length(rt, mstr);
+        if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
+            goto end;
 
-            if (!global)
-                break;
+        if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
+            goto end;
 
-            if (rjs_string_get_length(rt, mstr) == 0) {
-                if ((r = rjs_get(rt, thiz, rjs_pn_lastIndex(rt), idxv)) == RJS_ERR)
-                    goto end;
+        if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
+            goto end;
 
-                if ((r = rjs_to_length(rt, idxv, &idx)) == RJS_ERR)
-                    goto end;
+        if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
+            goto end;
 
-                idx = adv_str_index(rt, s, idx, unicode);
+        pos = RJS_CLAMP(posn, 0, len);
 
-                rjs_value_set_number(rt, idxv, idx);
+        if (func_rep)
+            r = replace_func(rt, s, repv, mstr, pos, match, rstr);
+        else
+            r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
 
-                if ((r = rjs_set(rt, thiz, rjs_pn_lastIndex(rt), idxv, RJS_TRUE)) == RJS_ERR)
-                    goto end;
-            }
+        if (r == RJS_ERR)
+            goto end;
+
+        if (pos >= start) {
+            if (pos > start)
+                rjs_uchar_buffer_append_uchars(rt, &ucb, chars + start, pos - start);
+
+            rjs_uchar_buffer_append_string(rt, &ucb, rstr);
+
+            start = pos + rjs_string_get_length(rt, mstr);
         }
     }
 
-- 
2.43.0


From e9c53b5a6442dafbdaaef0712141818a19ed34af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 38/67] fix: RegExp toString and matchAll convert their strings

---
 src/lib/rjs_regexp_object_inc.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index 3542e0b..cdbd643 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -372,7 +372,7 @@ static RJS_NF(RegExp_prototype_matchAll)
     else
         unicode = RJS_FALSE;
 
-    r = regexp_str_iter_new(rt, rv, matcher, str, global, unicode);
+    r = regexp_str_iter_new(rt, rv, matcher, s, global, unicode);
 end:
     rjs_value_stack_restore(rt, top);
     return r;
@@ -856,6 +856,8 @@ static RJS_NF(RegExp_prototype_toString)
     size_t     top    = rjs_value_stack_save(rt);
     RJS_Value *pat    = rjs_value_stack_push(rt);
     RJS_Value *flags  = rjs_value_stack_push(rt);
+    RJS_Value *pstr   = rjs_value_stack_push(rt);
+    RJS_Value *fstr   = rjs_value_stack_push(rt);
     RJS_UCharBuffer ucb;
     RJS_Result r;
 
@@ -867,14 +869,20 @@ static RJS_NF(RegExp_prototype_toString)
     if ((r = rjs_get(rt, thiz, rjs_pn_source(rt), pat)) == RJS_ERR)
         goto end;
 
+    if ((r = rjs_to_string(rt, pat, pstr)) == RJS_ERR)
+        goto end;
+
     if ((r = rjs_get(rt, thiz, rjs_pn_flags(rt), flags)) == RJS_ERR)
         goto end;
 
+    if ((r = rjs_to_string(rt, flags, fstr)) == RJS_ERR)
+        goto end;
+
     rjs_uchar_buffer_init(rt, &ucb);
     rjs_uchar_buffer_append_uchar(rt, &ucb, '/');
-    rjs_uchar_buffer_append_string(rt, &ucb, pat);
+    rjs_uchar_buffer_append_string(rt, &ucb, pstr);
     rjs_uchar_buffer_append_uchar(rt, &ucb, '/');
-    rjs_uchar_buffer_append_string(rt, &ucb, flags);
+    rjs_uchar_buffer_append_string(rt, &ucb, fstr);
 
     rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
     rjs_uchar_buffer_deinit(rt, &ucb);
-- 
2.43.0


From b4f1315304d00173d889832e8e0a5c2b66048d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:58 +0000
Subject: [PATCH 39/67] fix: an escaped bracket in a regular expression class
 of a literal

---
 src/lib/rjs_lex.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index e08612a..343a7ca 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -1043,6 +1043,17 @@ lex_regexp (RJS_Runtime *rt, RJS_Lex *lex, RJS_Token *token)
 
                 if (c == ']')
                     break;
+
+                if (c == '\\') {
+                    c = lex_get_uc(rt, lex);
+                    if ((c == RJS_INPUT_END) || rjs_uchar_is_line_terminator(c)) {
+                        rjs_input_get_location(lex->input, &loc);
+                        lex_error(rt, lex, &loc, _("expect `/\' at end of the regular expression"));
+                        break;
+                    }
+
+                    rjs_uchar_buffer_append_uc(rt, &lex->uc_text, c);
+                }
             }
         } else {
             rjs_uchar_buffer_append_uc(rt, &lex->uc_text, c);
-- 
2.43.0


From 02c9e164b5de9c37883b4c28219110df8239454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 40/67] fix: relational operators convert objects with the
 number hint

---
 src/lib/rjs_bc_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index 03974fe..c2ee7f5 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -601,9 +601,9 @@ do_bc_compare (RJS_Runtime *rt, RJS_Value *v1, RJS_Value *v2)
     RJS_Value *n2  = rjs_value_stack_push(rt);
     RJS_Result r;
 
-    if ((r = rjs_to_primitive(rt, v1, p1, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v1, p1, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
-    if ((r = rjs_to_primitive(rt, v2, p2, -1)) == RJS_ERR)
+    if ((r = rjs_to_primitive(rt, v2, p2, RJS_VALUE_NUMBER)) == RJS_ERR)
         goto end;
 
     if (rjs_value_is_string(rt, p1) && rjs_value_is_string(rt, p2)) {
-- 
2.43.0


From 0a8abf44b42afa5363994185f29dc21f89d66b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:55 +0000
Subject: [PATCH 41/67] fix: Date setUTCMilliseconds replaced the minute

---
 src/lib/rjs_date_object_inc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rjs_date_object_inc.c b/src/lib/rjs_date_object_inc.c
index 4da76d4..fe0e9f5 100644
--- a/src/lib/rjs_date_object_inc.c
+++ b/src/lib/rjs_date_object_inc.c
@@ -1994,7 +1994,7 @@ static RJS_NF(Date_prototype_setUTCMilliseconds)
         return RJS_OK;
     }
 
-    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), ms_from_time(t), sec_from_time(t), milli));
+    u = make_date(rt, day(t), make_time(rt, hour_from_time(t), min_from_time(t), sec_from_time(t), milli));
     u = time_clip(rt, u);
 
     d = (RJS_Date*)rjs_value_get_object(rt, thiz);
-- 
2.43.0


From e93fe229dab8a2175d171704754c017b6d34552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 42/67] fix: Map and Set store the key -0 as +0

---
 src/lib/rjs_hash_object_inc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index ede08b0..a639789 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -325,6 +325,10 @@ hash_add (RJS_Runtime *rt, RJS_Value *hashv, RJS_Value *k, size_t esize)
 
         rjs_value_copy(rt, &se->key, k);
 
+        /*-0 is stored as +0.*/
+        if (rjs_value_is_number(rt, &se->key) && (rjs_value_get_number(rt, &se->key) == 0))
+            rjs_value_set_number(rt, &se->key, 0);
+
         rjs_hash_insert(&ho->hash, &se->key, &se->he, phe, &rjs_hash_value_ops_0, rt);
         rjs_list_append(&ho->list, &se->ln);
 
-- 
2.43.0


From 0f396bb658cb85357231ad1e1eec7afddeb72cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:07 +0000
Subject: [PATCH 43/67] fix: Map and Set iterators check their own kind

---
 src/lib/rjs_map_object_inc.c | 17 ++++++++++++++++-
 src/lib/rjs_set_object_inc.c | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_map_object_inc.c b/src/lib/rjs_map_object_inc.c
index ab807a6..d144e88 100644
--- a/src/lib/rjs_map_object_inc.c
+++ b/src/lib/rjs_map_object_inc.c
@@ -405,12 +405,27 @@ map_iterator_prototype_field_descs[] = {
     {NULL}
 };
 
+/*%MapIteratorPrototype%.next*/
+static RJS_NF(map_iterator_next)
+{
+    RJS_HashIter *hi;
+
+    if (rjs_value_get_gc_thing_type(rt, thiz) != RJS_GC_THING_HASH_ITERATOR)
+        return rjs_throw_type_error(rt, _("the value is not a map iterator"));
+
+    hi = (RJS_HashIter*)rjs_value_get_object(rt, thiz);
+    if (rjs_value_get_gc_thing_type(rt, &hi->hash) != RJS_GC_THING_MAP)
+        return rjs_throw_type_error(rt, _("the value is not a map iterator"));
+
+    return hash_iter_next(rt, f, thiz, args, argc, nt, rv);
+}
+
 static const RJS_BuiltinFuncDesc
 map_iterator_prototype_function_descs[] = {
     {
         "next",
         0,
-        hash_iter_next
+        map_iterator_next
     },
     {NULL}
 };
diff --git a/src/lib/rjs_set_object_inc.c b/src/lib/rjs_set_object_inc.c
index 4465d61..cd52ce6 100644
--- a/src/lib/rjs_set_object_inc.c
+++ b/src/lib/rjs_set_object_inc.c
@@ -359,12 +359,27 @@ set_iterator_prototype_field_descs[] = {
     {NULL}
 };
 
+/*%SetIteratorPrototype%.next*/
+static RJS_NF(set_iterator_next)
+{
+    RJS_HashIter *hi;
+
+    if (rjs_value_get_gc_thing_type(rt, thiz) != RJS_GC_THING_HASH_ITERATOR)
+        return rjs_throw_type_error(rt, _("the value is not a set iterator"));
+
+    hi = (RJS_HashIter*)rjs_value_get_object(rt, thiz);
+    if (rjs_value_get_gc_thing_type(rt, &hi->hash) != RJS_GC_THING_SET)
+        return rjs_throw_type_error(rt, _("the value is not a set iterator"));
+
+    return hash_iter_next(rt, f, thiz, args, argc, nt, rv);
+}
+
 static const RJS_BuiltinFuncDesc
 set_iterator_prototype_function_descs[] = {
     {
         "next",
         0,
-        hash_iter_next
+        set_iterator_next
     },
     {NULL}
 };
-- 
2.43.0


From 2e08a6b465490536729c15e3255d8ac734e0ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 44/67] fix: Object.defineProperties reads all the descriptors
 first and reports errors

---
 src/lib/rjs_object_object_inc.c | 46 ++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index 123a227..0a93ecb 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -97,13 +97,16 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
     RJS_Value           *keys   = rjs_value_stack_push(rt);
     RJS_Value           *desco  = rjs_value_stack_push(rt);
     RJS_PropertyKeyList *pkl;
-    RJS_PropertyDesc     pd, npd;
+    RJS_PropertyDesc     pd;
+    RJS_PropertyDesc    *descs  = NULL;
+    RJS_Value          **names  = NULL;
+    size_t               n      = 0;
+    size_t               num    = 0;
     RJS_PropertyName     pn;
     size_t               i;
     RJS_Result           r;
 
     rjs_property_desc_init(rt, &pd);
-    rjs_property_desc_init(rt, &npd);
 
     if ((r = rjs_to_object(rt, props, propso)) == RJS_ERR)
         goto end;
@@ -112,18 +115,27 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
         goto end;
 
     pkl = rjs_value_get_gc_thing(rt, keys);
-    for (i = 0; i < pkl->keys.item_num; i ++) {
+    num = pkl->keys.item_num;
+
+    if (num) {
+        RJS_NEW_N(rt, descs, num);
+        RJS_NEW_N(rt, names, num);
+    }
+
+    /*Collect all the descriptors before any property is defined.*/
+    for (i = 0; i < num; i ++) {
         RJS_Value *key = &pkl->keys.items[i];
 
         rjs_property_name_init(rt, &pn, key);
 
         r = rjs_object_get_own_property(rt, propso, &pn, &pd);
-        if ((r = RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
+        if ((r == RJS_OK) && (pd.flags & RJS_PROP_FL_ENUMERABLE)) {
             if ((r = rjs_get(rt, propso, &pn, desco)) == RJS_OK) {
-                r = rjs_to_property_descriptor(rt, desco, &npd);
-                if (r == RJS_OK) {
-                    r = rjs_define_property_or_throw(rt, o, &pn, &npd);
-                }
+                rjs_property_desc_init(rt, &descs[n]);
+                names[n] = key;
+                n ++;
+
+                r = rjs_to_property_descriptor(rt, desco, &descs[n - 1]);
             }
         }
 
@@ -133,10 +145,26 @@ object_define_properties (RJS_Runtime *rt, RJS_Value *o, RJS_Value *props)
             goto end;
     }
 
+    for (i = 0; i < n; i ++) {
+        rjs_property_name_init(rt, &pn, names[i]);
+        r = rjs_define_property_or_throw(rt, o, &pn, &descs[i]);
+        rjs_property_name_deinit(rt, &pn);
+
+        if (r == RJS_ERR)
+            goto end;
+    }
+
     r = RJS_OK;
 end:
+    for (i = 0; i < n; i ++)
+        rjs_property_desc_deinit(rt, &descs[i]);
+
+    if (num) {
+        RJS_DEL_N(rt, descs, num);
+        RJS_DEL_N(rt, names, num);
+    }
+
     rjs_property_desc_deinit(rt, &pd);
-    rjs_property_desc_deinit(rt, &npd);
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From 89291f1cbb4302543392f031407deecea57c0d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 45/67] fix: jumps out of finally blocks, nested finally
 returns and labelled try statements

---
 src/lib/rjs_bc_call.c  | 30 ++++++++++++++++--------------
 src/lib/rjs_bc_gen.c   | 11 +++++------
 src/lib/rjs_iterator.c | 16 ++++++++++++----
 src/lib/rjs_parser.c   |  9 ++++++---
 4 files changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/lib/rjs_bc_call.c b/src/lib/rjs_bc_call.c
index c2ee7f5..150c3af 100644
--- a/src/lib/rjs_bc_call.c
+++ b/src/lib/rjs_bc_call.c
@@ -48,14 +48,17 @@ await_pop_async_iter_state (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value
 
     ASYNC_OP_DEBUG();
 
+    /*The pending error overrides the result of the iterator's "return" method.*/
+    if (ac->i0 == RJS_ERR)
+        return rjs_throw(rt, &ac->v0);
+
     if ((r = rjs_await_async_iterator_close(rt, type, iv, rv)) == RJS_ERR)
         return r;
 
-    r = ac->i0;
-    if (r == RJS_ERR)
-        rjs_throw(rt, &ac->v0);
+    /*Keep the pending return value.*/
+    rjs_value_copy(rt, rv, &((RJS_ScriptContext*)ac)->retv);
 
-    return r;
+    return ac->i0;
 }
 
 #else /*!define ENABLE_ASYNC*/
@@ -1099,15 +1102,7 @@ end:
             sc->ip = s->s.s_try.finally_ip;\
             goto restart;\
         case RJS_TRY_STATE_FINALLY:\
-            switch (s->s.s_try.next_op) {\
-            case RJS_TRY_NEXT_OP_NORMAL:\
-            case RJS_TRY_NEXT_OP_THROW:\
-                break;\
-            case RJS_TRY_NEXT_OP_RETURN:\
-                rjs_state_pop(rt);\
-                r = RJS_RETURN;\
-                goto ret;\
-            }\
+            /*The jump in the finally block overrides the pending completion.*/\
             break;\
         case RJS_TRY_STATE_END:\
             switch (s->s.s_try.next_op) {\
@@ -1125,6 +1120,7 @@ end:
                 r = RJS_ERR;\
                 goto error;\
             case RJS_TRY_NEXT_OP_RETURN:\
+                rjs_value_copy(rt, &sc->retv, s->s.s_try.error);\
                 rjs_state_pop(rt);\
                 r = RJS_RETURN;\
                 goto ret;\
@@ -1168,7 +1164,9 @@ end:
 #define bc_finally()\
     RJS_State *s = rjs_state_top(rt);\
     assert(s->type == RJS_STATE_TRY);\
-    s->s.s_try.state = RJS_TRY_STATE_FINALLY;
+    s->s.s_try.state = RJS_TRY_STATE_FINALLY;\
+    /*The pending error is stored in the state, it is rethrown at the end of the finally block.*/\
+    rt->error_flag = RJS_FALSE;
 
 #define bc_try_end()\
     RJS_State *s = rjs_state_top(rt);\
@@ -1339,11 +1337,15 @@ error:
             case RJS_TRY_STATE_TRY:
                 if (r == RJS_ERR)
                     rjs_value_copy(rt, s->s.s_try.error, &rt->error);
+                else if (r == RJS_RETURN)
+                    rjs_value_copy(rt, s->s.s_try.error, &sc->retv);
                 sc->ip = (r == RJS_ERR) ? s->s.s_try.catch_ip : s->s.s_try.finally_ip;
                 goto restart;
             case RJS_TRY_STATE_CATCH:
                 if (r == RJS_ERR)
                     rjs_value_copy(rt, s->s.s_try.error, &rt->error);
+                else if (r == RJS_RETURN)
+                    rjs_value_copy(rt, s->s.s_try.error, &sc->retv);
                 sc->ip = s->s.s_try.finally_ip;
                 goto restart;
             case RJS_TRY_STATE_FINALLY:
diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 5e13255..992ae93 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3551,6 +3551,7 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
     lc = bc_label_add(rt, bg);
     lf = bc_label_add(rt, bg);
     le = bc_label_add(rt, bg);
+    lb = bc_label_add(rt, bg);
 
     /*Try block.*/
     line = ts->ast.location.first_line;
@@ -3566,8 +3567,6 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
     cmd->push_try.catch_label = lc;
     cmd->push_try.final_label = lf;
 
-    lb = bc_label_add(rt, bg);
-
     ts->break_js.label  = lb;
     ts->break_js.rv_reg = bg->rv_reg;
 
@@ -3642,10 +3641,6 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
     cmd = bc_cmd_get(bg, cid);
     cmd->stub.label = lf;
 
-    cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
-    cmd = bc_cmd_get(bg, cid);
-    cmd->stub.label = lb;
-
     ast = bc_ast_get(rt, &ts->final_block);
     if (ast) {
         /*
@@ -3681,6 +3676,10 @@ bc_gen_try_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstTryStmt *ts)
 
     cid = bc_cmd_add(rt, bg, RJS_BC_pop_state, line);
 
+    cid = bc_cmd_add(rt, bg, RJS_BC_stub, line);
+    cmd = bc_cmd_get(bg, cid);
+    cmd->stub.label = lb;
+
     return RJS_OK;
 }
 
diff --git a/src/lib/rjs_iterator.c b/src/lib/rjs_iterator.c
index 0d57001..54b21bd 100644
--- a/src/lib/rjs_iterator.c
+++ b/src/lib/rjs_iterator.c
@@ -273,8 +273,10 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
     RJS_Result r;
 
     is_err = rt->error_flag;
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, err, &rt->error);
+        rt->error_flag = RJS_FALSE;
+    }
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -294,8 +296,10 @@ rjs_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter)
 
     r = RJS_OK;
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
@@ -325,8 +329,10 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
     RJS_Result  r;
 
     is_err = rt->error_flag;
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, err, &rt->error);
+        rt->error_flag = RJS_FALSE;
+    }
 
     if ((r = rjs_get_method(rt, iter->iterator, rjs_pn_return(rt), ret)) == RJS_ERR)
         goto end;
@@ -342,8 +348,10 @@ rjs_async_iterator_close (RJS_Runtime *rt, RJS_Iterator *iter, RJS_AsyncOpFunc o
     if (op)
         r = rjs_await(rt, res, op, ip, vp);
 end:
-    if (is_err)
+    if (is_err) {
         rjs_value_copy(rt, &rt->error, err);
+        rt->error_flag = RJS_TRUE;
+    }
 
     rjs_value_stack_restore(rt, top);
     return r;
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 80a7db9..c05b537 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -6904,6 +6904,7 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
     RJS_AstTryStmt *stmt;
     size_t          top = rjs_value_stack_save(rt);
     RJS_Value      *tmp = rjs_value_stack_push(rt);
+    RJS_Bool        is_pushed = RJS_FALSE;
     RJS_Result      r   = RJS_ERR;
 
     /*Try block.*/
@@ -6916,9 +6917,9 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
     stmt->catch_decl = NULL;
 
     break_push(rt, &stmt->break_js, &stmt->ast);
-    r = parse_block(rt, &stmt->try_block);
-    break_pop(rt);
-    if (r == RJS_ERR)
+    is_pushed = RJS_TRUE;
+
+    if ((r = parse_block(rt, &stmt->try_block)) == RJS_ERR)
         goto end;
 
     /*Catch block.*/
@@ -6992,6 +6993,8 @@ parse_try_stmt (RJS_Runtime *rt, RJS_Value *vs)
 
     r = RJS_OK;
 end:
+    if (is_pushed)
+        break_pop(rt);
     rjs_value_stack_restore(rt, top);
     return r;
 }
-- 
2.43.0


From 4f9d8c24bcb8c00b0b8e4e3a675674e30a06bbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 46/67] fix: parenthesized targets in patterns, shadowing in
 loop bodies, folding of constant conditions

---
 src/lib/rjs_parser.c | 57 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index c05b537..da58e05 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -2462,8 +2462,8 @@ check_lh_expr (RJS_Runtime *rt, RJS_Value *v)
         break;
     case RJS_AST_ObjectBinding:
     case RJS_AST_ArrayBinding:
-    case RJS_AST_ParenthesesExpr:
         break;
+    case RJS_AST_ParenthesesExpr:
     default:
         r = check_simple_assi_target(rt, v);
         break;
@@ -3103,6 +3103,20 @@ expr_to_binding (RJS_Runtime *rt, RJS_Ast *e, RJS_Value *b, RJS_Bool is_binding)
             goto end;
         break;
     }
+    case RJS_AST_ParenthesesExpr:
+        /*A simple assignment target in parentheses.*/
+        if (!is_binding) {
+            while (e->type == RJS_AST_ParenthesesExpr)
+                e = ast_get(rt, &((RJS_AstUnaryExpr*)e)->operand);
+
+            if ((e->type == RJS_AST_Id) || (e->type == RJS_AST_MemberExpr)
+                    || (e->type == RJS_AST_SuperMemberExpr)
+                    || (e->type == RJS_AST_PrivMemberExpr)) {
+                rjs_value_set_gc_thing(rt, b, e);
+                break;
+            }
+        }
+        /*Fall through.*/
     default:
         parse_error(rt, &e->location, _("illegal binding"));
         r = RJS_ERR;
@@ -3939,6 +3953,27 @@ end:
     return r;
 }
 
+/*
+ * Check if the operand can replace the whole expression.
+ * An identifier, a member expression or an anonymous function has another meaning
+ * when it is the operand of an operator.
+ */
+static RJS_Bool
+is_literal_operand (RJS_Runtime *rt, RJS_Value *v)
+{
+    RJS_Ast *ast = ast_get(rt, v);
+
+    switch (ast->type) {
+    case RJS_AST_ValueExpr:
+    case RJS_AST_True:
+    case RJS_AST_False:
+    case RJS_AST_Null:
+        return RJS_TRUE;
+    default:
+        return RJS_FALSE;
+    }
+}
+
 /*Parse logic and expression.*/
 static RJS_Result
 parse_logic_and_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *vop1)
@@ -3964,7 +3999,7 @@ parse_logic_and_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *
         b = RJS_FALSE;
     }
 
-    if (b == RJS_TRUE) {
+    if ((b == RJS_TRUE) && is_literal_operand(rt, re)) {
         rjs_value_copy(rt, ve, re);
     } else if (b == RJS_FALSE) {
         rjs_value_copy(rt, ve, vop1);
@@ -4012,7 +4047,7 @@ parse_logic_or_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *v
 
     if (b == RJS_TRUE) {
         rjs_value_copy(rt, ve, vop1);
-    } else if (b == RJS_FALSE) {
+    } else if ((b == RJS_FALSE) && is_literal_operand(rt, re)) {
         rjs_value_copy(rt, ve, re);
     } else {
         RJS_AstBinaryExpr *be;
@@ -4053,15 +4088,11 @@ parse_ques_expr (RJS_Runtime *rt, Priority prio, RJS_Value *ve, RJS_Value *vop1)
                 || rjs_value_is_null(rt, &v->ve->value);
     } else if (ast->type == RJS_AST_Null) {
         b = RJS_TRUE;
-    } else if (ast->type == RJS_AST_Id) {
-        RJS_AstId *id = (RJS_AstId*)ast;
-
-        b = rjs_string_equal(rt, &id->identifier->value, rjs_s_undefined(rt));
     }
 
-    if (b == RJS_TRUE) {
+    if ((b == RJS_TRUE) && is_literal_operand(rt, re)) {
         rjs_value_copy(rt, ve, re);
-    } else if (r == RJS_FALSE) {
+    } else if (b == RJS_FALSE) {
         rjs_value_copy(rt, ve, vop1);
     } else {
         RJS_AstBinaryExpr *be;
@@ -4368,9 +4399,9 @@ parse_cond_expr (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vc)
         b = RJS_FALSE;
     }
 
-    if (b == RJS_TRUE) {
+    if ((b == RJS_TRUE) && is_literal_operand(rt, le)) {
         rjs_value_copy(rt, ve, le);
-    } else if (b == RJS_FALSE) {
+    } else if ((b == RJS_FALSE) && is_literal_operand(rt, re)) {
         rjs_value_copy(rt, ve, re);
     } else {
         ce  = ast_new(rt, ve, RJS_AST_CondExpr, &ast->location);
@@ -6635,6 +6666,10 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                     if (he) {
                         RJS_AstDeclItem *ndi = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
 
+                        /*The lexically declared names of the block hide the bound names.*/
+                        if (ndi->type != RJS_AST_DECL_VAR)
+                            continue;
+
                         parse_error(rt, &ndi->ast.location, _("\"%s\" is already defined"),
                                 rjs_string_to_enc_chars(rt, tmp, NULL, NULL));
                         parse_prev_define_note(rt, &di->ast.location);
-- 
2.43.0


From d0780b91709396fbb561195de4fd0aa94add50da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:04 +0000
Subject: [PATCH 47/67] fix: a member expression in an arrow function's
 parameters aborted the engine

---
 src/lib/rjs_parser.c | 49 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index da58e05..8db8eab 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -3066,6 +3066,50 @@ end:
     return r;
 }
 
+/*Check if the assignment pattern can be used as a binding pattern.*/
+static RJS_Bool
+check_binding_pattern (RJS_Runtime *rt, RJS_Ast *e)
+{
+    RJS_AstList *l;
+    RJS_Ast     *item;
+    RJS_Bool     r = RJS_TRUE;
+
+    if (!e)
+        return RJS_TRUE;
+
+    switch (e->type) {
+    case RJS_AST_Id: {
+        RJS_AstId *id = (RJS_AstId*)e;
+
+        r = check_binding_identifier(rt, &e->location, &id->identifier->value);
+        break;
+    }
+    case RJS_AST_ArrayBinding:
+    case RJS_AST_ObjectBinding:
+        l = (RJS_AstList*)e;
+        rjs_list_foreach_c(&l->list, item, RJS_Ast, ln) {
+            RJS_Ast *sub = NULL;
+
+            if (item->type == RJS_AST_BindingElem)
+                sub = ast_get(rt, &((RJS_AstBindingElem*)item)->binding);
+            else if (item->type == RJS_AST_BindingProp)
+                sub = ast_get(rt, &((RJS_AstBindingProp*)item)->binding);
+            else if (item->type == RJS_AST_Rest)
+                sub = ast_get(rt, &((RJS_AstRest*)item)->binding);
+
+            if (!check_binding_pattern(rt, sub))
+                r = RJS_FALSE;
+        }
+        break;
+    default:
+        parse_error(rt, &e->location, _("illegal binding"));
+        r = RJS_FALSE;
+        break;
+    }
+
+    return r;
+}
+
 /*Convert the expression to binding.*/
 static RJS_Result
 expr_to_binding (RJS_Runtime *rt, RJS_Ast *e, RJS_Value *b, RJS_Bool is_binding)
@@ -3087,6 +3131,11 @@ expr_to_binding (RJS_Runtime *rt, RJS_Ast *e, RJS_Value *b, RJS_Bool is_binding)
     case RJS_AST_PrivMemberExpr:
     case RJS_AST_ArrayBinding:
     case RJS_AST_ObjectBinding:
+        if (is_binding && !check_binding_pattern(rt, e)) {
+            r = RJS_ERR;
+            goto end;
+        }
+
         rjs_value_set_gc_thing(rt, b, e);
         break;
     case RJS_AST_Array: {
-- 
2.43.0


From 30b7b042af905745731f150d82afcabbe8e6e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:41 +0000
Subject: [PATCH 48/67] fix: async generators answer queued requests, await
 returned calls and tolerate requests made while completing

---
 src/lib/rjs_bc_gen.c             | 12 ++++++--
 src/lib/rjs_generator_opt.c      | 53 ++++++++++++++++++++------------
 src/lib/rjs_promise_object_inc.c |  8 ++++-
 src/lib/rjs_script.c             |  3 ++
 4 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 992ae93..7188717 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -2644,6 +2644,14 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
     int            rid;
     RJS_Ast       *ast;
     RJS_BcCommand *cmd;
+    RJS_Bool       tco = bg->tco;
+
+#if ENABLE_ASYNC && ENABLE_GENERATOR
+    /*The value returned by an async generator must be awaited.*/
+    if ((bg->func_ast->flags & RJS_AST_FUNC_FL_ASYNC)
+            && (bg->func_ast->flags & RJS_AST_FUNC_FL_GENERATOR))
+        tco = RJS_FALSE;
+#endif /*ENABLE_ASYNC && ENABLE_GENERATOR*/
 
     rid = bc_reg_add(rt, bg);
 
@@ -2668,9 +2676,9 @@ bc_gen_return_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstExprStmt *ts)
             ast = RJS_CONTAINER_OF(list->list.prev, RJS_Ast, ln);
         }
 
-        if ((ast->type == RJS_AST_CallExpr) && bg->tco) {
+        if ((ast->type == RJS_AST_CallExpr) && tco) {
             bc_gen_call_expr(rt, bg, (RJS_AstCall*)ast, rid, RJS_TRUE);
-        } else if ((ast->type == RJS_AST_Template) && bg->tco) {
+        } else if ((ast->type == RJS_AST_Template) && tco) {
             bc_gen_templ_expr(rt, bg, (RJS_AstTemplate*)ast, rid, RJS_TRUE);
         } else {
 #if ENABLE_ASYNC && ENABLE_GENERATOR
diff --git a/src/lib/rjs_generator_opt.c b/src/lib/rjs_generator_opt.c
index 17d9a48..f139614 100644
--- a/src/lib/rjs_generator_opt.c
+++ b/src/lib/rjs_generator_opt.c
@@ -203,34 +203,43 @@ rjs_async_generator_complete_step (RJS_Runtime *rt, RJS_Value *gv, RJS_Generator
 {
     RJS_AsyncGenerator        *ag  = (RJS_AsyncGenerator*)rjs_value_get_object(rt, gv);
     size_t                     top = rjs_value_stack_save(rt);
-    RJS_Value                 *ro  = rjs_value_stack_push(rt);
+    RJS_Value                 *ro    = rjs_value_stack_push(rt);
+    RJS_Value                 *func  = rjs_value_stack_push(rt);
+    RJS_Value                 *value = rjs_value_stack_push(rt);
     RJS_AsyncGeneratorRequest *agr;
 
     assert(!rjs_list_is_empty(&ag->queue));
 
     agr = RJS_CONTAINER_OF(ag->queue.next, RJS_AsyncGeneratorRequest, ln);
 
+    /*Remove the request from the queue before any script can be run.*/
+    rjs_list_remove(&agr->ln);
+    rjs_value_copy(rt, value, rv);
+
     if (type == RJS_GENERATOR_REQUEST_THROW) {
-        rjs_call(rt, agr->capability.reject, rjs_v_undefined(rt), rv, 1, NULL);
+        rjs_value_copy(rt, func, agr->capability.reject);
+        RJS_DEL(rt, agr);
+
+        rjs_call(rt, func, rjs_v_undefined(rt), value, 1, NULL);
     } else {
         assert(type == RJS_GENERATOR_REQUEST_NEXT);
 
+        rjs_value_copy(rt, func, agr->capability.resolve);
+        RJS_DEL(rt, agr);
+
         if (realm) {
             RJS_Realm *old_realm = rjs_realm_current(rt);
 
             rt->rb.bot_realm = realm;
-            rjs_create_iter_result_object(rt, rv, done, ro);
+            rjs_create_iter_result_object(rt, value, done, ro);
             rt->rb.bot_realm = old_realm;
         } else {
-            rjs_create_iter_result_object(rt, rv, done, ro);
+            rjs_create_iter_result_object(rt, value, done, ro);
         }
 
-        rjs_call(rt, agr->capability.resolve, rjs_v_undefined(rt), ro, 1, NULL);
+        rjs_call(rt, func, rjs_v_undefined(rt), ro, 1, NULL);
     }
 
-    rjs_list_remove(&agr->ln);
-
-    RJS_DEL(rt, agr);
     rjs_value_stack_restore(rt, top);
     return RJS_OK;
 }
@@ -338,7 +347,7 @@ async_generator_await_return_fulfill (RJS_Runtime *rt, RJS_Value *f, RJS_Value *
     RJS_AsyncGenerator     *ag  = (RJS_AsyncGenerator*)rjs_value_get_object(rt, &agf->value);
     RJS_Value              *v   = rjs_argument_get(rt, args, argc, 0);
 
-    ag->generator.state = RJS_GENERATOR_STATE_COMPLETED;
+    ag->generator.state = RJS_GENERATOR_STATE_AWAIT_RETURN;
 
     rjs_async_generator_complete_step(rt, &agf->value, RJS_GENERATOR_REQUEST_NEXT, v, RJS_TRUE, NULL);
     rjs_async_generator_drain_queue(rt, &agf->value);
@@ -356,7 +365,7 @@ async_generator_await_return_reject (RJS_Runtime *rt, RJS_Value *f, RJS_Value *t
     RJS_AsyncGenerator     *ag  = (RJS_AsyncGenerator*)rjs_value_get_object(rt, &agf->value);
     RJS_Value              *v   = rjs_argument_get(rt, args, argc, 0);
 
-    ag->generator.state = RJS_GENERATOR_STATE_COMPLETED;
+    ag->generator.state = RJS_GENERATOR_STATE_AWAIT_RETURN;
 
     rjs_async_generator_complete_step(rt, &agf->value, RJS_GENERATOR_REQUEST_THROW, v, RJS_TRUE, NULL);
     rjs_async_generator_drain_queue(rt, &agf->value);
@@ -386,7 +395,7 @@ async_generator_await_return (RJS_Runtime *rt, RJS_Value *gv)
     assert(agr->type == RJS_GENERATOR_REQUEST_RETURN);
 
     if ((r = rjs_promise_resolve(rt, rjs_o_Promise(realm), &agr->value, promise)) == RJS_ERR) {
-        ag->generator.state = RJS_GENERATOR_STATE_COMPLETED;
+        ag->generator.state = RJS_GENERATOR_STATE_AWAIT_RETURN;
 
         rjs_catch(rt, errv);
         rjs_async_generator_complete_step(rt, gv, RJS_GENERATOR_REQUEST_THROW, errv, RJS_TRUE, NULL);
@@ -421,21 +430,27 @@ end:
 RJS_Result
 rjs_async_generator_drain_queue (RJS_Runtime *rt, RJS_Value *gv)
 {
-    RJS_AsyncGenerator        *ag  = (RJS_AsyncGenerator*)rjs_value_get_object(rt, gv);
-    RJS_AsyncGeneratorRequest *agr, *nagr;
+    RJS_AsyncGenerator        *ag = (RJS_AsyncGenerator*)rjs_value_get_object(rt, gv);
+    RJS_AsyncGeneratorRequest *agr;
 
-    assert(ag->generator.state == RJS_GENERATOR_STATE_COMPLETED);
+    /*Requests made by the scripts run while draining are only enqueued.*/
+    assert(ag->generator.state == RJS_GENERATOR_STATE_AWAIT_RETURN);
+
+    while (!rjs_list_is_empty(&ag->queue)) {
+        agr = RJS_CONTAINER_OF(ag->queue.next, RJS_AsyncGeneratorRequest, ln);
 
-    rjs_list_foreach_safe_c(&ag->queue, agr, nagr, RJS_AsyncGeneratorRequest, ln) {
         if (agr->type == RJS_GENERATOR_REQUEST_RETURN) {
-            ag->generator.state = RJS_GENERATOR_STATE_AWAIT_RETURN;
             async_generator_await_return(rt, gv);
-            break;
-        } else {
-            rjs_async_generator_complete_step(rt, gv, agr->type, &agr->value, RJS_TRUE, NULL);
+            return RJS_OK;
         }
+
+        rjs_async_generator_complete_step(rt, gv, agr->type,
+                (agr->type == RJS_GENERATOR_REQUEST_NEXT) ? rjs_v_undefined(rt) : &agr->value,
+                RJS_TRUE, NULL);
     }
 
+    ag->generator.state = RJS_GENERATOR_STATE_COMPLETED;
+
     return RJS_OK;
 }
 
diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 5f6849a..2e31f3f 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -67,8 +67,14 @@ RJS_Result
 if_abrupt_reject_promise (RJS_Runtime *rt, RJS_Result r, RJS_PromiseCapability *pc, RJS_Value *rv)
 {
     if (r == RJS_ERR) {
-        rjs_call(rt, pc->reject, rjs_v_undefined(rt), &rt->error, 1, NULL);
+        size_t     top = rjs_value_stack_save(rt);
+        RJS_Value *err = rjs_value_stack_push(rt);
+
+        rjs_catch(rt, err);
+        rjs_call(rt, pc->reject, rjs_v_undefined(rt), err, 1, NULL);
         rjs_value_copy(rt, rv, pc->promise);
+
+        rjs_value_stack_restore(rt, top);
     }
 
     return r;
diff --git a/src/lib/rjs_script.c b/src/lib/rjs_script.c
index 7cdb799..e4cbc0b 100644
--- a/src/lib/rjs_script.c
+++ b/src/lib/rjs_script.c
@@ -936,6 +936,9 @@ rjs_script_func_call (RJS_Runtime *rt, RJS_ScriptCallType type, RJS_Value *v, RJ
                     rjs_value_copy(rt, rv, &rt->error);
                 }
 
+                /*Requests made while the queue is drained are only enqueued.*/
+                g->state = RJS_GENERATOR_STATE_AWAIT_RETURN;
+
                 rjs_async_generator_complete_step(rt, &ctxt->function, req_type, rv, RJS_TRUE, NULL);
                 rjs_async_generator_drain_queue(rt, &ctxt->function);
 
-- 
2.43.0


From 2006c8ff8e1e4a6e7fdfb6474fb8a3937fe92376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:32 +0000
Subject: [PATCH 49/67] fix: bindings added by eval were resolved through stale
 binding caches

---
 src/lib/rjs_decl_env.c    | 11 +++++++----
 src/lib/rjs_environment.c |  4 ++++
 src/lib/rjs_eval_opt.c    | 11 ++++++-----
 src/lib/rjs_operation.c   | 12 ++++++++----
 4 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/lib/rjs_decl_env.c b/src/lib/rjs_decl_env.c
index 048e29a..e29a513 100644
--- a/src/lib/rjs_decl_env.c
+++ b/src/lib/rjs_decl_env.c
@@ -449,15 +449,18 @@ rjs_decl_env_lookup_binding (RJS_Runtime *rt, RJS_Environment *env, RJS_BindingN
     RJS_HashEntry *he;
     RJS_Result     r;
 
+    str = binding_name_get_string(rt, bn);
+
 #if ENABLE_BINDING_CACHE
-    if (env->cache_enable && !pe && (bn->binding_idx != 0xffff)) {
+    /*The index may have been cached for another environment.*/
+    if (env->cache_enable && !pe && (bn->binding_idx < de->binding_vec.item_num)) {
         *b = de->binding_vec.items[bn->binding_idx];
-        return RJS_TRUE;
+
+        if ((*b)->he.key == str)
+            return RJS_TRUE;
     }
 #endif /*ENABLE_BINDING_CACHE*/
 
-    str = binding_name_get_string(rt, bn);
-
     r = rjs_hash_lookup(&de->binding_hash, str, &he, pe, &rjs_hash_size_ops, rt);
     if (r) {
         *b = RJS_CONTAINER_OF(he, RJS_Binding, he);
diff --git a/src/lib/rjs_environment.c b/src/lib/rjs_environment.c
index d46ecba..b7294a1 100644
--- a/src/lib/rjs_environment.c
+++ b/src/lib/rjs_environment.c
@@ -107,6 +107,10 @@ rjs_env_build_outer_stack (RJS_Runtime *rt, RJS_Environment *env)
             e->back_ref.env = env;
             e->env = outer;
 
+            /*The outer environment's bindings have been changed.*/
+            if (!outer->cache_enable)
+                env->cache_enable = RJS_FALSE;
+
             e ++;
             outer = outer->outer;
         } while (e < le);
diff --git a/src/lib/rjs_eval_opt.c b/src/lib/rjs_eval_opt.c
index fc9ca68..4beb962 100644
--- a/src/lib/rjs_eval_opt.c
+++ b/src/lib/rjs_eval_opt.c
@@ -58,6 +58,7 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
     RJS_ScriptBindingRef *sbr;
     RJS_ScriptFuncDecl   *sfd;
     RJS_Result            r;
+    RJS_Bool              update = RJS_FALSE;
 
     lex_env->script_decl = decl;
 
@@ -174,6 +175,8 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
                 if (!r) {
                     rjs_env_create_mutable_binding(rt, var_env, &sbr->binding_name, RJS_TRUE);
                     rjs_env_initialize_binding(rt, var_env, &sbr->binding_name, tmp);
+
+                    update = RJS_TRUE;
                 } else {
                     rjs_env_set_mutable_binding(rt, var_env, &sbr->binding_name, tmp, RJS_FALSE);
                 }
@@ -182,8 +185,6 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
     }
 
     if (var_grp) {
-        RJS_Bool update = RJS_FALSE;
-
         for (id = var_grp->binding_start;
                 id < var_grp->binding_start + var_grp->binding_num;
                 id ++) {
@@ -208,12 +209,12 @@ rjs_eval_declaration_instantiation (RJS_Runtime *rt,
                 }
             }
         }
+    }
 
 #if ENABLE_BINDING_CACHE
-        if (update)
-            rjs_env_disable_cache(var_env);
+    if (update)
+        rjs_env_disable_cache(var_env);
 #endif /*ENABLE_BINDING_CACHE*/
-    }
 
     r = RJS_OK;
 end:
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 3988ba9..694be3c 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -2069,15 +2069,15 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
     RJS_Result       r;
 
 #if ENABLE_BINDING_CACHE
+    /*Build the outer environment stack. This disables the cache if an outer environment has been changed by "eval".*/
+    if ((bn->env_idx != 0xffff) && bn->env_idx && env->cache_enable && !env->outer_stack)
+        rjs_env_build_outer_stack(rt, env);
+
     if ((bn->env_idx != 0xffff) && env->cache_enable) {
         /*The outer environment is already in cache.*/
         if (bn->env_idx) {
             RJS_EnvStackEntry *ent;
 
-            /*Build the outer environment stack.*/
-            if (!env->outer_stack)
-                rjs_env_build_outer_stack(rt, env);
-
             /*Get the outer environment from the stack directly.*/
             ent = &env->outer_stack[bn->env_idx - 1];
             env = ent->env;
@@ -2095,6 +2095,10 @@ rjs_resolve_binding (RJS_Runtime *rt, RJS_BindingName *bn, RJS_Environment **pe)
             /*Do not cache the binding if go through the "with" block.*/
             if (env->gc_thing.ops->type ==  RJS_GC_THING_OBJECT_ENV)
                 need_cache = RJS_FALSE;
+
+            /*Do not cache the binding if go through an environment changed by "eval".*/
+            if (!env->cache_enable)
+                need_cache = RJS_FALSE;
 #endif /*ENABLE_BINDING_CACHE*/
 
             if ((r = rjs_env_has_binding(rt, env, bn)) == RJS_ERR)
-- 
2.43.0


From b1bebe3a4f21e980b387c85be7624b180abe75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:14 +0000
Subject: [PATCH 50/67] fix: Function.prototype[Symbol.hasInstance] on a
 non-callable receiver aborted the engine

---
 src/lib/rjs_operation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index 694be3c..f04f306 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1235,6 +1235,11 @@ rjs_ordinary_has_instance (RJS_Runtime *rt, RJS_Value *c, RJS_Value *o)
     RJS_Value *t     = rjs_value_stack_push(rt);
     RJS_Result r;
 
+    if (!rjs_is_callable(rt, c)) {
+        r = RJS_FALSE;
+        goto end;
+    }
+
 #if ENABLE_BOUND_FUNC
     if (rjs_value_get_gc_thing_type(rt, c) == RJS_GC_THING_BOUND_FUNC) {
         RJS_BoundFuncObject *bfo;
-- 
2.43.0


From 41ca9863c63b4ef2ef10698e1382aba9b92fae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:54 +0000
Subject: [PATCH 51/67] fix: a static name element of an anonymous class was
 overwritten by the inferred name

---
 include/ratjs/rjs_operation.h | 12 ++++++++++++
 src/lib/rjs_native_stack.c    |  2 +-
 src/lib/rjs_operation.c       | 35 ++++++++++++++++++++++++++++++++++-
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/include/ratjs/rjs_operation.h b/include/ratjs/rjs_operation.h
index 820bdcd..41f138d 100644
--- a/include/ratjs/rjs_operation.h
+++ b/include/ratjs/rjs_operation.h
@@ -1885,6 +1885,18 @@ rjs_test_integrity_level (RJS_Runtime *rt, RJS_Value *o, RJS_IntegrityLevel leve
 extern RJS_Result
 rjs_set_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name, RJS_Value *prefix);
 
+/**
+ * Set the name of an anonymous function or class.
+ * Nothing is done if a static element of the class has already defined the property "name".
+ * \param rt The current runtime.
+ * \param f The function.
+ * \param name The name value.
+ * \retval RJS_OK On success.
+ * \retval RJS_ERR On error.
+ */
+extern RJS_Result
+rjs_set_anonymous_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name);
+
 /**
  * Set the length property of the function.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index 33d250c..f48536d 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1410,7 +1410,7 @@ rjs_object_state_add (RJS_Runtime *rt, RJS_Value *name, RJS_Value *value, RJS_Bo
     assert(s->type == RJS_STATE_OBJECT);
 
     if (is_af)
-        rjs_set_function_name(rt, value, name, NULL);
+        rjs_set_anonymous_function_name(rt, value, name);
 
     if ((r = rjs_to_property_key(rt, name, key)) == RJS_ERR)
         goto end;
diff --git a/src/lib/rjs_operation.c b/src/lib/rjs_operation.c
index f04f306..392d9ff 100644
--- a/src/lib/rjs_operation.c
+++ b/src/lib/rjs_operation.c
@@ -1138,6 +1138,39 @@ rjs_set_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name, RJS_Value
     return r;
 }
 
+/**
+ * Set the name of an anonymous function or class.
+ * Nothing is done if a static element of the class has already defined the property "name".
+ * \param rt The current runtime.
+ * \param f The function.
+ * \param name The name value.
+ * \retval RJS_OK On success.
+ * \retval RJS_ERR On error.
+ */
+RJS_Result
+rjs_set_anonymous_function_name (RJS_Runtime *rt, RJS_Value *f, RJS_Value *name)
+{
+    RJS_PropertyDesc pd;
+    RJS_Result       r;
+
+    rjs_property_desc_init(rt, &pd);
+
+    r = rjs_object_get_own_property(rt, f, rjs_pn_name(rt), &pd);
+    if (r == RJS_OK) {
+        /*Only replace the default name.*/
+        if (rjs_is_data_descriptor(&pd)
+                && !(pd.flags & (RJS_PROP_FL_WRITABLE|RJS_PROP_FL_ENUMERABLE))
+                && rjs_same_value(rt, pd.value, rjs_s_empty(rt)))
+            r = rjs_set_function_name(rt, f, name, NULL);
+    } else if (r == RJS_FALSE) {
+        r = rjs_set_function_name(rt, f, name, NULL);
+    }
+
+    rjs_property_desc_deinit(rt, &pd);
+
+    return r;
+}
+
 /**
  * Set the length property of the function.
  * \param rt The current runtime.
@@ -1839,7 +1872,7 @@ rjs_define_field (RJS_Runtime *rt, RJS_Value *o, RJS_Value *name, RJS_Value *ini
             goto end;
 
         if (is_af)
-            rjs_set_function_name(rt, tmp, name, NULL);
+            rjs_set_anonymous_function_name(rt, tmp, name);
     } else {
         rjs_value_set_undefined(rt, tmp);
     }
-- 
2.43.0


From eeba9d102eacb7c78f577c9e09946b400c252090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:45 +0000
Subject: [PATCH 52/67] fix: values of live WeakMap keys were not kept alive by
 the garbage collector

---
 src/lib/include/rjs_weak_ref.h    | 10 +++++++++
 src/lib/rjs_gc.c                  |  4 ++++
 src/lib/rjs_weak_map_object_inc.c |  1 +
 src/lib/rjs_weak_ref_opt.c        | 34 +++++++++++++++++++++++++++++++
 4 files changed, 49 insertions(+)

diff --git a/src/lib/include/rjs_weak_ref.h b/src/lib/include/rjs_weak_ref.h
index 1e55019..d7134fc 100644
--- a/src/lib/include/rjs_weak_ref.h
+++ b/src/lib/include/rjs_weak_ref.h
@@ -40,9 +40,19 @@ struct RJS_WeakRef_s {
     RJS_List     ln;   /**< List node data.*/
     RJS_Value    base; /**< The base value.*/
     RJS_Value    ref;  /**< The referenced value.*/
+    RJS_Value   *value; /**< The value kept alive while both base and ref are alive.*/
     RJS_WeakRefOnFinalFunc on_final; /**< On final function.*/
 };
 
+/**
+ * Mark the values kept alive by the weak references with live base and referenced value.
+ * \param rt The current runtime.
+ * \retval RJS_TRUE Some values are marked.
+ * \retval RJS_FALSE No value is marked.
+ */
+RJS_INTERNAL RJS_Bool
+rjs_gc_scan_weak_ref_values (RJS_Runtime *rt);
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
diff --git a/src/lib/rjs_gc.c b/src/lib/rjs_gc.c
index bf61cb4..d5d9a23 100644
--- a/src/lib/rjs_gc.c
+++ b/src/lib/rjs_gc.c
@@ -177,6 +177,10 @@ gc_run (RJS_Runtime *rt)
     gc_scan_things(rt);
 
 #if ENABLE_WEAK_REF
+    /*Scan the values of the weak references' live keys.*/
+    while (rjs_gc_scan_weak_ref_values(rt))
+        gc_scan_things(rt);
+
     /*Solve the weak references.*/
     rjs_solve_weak_refs(rt);
 #endif /*ENABLE_WEAK_REF*/
diff --git a/src/lib/rjs_weak_map_object_inc.c b/src/lib/rjs_weak_map_object_inc.c
index 41021b2..e42234f 100644
--- a/src/lib/rjs_weak_map_object_inc.c
+++ b/src/lib/rjs_weak_map_object_inc.c
@@ -184,6 +184,7 @@ static RJS_NF(WeakMap_prototype_set)
         rjs_weak_ref_free(rt, wme->weak_ref);
 
     wme->weak_ref = rjs_weak_ref_add(rt, thiz, k, weak_map_on_final);
+    wme->weak_ref->value = &wme->me.value;
 
     rjs_value_copy(rt, rv, thiz);
     r = RJS_OK;
diff --git a/src/lib/rjs_weak_ref_opt.c b/src/lib/rjs_weak_ref_opt.c
index 5437b46..7cdba73 100644
--- a/src/lib/rjs_weak_ref_opt.c
+++ b/src/lib/rjs_weak_ref_opt.c
@@ -46,6 +46,7 @@ rjs_weak_ref_add (RJS_Runtime *rt, RJS_Value *base, RJS_Value *ref,
     rjs_value_copy(rt, &wr->base, base);
     rjs_value_copy(rt, &wr->ref, ref);
 
+    wr->value    = NULL;
     wr->on_final = on_final;
 
     rjs_list_append(&rt->weak_ref_list, &wr->ln);
@@ -66,6 +67,39 @@ rjs_weak_ref_free (RJS_Runtime *rt, RJS_WeakRef *wr)
     RJS_DEL(rt, wr);
 }
 
+/**
+ * Mark the values kept alive by the weak references with live base and referenced value.
+ * \param rt The current runtime.
+ * \retval RJS_TRUE Some values are marked.
+ * \retval RJS_FALSE No value is marked.
+ */
+RJS_Bool
+rjs_gc_scan_weak_ref_values (RJS_Runtime *rt)
+{
+    RJS_WeakRef *r;
+    RJS_Bool     marked = RJS_FALSE;
+
+    rjs_list_foreach_c(&rt->weak_ref_list, r, RJS_WeakRef, ln) {
+        RJS_GcThing *base_gt, *ref_gt, *value_gt;
+
+        if (!r->value || ((int)rjs_value_get_gc_thing_type(rt, r->value) == -1))
+            continue;
+
+        base_gt  = rjs_value_get_gc_thing(rt, &r->base);
+        ref_gt   = rjs_value_get_gc_thing(rt, &r->ref);
+        value_gt = rjs_value_get_gc_thing(rt, r->value);
+
+        if ((base_gt->next_flags & RJS_GC_THING_FL_MARKED)
+                && (ref_gt->next_flags & RJS_GC_THING_FL_MARKED)
+                && !(value_gt->next_flags & RJS_GC_THING_FL_MARKED)) {
+            rjs_gc_mark(rt, value_gt);
+            marked = RJS_TRUE;
+        }
+    }
+
+    return marked;
+}
+
 /**
  * Solve the weak references in the rt.
  * \param rt The current runtime.
-- 
2.43.0


From 924a39905f2d45d004094a09af278c95e55500e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:37 +0000
Subject: [PATCH 53/67] fix: registrations sharing an unregister token replaced
 each other

---
 src/lib/include/rjs_finalization_registry.h |  2 -
 src/lib/rjs_finalization_registry_opt.c     | 72 ++++++---------------
 2 files changed, 19 insertions(+), 55 deletions(-)

diff --git a/src/lib/include/rjs_finalization_registry.h b/src/lib/include/rjs_finalization_registry.h
index 6ce30c0..5919d43 100644
--- a/src/lib/include/rjs_finalization_registry.h
+++ b/src/lib/include/rjs_finalization_registry.h
@@ -38,13 +38,11 @@ extern "C" {
 /**Finalization registry.*/
 typedef struct {
     RJS_Object  object;  /**< The base object data.*/
-    RJS_Hash    cb_hash; /**< The callback hash table.*/
     RJS_Value   func;    /**< The callback function.*/
 } RJS_FinalizationRegistry;
 
 /**Finalization callback.*/
 typedef struct {
-    RJS_HashEntry he;       /**< Hash table entry.*/
     RJS_List      ln;       /**< List node data.*/
     RJS_Value     registry; /**< The registry.*/
     RJS_Value     target;   /**< The target value.*/
diff --git a/src/lib/rjs_finalization_registry_opt.c b/src/lib/rjs_finalization_registry_opt.c
index 3dffa7b..4fd9c11 100644
--- a/src/lib/rjs_finalization_registry_opt.c
+++ b/src/lib/rjs_finalization_registry_opt.c
@@ -61,9 +61,6 @@ rjs_gc_scan_finalization_registry (RJS_Runtime *rt)
     rjs_list_foreach_c(&rt->final_cb_list, fcb, RJS_FinalizationCallback, ln) {
         rjs_gc_scan_value(rt, &fcb->registry);
         rjs_gc_scan_value(rt, &fcb->held);
-
-        if (!rjs_same_value(rt, &fcb->target, &fcb->token))
-            rjs_gc_scan_value(rt, &fcb->token);
     }
 }
 
@@ -131,19 +128,15 @@ rjs_solve_finalization_registry (RJS_Runtime *rt)
             rjs_job_enqueue(rt, finalization_func, realm, finalization_scan, finalization_free, f);
 
             /*Remove the finalization entry.*/
-            if (!rjs_value_is_undefined(rt, &fcb->token)) {
-                RJS_HashEntry *he, **phe;
-                RJS_Result     r;
-
-                r = rjs_hash_lookup(&fr->cb_hash, &fcb->token, &he, &phe, &rjs_hash_value_ops, rt);
-                if (r) {
-                    rjs_hash_remove(&fr->cb_hash, phe, rt);
-                }
-            }
-
             rjs_list_remove(&fcb->ln);
 
             RJS_DEL(rt, fcb);
+        } else if (!rjs_value_is_undefined(rt, &fcb->token)) {
+            gt = rjs_value_get_gc_thing(rt, &fcb->token);
+
+            /*The token is held weakly.*/
+            if (!(gt->next_flags & RJS_GC_THING_FL_MARKED))
+                rjs_value_set_undefined(rt, &fcb->token);
         }
     }
 }
@@ -167,8 +160,6 @@ finalization_registry_op_gc_free (RJS_Runtime *rt, void *ptr)
 
     rjs_object_deinit(rt, &fr->object);
 
-    rjs_hash_deinit(&fr->cb_hash, &rjs_hash_value_ops, rt);
-
     RJS_DEL(rt, fr);
 }
 
@@ -207,12 +198,10 @@ rjs_finalization_registry_new (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *
     RJS_NEW(rt, fr);
 
     rjs_value_copy(rt, &fr->func, func);
-    rjs_hash_init(&fr->cb_hash);
 
     r = rjs_ordinary_init_from_constructor(rt, &fr->object, nt,
             RJS_O_FinalizationRegistry_prototype, &finalization_registry_ops, registry);
     if (r == RJS_ERR) {
-        rjs_hash_deinit(&fr->cb_hash, &rjs_hash_value_ops, rt);
         RJS_DEL(rt, fr);
         return r;
     }
@@ -234,9 +223,7 @@ RJS_Result
 rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *target,
         RJS_Value *held, RJS_Value *token)
 {
-    RJS_FinalizationRegistry *fr;
-    RJS_HashEntry            *he, **phe = NULL;
-    RJS_FinalizationCallback *fcb = NULL;
+    RJS_FinalizationCallback *fcb;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -252,27 +239,9 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
             return rjs_throw_type_error(rt, _("unregister token cannot be held weakly"));
     }
 
-    fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
-
-    if (!rjs_value_is_undefined(rt, token)) {
-        RJS_Result r;
-
-        r = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
-
-        if (r)
-            fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
-    }
-
-    if (!fcb) {
-        RJS_NEW(rt, fcb);
-
-        rjs_value_copy(rt, &fcb->token, token);
+    RJS_NEW(rt, fcb);
 
-        rjs_list_append(&rt->final_cb_list, &fcb->ln);
-
-        if (!rjs_value_is_undefined(rt, token))
-            rjs_hash_insert(&fr->cb_hash, &fcb->token, &fcb->he, phe, &rjs_hash_value_ops, rt);
-    }
+    rjs_list_append(&rt->final_cb_list, &fcb->ln);
 
     rjs_value_copy(rt, &fcb->registry, registry);
     rjs_value_copy(rt, &fcb->target, target);
@@ -293,10 +262,8 @@ rjs_finalization_register (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *targ
 RJS_Result
 rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *token)
 {
-    RJS_FinalizationRegistry *fr;
-    RJS_FinalizationCallback *fcb;
-    RJS_Result                r;
-    RJS_HashEntry            *he, **phe;
+    RJS_FinalizationCallback *fcb, *nfcb;
+    RJS_Result                r = RJS_FALSE;
 
     if (rjs_value_get_gc_thing_type(rt, registry) != RJS_GC_THING_FINALIZATION_REGISTRY)
         return rjs_throw_type_error(rt, _("the value is not a finalization registry"));
@@ -304,16 +271,15 @@ rjs_finalization_unregister (RJS_Runtime *rt, RJS_Value *registry, RJS_Value *to
     if (!rjs_can_be_held_weakly(rt, token))
         return rjs_throw_type_error(rt, _("the unregister token cannot be held weakly"));
 
-    fr = (RJS_FinalizationRegistry*)rjs_value_get_object(rt, registry);
-    r  = rjs_hash_lookup(&fr->cb_hash, token, &he, &phe, &rjs_hash_value_ops, rt);
-    if (!r)
-        return RJS_FALSE;
+    rjs_list_foreach_safe_c(&rt->final_cb_list, fcb, nfcb, RJS_FinalizationCallback, ln) {
+        if (rjs_same_value(rt, &fcb->registry, registry) && rjs_same_value(rt, &fcb->token, token)) {
+            rjs_list_remove(&fcb->ln);
 
-    fcb = RJS_CONTAINER_OF(he, RJS_FinalizationCallback, he);
+            RJS_DEL(rt, fcb);
 
-    rjs_hash_remove(&fr->cb_hash, phe, rt);
-    rjs_list_remove(&fcb->ln);
+            r = RJS_TRUE;
+        }
+    }
 
-    RJS_DEL(rt, fcb);
-    return RJS_TRUE;
+    return r;
 }
-- 
2.43.0


From ac035b1e2f8a498979dbaacf3605c44bc406e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:56 +0000
Subject: [PATCH 54/67] fix: the target of a WeakRef could be collected in the
 job that had observed it

---
 src/lib/include/rjs_runtime.h     |  1 +
 src/lib/rjs_job.c                 |  6 +++++-
 src/lib/rjs_weak_ref_object_inc.c | 10 ++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/lib/include/rjs_runtime.h b/src/lib/include/rjs_runtime.h
index 2bbae00..d3d2a3c 100644
--- a/src/lib/include/rjs_runtime.h
+++ b/src/lib/include/rjs_runtime.h
@@ -62,6 +62,7 @@ struct RJS_Runtime_s {
     RJS_Parser      *parser;               /**< The parser.*/
     RJS_Environment *env;                  /**< The environment.*/
     RJS_List         job_list;             /**< Job list.*/
+    size_t           job_count;            /**< Number of the current job.*/
     RJS_ModuleLookupFunc mod_lookup_func;  /**< Module lookup function.*/
     RJS_ModuleLoadFunc   mod_load_func;    /**< Module load function.*/
     RJS_NativeData   native_data;          /**< Native data of the runtime.*/
diff --git a/src/lib/rjs_job.c b/src/lib/rjs_job.c
index a23bf94..9ad3de3 100644
--- a/src/lib/rjs_job.c
+++ b/src/lib/rjs_job.c
@@ -81,7 +81,8 @@ rjs_solve_jobs (RJS_Runtime *rt)
         rjs_list_foreach_safe_c(&rt->job_list, j, nj, RJS_Job, ln) {
 
             rt->rb.bot_realm = j->realm;
-            
+            rt->job_count ++;
+
             j->func(rt, j->data);
 
             rjs_list_remove(&j->ln);
@@ -91,6 +92,7 @@ rjs_solve_jobs (RJS_Runtime *rt)
     }
 
     rt->rb.bot_realm = old_realm;
+    rt->job_count ++;
 }
 
 /**
@@ -101,6 +103,8 @@ void
 rjs_runtime_job_init (RJS_Runtime *rt)
 {
     rjs_list_init(&rt->job_list);
+
+    rt->job_count = 0;
 }
 
 /**
diff --git a/src/lib/rjs_weak_ref_object_inc.c b/src/lib/rjs_weak_ref_object_inc.c
index 7aba0e6..3521b86 100644
--- a/src/lib/rjs_weak_ref_object_inc.c
+++ b/src/lib/rjs_weak_ref_object_inc.c
@@ -30,6 +30,7 @@ typedef struct {
     RJS_Object   object;   /**< Base object.*/
     RJS_WeakRef *weak_ref; /**< The weak reference.*/
     RJS_Value    target;   /**< The target object.*/
+    size_t       job;      /**< The target is kept alive until the end of this job.*/
 } RJS_WeakRefObject;
 
 /*Scan the reference things in the weak reference object.*/
@@ -39,6 +40,9 @@ weak_ref_op_gc_scan (RJS_Runtime *rt, void *ptr)
     RJS_WeakRefObject *wro = ptr;
 
     rjs_object_op_gc_scan(rt, &wro->object);
+
+    if (wro->job == rt->job_count)
+        rjs_gc_scan_value(rt, &wro->target);
 }
 
 /*Free the weak reference object.*/
@@ -47,6 +51,8 @@ weak_ref_op_gc_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_WeakRefObject *wro = ptr;
 
+    rjs_object_deinit(rt, &wro->object);
+
     RJS_DEL(rt, wro);
 }
 
@@ -89,6 +95,7 @@ static RJS_NF(WeakRef_constructor)
 
     rjs_value_copy(rt, &wro->target, target);
     wro->weak_ref = NULL;
+    wro->job      = rt->job_count;
 
     r = rjs_ordinary_init_from_constructor(rt, &wro->object, nt, RJS_O_WeakRef_prototype, &weak_ref_ops, rv);
     if (r == RJS_ERR) {
@@ -134,6 +141,9 @@ static RJS_NF(WeakRef_prototype_deref)
 
     rjs_value_copy(rt, rv, &wro->target);
 
+    /*Keep the target alive until the end of the current job.*/
+    wro->job = rt->job_count;
+
     r = RJS_OK;
 end:
     return r;
-- 
2.43.0


From ea1c1f1f118bfec8f39b7d0a71af177b781d509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:50 +0000
Subject: [PATCH 55/67] fix: a syntax error on a lone private identifier
 corrupted the parser's node lists

---
 src/lib/rjs_parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 8db8eab..0e2c2d4 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -5030,6 +5030,8 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
         if (!(parser->flags & RJS_PARSE_FL_IN)
                     || !token_is_identifier(ntok->type, ntok->flags, RJS_IDENTIFIER_in)) {
             parse_unexpect_error(rt, &tok->location, _("`in\'"));
+            r = RJS_ERR;
+            goto end;
         } else if (prio > PRIO_REL) {
             parse_error(rt, &tok->location, _("unexpected relational expression"));
         }
-- 
2.43.0


From 506478a8cd8533343f54b47fd09be9965ac3ec3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:35 +0000
Subject: [PATCH 56/67] fix: invalid rest elements, declarations, arrow
 parameters and new expressions were accepted by the parser

---
 gen/ast/ast.json     |   3 +-
 src/lib/rjs_parser.c | 102 +++++++++++++++++++++++++++++++++++++------
 2 files changed, 91 insertions(+), 14 deletions(-)

diff --git a/gen/ast/ast.json b/gen/ast/ast.json
index 0efbd04..5160d10 100644
--- a/gen/ast/ast.json
+++ b/gen/ast/ast.json
@@ -229,7 +229,8 @@
             "ConstDecl"
         ],
         "members": {
-            "list": "RJS_List"
+            "list": "RJS_List",
+            "comma_after_spread": "RJS_Bool"
         }
     },
     "Template": {
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 0e2c2d4..050ae93 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -2131,7 +2131,10 @@ check_simple_assi_target (RJS_Runtime *rt, RJS_Value *v)
 
     r = check_simple_assi_target_internal(rt, v);
 
-    if (!r) {
+    if (r) {
+        /*The base and the property of a member are normal expressions.*/
+        r = check_expr(rt, v);
+    } else {
         RJS_Ast *ast = ast_get(rt, v);
 
         parse_error(rt, &ast->location,
@@ -3013,10 +3016,20 @@ object_to_binding (RJS_Runtime *rt, RJS_AstList *o, RJS_Value *b, RJS_Bool is_bi
 
     ob = ast_new(rt, b, RJS_AST_ObjectBinding, &o->ast.location);
 
+    if (o->comma_after_spread)
+        parse_error(rt, &o->ast.location, _("`...\' must be the last element"));
+
     rjs_list_foreach_c(&o->list, ast, RJS_Ast, ln) {
         switch (ast->type) {
         case RJS_AST_SpreadExpr: {
-            RJS_AstUnaryExpr *ue = (RJS_AstUnaryExpr*)ast;
+            RJS_AstUnaryExpr *ue   = (RJS_AstUnaryExpr*)ast;
+            RJS_Ast          *rest = ast_get(rt, &ue->operand);
+
+            if ((rest->type == RJS_AST_Array) || (rest->type == RJS_AST_Object)) {
+                parse_error(rt, &rest->location, _("illegal binding"));
+                r = RJS_ERR;
+                goto end;
+            }
 
             if ((r = spread_to_rest(rt, ue, tmp, is_binding)) == RJS_ERR)
                 goto end;
@@ -3044,6 +3057,9 @@ object_to_binding (RJS_Runtime *rt, RJS_AstList *o, RJS_Value *b, RJS_Bool is_bi
             } else {
                 RJS_AstValueExpr *ve = ast_get(rt, &p->name);
 
+                if (is_binding)
+                    check_binding_identifier(rt, &ast->location, &ve->ve->value);
+
                 id_new(rt, &bp->binding, &ast->location, &ve->ve->value);
             }
 
@@ -3263,6 +3279,7 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
     RJS_AstList      *ce       = NULL;
     RJS_Bool          has_rest = RJS_FALSE;
     RJS_Bool          is_arrow = RJS_FALSE;
+    RJS_Bool          trailing = RJS_FALSE;
     size_t            top      = rjs_value_stack_save(rt);
     RJS_Value        *tmp      = rjs_value_stack_push(rt);
 
@@ -3277,8 +3294,10 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
 
     while (1) {
         tok = get_token(rt);
-        if (tok->type == RJS_TOKEN_rparenthese)
+        if (tok->type == RJS_TOKEN_rparenthese) {
+            trailing = RJS_TRUE;
             break;
+        }
         if (tok->type == RJS_TOKEN_END) {
             parse_unexpect_token_error(rt, &tok->location, RJS_TOKEN_rparenthese, 0);
             r = RJS_ERR;
@@ -3349,8 +3368,8 @@ parse_parentheses_or_params (RJS_Runtime *rt, RJS_Value *ve, int prio)
         rjs_value_copy(rt, ve, tmp);
     } else
 #endif /*ENABLE_ARROW_FUNC*/
-    if (has_rest || !ce) {
-        /*() or (...) must be an arrow parameter.*/
+    if (has_rest || trailing || !ce) {
+        /*(), (...) or (a,) must be an arrow parameter.*/
         parse_unexpect_token_error(rt, &ntok->location, RJS_TOKEN_eq_gt, 0);
         r = RJS_ERR;
         goto end;
@@ -3476,7 +3495,11 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
     tok = curr_token(rt);
     o   = ast_new(rt, vo, RJS_AST_Object, &tok->location);
 
+    o->comma_after_spread = RJS_FALSE;
+
     while (1) {
+        RJS_Bool is_spread = RJS_FALSE;
+
         tok = get_token(rt);
 
         if (tok->type == RJS_TOKEN_rbrace)
@@ -3493,6 +3516,8 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
 
             ue = ast_new(rt, tmp1, RJS_AST_SpreadExpr, &tok->location);
 
+            is_spread = RJS_TRUE;
+
             r = parse_expr_in_prio(rt, PRIO_ASSI, &ue->operand);
             if (r == RJS_OK)
                 rjs_list_append(&o->list, &ue->ast.ln);
@@ -3616,6 +3641,9 @@ parse_object_literal (RJS_Runtime *rt, RJS_Value *vo)
         if (tok->type != RJS_TOKEN_comma) {
             parse_unexpect_error(rt, &tok->location, _("`,\' or `}\'"));
             recover_object(rt);
+        } else if (is_spread) {
+            /*The object cannot be converted to a pattern.*/
+            o->comma_after_spread = RJS_TRUE;
         }
     }
 
@@ -3911,6 +3939,9 @@ parse_new_expr (RJS_Runtime *rt, RJS_Value *ve)
             goto end;
 
         loc_update_last_ast(rt, &ne->ast.location, &ne->func);
+
+        if (next_token_div(rt)->type == RJS_TOKEN_ques_dot)
+            parse_error(rt, &loc, _("`new\' without arguments cannot be followed by an optional chain"));
     } else {
         RJS_AstCall *ne;
 
@@ -3929,6 +3960,8 @@ parse_new_expr (RJS_Runtime *rt, RJS_Value *ve)
                 goto end;
 
             loc_update_last_token(rt, &ne->ast.location);
+        } else if (tok->type == RJS_TOKEN_ques_dot) {
+            parse_error(rt, &tok->location, _("`new\' without arguments cannot be followed by an optional chain"));
         }
     }
 
@@ -5152,14 +5185,19 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_false)) {
             ast_new(rt, tmp1, RJS_AST_False, &tok->location);
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_super)) {
-            last_prio = PRIO_LH;
-
-            if (last_prio < prio)
-                parse_error(rt, &tok->location, _("unexpected left hand expression"));
+            RJS_Ast *super;
 
             unget_token(rt);
             if ((r = parse_super_expr(rt, tmp1)) == RJS_ERR)
                 goto end;
+
+            super = ast_get(rt, tmp1);
+            if (super->type == RJS_AST_SuperCallExpr) {
+                last_prio = PRIO_LH;
+
+                if (last_prio < prio)
+                    parse_error(rt, &super->location, _("unexpected left hand expression"));
+            }
         } else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_new)) {
             last_prio = PRIO_NEW;
 
@@ -5319,7 +5357,7 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
             break;
         }
         case RJS_TOKEN_ques_dot: {
-            if (last_prio < PRIO_LH)
+            if ((last_prio < PRIO_LH) || (prio > PRIO_LH))
                 goto ok;
 
             last_prio = PRIO_LH;
@@ -5920,9 +5958,10 @@ parse_object_binding_pattern (RJS_Runtime *rt, RJS_Value *vb)
 {
     RJS_Token   *tok, *ntok;
     RJS_AstList *ob;
-    RJS_Result   r   = RJS_ERR;
-    size_t       top = rjs_value_stack_save(rt);
-    RJS_Value   *tmp = rjs_value_stack_push(rt);
+    RJS_Result   r        = RJS_ERR;
+    RJS_Bool     has_rest = RJS_FALSE;
+    size_t       top      = rjs_value_stack_save(rt);
+    RJS_Value   *tmp      = rjs_value_stack_push(rt);
 
     tok = curr_token(rt);
     ob  = ast_new(rt, vb, RJS_AST_ObjectBinding, &tok->location);
@@ -5953,6 +5992,8 @@ parse_object_binding_pattern (RJS_Runtime *rt, RJS_Value *vb)
                 id_new(rt, &rest->binding, &tok->location, tok->value);
 
                 rjs_list_append(&ob->list, &rest->ast.ln);
+
+                has_rest = RJS_TRUE;
             }
         } else {
             RJS_Bool            is_prop = RJS_TRUE;
@@ -6038,6 +6079,8 @@ parse_object_binding_pattern (RJS_Runtime *rt, RJS_Value *vb)
         if (tok->type != RJS_TOKEN_comma) {
             parse_unexpect_error(rt, &tok->location, _("`,\' or `}\'"));
             recover_object(rt);
+        } else if (has_rest) {
+            parse_error(rt, &tok->location, _("`...\' must be the last element"));
         }
     }
 
@@ -6327,6 +6370,24 @@ end:
     return r;
 }
 
+/*Check if the declarations of a normal "for" statement are initialized.*/
+static void
+check_for_decl_init (RJS_Runtime *rt, RJS_AstDeclType dtype, RJS_Value *vl)
+{
+    RJS_AstList        *l = ast_get(rt, vl);
+    RJS_AstBindingElem *be;
+
+    rjs_list_foreach_c(&l->list, be, RJS_AstBindingElem, ast.ln) {
+        RJS_Ast *b = ast_get(rt, &be->binding);
+
+        if (ast_get(rt, &be->init))
+            continue;
+
+        if ((dtype == RJS_AST_DECL_STRICT) || (b && (b->type != RJS_AST_Id)))
+            parse_error(rt, &be->ast.location, _("missing initializer in the declaration"));
+    }
+}
+
 /*Parse the variable statement.*/
 static RJS_Result
 parse_var_stmt (RJS_Runtime *rt, RJS_Value *vs)
@@ -6486,6 +6547,7 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
     RJS_Result      r           = RJS_ERR;
     RJS_Bool        is_decl     = RJS_FALSE;
     RJS_Bool        is_async_of = RJS_FALSE;
+    RJS_Bool        is_let      = RJS_FALSE;
     RJS_AstDeclType dtype       = RJS_AST_DECL_LET;
     size_t          top         = rjs_value_stack_save(rt);
     RJS_Value      *tmp         = rjs_value_stack_push(rt);
@@ -6508,6 +6570,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                 func->flags |= RJS_AST_FUNC_FL_ASYNC;
 
             stmt->ast.type = RJS_AST_AwaitForOfStmt;
+
+            contains_list_add(rt, RJS_AST_AwaitExprRef, &tok->location);
         } else {
             unget_token(rt);
         }
@@ -6564,6 +6628,8 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
             if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_async)
                     && token_is_identifier(ntok->type, ntok->flags, RJS_IDENTIFIER_of))
                 is_async_of = RJS_TRUE;
+            else if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_let))
+                is_let = RJS_TRUE;
 
             unget_token(rt);
 
@@ -6622,6 +6688,9 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
                 parse_error(rt, &es->ast.location, _("`async\' is disallowed when followed by `of\' in for-of statement"));
             }
 
+            if (token_is_identifier(tok->type, tok->flags, RJS_IDENTIFIER_of) && is_let)
+                parse_error(rt, &es->ast.location, _("`let\' is disallowed as the start of the expression before `of\'"));
+
             expr_to_lh(rt, &es->expr, tmp);
             rjs_value_copy(rt, &es->expr, tmp);
         }
@@ -6637,6 +6706,9 @@ parse_for_stmt (RJS_Runtime *rt, RJS_Value *vs)
         if (stmt->ast.type == RJS_AST_AwaitForOfStmt)
             parse_unexpect_token_error(rt, &tok->location, RJS_TOKEN_IDENTIFIER, RJS_IDENTIFIER_of);
 
+        if (is_decl)
+            check_for_decl_init(rt, dtype, &stmt->init);
+
         tok = get_token(rt);
         if (tok->type != RJS_TOKEN_semicolon) {
             unget_token(rt);
@@ -8269,11 +8341,15 @@ parse_class_element (RJS_Runtime *rt, RJS_Bool is_static, RJS_AstClass *c)
 
             func->flags |= RJS_AST_FUNC_FL_CLASS_FIELD_INIT;
 
+            parser->flags &= ~(RJS_PARSE_FL_AWAIT|RJS_PARSE_FL_YIELD);
+
             es = ast_new(rt, vstmt, RJS_AST_ReturnStmt, &func->ast.location);
             r  = parse_expr_in_prio(rt, PRIO_ASSI, &es->expr);
 
             contains_list_check(rt, CONTAINS_FL_SUPER_CALL|CONTAINS_FL_ARGUMENTS);
 
+            parser->flags = old_flags;
+
             func_pop(rt);
             contains_list_pop(rt, RJS_FALSE);
 
-- 
2.43.0


From eadcbb4099903cffe6ffd8722cd10284eb34fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:27 +0000
Subject: [PATCH 57/67] fix: an empty or too large code point escape was
 accepted

---
 src/lib/rjs_lex.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 343a7ca..567368e 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -243,6 +243,7 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
 {
     int c;
     int i, n, v = 0;
+    RJS_Bool has_digit = RJS_FALSE;
     RJS_Location loc;
 
     c = lex_get_uc(rt, lex);
@@ -262,6 +263,16 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
 
             if (c == '}') {
                 lex_append_uc(rt, lex, c);
+
+                if (!has_digit) {
+                    rjs_input_get_location(lex->input, &loc);
+                    if (is_templ)
+                        lex_warning(rt, lex, &loc, _("illegal hexadecimal escape character"));
+                    else
+                        lex_error(rt, lex, &loc, _("illegal hexadecimal escape character"));
+
+                    v = -1;
+                }
                 break;
             }
 
@@ -269,6 +280,8 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
                 return -1;
             lex_append_uc(rt, lex, c);
 
+            has_digit = RJS_TRUE;
+
             v <<= 4;
             v |= n;
 
@@ -278,8 +291,8 @@ lex_unicode_escape (RJS_Runtime *rt, RJS_Lex *lex, RJS_Bool is_templ)
                     lex_warning(rt, lex, &loc, _("code point must <= 0x10ffff"));
                 else
                     lex_error(rt, lex, &loc, _("code point must <= 0x10ffff"));
-                    
-                v = -1;
+
+                return -1;
             }
         }
     } else {
-- 
2.43.0


From 52b57b52b9d993be241901df4058e1bcb0a36012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:13 +0000
Subject: [PATCH 58/67] fix: private names in object literals crashed the
 parser; redeclared functions, setter rest parameters, legacy octals in strict
 code and await in nested async arrows were misjudged

---
 src/lib/include/rjs_lex.h |  2 +-
 src/lib/rjs_lex.c         |  2 ++
 src/lib/rjs_parser.c      | 54 ++++++++++++++++++++++++++++++++++++---
 3 files changed, 54 insertions(+), 4 deletions(-)

diff --git a/src/lib/include/rjs_lex.h b/src/lib/include/rjs_lex.h
index 848def7..f08e324 100644
--- a/src/lib/include/rjs_lex.h
+++ b/src/lib/include/rjs_lex.h
@@ -68,7 +68,7 @@ typedef enum {
 #define RJS_TOKEN_FL_INVALIE_ESCAPE     0x2000
 /**The string has unpaired surrogate character in it.*/
 #define RJS_TOKEN_FL_UNPAIRED_SURROGATE 0x4000
-/**The string has legacy escape sequence.*/
+/**The string has legacy escape sequence, or the number is a legacy one.*/
 #define RJS_TOKEN_FL_LEGACY_ESCAPE      0x8000
 
 /**Token.*/
diff --git a/src/lib/rjs_lex.c b/src/lib/rjs_lex.c
index 567368e..48ee20e 100644
--- a/src/lib/rjs_lex.c
+++ b/src/lib/rjs_lex.c
@@ -714,6 +714,8 @@ int_end:
     if (no_sep) {
         RJS_Parser *parser = rt->parser;
 
+        token->flags |= RJS_TOKEN_FL_LEGACY_ESCAPE;
+
         if (parser && (parser->flags & RJS_PARSE_FL_STRICT)) {
             rjs_input_get_position(lex->input,
                     &token->location.last_line,
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 050ae93..b2747e6 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -631,7 +631,10 @@ decl_item_add (RJS_Runtime *rt, RJS_AstDeclType type, RJS_Location *loc,
                     var_di = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
 
                     if ((var_di->type != RJS_AST_DECL_VAR)
-                            && (var_di->type != RJS_AST_DECL_PARAMETER)) {
+                            && (var_di->type != RJS_AST_DECL_PARAMETER)
+                            && !((var_di->type == RJS_AST_DECL_FUNCTION)
+                                && !(func->flags & RJS_AST_FUNC_FL_MODULE)
+                                && ((decl == func->lex_decl) || (decl == func->var_decl)))) {
                         parse_error(rt, loc, _("\"%s\" is already defined"),
                                 rjs_string_to_enc_chars(rt, id, NULL, NULL));
                     } else {
@@ -845,6 +848,24 @@ contains_list_pop (RJS_Runtime *rt, RJS_Bool join)
     parser->contains_list_stack = bot;
 }
 
+#if ENABLE_ARROW_FUNC && ENABLE_ASYNC
+
+/*Remove the await expressions from the top contains list.*/
+static void
+contains_list_remove_await (RJS_Runtime *rt)
+{
+    RJS_Parser               *parser = rt->parser;
+    RJS_AstContainsListStack *cls    = parser->contains_list_stack;
+    RJS_Ast                  *n, *nn;
+
+    rjs_list_foreach_safe_c(&cls->list, n, nn, RJS_Ast, ln) {
+        if (n->type == RJS_AST_AwaitExprRef)
+            rjs_list_remove(&n->ln);
+    }
+}
+
+#endif /*ENABLE_ARROW_FUNC && ENABLE_ASYNC*/
+
 /*Add a node to the contains list.*/
 static void
 contains_list_add (RJS_Runtime *rt, RJS_AstType type, RJS_Location *loc)
@@ -967,7 +988,7 @@ no_strict_list_pop (RJS_Runtime *rt, RJS_Bool is_func, RJS_Bool join)
                             rjs_string_to_enc_chars(rt, &v->value, NULL, NULL));
                 } else if (v->ast.type == RJS_AST_StrRef) {
                     rjs_parse_error(rt, &v->ast.location,
-                            _("legacy escape character cannot be used in strict mode"));
+                            _("legacy escape character or number cannot be used in strict mode"));
                 }
             }
         }
@@ -4610,6 +4631,7 @@ parse_arrow_function (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vl)
     RJS_Value      *tmp1      = rjs_value_stack_push(rt);
     RJS_Value      *tmp2      = rjs_value_stack_push(rt);
     RJS_Bool        il_pushed = RJS_FALSE;
+    RJS_Bool        cl_pushed = RJS_FALSE;
     RJS_Token      *tok;
     RJS_Result      r;
     RJS_Ast        *ast;
@@ -4652,6 +4674,9 @@ parse_arrow_function (RJS_Runtime *rt, RJS_Value *ve, RJS_Value *vl)
     if (ast->type == RJS_AST_AsyncArrowParams)
         parser->flags |= RJS_PARSE_FL_AWAIT;
 
+    contains_list_push(rt);
+    cl_pushed = RJS_TRUE;
+
     tok = get_token(rt);
     unget_token(rt);
 
@@ -4690,6 +4715,15 @@ end:
     rjs_value_stack_restore(rt, top);
     parser->flags = old_flags;
 
+    if (cl_pushed) {
+#if ENABLE_ASYNC
+        /*The await expressions of the body belong to the async arrow function.*/
+        if (func->flags & RJS_AST_FUNC_FL_ASYNC)
+            contains_list_remove_await(rt);
+#endif /*ENABLE_ASYNC*/
+        contains_list_pop(rt, RJS_TRUE);
+    }
+
     if (il_pushed)
         no_strict_list_pop(rt, RJS_TRUE, RJS_FALSE);
 
@@ -5033,6 +5067,9 @@ parse_expr_prio (RJS_Runtime *rt, Priority prio, RJS_Value *ve)
             ast_new(rt, tmp1, RJS_AST_One, &tok->location);
         else
             value_expr_new(rt, tmp1, &tok->location, tok->value);
+
+        if (tok->flags & RJS_TOKEN_FL_LEGACY_ESCAPE)
+            no_strict_list_add(rt, RJS_AST_StrRef, tok->value);
         break;
     }
     case RJS_TOKEN_STRING: {
@@ -8001,6 +8038,9 @@ parse_property_name (RJS_Runtime *rt, RJS_Value *vn)
     case RJS_TOKEN_STRING:
     case RJS_TOKEN_NUMBER:
         value_expr_new(rt, vn, &tok->location, tok->value);
+
+        if (tok->flags & RJS_TOKEN_FL_LEGACY_ESCAPE)
+            no_strict_list_add(rt, RJS_AST_StrRef, tok->value);
         break;
     case RJS_TOKEN_lbracket:
         loc = tok->location;
@@ -8049,6 +8089,8 @@ parse_class_element_name (RJS_Runtime *rt, RJS_Bool in_obj, RJS_Bool is_static,
         if (in_obj) {
             parse_error(rt, &tok->location, _("%s cannot be used in object literal"),
                     rjs_token_type_get_name(tok->type, tok->flags));
+            r = RJS_ERR;
+            goto end;
         } else {
             int priv_flags = 0;
 
@@ -8163,8 +8205,14 @@ parse_method_params_body (RJS_Runtime *rt, RJS_Bool in_obj, RJS_AstClassElem *m,
             parse_error(rt, &m->ast.location, _("getter cannot has any parameter"));
     } else if (m->type == RJS_AST_CLASS_ELEM_SET) {
         if (rjs_list_is_empty(&m->func->param_list)
-                || (m->func->param_list.next != m->func->param_list.prev))
+                || (m->func->param_list.next != m->func->param_list.prev)) {
             parse_error(rt, &m->ast.location, _("setter must has 1 parameter"));
+        } else {
+            RJS_Ast *param = RJS_CONTAINER_OF(m->func->param_list.next, RJS_Ast, ln);
+
+            if (param->type == RJS_AST_Rest)
+                parse_error(rt, &param->location, _("setter cannot has rest parameter"));
+        }
     }
 
     if ((r = parse_func_body(rt)) == RJS_ERR)
-- 
2.43.0


From d720f3d2059cf0f711978fb7290cae9f65f3d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 59/67] fix: both element functions of Promise.allSettled could
 take effect for one element

---
 src/lib/rjs_promise_object_inc.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 2e31f3f..4c45986 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -93,6 +93,7 @@ typedef struct {
 
 /**Promise single task data.*/
 typedef struct {
+    int             ref;    /**< Reference counter.*/
     RJS_PromiseAll *all;    /**< All reference*/
     size_t          index;  /**< The current promise index.*/
     RJS_Bool        called; /**< The function is already called.*/
@@ -161,6 +162,10 @@ promise_single_free (RJS_Runtime *rt, void *ptr)
 {
     RJS_PromiseSingle *s = ptr;
 
+    s->ref --;
+    if (s->ref > 0)
+        return;
+
     if (s->all)
         promise_all_free(rt, s->all);
 
@@ -175,6 +180,7 @@ promise_single_new (RJS_Runtime *rt, RJS_PromiseAll *all, size_t index)
 
     RJS_NEW(rt, s);
 
+    s->ref    = 1;
     s->called = RJS_FALSE;
     s->index  = index;
 
@@ -230,6 +236,26 @@ promise_all_func_new (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, size_t i
     return RJS_OK;
 }
 
+/*Create a new promise all built-in function which shares the task data with another one.*/
+static RJS_Result
+promise_all_func_share (RJS_Runtime *rt, RJS_Value *v, RJS_NativeFunc nf, RJS_Value *other)
+{
+    RJS_Realm         *realm = rjs_realm_current(rt);
+    RJS_PromiseSingle *single;
+    RJS_Result         r;
+
+    r = rjs_create_native_function(rt, NULL, nf, 1, rjs_s_empty(rt), realm, NULL, NULL, v);
+    if (r == RJS_ERR)
+        return r;
+
+    single = rjs_native_object_get_data(rt, other);
+    single->ref ++;
+
+    rjs_native_object_set_data(rt, v, NULL, single, promise_single_scan, promise_single_free);
+
+    return RJS_OK;
+}
+
 /*Perform promise all operation.*/
 static RJS_Result
 perform_promise_all (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
@@ -479,7 +505,7 @@ perform_promise_all_settled (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *con
         if ((r = promise_all_func_new(rt, fulfill, promise_all_settled_resolve, index, all)) == RJS_ERR)
             goto end;
 
-        if ((r = promise_all_func_new(rt, reject, promise_all_settled_reject, index, all)) == RJS_ERR)
+        if ((r = promise_all_func_share(rt, reject, promise_all_settled_reject, fulfill)) == RJS_ERR)
             goto end;
 
         all->left ++;
-- 
2.43.0


From 7b9596d891754d2e3ef201e5fee6bf8d91e0823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:15 +0000
Subject: [PATCH 60/67] fix: repeat with huge counts overran its buffer or
 never ended, includes and indexOf scanned from a negative index for huge
 start positions, pad converted an unneeded filler

---
 src/lib/rjs_array_object_inc.c       | 14 ++++----------
 src/lib/rjs_string.c                 |  2 +-
 src/lib/rjs_string_object_inc.c      | 11 ++++++-----
 src/lib/rjs_typed_array_object_inc.c |  4 ++--
 4 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index e32663a..d8d0920 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -1309,7 +1309,7 @@ static RJS_NF(Array_prototype_includes)
     if ((r = rjs_to_integer_or_infinity(rt, from_idx, &n)) == RJS_ERR)
         goto end;
 
-    if (n == INFINITY) {
+    if (n >= len) {
         rjs_value_set_boolean(rt, rv, RJS_FALSE);
         r = RJS_OK;
         goto end;
@@ -1320,10 +1320,7 @@ static RJS_NF(Array_prototype_includes)
     if (n >= 0) {
         k = n;
     } else {
-        k = len + n;
-
-        if (k < 0)
-            k = 0;
+        k = RJS_MAX(len + n, 0);
     }
 
     while (k < len) {
@@ -1375,7 +1372,7 @@ static RJS_NF(Array_prototype_indexOf)
     if ((r = rjs_to_integer_or_infinity(rt, from_idx, &n)) == RJS_ERR)
         goto end;
 
-    if (n == INFINITY) {
+    if (n >= len) {
         rjs_value_set_number(rt, rv, -1);
         r = RJS_OK;
         goto end;
@@ -1386,10 +1383,7 @@ static RJS_NF(Array_prototype_indexOf)
     if (n >= 0) {
         k = n;
     } else {
-        k = len + n;
-
-        if (k < 0)
-            k = 0;
+        k = RJS_MAX(len + n, 0);
     }
 
     while (k < len) {
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index ddc8d77..82f5479 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -1190,7 +1190,7 @@ rjs_string_pad (RJS_Runtime *rt, RJS_Value *o, RJS_Value *max_len, RJS_Value *fi
 
     slen = rjs_string_get_length(rt, str);
 
-    if (ilen < slen) {
+    if (ilen <= slen) {
         rjs_value_copy(rt, rs, str);
         r = RJS_OK;
         goto end;
diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 1f689c1..6db3b02 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -847,7 +847,6 @@ static RJS_NF(String_prototype_repeat)
     size_t     top   = rjs_value_stack_save(rt);
     RJS_Value *str   = rjs_value_stack_push(rt);
     RJS_Number n;
-    size_t     rc;
     RJS_Result r;
 
     if ((r = rjs_require_object_coercible(rt, thiz)) == RJS_ERR)
@@ -863,13 +862,15 @@ static RJS_NF(String_prototype_repeat)
         r = rjs_throw_range_error(rt, _("repeat count must >= 0 and < infinite"));
         goto end;
     }
-    rc = n;
 
-    if (rc == 0) {
+    if ((n == 0) || (rjs_string_get_length(rt, str) == 0)) {
         rjs_value_copy(rt, rv, rjs_s_empty(rt));
+    } else if (n > (RJS_Number)(SSIZE_MAX / sizeof(RJS_UChar)) / rjs_string_get_length(rt, str)) {
+        r = rjs_throw_range_error(rt, _("string is too long"));
+        goto end;
     } else {
         size_t           slen = rjs_string_get_length(rt, str);
-        size_t           rlen = rc * slen;
+        size_t           rlen = (size_t)n * slen;
         size_t           i;
         RJS_UChar       *d;
         const RJS_UChar *s;
@@ -880,7 +881,7 @@ static RJS_NF(String_prototype_repeat)
         d = (RJS_UChar*)rjs_string_get_uchars(rt, rv);
         s = rjs_string_get_uchars(rt, str);
 
-        for (i = 0; i < rc; i ++) {
+        for (i = 0; i < rlen; i += slen) {
             RJS_ELEM_CPY(d, s, slen);
             d += slen;
         }
diff --git a/src/lib/rjs_typed_array_object_inc.c b/src/lib/rjs_typed_array_object_inc.c
index 3f9a229..099d13e 100644
--- a/src/lib/rjs_typed_array_object_inc.c
+++ b/src/lib/rjs_typed_array_object_inc.c
@@ -917,7 +917,7 @@ static RJS_NF(TypedArray_prototype_includes)
     if ((r = rjs_to_integer_or_infinity(rt, form_idx, &n)) == RJS_ERR)
         goto end;
 
-    if (n == INFINITY) {
+    if (n >= len) {
         rjs_value_set_boolean(rt, rv, RJS_FALSE);
         r = RJS_OK;
         goto end;
@@ -978,7 +978,7 @@ static RJS_NF(TypedArray_prototype_indexOf)
     if ((r = rjs_to_integer_or_infinity(rt, form_idx, &n)) == RJS_ERR)
         goto end;
 
-    if (n == INFINITY) {
+    if (n >= len) {
         rjs_value_set_number(rt, rv, -1);
         r = RJS_OK;
         goto end;
-- 
2.43.0


From 18413a1324a0d1f2c31255f1da5bd393062f9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:21 +0000
Subject: [PATCH 61/67] fix: applying a function to an array-like object with a
 huge length aborted the process

---
 src/lib/ratjs_internal.h          | 3 +++
 src/lib/rjs_function_object_inc.c | 5 +++++
 src/lib/rjs_reflect_object_inc.c  | 5 +++++
 3 files changed, 13 insertions(+)

diff --git a/src/lib/ratjs_internal.h b/src/lib/ratjs_internal.h
index 687c9b6..723c064 100644
--- a/src/lib/ratjs_internal.h
+++ b/src/lib/ratjs_internal.h
@@ -177,6 +177,9 @@
 extern "C" {
 #endif
 
+/**Maximum number of the arguments created from an array like object.*/
+#define RJS_MAX_ARGUMENT_NUM (1 << 24)
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/src/lib/rjs_function_object_inc.c b/src/lib/rjs_function_object_inc.c
index 168ce0f..8dd0bc1 100644
--- a/src/lib/rjs_function_object_inc.c
+++ b/src/lib/rjs_function_object_inc.c
@@ -66,6 +66,11 @@ static RJS_NF(Function_prototype_apply)
         if ((r = rjs_length_of_array_like(rt, arg_array, &arg_len)) == RJS_ERR)
             goto end;
 
+        if (arg_len > RJS_MAX_ARGUMENT_NUM) {
+            r = rjs_throw_range_error(rt, _("too many arguments"));
+            goto end;
+        }
+
         if (arg_len) {
             arg_buf = rjs_value_stack_push_n(rt, arg_len);
 
diff --git a/src/lib/rjs_reflect_object_inc.c b/src/lib/rjs_reflect_object_inc.c
index 60d9de8..2789678 100644
--- a/src/lib/rjs_reflect_object_inc.c
+++ b/src/lib/rjs_reflect_object_inc.c
@@ -53,6 +53,11 @@ array_to_args (RJS_Runtime *rt, RJS_Value *arg_list, RJS_Value **pargs, size_t *
     if ((r = rjs_length_of_array_like(rt, arg_list, &len)) == RJS_ERR)
         goto end;
 
+    if (len > RJS_MAX_ARGUMENT_NUM) {
+        r = rjs_throw_range_error(rt, _("too many arguments"));
+        goto end;
+    }
+
     if (len) {
         args = rjs_value_stack_push_n(rt, len);
 
-- 
2.43.0


From daebc2039cb9279b0308302583bc7d7b6674c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:23 +0000
Subject: [PATCH 62/67] fix: replacement patterns read past the text when exec
 reports a match beyond its end, match results were read in the wrong order,
 and for-in stopped at a symbol key of a proxy

---
 src/lib/include/rjs_string.h    |   9 ++-
 src/lib/rjs_for_in_iterator.c   |   2 -
 src/lib/rjs_regexp_object_inc.c | 130 ++++++++++++++++----------------
 src/lib/rjs_string.c            |  53 ++-----------
 src/lib/rjs_string_object_inc.c |  18 +----
 5 files changed, 80 insertions(+), 132 deletions(-)

diff --git a/src/lib/include/rjs_string.h b/src/lib/include/rjs_string.h
index d5c0939..37c6510 100644
--- a/src/lib/include/rjs_string.h
+++ b/src/lib/include/rjs_string.h
@@ -143,15 +143,18 @@ rjs_string_hash_key (RJS_Runtime *rt, RJS_Value *v);
  * \param rt The current runtime.
  * \param str The origin string.
  * \param pos The position of the matched string.
- * \param captures The captured substrings.
+ * \param mstr The matched string.
+ * \param caps The captured strings' buffer, undefined if the group does not participate.
+ * \param cap_num Number of the captured strings.
+ * \param groups The object contains the named groups or undefined.
  * \param rep_templ The replace template string.
  * \retval rv The result string.
  * \retval RJS_OK On success.
  * \retval RJS_ERR On error.
  */
 RJS_INTERNAL RJS_Result
-rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
-        RJS_Value *captures, RJS_Value *rep_templ, RJS_Value *rv);
+rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos, RJS_Value *mstr,
+        RJS_Value *caps, size_t cap_num, RJS_Value *groups, RJS_Value *rep_templ, RJS_Value *rv);
 
 /**
  * Load a string from a file.
diff --git a/src/lib/rjs_for_in_iterator.c b/src/lib/rjs_for_in_iterator.c
index 7994454..9d56b4a 100644
--- a/src/lib/rjs_for_in_iterator.c
+++ b/src/lib/rjs_for_in_iterator.c
@@ -199,8 +199,6 @@ for_in_iterator_proto_next (RJS_Runtime *rt, RJS_Value *f, RJS_Value *thiz, RJS_
                             }
                         }
                     }
-                } else {
-                    break;
                 }
 
                 fii->id ++;
diff --git a/src/lib/rjs_regexp_object_inc.c b/src/lib/rjs_regexp_object_inc.c
index cdbd643..ad31a26 100644
--- a/src/lib/rjs_regexp_object_inc.c
+++ b/src/lib/rjs_regexp_object_inc.c
@@ -378,79 +378,97 @@ end:
     return r;
 }
 
-/*Invoke the replace function.*/
+/*Get the replacement of a match result.*/
 static RJS_Result
-replace_func (RJS_Runtime *rt, RJS_Value *s, RJS_Value *fn, RJS_Value *mstr, size_t pos, RJS_Value *match, RJS_Value *rstr)
+match_replacement (RJS_Runtime *rt, RJS_Value *s, RJS_Value *match, RJS_Value *fn, RJS_Value *templ,
+        size_t *ppos, size_t *pmlen, RJS_Value *rstr)
 {
     size_t     top    = rjs_value_stack_save(rt);
-    RJS_Value *lenv   = rjs_value_stack_push(rt);
+    RJS_Value *tmp    = rjs_value_stack_push(rt);
     RJS_Value *groups = rjs_value_stack_push(rt);
-    RJS_Value *cap    = rjs_value_stack_push(rt);
-    RJS_Value *res    = rjs_value_stack_push(rt);
     RJS_Value *args, *arg;
-    size_t     argc;
-    int64_t    i, len, aid;
+    size_t     argc, pos;
+    int64_t    i, len;
+    RJS_Number posn;
     RJS_Result r;
 
-    argc = 3;
-
-    if ((r = rjs_get(rt, match, rjs_pn_length(rt), lenv)) == RJS_ERR)
+    if ((r = rjs_length_of_array_like(rt, match, &len)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_to_length(rt, lenv, &len)) == RJS_ERR)
+    if (len < 1)
+        len = 1;
+
+    if (len > RJS_MAX_ARGUMENT_NUM) {
+        r = rjs_throw_range_error(rt, _("too many captures"));
         goto end;
+    }
 
-    if (len > 1)
-        argc += len - 1;
+    /*Arguments: the matched string, the captures, position, string and named groups.*/
+    args = rjs_value_stack_push_n(rt, len + 3);
 
-    if ((r = rjs_get(rt, match, rjs_pn_groups(rt), groups)) == RJS_ERR)
+    if ((r = rjs_get_index(rt, match, 0, tmp)) == RJS_ERR)
+        goto end;
+
+    if ((r = rjs_to_string(rt, tmp, args)) == RJS_ERR)
         goto end;
 
-    if (!rjs_value_is_undefined(rt, groups))
-        argc ++;
+    if ((r = rjs_get(rt, match, rjs_pn_index(rt), tmp)) == RJS_ERR)
+        goto end;
 
-    args = rjs_value_stack_push_n(rt, argc);
-    arg  = args;
-    aid  = 0;
+    if ((r = rjs_to_integer_or_infinity(rt, tmp, &posn)) == RJS_ERR)
+        goto end;
 
-    rjs_value_copy(rt, arg, mstr);
-    aid ++;
+    pos = RJS_CLAMP(posn, 0, rjs_string_get_length(rt, s));
 
     for (i = 1; i < len; i ++) {
-        if ((r = rjs_get_index(rt, match, i, cap)) == RJS_ERR)
+        if ((r = rjs_get_index(rt, match, i, tmp)) == RJS_ERR)
             goto end;
 
-        arg = rjs_value_buffer_item(rt, args, aid);
-        aid ++;
+        if (!rjs_value_is_undefined(rt, tmp)) {
+            arg = rjs_value_buffer_item(rt, args, i);
 
-        if (rjs_value_is_undefined(rt, cap)) {
-            rjs_value_set_undefined(rt, arg);
-        } else {
-            if ((r = rjs_to_string(rt, cap, arg)) == RJS_ERR)
+            if ((r = rjs_to_string(rt, tmp, arg)) == RJS_ERR)
                 goto end;
         }
     }
 
-    arg = rjs_value_buffer_item(rt, args, aid);
-    rjs_value_set_number(rt, arg, pos);
-    aid ++;
+    if ((r = rjs_get(rt, match, rjs_pn_groups(rt), groups)) == RJS_ERR)
+        goto end;
 
-    arg = rjs_value_buffer_item(rt, args, aid);
-    rjs_value_copy(rt, arg, s);
-    aid ++;
+    if (fn) {
+        argc = len;
 
-    if (!rjs_value_is_undefined(rt, groups)) {
-        arg = rjs_value_buffer_item(rt, args, aid);
-        aid ++;
+        arg = rjs_value_buffer_item(rt, args, argc ++);
+        rjs_value_set_number(rt, arg, pos);
 
-        rjs_value_copy(rt, arg, groups);
-    }
+        arg = rjs_value_buffer_item(rt, args, argc ++);
+        rjs_value_copy(rt, arg, s);
 
-    if ((r = rjs_call(rt, fn, rjs_v_undefined(rt), args, argc, res)) == RJS_ERR)
-        goto end;
+        if (!rjs_value_is_undefined(rt, groups)) {
+            arg = rjs_value_buffer_item(rt, args, argc ++);
+            rjs_value_copy(rt, arg, groups);
+        }
 
-    if ((r = rjs_to_string(rt, res, rstr)) == RJS_ERR)
-        goto end;
+        if ((r = rjs_call(rt, fn, rjs_v_undefined(rt), args, argc, tmp)) == RJS_ERR)
+            goto end;
+
+        if ((r = rjs_to_string(rt, tmp, rstr)) == RJS_ERR)
+            goto end;
+    } else {
+        if (!rjs_value_is_undefined(rt, groups)) {
+            if ((r = rjs_to_object(rt, groups, tmp)) == RJS_ERR)
+                goto end;
+
+            rjs_value_copy(rt, groups, tmp);
+        }
+
+        if ((r = rjs_get_substitution(rt, s, pos, args, rjs_value_buffer_item(rt, args, 1), len - 1,
+                groups, templ, rstr)) == RJS_ERR)
+            goto end;
+    }
+
+    *ppos  = pos;
+    *pmlen = rjs_string_get_length(rt, args);
 
     r = RJS_OK;
 end:
@@ -563,32 +581,12 @@ static RJS_NF(RegExp_prototype_replace)
 
     /*Replace.*/
     for (ri = 0; ri < rn; ri ++) {
-        RJS_Number posn;
-        size_t     pos;
+        size_t pos = 0, mlen = 0;
 
         if ((r = rjs_get_index(rt, results, ri, match)) == RJS_ERR)
             goto end;
 
-        if ((r = rjs_get_index(rt, match, 0, mstrv)) == RJS_ERR)
-            goto end;
-
-        if ((r = rjs_to_string(rt, mstrv, mstr)) == RJS_ERR)
-            goto end;
-
-        if ((r = rjs_get(rt, match, rjs_pn_index(rt), idxv)) == RJS_ERR)
-            goto end;
-
-        if ((r = rjs_to_integer_or_infinity(rt, idxv, &posn)) == RJS_ERR)
-            goto end;
-
-        pos = RJS_CLAMP(posn, 0, len);
-
-        if (func_rep)
-            r = replace_func(rt, s, repv, mstr, pos, match, rstr);
-        else
-            r = rjs_get_substitution(rt, s, pos, match, rep_str, rstr);
-
-        if (r == RJS_ERR)
+        if ((r = match_replacement(rt, s, match, func_rep ? repv : NULL, rep_str, &pos, &mlen, rstr)) == RJS_ERR)
             goto end;
 
         if (pos >= start) {
@@ -597,7 +595,7 @@ static RJS_NF(RegExp_prototype_replace)
 
             rjs_uchar_buffer_append_string(rt, &ucb, rstr);
 
-            start = pos + rjs_string_get_length(rt, mstr);
+            start = pos + mlen;
         }
     }
 
diff --git a/src/lib/rjs_string.c b/src/lib/rjs_string.c
index 82f5479..e51b617 100644
--- a/src/lib/rjs_string.c
+++ b/src/lib/rjs_string.c
@@ -1414,69 +1414,32 @@ rjs_index_string_normalize (RJS_Runtime *rt, RJS_Value *v)
  * \param rt The current runtime.
  * \param str The origin string.
  * \param pos The position of the matched string.
- * \param captures The captured substrings.
+ * \param mstr The matched string.
+ * \param caps The captured strings' buffer, undefined if the group does not participate.
+ * \param cap_num Number of the captured strings.
+ * \param groups The object contains the named groups or undefined.
  * \param rep_templ The replace template string.
  * \retval rv The result string.
  * \retval RJS_OK On success.
  * \retval RJS_ERR On error.
  */
 RJS_Result
-rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
-        RJS_Value *captures, RJS_Value *rep_templ, RJS_Value *rv)
+rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos, RJS_Value *mstr,
+        RJS_Value *caps, size_t cap_num, RJS_Value *groups, RJS_Value *rep_templ, RJS_Value *rv)
 {
     RJS_UCharBuffer  ucb;
     const RJS_UChar *c, *b, *e, *nb, *ne;
     size_t           len, slen, mlen;
-    int64_t          cn, n;
+    int64_t          cn = cap_num + 1;
     RJS_Result       r;
     RJS_Value       *cap;
-    RJS_Value       *caps   = NULL;
     size_t           top    = rjs_value_stack_save(rt);
-    RJS_Value       *m      = rjs_value_stack_push(rt);
-    RJS_Value       *mstr   = rjs_value_stack_push(rt);
     RJS_Value       *sub    = rjs_value_stack_push(rt);
     RJS_Value       *sstr   = rjs_value_stack_push(rt);
-    RJS_Value       *groups = rjs_value_stack_push(rt);
-    RJS_Value       *gobj   = rjs_value_stack_push(rt);
     RJS_Value       *name   = rjs_value_stack_push(rt);
 
     rjs_uchar_buffer_init(rt, &ucb);
 
-    if ((r = rjs_length_of_array_like(rt, captures, &cn)) == RJS_ERR)
-        goto end;
-
-    if ((r = rjs_get_index_v(rt, captures, 0, m)) == RJS_ERR)
-        goto end;
-
-    if ((r = rjs_to_string(rt, m, mstr)) == RJS_ERR)
-        goto end;
-
-    if (cn > 1) {
-        caps = rjs_value_stack_push_n(rt, cn - 1);
-
-        for (n = 1; n < cn; n ++) {
-            if ((r = rjs_get_index_v(rt, captures, n, m)) == RJS_ERR)
-                goto end;
-
-            cap = rjs_value_buffer_item(rt, caps, n - 1);
-
-            if (!rjs_value_is_undefined(rt, m)) {
-                if ((r = rjs_to_string(rt, m, cap)) == RJS_ERR)
-                    goto end;
-            }
-        }
-    }
-
-    if ((r = rjs_get_v(rt, captures, rjs_pn_groups(rt), groups)) == RJS_ERR)
-        goto end;
-
-    if (!rjs_value_is_undefined(rt, groups)) {
-        if ((r = rjs_to_object(rt, groups, gobj)) == RJS_ERR)
-            goto end;
-
-        rjs_value_copy(rt, groups, gobj);
-    }
-
     slen = rjs_string_get_length(rt, str);
     mlen = rjs_string_get_length(rt, mstr);
 
@@ -1505,7 +1468,7 @@ rjs_get_substitution (RJS_Runtime *rt, RJS_Value *str, size_t pos,
                     c ++;
                     break;
                 case '\'':
-                    rjs_string_substr(rt, str, pos + mlen, slen, sub);
+                    rjs_string_substr(rt, str, RJS_MIN(pos + mlen, slen), slen, sub);
                     rjs_uchar_buffer_append_string(rt, &ucb, sub);
                     c ++;
                     break;
diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index 6db3b02..ae16549 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -906,7 +906,6 @@ static RJS_NF(String_prototype_replace)
     RJS_Value *posv     = rjs_value_stack_push(rt);
     RJS_Value *str      = rjs_value_stack_push(rt);
     RJS_Value *rstr     = rjs_value_stack_push(rt);
-    RJS_Value *captures = rjs_value_stack_push(rt);
     RJS_Value *fres     = rjs_value_stack_push(rt);
     RJS_Value *rres     = rjs_value_stack_push(rt);
     RJS_Bool   func_replace;
@@ -965,13 +964,7 @@ static RJS_NF(String_prototype_replace)
         if ((r = rjs_to_string(rt, fres, rres)) == RJS_ERR)
             goto end;
     } else {
-        if ((r = rjs_array_new(rt, captures, 1, NULL)) == RJS_ERR)
-            goto end;
-
-        if ((r = rjs_create_data_property_or_throw_index(rt, captures, 0, sstr)) == RJS_ERR)
-            goto end;
-
-        if ((r = rjs_get_substitution(rt, str, pos, captures, rstr, rres)) == RJS_ERR)
+        if ((r = rjs_get_substitution(rt, str, pos, sstr, NULL, 0, rjs_v_undefined(rt), rstr, rres)) == RJS_ERR)
             goto end;
     }
 
@@ -1014,7 +1007,6 @@ static RJS_NF(String_prototype_replaceAll)
     RJS_Value *posv     = rjs_value_stack_push(rt);
     RJS_Value *str      = rjs_value_stack_push(rt);
     RJS_Value *rstr     = rjs_value_stack_push(rt);
-    RJS_Value *captures = rjs_value_stack_push(rt);
     RJS_Value *fres     = rjs_value_stack_push(rt);
     RJS_Value *rres     = rjs_value_stack_push(rt);
     RJS_Value *flags    = rjs_value_stack_push(rt);
@@ -1097,13 +1089,7 @@ static RJS_NF(String_prototype_replaceAll)
             if ((r = rjs_to_string(rt, fres, rres)) == RJS_ERR)
                 goto end;
         } else {
-            if ((r = rjs_array_new(rt, captures, 1, NULL)) == RJS_ERR)
-                goto end;
-
-            if ((r = rjs_create_data_property_or_throw_index(rt, captures, 0, sstr)) == RJS_ERR)
-                goto end;
-
-            if ((r = rjs_get_substitution(rt, str, pos, captures, rstr, rres)) == RJS_ERR)
+            if ((r = rjs_get_substitution(rt, str, pos, sstr, NULL, 0, rjs_v_undefined(rt), rstr, rres)) == RJS_ERR)
                 goto end;
         }
 
-- 
2.43.0


From ae152a131110d1f53cb4ea5274621ef53a9c8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:40 +0000
Subject: [PATCH 63/67] fix: splice, unshift and toSorted visited elements
 outside the range or skipped holes, created arrays lost values to index
 accessors on Array.prototype, and Function.prototype.toString read length

---
 src/lib/rjs_array_object_inc.c    | 38 ++++++-------------------------
 src/lib/rjs_function_object_inc.c | 20 +---------------
 src/lib/rjs_hash_object_inc.c     |  8 +++----
 src/lib/rjs_json_opt.c            |  2 +-
 src/lib/rjs_promise_object_inc.c  | 14 ++++++------
 src/lib/rjs_proxy_object_opt.c    |  4 ++--
 src/lib/rjs_string_object_inc.c   |  6 ++---
 7 files changed, 25 insertions(+), 67 deletions(-)

diff --git a/src/lib/rjs_array_object_inc.c b/src/lib/rjs_array_object_inc.c
index d8d0920..2945305 100644
--- a/src/lib/rjs_array_object_inc.c
+++ b/src/lib/rjs_array_object_inc.c
@@ -2484,7 +2484,7 @@ static RJS_NF(Array_prototype_splice)
         goto end;
 
     if (insert_cnt < act_del_cnt) {
-        for (k = act_start; k < len; k ++) {
+        for (k = act_start; k < len - act_del_cnt; k ++) {
             rjs_value_set_number(rt, idx, k + act_del_cnt);
             rjs_to_string(rt, idx, pk);
 
@@ -2511,7 +2511,7 @@ static RJS_NF(Array_prototype_splice)
                 goto end;
         }
     } else if (insert_cnt > act_del_cnt) {
-        for (k = len - act_del_cnt; k >= act_start; k --) {
+        for (k = len - act_del_cnt; k > act_start; k --) {
             rjs_value_set_number(rt, idx, k + act_del_cnt - 1);
             rjs_to_string(rt, idx, pk);
 
@@ -2657,12 +2657,10 @@ static RJS_NF(Array_prototype_toSorted)
     RJS_Value *o     = rjs_value_stack_push(rt);
     RJS_Value *a     = rjs_value_stack_push(rt);
     RJS_Value *items = rjs_value_stack_push(rt);
-    RJS_Value *idx   = rjs_value_stack_push(rt);
-    RJS_Value *pk    = rjs_value_stack_push(rt);
     size_t     size;
     RJS_ValueBuffer       *vb;
     RJS_ArrayCompareParams params;
-    int64_t    len, k, nitem;
+    int64_t    len, k;
     RJS_Result r;
 
     if (!rjs_value_is_undefined(rt, cmp_fn) && !rjs_is_callable(rt, cmp_fn)) {
@@ -2687,26 +2685,9 @@ static RJS_NF(Array_prototype_toSorted)
     rjs_value_set_gc_thing(rt, items, vb);
     rjs_gc_add(rt, vb, &value_buffer_ops);
 
-    nitem = 0;
-
     for (k = 0; k < len; k ++) {
-        rjs_value_set_number(rt, idx, k);
-        rjs_to_string(rt, idx, pk);
-
-        if ((r = rjs_has_property(rt, o, pk)) == RJS_ERR)
+        if ((r = rjs_get_index(rt, o, k, &vb->value[k])) == RJS_ERR)
             goto end;
-
-        if (r) {
-            RJS_PropertyName pn;
-
-            rjs_property_name_init(rt, &pn, pk);
-            r = rjs_get(rt, o, &pn, &vb->value[nitem]);
-            rjs_property_name_deinit(rt, &pn);
-            if (r == RJS_ERR)
-                goto end;
-
-            nitem ++;
-        }
     }
 
     params.rt     = rt;
@@ -2715,13 +2696,8 @@ static RJS_NF(Array_prototype_toSorted)
     if ((r = rjs_sort(vb->value, vb->len, sizeof(RJS_Value), array_item_compare_fn, &params)) == RJS_ERR)
         goto end;
 
-    for (k = 0; k < nitem; k ++) {
-        if ((r = rjs_set_index(rt, a, k, &vb->value[k], RJS_TRUE)) == RJS_ERR)
-            goto end;
-    }
-
-    for (; k < len; k ++) {
-        if ((r = rjs_set_index(rt, a, k, rjs_v_undefined(rt), RJS_TRUE)) == RJS_ERR)
+    for (k = 0; k < len; k ++) {
+        if ((r = rjs_create_data_property_or_throw_index(rt, a, k, &vb->value[k])) == RJS_ERR)
             goto end;
     }
 
@@ -2899,7 +2875,7 @@ static RJS_NF(Array_prototype_unshift)
             goto end;
         }
 
-        for (k = len; k >= 0; k --) {
+        for (k = len; k > 0; k --) {
             rjs_value_set_number(rt, idx, k - 1);
             rjs_to_string(rt, idx, pk);
 
diff --git a/src/lib/rjs_function_object_inc.c b/src/lib/rjs_function_object_inc.c
index 8dd0bc1..8cf0046 100644
--- a/src/lib/rjs_function_object_inc.c
+++ b/src/lib/rjs_function_object_inc.c
@@ -193,8 +193,6 @@ static RJS_NF(Function_prototype_toString)
     RJS_Value      *name  = NULL;
     int             flags = 0;
     RJS_GcThingType gtt;
-    int64_t         len;
-    int             i;
     RJS_UCharBuffer ucb;
     RJS_Result      r;
 
@@ -244,23 +242,7 @@ static RJS_NF(Function_prototype_toString)
     if (name)
         rjs_uchar_buffer_append_string(rt, &ucb, name);
 
-    rjs_uchar_buffer_append_uchar(rt, &ucb, '(');
-
-    if ((r = rjs_length_of_array_like(rt, thiz, &len)) == RJS_ERR)
-        goto end;
-
-    for (i = 0; i < (int)len; i ++) {
-        char buf[32];
-
-        if (i)
-            rjs_uchar_buffer_append_uchar(rt, &ucb, ',');
-
-        snprintf(buf, sizeof(buf), "p%d", i);
-
-        rjs_uchar_buffer_append_chars(rt, &ucb, buf, -1);
-    }
-
-    rjs_uchar_buffer_append_chars(rt, &ucb, "){[native code]}", -1);
+    rjs_uchar_buffer_append_chars(rt, &ucb, "() { [native code] }", -1);
 
     rjs_string_from_uchars(rt, rv, ucb.items, ucb.item_num);
 
diff --git a/src/lib/rjs_hash_object_inc.c b/src/lib/rjs_hash_object_inc.c
index a639789..5b7f84e 100644
--- a/src/lib/rjs_hash_object_inc.c
+++ b/src/lib/rjs_hash_object_inc.c
@@ -535,8 +535,8 @@ static RJS_NF(hash_iter_next)
 #if ENABLE_SET
             {
                 se = RJS_CONTAINER_OF(hi->curr, RJS_SetEntry, ln);
-                rjs_set_index(rt, v, 0, &se->key, RJS_TRUE);
-                rjs_set_index(rt, v, 1, &se->key, RJS_TRUE);
+                rjs_create_data_property_or_throw_index(rt, v, 0, &se->key);
+                rjs_create_data_property_or_throw_index(rt, v, 1, &se->key);
             }
 #endif /*ENABLE_SET*/
 #if ENABLE_MAP && ENABLE_SET
@@ -545,8 +545,8 @@ static RJS_NF(hash_iter_next)
 #if ENABLE_MAP
             {
                 me = RJS_CONTAINER_OF(hi->curr, RJS_MapEntry, se.ln);
-                rjs_set_index(rt, v, 0, &me->se.key, RJS_TRUE);
-                rjs_set_index(rt, v, 1, &me->value, RJS_TRUE);
+                rjs_create_data_property_or_throw_index(rt, v, 0, &me->se.key);
+                rjs_create_data_property_or_throw_index(rt, v, 1, &me->value);
             }
 #endif /*ENABLE_MAP*/
             break;
diff --git a/src/lib/rjs_json_opt.c b/src/lib/rjs_json_opt.c
index 0aaea38..291ba87 100644
--- a/src/lib/rjs_json_opt.c
+++ b/src/lib/rjs_json_opt.c
@@ -165,7 +165,7 @@ parse_array (RJS_Runtime *rt, RJS_JsonParser *jp, RJS_Value *v)
         if ((r = parse_value(rt, jp, item)) == RJS_ERR)
             goto end;
 
-        rjs_set_index(rt, v, idx, item, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, v, idx, item);
 
         idx ++;
 
diff --git a/src/lib/rjs_promise_object_inc.c b/src/lib/rjs_promise_object_inc.c
index 4c45986..a350b1c 100644
--- a/src/lib/rjs_promise_object_inc.c
+++ b/src/lib/rjs_promise_object_inc.c
@@ -206,7 +206,7 @@ static RJS_NF(promise_all_resolve)
     single->called = RJS_TRUE;
     all->left --;
 
-    rjs_set_index(rt, &all->values, single->index, x, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, x);
 
     if (all->left == 0) {
         r = rjs_call(rt, all->pc.resolve, rjs_v_undefined(rt), &all->values, 1, rv);
@@ -303,7 +303,7 @@ perform_promise_all (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
             goto end;
         }
 
-        rjs_set_index(rt, values, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, values, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
@@ -396,7 +396,7 @@ static RJS_NF(promise_all_settled_resolve)
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_status(rt), rjs_s_fulfilled(rt));
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_value(rt), x);
 
-    rjs_set_index(rt, &all->values, single->index, obj, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, obj);
 
     all->left --;
 
@@ -435,7 +435,7 @@ static RJS_NF(promise_all_settled_reject)
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_status(rt), rjs_s_rejected(rt));
     rjs_create_data_property_or_throw(rt, obj, rjs_pn_reason(rt), x);
 
-    rjs_set_index(rt, &all->values, single->index, obj, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, obj);
 
     all->left --;
     
@@ -497,7 +497,7 @@ perform_promise_all_settled (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *con
             goto end;
         }
 
-        rjs_set_index(rt, values, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, values, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
@@ -590,7 +590,7 @@ static RJS_NF(promise_any_reject)
 
     single->called = RJS_TRUE;
 
-    rjs_set_index(rt, &all->values, single->index, x, RJS_TRUE);
+    rjs_create_data_property_or_throw_index(rt, &all->values, single->index, x);
 
     all->left --;
 
@@ -662,7 +662,7 @@ perform_promise_any (RJS_Runtime *rt, RJS_Iterator *iter, RJS_Value *constr,
             goto end;
         }
 
-        rjs_set_index(rt, errors, index, rjs_v_undefined(rt), RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, errors, index, rjs_v_undefined(rt));
 
         if ((r = rjs_call(rt, resolve, constr, nextv, 1, nextp)) == RJS_ERR)
             goto end;
diff --git a/src/lib/rjs_proxy_object_opt.c b/src/lib/rjs_proxy_object_opt.c
index f08b8c3..68b8bb9 100644
--- a/src/lib/rjs_proxy_object_opt.c
+++ b/src/lib/rjs_proxy_object_opt.c
@@ -992,7 +992,7 @@ proxy_object_op_call (RJS_Runtime *rt, RJS_Value *o, RJS_Value *thiz, RJS_Value
     rjs_array_new(rt, targs, argc, NULL);
     for (i = 0; i < argc; i ++) {
         arg = rjs_value_buffer_item(rt, args, i);
-        rjs_set_index(rt, targs, i, arg, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, targs, i, arg);
     }
 
     r = rjs_call(rt, trap, handler, target, 3, rv);
@@ -1038,7 +1038,7 @@ proxy_object_op_construct (RJS_Runtime *rt, RJS_Value *o, RJS_Value *args, size_
     rjs_array_new(rt, targs, argc, NULL);
     for (i = 0; i < argc; i ++) {
         arg = rjs_value_buffer_item(rt, args, i);
-        rjs_set_index(rt, targs, i, arg, RJS_TRUE);
+        rjs_create_data_property_or_throw_index(rt, targs, i, arg);
     }
 
     if ((r = rjs_call(rt, trap, handler, target, 3, rv)) == RJS_ERR)
diff --git a/src/lib/rjs_string_object_inc.c b/src/lib/rjs_string_object_inc.c
index ae16549..b5783a8 100644
--- a/src/lib/rjs_string_object_inc.c
+++ b/src/lib/rjs_string_object_inc.c
@@ -1266,7 +1266,7 @@ static RJS_NF(String_prototype_split)
             if ((r = rjs_string_substr(rt, s, i, i + 1, sub)) == RJS_ERR)
                 goto end;
 
-            if ((r = rjs_set_index(rt, rv, i, sub, RJS_TRUE)) == RJS_ERR)
+            if ((r = rjs_create_data_property_or_throw_index(rt, rv, i, sub)) == RJS_ERR)
                 goto end;
         }
 
@@ -1289,7 +1289,7 @@ static RJS_NF(String_prototype_split)
         if ((r = rjs_string_substr(rt, s, start, idx, sub)) == RJS_ERR)
             goto end;
 
-        if ((r = rjs_set_index(rt, rv, n, sub, RJS_TRUE)) == RJS_ERR)
+        if ((r = rjs_create_data_property_or_throw_index(rt, rv, n, sub)) == RJS_ERR)
             goto end;
 
         n ++;
@@ -1306,7 +1306,7 @@ static RJS_NF(String_prototype_split)
     if ((r = rjs_string_substr(rt, s, start, len, sub)) == RJS_ERR)
         goto end;
 
-    if ((r = rjs_set_index(rt, rv, n, sub, RJS_TRUE)) == RJS_ERR)
+    if ((r = rjs_create_data_property_or_throw_index(rt, rv, n, sub)) == RJS_ERR)
         goto end;
 
     r = RJS_OK;
-- 
2.43.0


From 9cce62cfa58458c79fe5557f144104c0e5dcf58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:47 +0000
Subject: [PATCH 64/67] fix: modules: failed loads are retried and reported,
 parents wait once per child, circular re-exports and star ambiguity resolve,
 import names conflict with declarations, import.meta has no prototype

---
 src/lib/rjs_module_opt.c | 99 +++++++++++++++++++++++-----------------
 src/lib/rjs_parser.c     | 75 +++++++++++++++++++++---------
 2 files changed, 110 insertions(+), 64 deletions(-)

diff --git a/src/lib/rjs_module_opt.c b/src/lib/rjs_module_opt.c
index 76598c0..4eb49ed 100644
--- a/src/lib/rjs_module_opt.c
+++ b/src/lib/rjs_module_opt.c
@@ -431,6 +431,7 @@ end:
 typedef struct {
     int       ref;      /**< Reference counter.*/
     int       wait_cnt; /**< Waiting module's counter.*/
+    RJS_Bool  failed;   /**< A module cannot be loaded.*/
     RJS_Hash  mod_hash; /**< Module hash table.*/
     RJS_List  mod_list; /**< The module list.*/
     RJS_PromiseCapability pc; /**< Promise capability.*/
@@ -475,13 +476,21 @@ module_load_req_data_free (RJS_Runtime *rt, void *ptr)
     }
 }
 
+/*Store the first error of the module load requested data.*/
+static void
+module_load_req_error (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS_Value *err)
+{
+    if (!mlrd->failed) {
+        mlrd->failed = RJS_TRUE;
+        rjs_value_copy(rt, &mlrd->error, err);
+    }
+}
+
 /*Check the module load requested result.*/
 static RJS_Result
 module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
 {
     if (mlrd->wait_cnt == 0) {
-        RJS_Bool failed = RJS_FALSE;
-
         while (!rjs_list_is_empty(&mlrd->mod_list)) {
             RJS_Module *m, *nm;
             RJS_Bool action = RJS_FALSE;
@@ -499,7 +508,9 @@ module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
                     } else {
                         RJS_Module *rm = rjs_value_get_gc_thing(rt, &mr->module);
 
-                        if (rm->status == RJS_MODULE_STATUS_LOADING_FAILED)
+                        if ((rm->status == RJS_MODULE_STATUS_LOADING_FAILED)
+                                || (rm->status == RJS_MODULE_STATUS_ALLOCATED)
+                                || (rm->status == RJS_MODULE_STATUS_LOADED))
                             mod_failed = RJS_TRUE;
                         else if (rm->status == RJS_MODULE_STATUS_LOADING_REQUESTED)
                             mod_not_end = RJS_TRUE;
@@ -510,12 +521,12 @@ module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
                 }
 
                 if (mod_failed) {
-                    m->status = RJS_MODULE_STATUS_LOADING_FAILED;
-                    failed = RJS_TRUE;
-                    mod_not_end = RJS_FALSE;
-                }
-
-                if (!mod_not_end) {
+                    /*The requested modules can be loaded again.*/
+                    m->status = RJS_MODULE_STATUS_LOADED;
+                    rjs_value_set_undefined(rt, m->top_level_capability.promise);
+                    rjs_list_remove(&m->ln);
+                    action = RJS_TRUE;
+                } else if (!mod_not_end) {
                     m->status = RJS_MODULE_STATUS_UNLINKED;
                     rjs_value_set_undefined(rt, m->top_level_capability.promise);
                     rjs_list_remove(&m->ln);
@@ -532,7 +543,7 @@ module_load_req_result (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd)
             }
         }
 
-        if (failed) {
+        if (mlrd->failed) {
             rjs_call(rt, mlrd->pc.reject, rjs_v_undefined(rt), &mlrd->error, 1, NULL);
         } else {
             rjs_call(rt, mlrd->pc.resolve, rjs_v_undefined(rt), NULL, 0, NULL);
@@ -553,6 +564,7 @@ module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS
     RJS_Module *mod    = rjs_value_get_gc_thing(rt, modv);
     size_t      top    = rjs_value_stack_save(rt);
     RJS_Value  *p      = rjs_value_stack_push(rt);
+    RJS_Value  *err    = rjs_value_stack_push(rt);
     RJS_Script *script = &mod->script;
     size_t      i;
     RJS_Result  r;
@@ -563,13 +575,15 @@ module_load_req_modules (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJS
 
         if (rjs_value_is_undefined(rt, &mr->module)) {
             if ((r = lookup_module(rt, modv, name, p, &mr->module, RJS_FALSE)) == RJS_ERR) {
-                rjs_catch(rt, &mlrd->error);
+                rjs_catch(rt, err);
+                module_load_req_error(rt, mlrd, err);
                 goto end;
             }
         }
 
         if ((r = module_load_req_data_add(rt, mlrd, &mr->module)) == RJS_ERR) {
-            rjs_catch(rt, &mlrd->error);
+            rjs_catch(rt, err);
+            module_load_req_error(rt, mlrd, err);
             goto end;
         }
     }
@@ -590,6 +604,7 @@ static RJS_NF(module_load_ok)
     if (mod->status == RJS_MODULE_STATUS_LOADED) {
         mod->status = RJS_MODULE_STATUS_LOADING_REQUESTED;
         module_load_req_modules(rt, mlrd, modv);
+        rjs_list_append(&mlrd->mod_list, &mod->ln);
     }
 
     return module_load_req_result(rt, mlrd);
@@ -602,7 +617,7 @@ static RJS_NF(module_load_error)
     RJS_Value                   *err  = rjs_argument_get(rt, args, argc, 0);
 
     mlrd->wait_cnt --;
-    rjs_value_copy(rt, &mlrd->error, err);
+    module_load_req_error(rt, mlrd, err);
 
     return module_load_req_result(rt, mlrd);
 }
@@ -645,7 +660,7 @@ module_load_req_data_add (RJS_Runtime *rt, RJS_ModuleLoadRequestedData *mlrd, RJ
         rjs_list_append(&mlrd->mod_list, &mod->ln);
         break;
     case RJS_MODULE_STATUS_LOADING_FAILED:
-        rjs_value_copy(rt, &mlrd->error, &mod->eval_error);
+        module_load_req_error(rt, mlrd, &mod->eval_error);
         break;
     default:
         break;
@@ -659,7 +674,7 @@ end:
 
 /*Allocate a new module load requested modules data.*/
 static RJS_ModuleLoadRequestedData*
-module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapability *pc)
+module_load_req_data_new (RJS_Runtime *rt, RJS_PromiseCapability *pc)
 {
     RJS_ModuleLoadRequestedData *mlrd;
 
@@ -667,13 +682,14 @@ module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapabilit
 
     mlrd->ref      = 1;
     mlrd->wait_cnt = 0;
+    mlrd->failed   = RJS_FALSE;
 
     rjs_value_set_undefined(rt, &mlrd->promise);
     rjs_value_set_undefined(rt, &mlrd->resolve);
     rjs_value_set_undefined(rt, &mlrd->reject);
     rjs_value_set_undefined(rt, &mlrd->error);
 
-    rjs_value_copy(rt, &mlrd->module, modv);
+    rjs_value_set_undefined(rt, &mlrd->module);
 
     rjs_hash_init(&mlrd->mod_hash);
     rjs_list_init(&mlrd->mod_list);
@@ -681,8 +697,6 @@ module_load_req_data_new (RJS_Runtime *rt, RJS_Value *modv, RJS_PromiseCapabilit
     rjs_promise_capability_init_vp(rt, &mlrd->pc, &mlrd->promise, &mlrd->resolve, &mlrd->reject);
     rjs_promise_capability_copy(rt, &mlrd->pc, pc);
 
-    module_load_req_data_add(rt, mlrd, modv);
-
     return mlrd;
 }
 
@@ -700,8 +714,9 @@ rjs_module_load_requested (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *promise)
     RJS_Module *mod;
     RJS_Result  r;
     RJS_ModuleLoadRequestedData *mlrd = NULL;
-    size_t      top   = rjs_value_stack_save(rt);
-    RJS_Realm  *realm = rjs_realm_current(rt);
+    size_t      top    = rjs_value_stack_save(rt);
+    RJS_Value  *holder = rjs_value_stack_push(rt);
+    RJS_Realm  *realm  = rjs_realm_current(rt);
     RJS_PromiseCapability pc;
 
     rjs_promise_capability_init(rt, &pc);
@@ -714,7 +729,16 @@ rjs_module_load_requested (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *promise)
 
     rjs_new_promise_capability(rt, rjs_o_Promise(realm), &pc);
 
-    mlrd = module_load_req_data_new(rt, modv, &pc);
+    mlrd = module_load_req_data_new(rt, &pc);
+
+    rjs_value_copy(rt, &mlrd->module, modv);
+
+    /*Keep the data's values alive.*/
+    rjs_native_func_object_new(rt, holder, realm, NULL, NULL, module_load_ok, 0);
+    rjs_native_object_set_data(rt, holder, NULL, mlrd, module_load_req_data_scan, module_load_req_data_free);
+    mlrd->ref ++;
+
+    module_load_req_data_add(rt, mlrd, modv);
 
     r = module_load_req_result(rt, mlrd);
 
@@ -977,9 +1001,6 @@ gather_available_ancestors (RJS_Runtime *rt, RJS_Module *mod, RJS_ModuleVector *
         if (r)
             continue;
 
-        RJS_NEW(rt, e);
-        rjs_hash_insert(hash, pmod, e, pe, &rjs_hash_size_ops, rt);
-
         assert(pmod->status == RJS_MODULE_STATUS_EVALUATING_ASYNC);
         assert(pmod->eval_result != RJS_ERR);
         assert(pmod->async_eval);
@@ -988,6 +1009,9 @@ gather_available_ancestors (RJS_Runtime *rt, RJS_Module *mod, RJS_ModuleVector *
         pmod->pending_async --;
 
         if (pmod->pending_async == 0) {
+            RJS_NEW(rt, e);
+            rjs_hash_insert(hash, pmod, e, pe, &rjs_hash_size_ops, rt);
+
             rjs_vector_append(vec, pmod, rt);
 
             if (!module_has_tla(rt, pmod))
@@ -1010,10 +1034,8 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
     size_t            top   = rjs_value_stack_save(rt);
     RJS_Value        *err   = rjs_value_stack_push(rt);
     RJS_Value        *pmodv = rjs_value_stack_push(rt);
-    RJS_List          mod_list;
 
     rjs_vector_init(&mod_vec);
-    rjs_list_init(&mod_list);
 
     mod = rjs_value_get_gc_thing(rt, modv);
 
@@ -1046,24 +1068,18 @@ execute_valid_modules (RJS_Runtime *rt, RJS_Value *modv)
                 rjs_catch(rt, err);
                 async_module_execution_rejected(rt, pmodv, err);
             } else {
-                pmod->status = RJS_MODULE_STATUS_EVALUATED;
+                pmod->async_eval = 0;
+                pmod->status     = RJS_MODULE_STATUS_EVALUATED;
 
                 if (!rjs_value_is_undefined(rt, pmod->top_level_capability.promise)) {
                     assert(same_module(rt, &pmod->cycle_root, pmodv));
 
                     rjs_call(rt, pmod->top_level_capability.resolve, rjs_v_undefined(rt), NULL, 0, NULL);
                 }
-
-                rjs_list_append(&mod_list, &pmod->ln);
             }
         }
     }
 
-    rjs_list_foreach_c(&mod_list, mod, RJS_Module, ln) {
-        rjs_value_set_gc_thing(rt, pmodv, mod);
-        execute_valid_modules(rt, pmodv);
-    }
-
     rjs_vector_deinit(&mod_vec, rt);
     rjs_value_stack_restore(rt, top);
 }
@@ -1711,7 +1727,6 @@ lookup_module (RJS_Runtime *rt, RJS_Value *script, RJS_Value *name, RJS_Value *p
     RJS_Module    *modp  = NULL;
     RJS_Realm     *realm = rjs_realm_current(rt);
     size_t         top   = rjs_value_stack_save(rt);
-    RJS_Value     *err   = rjs_value_stack_push(rt);
     RJS_Bool       done  = RJS_FALSE;
     RJS_PromiseCapability pc;
 
@@ -1753,13 +1768,8 @@ lookup_module (RJS_Runtime *rt, RJS_Value *script, RJS_Value *name, RJS_Value *p
     }
 
     if (modp->status == RJS_MODULE_STATUS_LOADING_FAILED) {
-        if (dynamic)
-            rjs_throw_type_error(rt, _("cannot resolve the module \"%s\""), nstr);
-        else
-            rjs_throw_reference_error(rt, _("cannot resolve the module \"%s\""), nstr);
-
-        rjs_catch(rt, err);
-        r = rjs_call(rt, pc.reject, rjs_v_undefined(rt), err, 1, NULL);
+        /*Report the same error again.*/
+        r = rjs_call(rt, pc.reject, rjs_v_undefined(rt), &modp->eval_error, 1, NULL);
         goto end;
     } else if (modp->status != RJS_MODULE_STATUS_ALLOCATED) {
         r = rjs_call(rt, pc.resolve, rjs_v_undefined(rt), mod, 1, NULL);
@@ -1930,6 +1940,9 @@ resolve_export (RJS_Runtime *rt, RJS_Value *mod, RJS_Value *name, ResolveBinding
         if ((r = resolve_export(rt, &mr->module, name, rb_set, &star_rb)) == RJS_ERR)
             goto end;
 
+        if (r == RJS_AMBIGUOUS)
+            goto end;
+
         if (r) {
             if (resolved) {
                 if (!same_module(rt, star_rb.module, rb->module)
@@ -2348,7 +2361,7 @@ rjs_module_import_meta (RJS_Runtime *rt, RJS_Value *modv, RJS_Value *v)
     mod = rjs_value_get_gc_thing(rt, modv);
 
     if (rjs_value_is_undefined(rt, &mod->import_meta)) {
-        rjs_ordinary_object_create(rt, NULL, &mod->import_meta);
+        rjs_ordinary_object_create(rt, rjs_v_null(rt), &mod->import_meta);
     }
 
     rjs_value_copy(rt, v, &mod->import_meta);
diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index b2747e6..8884cce 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -9837,7 +9837,9 @@ parse_module (RJS_Runtime *rt, const char *id, RJS_Realm *realm, RJS_Value *rv)
 {
     RJS_AstFunc   *func;
     RJS_Result     r;
-    RJS_AstExport *ee;
+    RJS_AstExport *ee, *nee;
+    RJS_AstImport *ie;
+    RJS_Hash       import_hash;
     RJS_Parser    *parser    = rt->parser;
     int            old_flags = parser->flags;
     size_t         top       = rjs_value_stack_save(rt);
@@ -9888,34 +9890,65 @@ parse_module (RJS_Runtime *rt, const char *id, RJS_Realm *realm, RJS_Value *rv)
 
     parser->flags = old_flags;
 
-    /*Check if the local export names is defined.*/
-    rjs_list_foreach_c(&parser->local_export_list, ee, RJS_AstExport, ast.ln) {
+    /*Check if the imported names conflict with each other or with the declarations.*/
+    hash_init(&import_hash);
+
+    rjs_list_foreach_c(&parser->import_list, ie, RJS_AstImport, ast.ln) {
         RJS_HashEntry *he;
-        RJS_Value     *name = &ee->local_name->value;
 
-        /*Is default?*/
-        if (rjs_string_equal(rt, name, rjs_s_default(rt)))
+        if (!ie->local_name)
             continue;
 
-        /*Is defined in variable or lexical declaration.*/
-        he = hash_lookup(rt, &func->lex_decl->item_hash, name, NULL);
-        if (!he) {
-            RJS_AstImport *ie;
-            RJS_Bool       found = RJS_FALSE;
+        hash_add_import(rt, &import_hash, ie);
 
-            /*Is defined as import local name.*/
-            rjs_list_foreach_c(&parser->import_list, ie, RJS_AstImport, ast.ln) {
-                if (rjs_string_equal(rt, name, &ie->local_name->value)) {
-                    found = RJS_TRUE;
-                    break;
-                }
+        he = hash_lookup(rt, &func->lex_decl->item_hash, &ie->local_name->value, NULL);
+        if (he) {
+            RJS_AstDeclItem *di = RJS_CONTAINER_OF(he, RJS_AstDeclItem, he);
+
+            parse_error(rt, &di->ast.location, _("\"%s\" is already defined"),
+                    rjs_string_to_enc_chars(rt, &ie->local_name->value, NULL, NULL));
+            parse_prev_define_note(rt, &ie->ast.location);
+        }
+    }
+
+    hash_deinit(rt, &import_hash);
+
+    /*Check if the local export names is defined.*/
+    rjs_list_foreach_safe_c(&parser->local_export_list, ee, nee, RJS_AstExport, ast.ln) {
+        RJS_HashEntry *he;
+        RJS_Bool       found = RJS_FALSE;
+        RJS_Value     *name  = &ee->local_name->value;
+
+        /*Is defined as import local name.*/
+        rjs_list_foreach_c(&parser->import_list, ie, RJS_AstImport, ast.ln) {
+            if (rjs_string_equal(rt, name, &ie->local_name->value)) {
+                found = RJS_TRUE;
+                break;
             }
+        }
+
+        if (found) {
+            /*An imported binding is exported indirectly, a namespace is exported as a local binding.*/
+            if (ie->import_name) {
+                rjs_list_remove(&ee->ast.ln);
+                parser->local_export_num --;
 
-            if (!found) {
-                parse_error(rt, &ee->ast.location,
-                        _("\"%s\" is not defined"),
-                        rjs_string_to_enc_chars(rt, name, NULL, NULL));
+                ee->module      = ie->module;
+                ee->import_name = ie->import_name;
+                ee->local_name  = NULL;
+
+                rjs_list_append(&parser->indir_export_list, &ee->ast.ln);
+                parser->indir_export_num ++;
             }
+            continue;
+        }
+
+        /*Is defined in variable or lexical declaration.*/
+        he = hash_lookup(rt, &func->lex_decl->item_hash, name, NULL);
+        if (!he) {
+            parse_error(rt, &ee->ast.location,
+                    _("\"%s\" is not defined"),
+                    rjs_string_to_enc_chars(rt, name, NULL, NULL));
         }
     }
 
-- 
2.43.0


From 9cbd25c4fdc525493e0d4a10ea60cf556714535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:53 +0000
Subject: [PATCH 65/67] fix: re-exporting names reserved in strict code from
 another module was refused

---
 src/lib/rjs_parser.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/lib/rjs_parser.c b/src/lib/rjs_parser.c
index 8884cce..e026dbb 100644
--- a/src/lib/rjs_parser.c
+++ b/src/lib/rjs_parser.c
@@ -9073,11 +9073,6 @@ parse_name_exports (RJS_Runtime *rt, RJS_List *list)
 
         if ((tok->type == RJS_TOKEN_STRING)
                 || (tok->type == RJS_TOKEN_IDENTIFIER)) {
-            if (tok->flags & RJS_TOKEN_FL_STRICT_RESERVED) {
-                parse_error(rt, &tok->location, _("\"%s\" cannot be used in export entry"),
-                        rjs_string_to_enc_chars(rt, tok->value, NULL, NULL));
-            }
-
             if (tok->type == RJS_TOKEN_STRING) {
                 ee->has_str = RJS_TRUE;
 
-- 
2.43.0


From d317be71e85dfe8c8dd5668afaa3043b7641926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:05 +0000
Subject: [PATCH 66/67] fix: a self tail call shared one environment between
 all calls, skipped the class constructor check and closed iterators first;
 returning the result of a suspended generator restarted the function

---
 src/lib/rjs_bc_gen.c            |  3 ++-
 src/lib/rjs_native_stack.c      | 40 +++++++++++++++++++++++++++------
 src/lib/rjs_object_object_inc.c |  6 +++--
 3 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index 7188717..a40a421 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -3391,7 +3391,8 @@ bc_gen_for_in_of_stmt (RJS_Runtime *rt, RJS_BcGen *bg, RJS_AstForStmt *fs)
         assert(0);
     }
 
-    if (fs->ast.type == RJS_AST_AwaitForOfStmt)
+    /*The iterator is closed after the returned value is evaluated.*/
+    if (fs->ast.type != RJS_AST_ForInStmt)
         bg->tco = RJS_FALSE;
 
     /*Run loop statement.*/
diff --git a/src/lib/rjs_native_stack.c b/src/lib/rjs_native_stack.c
index f48536d..05b0f7a 100644
--- a/src/lib/rjs_native_stack.c
+++ b/src/lib/rjs_native_stack.c
@@ -1129,6 +1129,22 @@ direct_eval (RJS_Runtime *rt, RJS_Value *args, size_t argc, RJS_Value *rv)
 
 #endif /*ENABLE_EVAL*/
 
+/*Check if a call of the function itself can be replaced by a restart of the function.*/
+static RJS_Bool
+is_tco_function (RJS_ScriptFunc *sf)
+{
+    int flags = RJS_FUNC_FL_CLASS_CONSTR;
+
+#if ENABLE_GENERATOR
+    flags |= RJS_FUNC_FL_GENERATOR;
+#endif /*ENABLE_GENERATOR*/
+#if ENABLE_ASYNC
+    flags |= RJS_FUNC_FL_ASYNC;
+#endif /*ENABLE_ASYNC*/
+
+    return !(sf->flags & flags);
+}
+
 /**
  * Call the function use the top call state in the stack.
  * \param rt The current runtime.
@@ -1149,9 +1165,11 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
     assert(s->type == RJS_STATE_CALL);
 
     if ((flags & RJS_CALL_FL_TCO)
-            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)) {
+            && rjs_same_value(rt, &ctxt->function, s->s.s_call.func)
+            && is_tco_function(((RJS_ScriptContext*)ctxt)->script_func)) {
         /*Tail call optimize.*/
         RJS_ScriptContext *sc = (RJS_ScriptContext*)ctxt;
+        RJS_Environment   *env;
         RJS_Value         *args;
         size_t             argc;
 
@@ -1172,13 +1190,14 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
         sc->args = args;
         sc->argc = argc;
 
-        /*Bind this argument.*/
-        rt->env         = sc->scb.lex_env;
-        sc->scb.lex_env = sc->scb.var_env;
+        /*The old environment may be used by closures, create a new one.*/
+        rjs_function_env_new(rt, &rt->env, &ctxt->function, rjs_v_undefined(rt));
+        env = rt->env;
+        sc->scb.lex_env = env;
+        sc->scb.var_env = env;
 
-        rjs_function_env_clear(rt, sc->scb.var_env);
+        /*Bind this argument.*/
         rjs_ordinary_call_bind_this(rt, &ctxt->function, s->s.s_call.thiz);
-        sc->scb.lex_env = rt->env;
 
         /*Pop up the states.*/
         while (sp < rt->rb.curr_native_stack->state.item_num) {
@@ -1186,6 +1205,9 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
                 return r;
         }
 
+        rt->env         = env;
+        sc->scb.lex_env = env;
+
         r = RJS_FALSE;
 #if ENABLE_EVAL
     } else if ((flags & RJS_CALL_FL_EVAL)
@@ -1196,7 +1218,11 @@ rjs_call_state_call (RJS_Runtime *rt, size_t sp, int flags, RJS_Value *rv)
 #endif /*ENABLE_EVAL*/
     } else {
         r = rjs_call(rt, s->s.s_call.func, s->s.s_call.thiz, s->s.s_call.args, s->s.s_call.argc, rv);
-        
+
+        /*A suspended generator has returned to its caller. RJS_FALSE is only used for tail calls.*/
+        if (r != RJS_ERR)
+            r = RJS_OK;
+
         rjs_state_pop(rt);
     }
 
diff --git a/src/lib/rjs_object_object_inc.c b/src/lib/rjs_object_object_inc.c
index 0a93ecb..d43db58 100644
--- a/src/lib/rjs_object_object_inc.c
+++ b/src/lib/rjs_object_object_inc.c
@@ -423,10 +423,12 @@ static RJS_NF(Object_getOwnPropertyDescriptor)
     if (r == RJS_ERR)
         goto end;
 
-    if (!r)
+    if (!r) {
         rjs_value_set_undefined(rt, rv);
-    else
+        r = RJS_OK;
+    } else {
         r = rjs_from_property_descriptor(rt, &pd, rv);
+    }
 end:
     rjs_property_desc_deinit(rt, &pd);
     rjs_value_stack_restore(rt, top);
-- 
2.43.0


From 7806c0bbc0923ee5590208f6f7feb22506293c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:28 +0000
Subject: [PATCH 67/67] fix: break and continue after a tail call left one
 scope too many, so later names were resolved in the wrong scope

---
 src/lib/rjs_bc_gen.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/rjs_bc_gen.c b/src/lib/rjs_bc_gen.c
index a40a421..5b459ec 100644
--- a/src/lib/rjs_bc_gen.c
+++ b/src/lib/rjs_bc_gen.c
@@ -141,6 +141,7 @@ bc_cmd_add_stack_check (RJS_Runtime *rt, RJS_BcGen *bg, RJS_BcType type, int lin
             break;
         case RJS_BC_pop_state:
         case RJS_BC_call:
+        case RJS_BC_tail_call:
         case RJS_BC_super_call:
         case RJS_BC_new:
         case RJS_BC_save_lex_env:
-- 
2.43.0

