From 2b513c70531fa4605efb1b7e88f07bd1bec2d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 01/19] fix: Barrett reduction updated a copy of the value, so
 mod_pow with a modulus of 32 or more words was wrong

---
 include/FastReducer.h                    | 4 ++--
 src/BigIntegerCalculator/FastReducer.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/FastReducer.h b/include/FastReducer.h
index 1737648..e504836 100644
--- a/include/FastReducer.h
+++ b/include/FastReducer.h
@@ -6,7 +6,7 @@ struct FastReducer {
 public:
     FastReducer(uint_array modulus);
 
-    int Reduce(uint_array, int length);
+    int Reduce(uint_array& value, int length);
 
 private:
     uint_array _modulus;
@@ -17,6 +17,6 @@ private:
 
     int DivMul(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& bits, int k);
 
-    int SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k);
+    int SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k);
 
 };
\ No newline at end of file
diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index ef96902..baac9a0 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -14,7 +14,7 @@ FastReducer::FastReducer(uint_array modulus) {
     _muLength = BigIntegerCalculator::actual_length(_mu);
 }
 
-int FastReducer::Reduce(uint_array value, int length) {
+int FastReducer::Reduce(uint_array& value, int length) {
     if (length < _modulus.size())
         return length;
 
@@ -42,7 +42,7 @@ int FastReducer::DivMul(uint_array& left, int leftLength, uint_array& right, int
     return 0;
 }
 
-int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int rightLength, uint_array modulus, int k) {
+int FastReducer::SubMod(uint_array& left, int leftLength, uint_array& right, int rightLength, uint_array& modulus, int k) {
     if (leftLength > k)
         leftLength = k;
 
@@ -61,6 +61,6 @@ int FastReducer::SubMod(uint_array left, int leftLength, uint_array right, int r
         leftLength = BigIntegerCalculator::actual_length(left, leftLength);
     }
 
-    std::fill(left.begin(), left.begin() + leftLength, left.size() - leftLength);
+    std::fill(left.begin() + leftLength, left.end(), 0);
     return leftLength;
 }
-- 
2.43.0


From a0b85080e5ebb931174649affa4e7de14ed5b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 02/19] fix: mod_pow with Barrett reduction applied the last
 word of a multi-word exponent twice

---
 src/BigIntegerCalculator/PowMod.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index ef69c5e..7315e05 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -212,7 +212,8 @@ uint_array BigIntegerCalculator::pow_core(const uint_array& power, const uint_ar
 void
 BigIntegerCalculator::pow_core(const uint_array& power, FastReducer& reducer, BitsBuffer& value, BitsBuffer& result,
                                BitsBuffer& temp) {
-    for (auto p : power) {
+    for (int i = 0; i < power.size() - 1; i++) {
+        unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
             if ((p & 1) == 1) {
                 result.MultiplySelf(value, temp);
-- 
2.43.0


From 2508324f1b149b4dcb6f26f14ddf567421d97d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 03/19] fix: heap overflow in Barrett reduction when the
 modulus is a power of 2^32

---
 src/BigIntegerCalculator/FastReducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BigIntegerCalculator/FastReducer.cpp b/src/BigIntegerCalculator/FastReducer.cpp
index baac9a0..511bf7c 100644
--- a/src/BigIntegerCalculator/FastReducer.cpp
+++ b/src/BigIntegerCalculator/FastReducer.cpp
@@ -8,7 +8,8 @@ FastReducer::FastReducer(uint_array modulus) {
     _mu = BigIntegerCalculator::divide(r, modulus);
     _modulus = modulus;
 
-    _q1 = uint_array(modulus.size() * 2 + 2);
+    // _mu has one more word when the modulus is a power of 2^32
+    _q1 = uint_array(modulus.size() * 2 + 3);
     _q2 = uint_array(modulus.size() * 2 + 1);
 
     _muLength = BigIntegerCalculator::actual_length(_mu);
-- 
2.43.0


From 72cccfea24df8eeb7d8d64c919be1bafd1c24ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 04/19] fix: gcd of operands of three or more words worked on
 copies and cleared the wrong words

---
 include/BitsBuffer.h                    | 2 +-
 src/BigIntegerCalculator/BitsBuffer.cpp | 6 +++---
 src/BigIntegerCalculator/GcdInv.cpp     | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/BitsBuffer.h b/include/BitsBuffer.h
index 66f2918..b1894d3 100644
--- a/include/BitsBuffer.h
+++ b/include/BitsBuffer.h
@@ -27,7 +27,7 @@ public:
 
     void Overwrite(uint32_t value);
 
-    uint_array GetBits() { return _bits; }
+    uint_array& GetBits() { return _bits; }
 
     int GetSize() { return _bits.size(); }
 
diff --git a/src/BigIntegerCalculator/BitsBuffer.cpp b/src/BigIntegerCalculator/BitsBuffer.cpp
index f5bd7f7..c4845d0 100644
--- a/src/BigIntegerCalculator/BitsBuffer.cpp
+++ b/src/BigIntegerCalculator/BitsBuffer.cpp
@@ -55,7 +55,7 @@ void BitsBuffer::Reduce(BitsBuffer& modulus) {
 
 void BitsBuffer::Overwrite(uint64_t value) {
     if (_length > 2)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 2), 2);
+        std::fill(_bits.begin() + 2, _bits.begin() + _length, 0);
     uint32_t lo = static_cast<uint32_t>(value); // unchecked()
     uint32_t hi = static_cast<uint32_t>(value >> 32);
     _bits[0] = lo;
@@ -65,14 +65,14 @@ void BitsBuffer::Overwrite(uint64_t value) {
 
 void BitsBuffer::Overwrite(uint32_t value) {
     if (_length > 1)
-        std::fill(_bits.begin(), _bits.begin() + (_length - 1), 1);
+        std::fill(_bits.begin() + 1, _bits.begin() + _length, 0);
     _bits[0] = value;
     _length = value != 0 ? 1 : 0;
 }
 
 void BitsBuffer::Refresh(int maxLength) {
     if (_length > maxLength)
-        std::fill(_bits.begin(), _bits.begin() + (_length - maxLength), maxLength);
+        std::fill(_bits.begin() + maxLength, _bits.begin() + _length, 0);
     _length = BigIntegerCalculator::actual_length(_bits, maxLength);
 }
 
diff --git a/src/BigIntegerCalculator/GcdInv.cpp b/src/BigIntegerCalculator/GcdInv.cpp
index 3f5936b..bf8a5e1 100644
--- a/src/BigIntegerCalculator/GcdInv.cpp
+++ b/src/BigIntegerCalculator/GcdInv.cpp
@@ -228,8 +228,8 @@ void BigIntegerCalculator::lehmer_core(BitsBuffer& xBuffer, BitsBuffer& yBuffer,
 
     // Executes the combined calculation of Lehmer's step.
 
-    uint_array x = xBuffer.GetBits();
-    uint_array y = yBuffer.GetBits();
+    uint_array& x = xBuffer.GetBits();
+    uint_array& y = yBuffer.GetBits();
 
     int length = yBuffer.GetLength();
 
-- 
2.43.0


From 4adfec02cfc05569b666835f11e406f5f50b763a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 05/19] fix: div_rem of a negative multi-word dividend by a
 small divisor returned the remainder modulo 2^32

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a871090..5dba0b1 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -605,7 +605,7 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
-        remainder = dividend._sign < 0 ? -1 * rest : rest;
+        remainder = dividend._sign < 0 ? -static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
         return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
     }
 
-- 
2.43.0


From d2cc9a798f517fab98aebe712325a0f636302bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 06/19] fix: mod_pow with a small modulus lost the sign of a
 negative result

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 5dba0b1..02d4e0d 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1595,7 +1595,7 @@ BigInteger BigInteger::mod_pow(const BigInteger& value, const BigInteger& expone
             else
                 bits = BigIntegerCalculator::pow(value._bits, exponent._bits, std::abs(modulus._sign));
         }
-        return value._sign < 0 && !exponent.is_even() ? -1 * bits : bits;
+        return value._sign < 0 && !exponent.is_even() ? -static_cast<int64_t>(bits) : static_cast<int64_t>(bits);
     } else {
         uint_array bits;
         if (trivialValue && trivialExponent) {
-- 
2.43.0


From c577a1a8b8c6182932450cf7dd8b91cdf81dca30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 07/19] fix: div_rem returned a wrong quotient when the
 remainder is stored into the dividend or the divisor

---
 src/BigInteger.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 02d4e0d..018830e 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -589,8 +589,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
     if (trivialDividend && trivialDivisor) {
         if (divisor._sign == 0)
             throw DivideByZero();
+        int quotient = dividend._sign / divisor._sign;
         remainder = dividend._sign % divisor._sign;
-        return dividend._sign / divisor._sign;
+        return quotient;
     }
 
     if (trivialDividend) {
@@ -605,8 +606,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = dividend.get_bits();
         uint_array bits = BigIntegerCalculator::divide(rbits, std::abs(divisor._sign), rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = dividend._sign < 0 ? -static_cast<int64_t>(rest) : static_cast<int64_t>(rest);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 
     if (dividend.get_bits().size() < divisor.get_bits().size()) {
@@ -618,8 +620,9 @@ BigInteger BigInteger::div_rem(BigInteger& dividend, BigInteger& divisor, BigInt
         uint_array rbits = divisor.get_bits();
         uint_array bits = BigIntegerCalculator::divide(lbits, rbits, rest);
 
+        BigInteger quotient(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
         remainder = BigInteger(rest, dividend._sign < 0);
-        return BigInteger(bits, (dividend._sign < 0) ^ (divisor._sign < 0));
+        return quotient;
     }
 }
 
-- 
2.43.0


From 855c286b34c2d8227bab651b199c8e30691689d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:55 +0000
Subject: [PATCH 08/19] fix: mod_pow with a multi-word exponent and modulus
 zero ended the process instead of raising DivideByZero

---
 src/BigIntegerCalculator/PowMod.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BigIntegerCalculator/PowMod.cpp b/src/BigIntegerCalculator/PowMod.cpp
index 7315e05..21d42da 100644
--- a/src/BigIntegerCalculator/PowMod.cpp
+++ b/src/BigIntegerCalculator/PowMod.cpp
@@ -89,6 +89,8 @@ uint32_t BigIntegerCalculator::pow(const uint_array& value, uint32_t power, uint
 }
 
 uint32_t BigIntegerCalculator::pow_core(const uint_array& power, uint32_t modulus, uint64_t value, uint64_t result) {
+    if (modulus == 0)
+        throw DivideByZero();
     for (int i = 0; i < power.size() - 1; i++) {
         unsigned int p = power[i];
         for (int j = 0; j < 32; j++) {
-- 
2.43.0


From 90d40c8519cd3fb79c4940f0bf72e383dc234722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 09/19] fix: right shift of some negative values by whole words
 returned zero

---
 src/BigInteger.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index 018830e..e6b8daa 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1098,6 +1098,9 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     }
     if (negx) {
         NumericsHelpers::dangerous_make_twos_complement(zd); // Mutates zd
+        // The complement of all zeros carries into a new word
+        if (std::all_of(zd.begin(), zd.end(), [](uint32_t word) { return word == 0; }))
+            zd.push_back(1);
     }
     *this = BigInteger(zd, negx);
     return *this;
-- 
2.43.0


From a8d7d8b34c7a982f5a0dc6bf1e695636dd2d2c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 10/19] fix: integer overflow in the right shift of negative
 values of 2^26 or more words

---
 src/BigInteger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index e6b8daa..a71ffcc 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -1066,7 +1066,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
     negx = get_parts_for_bit_manipulation(*this, xd, xl);
 
     if (negx) {
-        if (shift >= (kcbitUint * xl)) {
+        if (shift >= (static_cast<int64_t>(kcbitUint) * xl)) {
             *this = s_bnMinusOneInt;
             return *this;
         }
-- 
2.43.0


From 1de0f98c061a914bdb704019a39440fd32f63682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:17 +0000
Subject: [PATCH 11/19] fix: undefined signed overflow and shifts when
 converting the most negative integers and short negative byte arrays

---
 src/BigInteger.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index a71ffcc..decfb59 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -51,7 +51,7 @@ BigInteger::BigInteger(int64_t value) {
     } else {
         uint64_t x = 0;
         if (value < 0) {
-            x = static_cast<uint64_t>(-value);
+            x = 0 - static_cast<uint64_t>(value);
             _sign = -1;
         } else {
             x = static_cast<uint64_t>(value);
@@ -133,11 +133,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
 
         if (isBigEndian) {
             for (int i = 0; i < byteCount; i++) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         } else {
             for (int i = byteCount - 1; i >= 0; i--) {
-                _sign = (_sign << 8) | value[i];
+                _sign = static_cast<int>((static_cast<uint32_t>(_sign) << 8) | value[i]);
             }
         }
 
@@ -1427,7 +1427,7 @@ BigInteger::operator int() {
     if (_bits[0] > kuMaskHighBit)
         throw std::overflow_error("SR.Overflow_Int32");
 
-    return -static_cast<int>(_bits[0]);
+    return static_cast<int>(0 - _bits[0]);
 }
 
 BigInteger::operator unsigned int() {
@@ -1458,7 +1458,7 @@ BigInteger::operator long() {
         uu = _bits[0];
     }
 
-    long ll = _sign > 0 ? static_cast<long>(uu) : -static_cast<long>(uu);
+    long ll = _sign > 0 ? static_cast<long>(uu) : static_cast<long>(0 - uu);
     if ((ll > 0 && _sign > 0) || (ll < 0 && _sign < 0))
         return ll;
     throw std::overflow_error("SR.Overflow_Int64");
-- 
2.43.0


From de63d170ec4733c8200d811b1fd8374e47995265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 12/19] fix: to_string wrote before its buffer for negative
 numbers with a multiple of nine digits

---
 src/BigInteger.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index decfb59..ff549cc 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -881,6 +881,14 @@ std::string BigInteger::to_string() const {
         cchMax = cuDst * kcchBase;
     }
 
+    if (_sign < 0) {
+        // Room for the leading minus.
+        if (cchMax == std::numeric_limits<int32_t>::max()) {
+            throw std::overflow_error("SR.Format_TooLarge");
+        }
+        cchMax++;
+    }
+
     // We'll pass the rgch buffer to native code, which is going to treat it like a string of digits, so it needs
     // to be null terminated.  Let's ensure that we can allocate a buffer of that size.
     int rgchBufSize;
-- 
2.43.0


From 65588bb90edc348e6a96d13333577abd1d9f6bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:33 +0000
Subject: [PATCH 13/19] fix: to_string leaked its buffer when the result string
 could not be allocated

---
 src/BigInteger.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index ff549cc..e434908 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -898,8 +898,7 @@ std::string BigInteger::to_string() const {
         rgchBufSize = cchMax + 1;
     }
 
-//    char rgch[rgchBufSize];
-    char *rgch = new char[rgchBufSize];
+    std::vector<char> rgch(rgchBufSize);
     int ichDst = cchMax;
     for (int iuDst = 0; iuDst < cuDst - 1; iuDst++) {
         uint32_t uDig = rguDst[iuDst];
@@ -921,9 +920,7 @@ std::string BigInteger::to_string() const {
             rgch[--ichDst] = negativeSign[i];
     }
 
-    auto s = std::string(&rgch[ichDst], cchMax - ichDst);
-    delete [] rgch;
-    return s;
+    return std::string(&rgch[ichDst], cchMax - ichDst);
 }
 
 bool BigInteger::get_parts_for_bit_manipulation(const BigInteger& x, uint_array& xd, int& xl) {
-- 
2.43.0


From cd2ee766fa302e5e8bb0ae1b636268c62a543169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:56 +0000
Subject: [PATCH 14/19] fix: postfix ++ and -- returned the updated value
 instead of the previous one

---
 include/public/bigintegercpp/BigInteger.h |  4 ++--
 src/BigInteger.cpp                        | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index 7b25672..dfb90ba 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -126,7 +126,7 @@ public:
     BigInteger& operator+=(const BigInteger& rhs);
 
     BigInteger& operator++(); // prefix
-    BigInteger& operator++(int unused); // postfix
+    BigInteger operator++(int unused); // postfix
 
     static BigInteger add(BigInteger& lhs, const BigInteger& rhs);
 
@@ -138,7 +138,7 @@ public:
     BigInteger& operator-=(const BigInteger& rhs);
 
     BigInteger& operator--(); // prefix
-    BigInteger& operator--(int unused); // postfix
+    BigInteger operator--(int unused); // postfix
     static BigInteger subtract(BigInteger& lhs, const BigInteger& rhs);
 
     BigInteger subtract(const uint_array& lhs, int lhsSign, const uint_array& rhs, int rhsSign);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index e434908..fc5b3e9 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -639,8 +639,10 @@ BigInteger& BigInteger::operator++() {
     return *this;
 }
 
-BigInteger& BigInteger::operator++(int dummy) {
-    return ++(*this);
+BigInteger BigInteger::operator++(int dummy) {
+    BigInteger previous = *this;
+    ++(*this);
+    return previous;
 }
 
 BigInteger& BigInteger::operator--() {
@@ -649,8 +651,10 @@ BigInteger& BigInteger::operator--() {
     return *this;
 }
 
-BigInteger& BigInteger::operator--(int unused) {
-    return --(*this);
+BigInteger BigInteger::operator--(int unused) {
+    BigInteger previous = *this;
+    --(*this);
+    return previous;
 }
 
 
-- 
2.43.0


From 0624e80f4986ac681b7b5ed31928e78d956772eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 15/19] fix: integers built before the library was initialised
 were wrong (INT_MIN, shifts to -1, powers of zero)

---
 include/public/bigintegercpp/BigInteger.h |  5 ---
 src/BigInteger.cpp                        | 37 ++++++++++-------------
 2 files changed, 16 insertions(+), 26 deletions(-)

diff --git a/include/public/bigintegercpp/BigInteger.h b/include/public/bigintegercpp/BigInteger.h
index dfb90ba..34e2f8a 100644
--- a/include/public/bigintegercpp/BigInteger.h
+++ b/include/public/bigintegercpp/BigInteger.h
@@ -187,11 +187,6 @@ private:
     int _sign;
     uint_array _bits;
 
-    static const BigInteger s_bnMinInt;
-    static const BigInteger s_bnOneInt;
-    static const BigInteger s_bnZeroInt;
-    static const BigInteger s_bnMinusOneInt;
-
     BigInteger(uint_array value);
 
     static int get_diff_length(const uint_array& rgu1, const uint_array& rgu2, int cu);
diff --git a/src/BigInteger.cpp b/src/BigInteger.cpp
index fc5b3e9..163bdd9 100644
--- a/src/BigInteger.cpp
+++ b/src/BigInteger.cpp
@@ -11,11 +11,6 @@
 #include <algorithm>
 #include "../include/BigIntegerCalculator.h"
 
-const BigInteger BigInteger::s_bnMinInt = BigInteger(-1, uint_array{kuMaskHighBit});
-const BigInteger BigInteger::s_bnOneInt = BigInteger(1);
-const BigInteger BigInteger::s_bnZeroInt = BigInteger(0);
-const BigInteger BigInteger::s_bnMinusOneInt = BigInteger(-1);
-
 
 BigInteger::BigInteger() {
     _sign = 0;
@@ -24,7 +19,7 @@ BigInteger::BigInteger() {
 
 BigInteger::BigInteger(int32_t value) {
     if (value == std::numeric_limits<int32_t>::min()) {
-        *this = s_bnMinInt;
+        *this = BigInteger(-1, uint_array{kuMaskHighBit});
     } else {
         _sign = value;
         _bits.clear();
@@ -47,7 +42,7 @@ BigInteger::BigInteger(int64_t value) {
     if (std::numeric_limits<int32_t>::min() < value && value <= std::numeric_limits<int32_t>::max()) {
         _sign = static_cast<int32_t>(value);
     } else if (value == std::numeric_limits<int32_t>::min()) {
-        *this = s_bnMinInt;
+        *this = BigInteger(-1, uint_array{kuMaskHighBit});
     } else {
         uint64_t x = 0;
         if (value < 0) {
@@ -151,7 +146,7 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             _sign = +1;
         }
         if (_sign == std::numeric_limits<int>::min()) {
-            *this = s_bnMinInt;
+            *this = BigInteger(-1, uint_array{kuMaskHighBit});
         }
     } else {
         int unalignedBytes = byteCount % 4;
@@ -216,11 +211,11 @@ BigInteger::BigInteger(byte_array value, bool isUnsigned, bool isBigEndian) {
             if (len == 1) {
                 switch (val[0]) {
                     case 1: // abs(-1)
-                        *this = s_bnMinusOneInt;
+                        *this = minus_one();
                         return;
 
                     case kuMaskHighBit: // abs(Int32.MinValue)
-                        *this = s_bnMinInt;
+                        *this = BigInteger(-1, uint_array{kuMaskHighBit});
                         return;
 
                     default:
@@ -260,7 +255,7 @@ BigInteger::BigInteger(uint_array value) {
 
     if (dwordCount == 0) {
         // BigInteger.zero
-        *this = BigInteger::s_bnZeroInt;
+        *this = zero();
         assert_valid();
         return;
     }
@@ -271,7 +266,7 @@ BigInteger::BigInteger(uint_array value) {
         }
             // Handle the special cases where the BigInteger likely fits into _sign
         else if (std::numeric_limits<int>::min() == static_cast<int>(value[0])) {
-            *this = BigInteger::s_bnMinInt;
+            *this = BigInteger(-1, uint_array{kuMaskHighBit});
         } else {
             _sign = static_cast<int>(value[0]);
         }
@@ -304,9 +299,9 @@ BigInteger::BigInteger(uint_array value) {
     // The number is represented by a single dword
     if (len == 1 && static_cast<int>((value[0])) > 0) {
         if (value[0] == 1 /* abs(-1) */) {
-            *this = s_bnMinusOneInt;
+            *this = minus_one();
         } else if (value[0] == kuMaskHighBit /* abs(Int32.MinValue) */) {
-            *this = s_bnMinInt;
+            *this = BigInteger(-1, uint_array{kuMaskHighBit});
         } else {
             _sign = (-1) * ((int) value[0]);
         }
@@ -335,14 +330,14 @@ BigInteger::BigInteger(uint_array value, bool negative) {
     for (len = value.size(); len > 0 && value[len - 1] == 0; len--);
 
     if (len == 0)
-        *this = s_bnZeroInt;
+        *this = zero();
         // Values like (Int32.MaxValue+1) are stored as "0x80000000" and as such cannot be packed into _sign
     else if (len == 1 && value[0] < kuMaskHighBit) {
         _sign = (negative ? -(int) value[0] : (int) value[0]);
         _bits = uint_array();
         // Although Int32.MinValue fits in _sign, we represent this case differently for negate
         if (_sign == std::numeric_limits<int>::min())
-            *this = s_bnMinInt;
+            *this = BigInteger(-1, uint_array{kuMaskHighBit});
     } else {
         _sign = negative ? -1 : +1;
         _bits.swap(value);
@@ -700,7 +695,7 @@ BigInteger& BigInteger::operator/=(const BigInteger& div) {
     if (trivialDividend) {
         // The divisor is non-trivial
         // and therefore the bigger one
-        *this = BigInteger::s_bnZeroInt;
+        *this = zero();
         return *this;
     }
 
@@ -714,7 +709,7 @@ BigInteger& BigInteger::operator/=(const BigInteger& div) {
     assert(!dividend._bits.empty() && !divisor._bits.empty());
 
     if (dividend._bits.size() < divisor._bits.size()) {
-        *this = BigInteger::s_bnZeroInt;
+        *this = zero();
         return *this;
     } else {
         uint_array bits = BigIntegerCalculator::divide(dividend._bits, divisor._bits);
@@ -1076,7 +1071,7 @@ BigInteger& BigInteger::operator>>=(const int shift) {
 
     if (negx) {
         if (shift >= (static_cast<int64_t>(kcbitUint) * xl)) {
-            *this = s_bnMinusOneInt;
+            *this = minus_one();
             return *this;
         }
         uint_array temp = xd;
@@ -1562,7 +1557,7 @@ BigInteger BigInteger::pow(const BigInteger& value, int exponent) {
     value.assert_valid();
 
     if (exponent == 0)
-        return s_bnOneInt;
+        return one();
     if (exponent == 1)
         return value;
 
@@ -1572,7 +1567,7 @@ BigInteger BigInteger::pow(const BigInteger& value, int exponent) {
         if (value._sign == 1)
             return value;
         if (value._sign == -1)
-            return (exponent & 1) != 0 ? value : s_bnOneInt;
+            return (exponent & 1) != 0 ? value : one();
         if (value._sign == 0)
             return value;
     }
-- 
2.43.0


From 3d4ae3aa862106e7c9ab92930456710da07d9fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 16/19] fix: Python: construction from a strided buffer ignored
 the strides and could read out of bounds

---
 bindings/python/python-bindings.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 57abc12..b65eb57 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -93,7 +93,10 @@ PYBIND11_MODULE(pybiginteger, m) {
                   throw std::runtime_error("Incompatible buffer format!");
 
               auto data_ptr = static_cast<unsigned char *>(info.ptr);
-              std::vector<unsigned char> data(data_ptr, data_ptr + info.size);
+              std::vector<unsigned char> data;
+              data.reserve(info.size);
+              for (py::ssize_t i = 0; i < info.shape[0]; i++)
+                  data.push_back(data_ptr[i * info.strides[0]]);
               return BigInteger(data);
             }), py::arg("value"))
             .def("__lt__", [](BigInteger& self, BigInteger& other) {
-- 
2.43.0


From d3263c634cce6eb573580b707fc6e06e8825440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:51 +0000
Subject: [PATCH 17/19] fix: Python: BigInteger and int compare equal but had
 different hashes

---
 bindings/python/python-bindings.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index b65eb57..5cc3dac 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -118,9 +118,8 @@ PYBIND11_MODULE(pybiginteger, m) {
                 return self == to_biginteger(other);
             })
             .def("__hash__", [](BigInteger& self) {
-                auto h = 2166136261;
-                h = (h * 16777619) ^ self.get_hash_code();
-                return h;
+                // equal to an int of the same value, thus it must have the same hash
+                return py::hash(to_py_int(self));
             })
             .def("__gt__", [](BigInteger& self, BigInteger& other) {
                 return self > other;
-- 
2.43.0


From 927225ba4b3bf661009f4ac8e8a36427fa9cf13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 18/19] fix: Python: divmod(int, BigInteger) failed for results
 of more than 4300 digits

---
 bindings/python/python-bindings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index 5cc3dac..a29103e 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -196,7 +196,7 @@ PYBIND11_MODULE(pybiginteger, m) {
                 BigInteger remainder;
                 auto big_self = to_biginteger(self);
                 auto div = BigInteger::div_rem(big_self, other, remainder);
-                return py::make_tuple(py::int_(py::str(div.to_string())), py::int_(py::str(remainder.to_string())));
+                return py::make_tuple(to_py_int(div), to_py_int(remainder));
             })
             .def("__pow__", [](BigInteger& base, BigInteger& exp) {
                 return BigInteger::pow(base, exp);
-- 
2.43.0


From 6316b70a2a0a848c801664ddfa532888b7a0c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:25 +0000
Subject: [PATCH 19/19] fix: Python methods called with None as self
 dereferenced a null pointer

---
 bindings/python/python-bindings.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/python-bindings.cpp b/bindings/python/python-bindings.cpp
index a29103e..5f76059 100644
--- a/bindings/python/python-bindings.cpp
+++ b/bindings/python/python-bindings.cpp
@@ -321,7 +321,7 @@ PYBIND11_MODULE(pybiginteger, m) {
             .def("__int__", [](BigInteger& self) { return to_py_int(self); }) // support int()
             .def("__float__", [](BigInteger& self) { return py::float_(to_py_int(self)); }) // support float() for Python < 3.8
             .def("__index__", [](BigInteger& self) { return to_py_int(self); }) // support range()
-            .def("__str__", &BigInteger::to_string)
+            .def("__str__", [](const BigInteger& self) { return self.to_string(); })
             .def("__deepcopy__", [](BigInteger& self, py::object memodict) {
                 BigInteger copy = self;
                 return copy;
@@ -329,8 +329,8 @@ PYBIND11_MODULE(pybiginteger, m) {
             .def_static("zero", &BigInteger::zero)
             .def_static("one", &BigInteger::one)
             .def_static("minus_one", &BigInteger::minus_one)
-            .def("is_power_of_two", &BigInteger::is_power_of_two)
-            .def("is_even", &BigInteger::is_even)
+            .def("is_power_of_two", [](const BigInteger& self) { return self.is_power_of_two(); })
+            .def("is_even", [](const BigInteger& self) { return self.is_even(); })
             .def_static("log", [](const BigInteger& value) { return BigInteger::log(value); }, py::arg("value"))
             .def_static("log", [](py::int_& value) { return BigInteger::log(to_biginteger(value)); }, py::arg("value"))
             .def_static("log", [](const BigInteger& value, double base_value) {
@@ -341,6 +341,6 @@ PYBIND11_MODULE(pybiginteger, m) {
                 }, py::arg("value"), py::arg("base_value"))
             .def_static("log10", &BigInteger::log10, py::arg("value"))
             .def_static("log10", [](py::int_& value) { return BigInteger::log10(to_biginteger(value)); }, py::arg("value"))
-            .def("get_bit_Length", &BigInteger::get_bit_length)
-            .def_property_readonly("sign", &BigInteger::sign);
+            .def("get_bit_Length", [](const BigInteger& self) { return self.get_bit_length(); })
+            .def_property_readonly("sign", [](const BigInteger& self) { return self.sign(); });
 }
-- 
2.43.0

