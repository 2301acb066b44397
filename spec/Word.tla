---- MODULE Word ----
(* 32-bit words as pairs of 16-bit halves: TLC's integers have 31 bits. *)
EXTENDS Integers, Sequences
B16 == 65536
W(h, l) == <<h, l>>
Zero == <<0, 0>>
WLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
WAdd(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + l \div B16) % B16, l % B16>>
WSub(a, b) == LET l == a[2] - b[2] IN IF l >= 0 THEN <<(a[1] - b[1]) % B16, l>> ELSE <<(a[1] - b[1] - 1) % B16, l + B16>>
WShr1(a) == <<a[1] \div 2, (a[1] % 2) * 32768 + a[2] \div 2>>
\* shift left by 8 and bring in a byte
WIn8(a, byte) == <<(a[1] % 256) * 256 + a[2] \div 256, (a[2] % 256) * 256 + byte>>
\* x * y for x < 2^16, y < 2^16 as a word
Mul16(x, y) == LET p == (x \div 256) * y   q == (x % 256) * y            \* x * y = 256 p + q, both below 2^24
                   l == (p % 256) * 256 + q
               IN <<p \div 256 + l \div B16, l % B16>>
\* product modulo 2^32
WMul(a, b) == LET p == Mul16(a[2], b[2])   c == Mul16(a[1], b[2])   d == Mul16(a[2], b[1])
              IN <<(p[1] + c[2] + d[2]) % B16, p[2]>>
Pow2w == [k \in 0..16 |-> 2^k]
WRotl(a, k) == IF k >= 16 THEN LET j == k - 16 IN <<((a[2] * Pow2w[j]) % B16) + (a[1] \div Pow2w[16 - j]), ((a[1] * Pow2w[j]) % B16) + (a[2] \div Pow2w[16 - j])>>
               ELSE <<((a[1] * Pow2w[k]) % B16) + (a[2] \div Pow2w[16 - k]), ((a[2] * Pow2w[k]) % B16) + (a[1] \div Pow2w[16 - k])>>
WShr(a, k) == IF k >= 16 THEN <<0, a[1] \div Pow2w[k - 16]>> ELSE <<a[1] \div Pow2w[k], (a[1] % Pow2w[k]) * Pow2w[16 - k] + a[2] \div Pow2w[k]>>
RECURSIVE Xor16(_, _, _)
Xor16(x, y, n) == IF n = 0 THEN 0 ELSE ((x + y) % 2) + 2 * Xor16(x \div 2, y \div 2, n - 1)
WXor(a, b) == <<Xor16(a[1], b[1], 16), Xor16(a[2], b[2], 16)>>
====
