----------------------------- MODULE CodecProof ------------------------------
(* The encoding round-trips for every modulus, message and error inside the  *)
(* margin, proved with TLAPS.  D = 2 * h is the distance of two encodings,   *)
(* t the modulus, t * D the size of a word.  Decoding adds half of the       *)
(* distance, drops what exceeds the word, and takes the upper part: Decodes  *)
(* spells the remainder and the quotient out.                                *)
EXTENDS Integers, TLAPS
Decodes(x, h, t, y) ==
  \E w, z, a \in Int : /\ x + h = a * (t * (2 * h)) + w /\ 0 <= w /\ w < t * (2 * h)
                       /\ w = y * (2 * h) + z /\ 0 <= z /\ z < 2 * h
LEMMA Monotone == ASSUME NEW a \in Int, NEW b \in Int, NEW d \in Nat, a <= b PROVE a * d <= b * d
<1>1. PICK n \in Nat : b = a + n
  <2>1. b - a \in Nat /\ b = a + (b - a)
    OBVIOUS
  <2> QED BY <2>1
<1>2. b * d = a * d + n * d
  BY <1>1
<1>3. n * d >= 0 /\ n * d \in Int /\ a * d \in Int
  OBVIOUS
<1> QED BY <1>2, <1>3
LEMMA Less == \A u, v, d, p \in Int : u + d <= v /\ p < d => u + p < v
  OBVIOUS
LEMMA Same == ASSUME NEW d \in Nat \ {0}, NEW y \in Int, NEW m \in Int, NEW z \in Int, NEW r \in Int,
                     0 <= z, z < d, 0 <= r, r < d, y * d + z = m * d + r
              PROVE  y = m /\ z = r
<1>1. y * d \in Int /\ m * d \in Int
  OBVIOUS
<1>2. (m + 1) * d = m * d + d /\ (y + 1) * d = y * d + d
  OBVIOUS
<1>3. ~(y >= m + 1)
  <2> SUFFICES ASSUME m + 1 <= y PROVE FALSE
    OBVIOUS
  <2>1. (m + 1) * d <= y * d
    BY Monotone
  <2> QED BY <1>1, <1>2, <2>1
<1>4. ~(m >= y + 1)
  <2> SUFFICES ASSUME y + 1 <= m PROVE FALSE
    OBVIOUS
  <2>1. (y + 1) * d <= m * d
    BY Monotone
  <2> QED BY <1>1, <1>2, <2>1
<1> QED BY <1>3, <1>4
\* x is any word which equals the encoding of m plus the error e, up to multiples of the word size
THEOREM RoundTrip ==
  ASSUME NEW h \in Nat \ {0}, NEW t \in Nat \ {0}, NEW m \in 0..(t - 1), NEW e \in Int, 0 - h <= e, e < h,
         NEW c \in Int, NEW x \in Int, x = m * (2 * h) + e + c * (t * (2 * h))
  PROVE  Decodes(x, h, t, m) /\ \A y \in Int : Decodes(x, h, t, y) => y = m
<1> DEFINE d == 2 * h
<1> DEFINE q == t * d
<1> DEFINE r == m * d + (e + h)
<1>1. d \in Nat \ {0} /\ 0 <= e + h /\ e + h < d /\ e + h \in Int
  OBVIOUS
<1> HIDE DEF d
<1>2. q \in Nat \ {0}
  BY <1>1
<1>3. 0 <= r /\ r < q /\ r \in Int
  <2>1. m * d >= 0 /\ m * d \in Int /\ t * d \in Int
    BY <1>1
  <2>2. m + 1 \in Int /\ m + 1 <= t /\ (m + 1) * d = m * d + d
    BY <1>1
  <2>3. (m + 1) * d <= t * d
    BY <1>1, <2>2, Monotone
  <2>4. r = m * d + (e + h) /\ q = t * d
    OBVIOUS
  <2> HIDE DEF q, r
  <2>5. m * d + (e + h) < t * d
    <3>1. m * d \in Int /\ t * d \in Int /\ m * d + d <= t * d /\ e + h \in Int /\ e + h < d /\ d \in Int
      BY <1>1, <2>1, <2>2, <2>3
    <3> QED BY <3>1, Less
  <2>6. m * d + (e + h) >= 0 /\ m * d + (e + h) \in Int
    BY <1>1, <2>1
  <2> QED BY <2>4, <2>5, <2>6
<1>4. x + h = c * q + r
  <2>1. c * q \in Int /\ m * d \in Int
    BY <1>1, <1>2
  <2>2. x = m * d + e + c * q
    BY DEF d
  <2> HIDE DEF q
  <2> QED BY <2>1, <2>2
<1>5. Decodes(x, h, t, m)
  <2>1. r \in Int /\ c \in Int /\ e + h \in Int
    BY <1>3
  <2>2. r = m * d + (e + h)
    OBVIOUS
  <2>3. /\ x + h = c * q + r /\ 0 <= r /\ r < q
        /\ r = m * d + (e + h) /\ 0 <= e + h /\ e + h < d
    BY <1>1, <1>3, <1>4, <2>2
  <2> HIDE DEF r
  <2> QED BY <2>1, <2>3 DEF Decodes, q, d
<1>6. ASSUME NEW y \in Int, Decodes(x, h, t, y) PROVE y = m
  <2>1. PICK w, z, a \in Int : /\ x + h = a * q + w /\ 0 <= w /\ w < q
                               /\ w = y * d + z /\ 0 <= z /\ z < d
    BY <1>6 DEF Decodes, q, d
  <2>2. w = r
    <3> HIDE DEF q, r
    <3> QED BY <1>2, <1>3, <1>4, <2>1, Same
  <2>3. y * d + z = m * d + (e + h)
    BY <2>1, <2>2
  <2> QED BY <1>1, <2>1, <2>3, Same
<1> QED BY <1>5, <1>6
=============================================================================
