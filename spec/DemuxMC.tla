------------------------------ MODULE DemuxMC ------------------------------
(* One-hot selection for every width up to 2^MaxBits, every mixture of       *)
(* selection bits and every index.                                           *)
EXTENDS Demux, TLC
CONSTANTS MaxBits
VARIABLES bits, ok
Init == bits \in UNION {[1..n -> {0, 1}] : n \in 1..MaxBits} /\ ok = 0
\* the position which the bits address: complement, most significant first
RECURSIVE Addr(_, _)
Addr(bs, a) == IF bs = <<>> THEN a ELSE Addr(Tail(bs), 2 * a + 1 - Head(bs))
Good == LET i == Addr(bits, 0)
            c == Pow2(Len(bits))
        IN /\ Selectors(bits) = OneHot(i, c)
           /\ EncBits(i, c) = bits
           /\ \A d \in 1..(c - 1) : EncBits(i, c + d) = bits
Next == ok = 0 /\ ok' = (IF Good THEN 1 ELSE 2) /\ UNCHANGED bits
Spec == Init /\ [][Next]_<<bits, ok>>
OneHotAlways == ok # 2
=============================================================================
