----------------------------- MODULE BitsTrace -----------------------------
EXTENDS Replay, Bits
Sorted(S, s) == Rng(s) = S /\ Ascending(s)
Bits1(r) == LET S == Rng(r.b) N == r.n IN
   /\ r.ffs = Ffs(S)
   /\ r.fls = Fls(S)
   /\ Sorted(S, r.idx) /\ Sorted(S, r.idx2)
   /\ Rng(r.exp) = S
   /\ Rng(r.trh) = Lo(S, N)
   /\ Rng(r.tr32) = {b \in S : b < 32}
   /\ r.halves => /\ Rng(r.lo) = Lo(S, N)
                  /\ Rng(r.hi) = Hi(S, N)
                  /\ Len(r.str) = N \div 2
                  /\ \A i \in 1..Len(r.str) : r.str[i] = OccChar(S, N, i-1)
                  /\ Rng(r.back) = S
   /\ r.wide => \A k \in 0..7 : r.w[k+1] = Word16(S, k)
   /\ r.ull => \A k \in 0..7 : r.u[k+1] = IF k < 4 THEN Word16(S, k) ELSE 0
Accept(r) ==
  CASE r.op = "bits" -> Bits1(r)
    [] r.op = "empty" -> r.idx = <<>> /\ r.idx2 = <<>> /\ r.exp = <<>> /\ r.tr = <<>>
    [] r.op = "mask" -> Rng(r.m) = Mask(r.i)
    [] r.op = "mask2" -> Rng(r.m) = Mask(r.n) /\ Rng(r.m2) = Mask(r.n) /\ Rng(r.m4) = Mask(r.n) /\ Rng(r.mh) = Mask(r.n \div 2)
    [] r.op = "less" -> LET v == Less(Rng(r.x), Rng(r.y)) IN r.r = v /\ r.c = v
    [] r.op = "fromstr" -> Rng(r.b64) = FromChars(r.str, 64) /\ Rng(r.b128) = FromChars(r.str, 128)
    [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
