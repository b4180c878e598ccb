--------------------------- MODULE TransformTrace ---------------------------
(* Recorded calls of the index transformations.                              *)
EXTENDS Transform, Replay, TLC
X2(r) == Tab2(r.n, LAMBDA a, b : fX(r.k, a, b, 0, 0))
X4(r) == Tab4(r.n, LAMBDA a, b, c, d : fX(r.k, a, b, c, d))
\* few entries x = <<indices.., value>>, matrix entries <<row, column, value>>
SparseIx(r) ==
  LET k == Len(r.x[1]) - 1 X == Rng(r.x) C == Rng(r.cs)
      row == TLCEval([i \in 0..r.n-1 |-> {c \in C : c[1] = i}])
      \* what one entry of the table becomes: pairs <<indices, value>>
      RECURSIVE Spread(_, _)
      Spread(x, j) == IF j > k THEN {<<<<>>, x[k+1]>>}
                      ELSE UNION {{<<<<c[2]>> \o t[1], c[3] * t[2]>> : t \in Spread(x, j+1)} : c \in row[x[j]]}
      parts == TLCEval([x \in X |-> Spread(x, 1)])
      keys == UNION {{t[1] : t \in parts[x]} : x \in X}
      At(x, key) == SumOver({t \in parts[x] : t[1] = key}, LAMBDA t : t[2])
      tot == TLCEval([key \in keys |-> SumOver(X, LAMBDA x : At(x, key))])
  IN /\ {<<SubSeq(y, 1, k), y[k+1]>> : y \in Rng(r.ys)} = {<<key, tot[key]>> : key \in {key \in keys : tot[key] # 0}}
Accept(r) == /\ r.pad
             /\ CASE r.op = "two" -> r.y = TwoIx(r.n, r.m, X2(r), r.c)
                  [] r.op = "four" -> r.y = IF r.n * r.m <= 4 THEN FourIx(r.n, r.m, X4(r), r.c) ELSE FourStaged(r.n, r.m, X4(r), r.c)
                  [] r.op = "sparse" -> SparseIx(r)
                  [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
