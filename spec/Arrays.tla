------------------------------- MODULE Arrays -------------------------------
(* Algebraic vectors (dynamic size, 3, 6): registers hold exact components;   *)
(* in-place operations replace one register, questions leave all alone.       *)
EXTENDS Dense
CONSTANT Regs
VARIABLE vec
AInit0 == vec = [h \in Regs |-> <<>>]
UnitA(prec) == IF prec = "f" THEN EpsF ELSE EpsD
TinyA(prec) == RPow(R2, IF prec = "f" THEN -140 ELSE -1000)
Denorm(prec) == RPow(R2, IF prec = "f" THEN -149 ELSE -1074)
ValsA(t) == Eager([i \in 1..Len(t) |-> RD(t[i])])
FinA(all) == \A h \in Regs : \A i \in 1..Len(all[h]) : RFin(all[h][i])
(* every register after the call *)
Now(all) == Eager([h \in Regs |-> ValsA(all[h])])
After(all, h, v) == FinA(all) /\ Now(all) = [vec EXCEPT ![h] = v] /\ vec' = [vec EXCEPT ![h] = v]
Still(all) == FinA(all) /\ Now(all) = vec /\ UNCHANGED vec
Const(n, c) == Eager([i \in 1..n |-> c])
Backward(v) == Eager([i \in 1..Len(v) |-> v[Len(v) + 1 - i]])
RECURSIVE Insert(_, _)
Insert(s, y) == IF s = <<>> THEN <<y>> ELSE IF RLe(y, s[1]) THEN <<y>> \o s ELSE <<s[1]>> \o Insert(Tail(s), y)
RECURSIVE Sorted(_)
Sorted(v) == IF v = <<>> THEN <<>> ELSE Eager(Insert(Sorted(Tail(v)), v[1]))
VSetOK(h, v, out, all) == out = "ok" /\ After(all, h, v)
VPutOK(h, i, y, out, all) == out = "ok" /\ After(all, h, [vec[h] EXCEPT ![i] = y])
VFillOK(h, c, out, all) == out = "ok" /\ After(all, h, Const(Len(vec[h]), c))
VSortOK(h, up, out, all) == out = "ok" /\ After(all, h, IF up THEN Sorted(vec[h]) ELSE Backward(Sorted(vec[h])))
VRevOK(h, out, all) == out = "ok" /\ After(all, h, Backward(vec[h]))
VCopyOK(h, g, out, all) == out = "ok" /\ After(all, g, vec[h])
(* register g becomes an algebraic expression of registers h and g *)
Expr(form, c, v, w) == CASE form = "scale" -> Eager([i \in 1..Len(v) |-> RMul(c, v[i])])
                         [] form = "sum" -> Eager([i \in 1..Len(v) |-> RAdd(v[i], RMul(c, w[i]))])
                         [] form = "rev" -> Backward(v)
                         [] form = "mulv" -> LET d == RDot(v, w) IN Eager([i \in 1..Len(v) |-> RMul(v[i], d)])
VExprOK(prec, h, g, form, c, out, all) ==
  /\ out = "ok" /\ FinA(all) /\ \A k \in Regs \ {g} : Now(all)[k] = vec[k]
  /\ Len(all[g]) = Len(vec[h])
  /\ \E x \in {Expr(form, c, vec[h], vec[g])} : \A i \in 1..Len(x) :
       RNear(RD(all[g][i]), x[i], IF form = "rev" THEN R0
                                  ELSE RAdd(TinyA(prec), RMul(RMul(R2, UnitA(prec)), IF form = "sum" THEN RAdd(RAbs(vec[h][i]), RAbs(RMul(c, vec[g][i])))
                                                                            ELSE IF form = "mulv" THEN RMul(RMul(RInt(Len(x) + 2), RAbs(vec[h][i])), RSum(Eager([k \in 1..Len(x) |-> RAbs(RMul(vec[h][k], vec[g][k]))]))) ELSE RAbs(x[i]))))
  /\ vec' = [vec EXCEPT ![g] = Now(all)[g]]
(* any components from -1 to 1 *)
VRandOK(h, out, all) ==
  /\ out = "ok" /\ FinA(all) /\ Len(all[h]) = Len(vec[h]) /\ \A g \in Regs \ {h} : Now(all)[g] = vec[g]
  /\ \A i \in 1..Len(all[h]) : RLe(RAbs(RD(all[h][i])), R1)
  /\ vec' = [vec EXCEPT ![h] = Now(all)[h]]
VAtOK(h, out, all, r) == out = "ok" /\ Still(all) /\ ValsA(r) = vec[h]
(* relative closeness of the 2-norms, free within a hair of the threshold; different sizes are refused *)
Sq(v) == RDot(v, v)
VEqOK(h, g, eps, out, all, r) ==
  IF Len(vec[h]) # Len(vec[g]) THEN out = "abort" /\ UNCHANGED vec
  ELSE LET d2 == Sq(Eager([i \in 1..Len(vec[h]) |-> RSub(vec[h][i], vec[g][i])]))  lim == RMul(RSq(eps), RMin(Sq(vec[h]), Sq(vec[g]))) IN
       /\ out = "ok" /\ Still(all) /\ (RLt(d2, RMul(lim, RDec("0.998"))) \/ d2 = R0 => r) /\ (RLt(RMul(lim, RDec("1.002")), d2) => ~r)
VInfOK(h, out, all, r) == out = "ok" /\ Still(all) /\ RFin(r) /\ RD(r) = RMaxSeq(vec[h])
MatIs(prec, A, B, k) == Len(A) = Len(B) /\ \A i \in 1..Len(B) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(B[i]) : RFin(A[i][j]) /\ RNear(RD(A[i][j]), B[i][j], RAdd(IF k = 0 THEN R0 ELSE TinyA(prec), RMul(RMul(RInt(k), UnitA(prec)), RAbs(B[i][j]))))
Outer(v, w) == Eager([i \in 1..Len(v) |-> [j \in 1..Len(w) |-> RMul(v[i], w[j])]])
VOuterOK(prec, h, g, out, all, A) == out = "ok" /\ Still(all) /\ MatIs(prec, A, Outer(vec[h], vec[g]), 1)
VDiagOK(prec, h, out, all, A) == out = "ok" /\ Still(all) /\ MatIs(prec, A, MDiag(vec[h]), 0)
VTrOK(prec, h, out, all, A) == out = "ok" /\ Still(all) /\ MatIs(prec, A, <<vec[h]>>, 0)
VInnerOK(prec, h, g, out, all, r) == out = "ok" /\ Still(all) /\ RFin(r)
  /\ RNear(RD(r), RDot(vec[h], vec[g]), RAdd(TinyA(prec), RMul(RMul(RInt(Len(vec[h]) + 1), UnitA(prec)), RSum(Eager([i \in 1..Len(vec[h]) |-> RAbs(RMul(vec[h][i], vec[g][i]))])))))
(* the unit vector of the same direction; the null vector stays *)
VNormOK(prec, h, out, all) ==
  LET n == RSqrtS(Sq(vec[h])) IN
  /\ out = "ok" /\ FinA(all) /\ \A g \in Regs \ {h} : Now(all)[g] = vec[g]
  /\ Len(all[h]) = Len(vec[h])
  /\ IF n = R0 THEN Now(all)[h] = vec[h]
     ELSE \E slack \in {RDiv(RMul(RInt(2 * Len(vec[h])), Denorm(prec)), Sq(vec[h]))} :      \* the squares may underflow
          RLt(slack, RHalf) =>
          \A i \in 1..Len(vec[h]) : RNear(RD(all[h][i]), RDiv(vec[h][i], n), RAdd(TinyA(prec), RMul(RAdd(slack, RMul(RInt(8), UnitA(prec))), RAbs(RDiv(vec[h][i], n)))))
  /\ vec' = [vec EXCEPT ![h] = Now(all)[h]]
VUnitOK(prec, h, out, all, r) ==
  LET d == RAbs(RSub(RSqrtS(Sq(vec[h])), R1)) IN
  out = "ok" /\ Still(all) /\ (RLe(d, RSub(RDec("0.99e-5"), RMul(RInt(4), UnitA(prec)))) => r) /\ (RLt(RAdd(RDec("1.02e-5"), RMul(RInt(4), UnitA(prec))), d) => ~r)
(* the angle of the projection on the plane normal to the axis *)
Pair(v, axis) == CASE axis = "X" -> <<v[2], v[3]>> [] axis = "Y" -> <<v[3], v[1]>> [] axis = "Z" -> <<v[1], v[2]>>
VProjOK(prec, h, axis, deg, out, all, r) ==
  LET p == Pair(vec[h], axis)  half == IF deg THEN RInt(180) ELSE RPi
      ang == LET a == RAtan2(p[2], p[1]) IN IF deg THEN RDiv(RMul(a, RInt(180)), RPi) ELSE a
      tol == RMul(RMul(RInt(8), UnitA(prec)), RAbs(ang)) IN
  /\ out = "ok" /\ Still(all)
  /\ p # <<R0, R0>> => RFin(r) /\ (RNear(RD(r), ang, tol) \/ (p[2] = R0 /\ RLt(p[1], R0) /\ RNear(RD(r), RNeg(half), tol)))
=============================================================================
