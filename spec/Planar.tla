------------------------------- MODULE Planar -------------------------------
(* Planar vectors in the local and the north-east frames: projections,       *)
(* transport of a velocity to another point, norms.  A register holds a      *)
(* vector; in-place operations replace it, copying ones leave it alone.      *)
EXTENDS Units
VARIABLE vec      \* vec[h] = <<x, y>>, the exact values of the two components
pvars == <<vec, reg>>
UnitP(prec) == IF prec = "f" THEN EpsF ELSE EpsD
Rad(a, u) == IF u = "DEG" THEN RDiv(RMul(a, RPi), RInt(180)) ELSE a
(* the local x axis is at angle a from the north axis, east is at +90 degrees *)
ToNED(v, c, s) == <<RSub(RMul(c, v[1]), RMul(s, v[2])), RAdd(RMul(s, v[1]), RMul(c, v[2]))>>
ToLocal(v, c, s) == <<RAdd(RMul(c, v[1]), RMul(s, v[2])), RSub(RMul(c, v[2]), RMul(s, v[1]))>>
Proj(kind, v, a, u) == LET x == Rad(a, u) IN IF kind = "L2N" THEN ToNED(v, RCos(x), RSin(x)) ELSE ToLocal(v, RCos(x), RSin(x))
Size(v) == RAdd(RAbs(v[1]), RAbs(v[2]))
TolP(prec, v, a, u) == RAdd(RPow(R2, IF prec = "f" THEN -120 ELSE -1000), RMul(RMul(RMul(RInt(8), UnitP(prec)), RAdd(R1, RAbs(Rad(a, u)))), Size(v)))
NearV(r, v, tol) == RFin(r[1]) /\ RFin(r[2]) /\ RNear(RD(r[1]), v[1], tol) /\ RNear(RD(r[2]), v[2], tol)
VD(r) == <<RD(r[1]), RD(r[2])>>
PInit == vec = [h \in Regs |-> <<R0, R0>>] /\ UInit
(* all: every register as it is after the call *)
Frame(all, changed) == \A h \in Regs : (h \notin changed) => VD(all[h]) = vec[h]
Put(all) == vec' = [h \in Regs |-> VD(all[h])] /\ UNCHANGED reg
SetVOK(h, x, y, out, all) == out = "ok" /\ all[h] = <<x, y>> /\ Frame(all, {h}) /\ Put(all)
(* register g becomes c h, or h + c g, or the matrix (0 -1; 1 c) times g *)
ExprV(form, c, v, w) == IF form = "turn" THEN <<RNeg(w[2]), RAdd(w[1], RMul(c, w[2]))>> ELSE IF form = "scale" THEN <<RMul(c, v[1]), RMul(c, v[2])>> ELSE <<RAdd(v[1], RMul(c, w[1])), RAdd(v[2], RMul(c, w[2]))>>
ExprVOK(prec, h, g, form, c, out, all) ==
  /\ out = "ok"
  /\ NearV(all[g], ExprV(form, c, vec[h], vec[g]), RAdd(RPow(R2, IF prec = "f" THEN -120 ELSE -1000), RMul(RMul(R2, UnitP(prec)), RAdd(RMul(RAdd(R1, RAbs(c)), Size(vec[h])), RMul(RAdd(R1, RAbs(c)), Size(vec[g]))))))
  /\ Frame(all, {g}) /\ Put(all)
NullOK(h, out, all) == out = "ok" /\ VD(all[h]) = <<R0, R0>> /\ Frame(all, {h}) /\ Put(all)
FromLocalOK(prec, h, x, y, a, u, out, all) ==
  out = "ok" /\ NearV(all[h], Proj("L2N", <<x, y>>, a, u), TolP(prec, <<x, y>>, a, u)) /\ Frame(all, {h}) /\ Put(all)
(* how: in (in place), out (into register g), free (returned, stored in register g) *)
ProjOK(prec, h, kind, how, g, a, u, out, all) ==
  LET t == IF how = "in" THEN h ELSE g IN
  out = "ok" /\ NearV(all[t], Proj(kind, vec[h], a, u), TolP(prec, vec[h], a, u)) /\ Frame(all, {t}) /\ Put(all)
AxisKind == [North |-> <<"L2N", 1>>, East |-> <<"L2N", 2>>, LocalX |-> <<"N2L", 1>>, LocalY |-> <<"N2L", 2>>]
AxisOK(prec, h, axis, a, u, out, r) ==
  /\ out = "ok" /\ UNCHANGED pvars
  /\ RNear(RD(r), Proj(AxisKind[axis][1], vec[h], a, u)[AxisKind[axis][2]], TolP(prec, vec[h], a, u))
NEDVelOK(prec, lon, lat, a, u, vi, vo, out, r) ==
  LET v == <<Conv("vel", lon, vi, vo), Conv("vel", lat, vi, vo)>> IN
  out = "ok" /\ UNCHANGED pvars /\ NearV(r, Proj("L2N", v, a, u), RMul(RInt(3), TolP(prec, v, a, u)))
(* velocity at point p of a body turning at w: v + w x p *)
Moved(v, p, w, fu) == LET o == Conv("freq", w, fu, "RADS") IN <<RSub(v[1], RMul(o, p[2])), RAdd(v[2], RMul(o, p[1]))>>
TolT(prec, v, p, w, fu) == RAdd(RPow(R2, IF prec = "f" THEN -120 ELSE -1000),
                                RMul(RMul(RInt(24), UnitP(prec)), RAdd(Size(v), RMul(RAbs(Conv("freq", w, fu, "RADS")), Size(p)))))
TransOK(prec, h, how, g, p, w, fu, out, all) ==
  LET t == IF how = "in" THEN h ELSE g IN
  out = "ok" /\ NearV(all[t], Moved(vec[h], p, w, fu), TolT(prec, vec[h], p, w, fu)) /\ Frame(all, {t}) /\ Put(all)
InfOK(h, out, r) == out = "ok" /\ UNCHANGED pvars /\ RD(r) = RMaxSeq(vec[h])
(* equality to a relative precision; the answer is free within a hair of the threshold *)
Dist2(a, b) == RAdd(RSq(RSub(a[1], b[1])), RSq(RSub(a[2], b[2])))
N2(a) == RAdd(RSq(a[1]), RSq(a[2]))
ApproxOK(d2, m2, eps, r) ==
  LET lim == RMul(RSq(eps), m2) IN
  /\ (RLt(d2, RMul(lim, RDec("0.999"))) \/ d2 = R0) => r
  /\ RLt(RMul(lim, RDec("1.001")), d2) => ~r
EqualOK(h, g, eps, out, r) == out = "ok" /\ UNCHANGED pvars /\ ApproxOK(Dist2(vec[h], vec[g]), RMin(N2(vec[h]), N2(vec[g])), eps, r)
=============================================================================
