------------------------------- MODULE Units -------------------------------
(* Physical quantities and their units.  A register holds a number and a    *)
(* unit; converting replaces both and must leave the quantity they denote   *)
(* unchanged.                                                               *)
EXTENDS RatFun
CONSTANT Regs
VARIABLE reg      \* reg[h] = [dim, unit, q, k, prec]: q the quantity in m/s or Hz, k conversions done since it was set

VelUnits == {"MS", "KNOT", "KMH"}
FreqUnits == {"HERTZ", "RADS", "DEGS", "DEGM", "S", "RPM"}
(* one knot is a nautical mile of 1852 m per hour *)
VelF(u) == CASE u = "MS" -> R1 [] u = "KNOT" -> RFrac(1852, 3600) [] u = "KMH" -> RFrac(1000, 3600)
(* in turns per second *)
FreqF(u) == CASE u = "HERTZ" -> R1 [] u = "RADS" -> RDiv(R1, RTwoPi) [] u = "DEGS" -> RFrac(1, 360)
              [] u = "DEGM" -> RFrac(1, 21600) [] u = "RPM" -> RFrac(1, 60)
Quantity(dim, x, u) == IF dim = "vel" THEN RMul(x, VelF(u)) ELSE IF u = "S" THEN RDiv(R1, x) ELSE RMul(x, FreqF(u))
Number(dim, q, u) == IF dim = "vel" THEN RDiv(q, VelF(u)) ELSE IF u = "S" THEN RDiv(R1, q) ELSE RDiv(q, FreqF(u))
Conv(dim, x, a, b) == IF a = b THEN x ELSE Number(dim, Quantity(dim, x, a), b)

Unit(prec) == IF prec = "f" THEN EpsF ELSE EpsD
Rel(x, prec, k) == RAdd(RPow(R2, IF prec = "f" THEN -120 ELSE -1000), RMul(RMul(RInt(8 * k), Unit(prec)), RAbs(x)))
Close(r, x, prec, k) == RFin(r) /\ RNear(RD(r), x, Rel(x, prec, k))

NoReg == [dim |-> "none", unit |-> "MS", q |-> R0, k |-> 0, prec |-> "d"]
UInit == reg = [h \in Regs |-> NoReg]
SetOK(h, prec, dim, u, x) == reg' = [reg EXCEPT ![h] = [dim |-> dim, unit |-> u, q |-> Quantity(dim, x, u), k |-> 1, prec |-> prec]]
ConvertOK(h, to, out, r) ==
  LET o == reg[h] IN
  /\ out = "ok" /\ o.dim # "none"
  /\ Close(r, Number(o.dim, o.q, to), o.prec, o.k)
  /\ reg' = [reg EXCEPT ![h].unit = to, ![h].k = o.k + 1]
(* stateless calls *)
ConvVelOK(prec, x, a, b, out, r) == out = "ok" /\ UNCHANGED reg /\ Close(r, Conv("vel", x, a, b), prec, 1)
ConvFreqOK(prec, x, a, b, out, r) == out = "ok" /\ UNCHANGED reg /\ Close(r, Conv("freq", x, a, b), prec, 1)
(* the named functions *)
Named == [KNOT2MS |-> <<"vel", "KNOT", "MS">>, MS2KNOT |-> <<"vel", "MS", "KNOT">>, KMH2MS |-> <<"vel", "KMH", "MS">>, MS2KMH |-> <<"vel", "MS", "KMH">>,
          KMH2KNOT |-> <<"vel", "KMH", "KNOT">>, KNOT2KMH |-> <<"vel", "KNOT", "KMH">>,
          DEGS2RADS |-> <<"freq", "DEGS", "RADS">>, RADS2DEGS |-> <<"freq", "RADS", "DEGS">>, HZ2RADS |-> <<"freq", "HERTZ", "RADS">>,
          RADS2HZ |-> <<"freq", "RADS", "HERTZ">>, HZ2S |-> <<"freq", "HERTZ", "S">>, S2HZ |-> <<"freq", "S", "HERTZ">>,
          RADS2S |-> <<"freq", "RADS", "S">>, S2RADS |-> <<"freq", "S", "RADS">>, RPM2RADS |-> <<"freq", "RPM", "RADS">>,
          RADS2RPM |-> <<"freq", "RADS", "RPM">>, DEGM2RADS |-> <<"freq", "DEGM", "RADS">>, RADS2DEGM |-> <<"freq", "RADS", "DEGM">>]
NamedOK(f, prec, x, out, r) == out = "ok" /\ UNCHANGED reg /\ LET n == Named[f] IN Close(r, Conv(n[1], x, n[2], n[3]), prec, 1)
VecF(f) == CASE f = "deg2rad" -> RDiv(RPi, RInt(180)) [] f = "rad2deg" -> RDiv(RInt(180), RPi) [] f = "kt2ms" -> VelF("KNOT")
(* in place: r is the vector afterwards; by copy: src is the source afterwards, r the output (whatever it held before) *)
VecOK(f, prec, v, copy, src, out, r) ==
  /\ out = "ok" /\ UNCHANGED reg /\ Len(r) = Len(v)
  /\ \A i \in 1..Len(v) : Close(r[i], RMul(RD(v[i]), VecF(f)), prec, 1)
  /\ copy => src = v
(* the constants, each to the last bit or so *)
Consts == [MU_ONE_MINUTE |-> RInt(60), MU_ONE_HOUR |-> RInt(3600), MU_ONE_DAY |-> RInt(86400), MU_ONE_MILE |-> RInt(1852), MU_ONE_KM |-> RInt(1000),
           MU_KNOT |-> RFrac(1852, 3600), MU_KMH |-> RFrac(1000, 3600), MU_PI |-> RPi, MU_PI_180 |-> RDiv(RPi, RInt(180)), DEG2RAD |-> RDiv(RPi, RInt(180)),
           MU_180_PI |-> RDiv(RInt(180), RPi), RAD2DEG |-> RDiv(RInt(180), RPi), MU_2PI |-> RTwoPi, MU_PI_2 |-> RDiv(RPi, R2), MU_2_PI |-> RDiv(R2, RPi),
           MU_4PI |-> RMul(RInt(4), RPi), MU_PI_4 |-> RDiv(RPi, RInt(4)), MU_1_4PI |-> RDiv(R1, RMul(RInt(4), RPi)), MU_RPM2RADS |-> RDiv(RTwoPi, RInt(60)),
           MU_SQRT2 |-> RSqrtS(R2), MU_SQRT2_2 |-> RSqrtS(RHalf)]
ConstOK(c, r) == UNCHANGED reg /\ Close(r, Consts[c], "d", 1)
=============================================================================
