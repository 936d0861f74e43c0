------------------------------ MODULE Attitude ------------------------------
(* Orientations and their three representations: ZYX Euler angles            *)
(* (roll, pitch, yaw), unit quaternion (w, x, y, z) and rotation matrix.      *)
(* A register holds a representation; converting it changes the               *)
(* representation, never the orientation.                                     *)
EXTENDS RatFun
CONSTANT Regs
VARIABLE att     \* att[h] = [rep, m, tol, cur, own]: m the rotation matrix the register was set to, tol how well its present numbers
                 \* must denote it, cur the matrix the present numbers denote, own how far they are from a rotation

Mat(f(_, _)) == Eager([i \in 1..3 |-> [j \in 1..3 |-> f(i, j)]])
MMul(A, B) == LET f(i, j) == RSum([k \in 1..3 |-> RMul(A[i][k], B[k][j])]) IN Mat(f)
MTr(A) == LET f(i, j) == A[j][i] IN Mat(f)
MSig(A) == LET f(i, j) == RSig(A[i][j], 200) IN Mat(f)
Id3 == LET f(i, j) == IF i = j THEN R1 ELSE R0 IN Mat(f)
MDist(A, B) == RMaxSeq([k \in 1..9 |-> RSub(A[1 + ((k - 1) \div 3)][1 + ((k - 1) % 3)], B[1 + ((k - 1) \div 3)][1 + ((k - 1) % 3)])])
Det(A) == RAdd(RSub(RMul(A[1][1], RSub(RMul(A[2][2], A[3][3]), RMul(A[2][3], A[3][2]))),
                    RMul(A[1][2], RSub(RMul(A[2][1], A[3][3]), RMul(A[2][3], A[3][1])))),
               RMul(A[1][3], RSub(RMul(A[2][1], A[3][2]), RMul(A[2][2], A[3][1]))))
(* elementary rotations from a cosine and a sine *)
RotX(c, s) == <<<<R1, R0, R0>>, <<R0, c, RNeg(s)>>, <<R0, s, c>>>>
RotY(c, s) == <<<<c, R0, s>>, <<R0, R1, R0>>, <<RNeg(s), R0, c>>>>
RotZ(c, s) == <<<<c, RNeg(s), R0>>, <<s, c, R0>>, <<R0, R0, R1>>>>
(* yaw about z, then pitch about the new y, then roll about the new x *)
OfCS(r, p, y) == MMul(RotZ(y[1], y[2]), MMul(RotY(p[1], p[2]), RotX(r[1], r[2])))
CS(a) == <<RCos(a), RSin(a)>>
OfEuler(e) == MSig(OfCS(CS(e[1]), CS(e[2]), CS(e[3])))
(* v |-> q v q* for q = (w, x, y, z), divided by the squared norm *)
Norm2(q) == RDot(q, q)
OfQuat(q) ==
  LET w == q[1] x == q[2] y == q[3] z == q[4] n == Norm2(q)
      D(a) == RDiv(a, n)
      T(a, b, c, d) == D(RMul(R2, RAdd(RMul(a, b), RMul(c, d))))
      Df(a, b, c, d) == D(RMul(R2, RSub(RMul(a, b), RMul(c, d))))
      Dg(b, c) == RSub(R1, D(RMul(R2, RAdd(RSq(b), RSq(c)))))
  IN MSig(<<<<Dg(y, z), Df(x, y, w, z), T(x, z, w, y)>>, <<T(x, y, w, z), Dg(x, z), Df(y, z, w, x)>>, <<Df(x, z, w, y), T(y, z, w, x), Dg(x, y)>>>>)
MatOf(rep, v) == IF rep = "euler" THEN OfEuler(v) ELSE IF rep = "quat" THEN OfQuat(v) ELSE <<SubSeq(v, 1, 3), SubSeq(v, 4, 6), SubSeq(v, 7, 9)>>
(* cosine of the pitch of m *)
CosP(m) == RSqrtS(RAdd(RSq(m[3][2]), RSq(m[3][3])))
E0 == RMul(RInt(64), EpsD)
(* how far the numbers v are from denoting a rotation at all *)
Defect(rep, v) == IF rep = "euler" THEN R0 ELSE IF rep = "quat" THEN RAbs(RSub(R1, Norm2(v)))
                  ELSE LET m == MatOf("matrix", v) IN RAdd(MDist(MMul(m, MTr(m)), Id3), RAbs(RSub(R1, Det(m))))
Wrap == RMul(PiD, RAdd(R1, EpsD))
AnglesInRange(e) == RLe(RAbs(e[1]), Wrap) /\ RLe(RAbs(e[3]), Wrap) /\ RLe(RAbs(e[2]), RMul(RHalf, Wrap))

NoAtt == [rep |-> "none", m |-> <<>>, tol |-> R0, cur |-> <<>>, own |-> R0]
TInit == att = [h \in Regs |-> NoAtt]
TSetOK(h, rep, v) ==
  LET m == MatOf(rep, v)  d == Defect(rep, v)
  IN att' = [att EXCEPT ![h] = [rep |-> rep, m |-> m, tol |-> RAdd(E0, RMul(RInt(8), d)), cur |-> m, own |-> d]]
(* Converting to Euler angles loses accuracy like 1 / cos(pitch).  At the gimbal lock itself only the pitch is determined: *)
(* the angles are finite, in range, and the register denotes from then on what they say.                                 *)
Locked(m, to) == to = "euler" /\ RLe(CosP(m), RDec("1e-7"))
TConvOK(h, to, out, v) ==
  LET o == att[h] IN
  /\ out = "ok" /\ o.rep # "none"
  /\ (to = "euler" => AnglesInRange(v))
  /\ IF Locked(o.m, to)
     THEN LET m == MatOf(to, v) IN
          /\ RNear(m[3][1], o.m[3][1], RAdd(RDec("1e-6"), o.tol))
          /\ att' = [att EXCEPT ![h] = [rep |-> to, m |-> m, tol |-> E0, cur |-> m, own |-> R0]]
     ELSE LET loss == IF to = "euler" THEN RDiv(R1, CosP(o.m)) ELSE R1
              tol == RAdd(E0, RMul(RInt(4), RMul(o.tol, loss)))
              step == RMul(loss, RAdd(E0, RMul(RInt(8), o.own)))
              m == MatOf(to, v)  d == Defect(to, v) IN
          /\ RLe(d, RMul(RInt(8), tol)) /\ RLe(d, RMul(RInt(8), step))
          /\ RLe(MDist(m, o.m), tol) /\ RLe(MDist(m, o.cur), step)
          /\ att' = [att EXCEPT ![h] = [rep |-> to, m |-> o.m, tol |-> tol, cur |-> m, own |-> d]]
=============================================================================
