----------------------------- MODULE MC_Fourier -----------------------------
(* Histories of switches and transforms on one object, with vectors of       *)
(* lengths 2 and 4 (roots of unity are then exact).                       *)
EXTENDS Fourier, IOUtils, Json, CSV
CONSTANT MaxLen
VARIABLES hist, last
Vs == {<<R1, RInt(-2)>>, <<R0, R1>>, <<R1, R2, RInt(-3), RInt(5)>>, <<R0, R1, R0, R0>>}
Init == FInit /\ hist = <<>> /\ last = <<>>
Log(o) == hist' = Append(hist, o) /\ UNCHANGED reg
Half(h, on) == fft' = [fft EXCEPT ![h].half = on] /\ last' = <<>> /\ Log([op |-> "fhalf", h |-> h, on |-> on])
Scal(h, on) == fft' = [fft EXCEPT ![h].scaled = on] /\ last' = <<>> /\ Log([op |-> "fscale", h |-> h, on |-> on])
Fwd(h, v) == UNCHANGED fft /\ last' = <<v, Dft(v, Bins(Len(v), fft[h].half)), fft[h].half>> /\ Log([op |-> "ffwd", h |-> h, v |-> v])
(* inverse of the spectrum obtained last *)
Inv(h) == last # <<>> /\ last[3] = fft[h].half /\ UNCHANGED <<fft, last>> /\ Log([op |-> "finvl", h |-> h])
Next == /\ Len(hist) < MaxLen
        /\ \E h \in Regs : \/ \E b \in BOOLEAN : Half(h, b) \/ Scal(h, b)
                           \/ \E v \in Vs : Fwd(h, v)
                           \/ Inv(h)
View == <<fft, last, Len(hist)>>
Export == IF Len(hist') = MaxLen THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EXPORT) ELSE TRUE
RoundTrip == last # <<>> => LET v == last[1] n == Len(v) IN
  (~last[3] \/ n % 2 = 0) => InvRe(Full(last[2], last[3])) = Eager([j \in 1..n |-> RMul(RInt(n), v[j])])
Real == last # <<>> => Skew(last[2], last[3] /\ Len(last[1]) % 2 = 0) = R0 \/ (last[3] /\ Len(last[1]) % 2 = 1)
(* sum of squares, times n *)
Parseval == last # <<>> /\ ~last[3] => RMul(RInt(Len(last[1])), RDot(last[1], last[1])) = RSum([k \in 1..Len(last[2]) |-> RAdd(RSq(last[2][k][1]), RSq(last[2][k][2]))])
HalfIsPrefix == last # <<>> /\ last[3] => SubSeq(Dft(last[1], Len(last[1])), 1, Len(last[2])) = last[2]
ASSUME \A n \in {3, 5, 6, 12} : LET w == Cs(n) IN RLe(RAbs(RSum(w[1])), RPow(R2, -120)) /\ RLe(RAbs(RSum(w[2])), RPow(R2, -120))
=============================================================================
