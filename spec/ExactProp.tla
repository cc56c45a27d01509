----------------------------- MODULE ExactProp -----------------------------
(* Histories of calls to exact propagators and to Hamiltonians of one three-level system.
   The free evolution multiplies level n by exp(-W[n] x), x being t-t0 (one-time) or Q(t)-Q(t0) (explicitly two-time, Q(t)=t^2);
   an exponent <<a,b>> stands for a*ln2 + b*i*pi/2.  The interaction-picture Hamiltonian evaluated at (t,t0) is
   M[i][j] exp((W[i]-W[j])(t-t0)); a time-independent one is M itself; one with explicit two-time dependence sees both times.
   The object caches what it calculated for the last call: no history of calls may influence a later answer. *)
EXTENDS Integers, Sequences, TLC, Json, CSV, IOUtils
CONSTANTS W, Times, MaxCalls, Shift, Kinds
VARIABLES amp,   \* exponents of the three amplitudes (of value 1 at the beginning)
          hin, hexp
vars == <<amp, hin, hexp>>
L == 1..3
Q(t) == t * t
GMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
IPow(n) == CASE n % 4 = 0 -> <<1, 0>> [] n % 4 = 1 -> <<0, 1>> [] n % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Val(z, a, b) == LET y == GMul(IPow(b), z) IN <<y[1] * 2^(Shift + a), y[2] * 2^(Shift + a)>>
InR(a) == a >= -Shift /\ a <= 12
\* the two terms of the Hamiltonian: next neighbours and second neighbours, plus a diagonal
M(i, j) == IF i = j THEN <<i, 1>> ELSE IF i = j + 1 THEN <<2, j>> ELSE IF j = i + 1 THEN <<i, -1>> ELSE IF i = j + 2 THEN <<3, 0>> ELSE <<0, -2>>
Psi == << <<1, 0>>, <<0, 1>>, <<2, -1>> >>
GSum(f) == <<f[1][1] + f[2][1] + f[3][1], f[1][2] + f[2][2] + f[3][2]>>
Rot(i, j, x) == Val(GMul(M(i, j), Psi[j]), (W[i][1] - W[j][1]) * x, (W[i][2] - W[j][2]) * x)
RotOk(x) == \A i \in L, j \in L : InR((W[i][1] - W[j][1]) * x)

Init == amp = [n \in L |-> <<0, 0>>] /\ hin = <<>> /\ hexp = <<>>
Obs(v) == hexp' = Append(hexp, v)
Call(k, t, t0) == /\ Len(hin) < MaxCalls /\ hin' = Append(hin, [op |-> k, t |-> t, t0 |-> t0])
U(k, t, t0) == LET x == IF k = "u1" THEN t - t0 ELSE Q(t) - Q(t0) IN
   /\ Call(k, t, t0) /\ amp' = [n \in L |-> <<amp[n][1] - W[n][1] * x, amp[n][2] - W[n][2] * x>>]
   /\ \A n \in L : InR(amp'[n][1])
   /\ Obs([n \in L |-> Val(<<1, 0>>, amp'[n][1], amp'[n][2])])
H(k, t, t0) == /\ Call(k, t, t0) /\ UNCHANGED amp
   /\ CASE k = "h1" -> RotOk(t - t0) /\ Obs([i \in L |-> GSum([j \in L |-> Rot(i, j, t - t0)])])
        [] k = "h0" -> Obs([i \in L |-> GSum([j \in L |-> Rot(i, j, 0)])])
        [] OTHER -> Obs([i \in L |-> <<(2 * t * Psi[i][1] - 3 * t0 * Psi[i][2]) * 2^Shift, (2 * t * Psi[i][2] + 3 * t0 * Psi[i][1]) * 2^Shift>>])
Next == \E t \in Times, t0 \in Times : (\E k \in Kinds \cap {"u1", "u2"} : U(k, t, t0)) \/ (\E k \in Kinds \cap {"h0", "h1", "h2"} : H(k, t, t0))
Spec == Init /\ [][Next]_vars
\* over zero time nothing happens; consecutive intervals compose
ZeroIsIdentity == \A n \in DOMAIN hin : (hin[n].op \in {"u1", "u2"} /\ hin[n].t = hin[n].t0) =>
     (IF n = 1 THEN \A l \in L : hexp[n][l] = <<2^Shift, 0>> ELSE hin[n-1].op \in {"u1", "u2"} => hexp[n] = hexp[n-1])
Composes == \A n \in 1..(Len(hin) - 1) : \A m \in DOMAIN hin :
   (n = 1 /\ m = 2 /\ Len(hin) = 2 /\ hin[1].op = hin[2].op /\ hin[1].op \in {"u1", "u2"} /\ hin[2].t0 = hin[1].t) =>
     \A l \in L : amp[l] = LET x == IF hin[1].op = "u1" THEN hin[2].t - hin[1].t0 ELSE Q(hin[2].t) - Q(hin[1].t0) IN <<-W[l][1] * x, -W[l][2] * x>>
Emit == (Len(hin) = MaxCalls) => CSVWrite("%1$s", <<ToJson([in |-> [ops |-> hin, shift |-> Shift, w |-> W], exp |-> [obs |-> hexp]])>>, IOEnv.OUT)
=============================================================================
