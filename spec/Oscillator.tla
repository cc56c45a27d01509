----------------------------- MODULE Oscillator -----------------------------
(* The driven damped harmonic oscillator y'' + 2 gamma y' + y = exp(i omega t) whose closed solution the library furnishes from the amplitude and
   velocity at an arbitrary time.  The equation determines every derivative of the solution at a point as a linear combination of the amplitude,
   the velocity and the phase u = exp(i omega t) of the drive there.  With 2 gamma = g2/q and omega = om/q the coefficients are Gaussian integers,
       q^n y^(n) = al[n] y + be[n] y' + si[n] u.
   A history reads the solution at any times, and starts it anew from amplitude and velocity at any time; both leave the solution the same. *)
EXTENDS Gauss, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Oscillators, Starts, Jumps, Data,        \* [q, g2, om]; starting times and distances in units of an eighth; (amplitude, velocity)
          MaxHist, Simulated
VARIABLES pc, osc, origin, hist
vars == <<pc, osc, origin, hist>>
Pick(S) == IF Simulated THEN {RandomElement(S)} ELSE S
Order(q) == CASE q = 1 -> 12 [] q <= 8 -> 6 [] OTHER -> 4      \* number of derivatives; the finer the denominator the smaller steps they have to carry

Drive(om, n) == LET RECURSIVE W(_) W(k) == IF k = 0 THEN 1 ELSE om * W(k - 1) IN Scale(W(n), IPow(n))     \* (i om)^n
\* derivatives from the equation: the state of the recursion is the pair of the last two
RECURSIVE Derivs(_, _, _, _, _)
Derivs(o, force, d0, d1, n) ==     \* derivatives n, n+1, ... of which n and n+1 are known
  IF n > Order(o.q) THEN <<>>
  ELSE <<d0>> \o (IF n = Order(o.q) THEN <<>>
                  ELSE Derivs(o, force, d1, IF n + 2 > Order(o.q) THEN Zero
                                            ELSE Sub(IF force THEN Scale(o.q * o.q, Drive(o.om, n)) ELSE Zero, Add(Scale(o.g2, d1), Scale(o.q * o.q, d0))), n + 1))
Al(o) == Derivs(o, FALSE, One, Zero, 0)
Be(o) == Derivs(o, FALSE, Zero, <<o.q, 0>>, 0)
Si(o) == Derivs(o, TRUE, Zero, Zero, 0)

Init == pc = "choose" /\ osc = <<>> /\ origin = 0 /\ hist = <<>>
Start == /\ pc = "choose"
         /\ \E o \in Pick(Oscillators), t \in Pick(Starts), d \in Pick(Data) :
              osc' = [q |-> o.q, g2 |-> o.g2, om |-> o.om, t0 |-> t, y |-> d[1], v |-> d[2]] /\ origin' = t
         /\ pc' = "run" /\ UNCHANGED hist
\* both are at a distance from where the solution was last started, which they do not precede by much as the solution grows backwards
Look == /\ pc = "run" /\ Len(hist) < MaxHist
        /\ \E j \in Pick(Jumps) : hist' = Append(hist, [op |-> "read", at |-> origin + j])
        /\ UNCHANGED <<pc, osc, origin>>
Anew == /\ pc = "run" /\ Len(hist) < MaxHist
        /\ \E j \in Pick(Jumps) : hist' = Append(hist, [op |-> "start", at |-> origin + j]) /\ origin' = origin + j
        /\ UNCHANGED <<pc, osc>>
Next == Start \/ Look \/ Anew
Spec == Init /\ [][Next]_vars

Now == pc = "run" /\ hist = <<>>
\* the closed solution: away from resonance a multiple of the drive is a solution; at resonance (no damping) one growing linearly
Chi(o) == <<o.q * o.q - o.om * o.om, o.g2 * o.om>>
Checked(q) == CASE q = 1 -> 0..12 [] q <= 8 -> 0..4 [] OTHER -> 0..2     \* as far as the numbers can be compared
Closed == Now => LET a == Al(osc) b == Be(osc) s == Si(osc) x == Chi(osc) q2 == osc.q * osc.q IN
  \A n \in Checked(osc.q) :
    IF x # Zero THEN Mul(x, s[n+1]) = Sub(Scale(q2, Drive(osc.om, n)), Add(Scale(q2, a[n+1]), Mul(<<0, osc.om * osc.q>>, b[n+1])))
    ELSE Mul(<<0, 2*osc.om>>, s[n+1]) = Sub(IF n = 0 THEN Zero ELSE Scale(q2 * n, Drive(osc.om, n - 1)), Scale(osc.q, b[n+1]))
\* critical damping: (1+t) exp(-t) and t exp(-t)
Critical == Now /\ osc.q = 1 /\ osc.g2 = 2 => LET a == Al(osc) b == Be(osc) sg(n) == IF n % 2 = 0 THEN 1 ELSE -1 IN
  \A n \in 0..Order(1) : a[n+1] = <<sg(n) * (1 - n), 0>> /\ b[n+1] = <<-sg(n) * n, 0>>
\* what starts at rest from unit amplitude has as its velocity minus what starts from zero with unit velocity
Velocity == Now => LET a == Al(osc) b == Be(osc) IN \A n \in 1..Order(osc.q) : a[n+1] = Scale(-osc.q, b[n])
Emit == (pc = "run" /\ (IF Simulated THEN Len(hist) = MaxHist ELSE hist # <<>>)) =>
  CSVWrite("%1$s", <<ToJson([in |-> [osc |-> osc, al |-> Al(osc), be |-> Be(osc), si |-> Si(osc), hist |-> hist],
                             exp |-> [seen |-> [i \in 1..Len(hist) |-> [at |-> hist[i].at, amp |-> "as the equation says", vel |-> "as the equation says"]]]])>>, IOEnv.OUT)
=============================================================================
