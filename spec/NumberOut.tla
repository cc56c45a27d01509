----------------------------- MODULE NumberOut -----------------------------
(* Printing numbers in columns.  A number is sign, number of significant digits (after rounding to precision p) and decimal
   exponent; its text follows the general floating-point format.  A column for any number has w = p + X + 5 characters, one for
   non-negative numbers one less, X being the largest number of exponent digits; a line is a sequence of columns.
   Key entries are numbered consecutively over several keys. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS Precs, Exps, Digits, Signs, MaxCols, Forms, KeySizes, Starts, MaxKeys
VARIABLES prec, line, keys, start
vars == <<prec, line, keys, start>>
XDIG == 3
DEFAULT == 6
Max(a,b) == IF a > b THEN a ELSE b
Min(a,b) == IF a < b THEN a ELSE b
Actual(form, p) == IF form = "any" THEN p ELSE Max(p, DEFAULT)
Width(form, p) == XDIG + Actual(form, p) + (IF form = "any" THEN 5 ELSE 4)
\* length of the text of a number
ExpLen(e) == IF e <= -100 \/ e >= 100 THEN 5 ELSE 4
TextLen(form, p, n) ==
  LET q == Actual(form, p) d == Min(n.dig, q) IN
  (IF n.neg THEN 1 ELSE 0) +
  (IF n.e < -4 \/ n.e >= q THEN d + (IF d > 1 THEN 1 ELSE 0) + ExpLen(n.e)
   ELSE IF n.e < 0 THEN 1 - n.e + d                                        \* 0.00ddd
   ELSE IF d > n.e + 1 THEN d + 1 ELSE n.e + 1)
Numbers == [neg : Signs, dig : Digits, e : Exps, lead : {1, 9}]
Init == /\ prec \in Precs /\ line = <<>> /\ keys = <<>> /\ start \in Starts
Col == /\ Len(line) < MaxCols /\ keys = <<>>
       /\ \E n \in Numbers, f \in Forms : (f = "pos" => ~n.neg) /\ line' = Append(line, [f |-> f, n |-> n])
       /\ UNCHANGED <<prec, keys, start>>
Key == /\ Len(keys) < MaxKeys /\ line = <<>>
       /\ \E k \in KeySizes : keys' = Append(keys, k)
       /\ UNCHANGED <<prec, line, start>>
Next == Col \/ Key
Spec == Init /\ [][Next]_vars
Separated == \A i \in 1..Len(line) : TextLen(line[i].f, prec, line[i].n) < Width(line[i].f, prec)
Sum(s) == LET f[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE f[k-1] + s[k] IN f[Len(s)]
Numbered == [k \in 1..Sum(keys) |-> start + k - 1]
EmitLine == Len(line) = MaxCols => CSVWrite("%1$s", <<ToJson([in |-> [p |-> prec, line |-> line], exp |-> [fields |-> Len(line), back |-> TRUE, separated |-> TRUE]])>>, IOEnv.OUT)
EmitKeys == (line = <<>> /\ Len(keys) = MaxKeys) => CSVWrite("%1$s", <<ToJson([in |-> [keys |-> keys, start |-> start], exp |-> [numbers |-> Numbered, next |-> start + Sum(keys), labels |-> TRUE]])>>, IOEnv.OUT)
Emit == EmitLine /\ EmitKeys
=============================================================================
