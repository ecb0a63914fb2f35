------------------------------- MODULE Scalars -------------------------------
(* Comparisons of numbers within a tolerance, roundings, ranges, averages,   *)
(* spherical coordinates and spectra, on the inputs for which the results    *)
(* are integers up to the rounding of one floating point operation.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
UInit == 0
Abs(n) == IF n < 0 THEN 0 - n ELSE n
(* a number <<n, 0>> is n; <<n, 1>> is n times 2^-60, nothing to a comparison *)
Nil(a) == a[1] = 0 \/ a[2] = 1
Sg(n) == IF n < 0 THEN 0 - 1 ELSE IF n > 0 THEN 1 ELSE 0
Below(a, b) == IF a[2] = b[2] THEN a[1] < b[1]
               ELSE IF a[2] = 1 THEN (IF b[1] = 0 THEN a[1] < 0 ELSE b[1] > 0)
               ELSE IF a[1] = 0 THEN b[1] > 0 ELSE a[1] < 0
(* tol: eighths, or -1 for the default one, for which integers differ        *)
Eq(a, b, rel, tol) ==
  IF Nil(a) /\ Nil(b) THEN TRUE
  ELSE IF Nil(a) \/ Nil(b) THEN FALSE
  ELSE IF tol < 0 THEN a[1] = b[1]
  ELSE 8 * Abs(a[1] - b[1]) <= tol * (IF rel = 0 THEN Abs(a[1] + b[1]) ELSE rel)
Lt(a, b, rel, tol) == ~Eq(a, b, rel, tol) /\ Below(a, b)
Cmp(a, b, rel, tol) == << Eq(a, b, rel, tol), ~Eq(a, b, rel, tol), Lt(a, b, rel, tol), ~Lt(b, a, rel, tol), Lt(b, a, rel, tol), ~Lt(a, b, rel, tol) >>
Floor(n, d) == IF n >= 0 THEN n \div d ELSE 0 - (((0 - n) + d - 1) \div d)
CeilTo(n, r) == LET f == Floor(n, 8) IN IF n <= 8 * f + r THEN f ELSE f + 1          \* n, r: eighths
Round(n) == Floor(n + 4, 8)
(* n values from a to b, times 840 (n - 1 divides 840); of integers, only where they reach b *)
Linear(a, b, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN << 840 * b >> ELSE [i \in 1..n |-> (840 * a) + (i - 1) * ((840 * (b - a)) \div (n - 1))]
Pow10(e) == << 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000 >>[e + 5]          \* times ten thousand
Powers(a, b, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN << Pow10(b) >> ELSE [i \in 1..n |-> Pow10(a + (i - 1) * ((b - a) \div (n - 1)))]
Sum(q) == FoldLeft(LAMBDA x, y : x + y, 0, q)
Stats(q) == << Sum(q), (840 * Sum(q)) \div Len(q), IF Len(q) = 1 THEN 0 ELSE (840 * (q[Len(q)] - q[1])) \div (Len(q) - 1) >>
StatsI(q) == << Sum(q), IF Sum(q) % Len(q) = 0 THEN Sum(q) \div Len(q) ELSE "any",
               IF Len(q) = 1 THEN 0 ELSE IF (q[Len(q)] - q[1]) % (Len(q) - 1) = 0 THEN (q[Len(q)] - q[1]) \div (Len(q) - 1) ELSE "any" >>
(* quarter turns *)
Sn(q) == << 0, 1, 0, 0 - 1 >>[(q % 4) + 1]
Cn(q) == Sn(q + 1)
Ray(t, p) == << Sn(t) * Cn(p), Sn(t) * Sn(p), Cn(t) >>
Along(t, p) == << Cn(t) * Cn(p), Cn(t) * Sn(p), 0 - Sn(t) >>          \* direction of growing theta
Around(p) == << 0 - Sn(p), Cn(p), 0 >>                                \* direction of growing phi
Field(t, p, f) == [d \in 1..3 |-> f[1] * Ray(t, p)[d] + f[2] * Along(t, p)[d] + f[3] * Around(p)[d]]
(* samples <<q, re, im>> at q quarters of the period of frequency 1; the      *)
(* mean of the samples turned back by the phase of f, times their length:    *)
(* times 3360                                                                 *)
Turned(s, k) == << s[2] * Cn(k) + s[3] * Sn(k), s[3] * Cn(k) - s[2] * Sn(k) >>
Dtft(q, f) ==
  LET T == q[Len(q)][1] - q[1][1]
      re == Sum([i \in 1..Len(q) |-> Turned(q[i], q[i][1] * f)[1]])  im == Sum([i \in 1..Len(q) |-> Turned(q[i], q[i][1] * f)[2]]) IN
  << (840 \div Len(q)) * T * re, (840 \div Len(q)) * T * im >>
(* the spectrum of a Gaussian at q quarters has the phase of its delay *)
Phase(q, f) == << Cn(q * f), 0 - Sn(q * f) >>
UStep(s, op) ==
  LET n == op[1]  r(x) == [st |-> s, res |-> x] IN
  CASE n = "cmp" -> r(Cmp(op[2], op[3], op[4], op[5]))
    [] n = "ceil" -> r(CeilTo(op[2], op[3]))
    [] n = "round" -> r(Round(op[2]))
    [] n = "sign" -> r(IF op[2] < 0 THEN 0 - 1 ELSE 1)
    [] n \in {"lin", "linI"} -> r(Linear(op[2], op[3], op[4]))
    [] n = "log" -> r(Powers(op[2], op[3], op[4]))
    [] n = "stats" -> r(Stats(op[2]))
    [] n = "statsI" -> r(StatsI(op[2]))
    [] n = "sph" -> r(op[2])                     \* there and back
    [] n = "ray" -> r(<< Ray(op[2], op[3]), Field(op[2], op[3], op[4]) >>)
    [] n = "dtft" -> r(Dtft(op[2], op[3]))
    [] n = "phase" -> r(Phase(op[2], op[3]))
    [] n = "spectrum" -> r("that of its samples")
UObs(s) == s
UInv(s) == s = 0
(* laws *)
UTrans(s, op, t) ==
  /\ t = s
  /\ op[1] = "cmp" => LET a == op[2]  b == op[3]  r == op[4]  k == op[5]  c == Cmp(a, b, r, k) IN
       /\ Cardinality({ i \in {1, 3, 5} : c[i] }) = 1                     \* exactly one of equal, lower, greater
       /\ c[4] = (c[1] \/ c[3]) /\ c[6] = (c[1] \/ c[5]) /\ c[2] = ~c[1]
       /\ Cmp(b, a, r, k) = << c[1], c[2], c[5], c[6], c[3], c[4] >>
       /\ (r >= 0 => Eq(a, a, r, k))
  /\ op[1] = "ceil" => LET c == CeilTo(op[2], op[3]) IN 8 * c >= op[2] - op[3] /\ 8 * (c - 1) < op[2]
  /\ op[1] = "round" => Abs(8 * Round(op[2]) - op[2]) <= 4
  /\ op[1] = "ray" => LET x == Ray(op[2], op[3])  y == Along(op[2], op[3])  z == Around(op[3]) IN
       << x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1] >> = z
  /\ op[1] = "dtft" => LET q == op[2]  f == op[3]  c == [i \in 1..Len(q) |-> << q[i][1], q[i][2], 0 - q[i][3] >>] IN
       /\ Dtft(c, 0 - f) = << Dtft(q, f)[1], 0 - Dtft(q, f)[2] >>            \* conjugate signals have conjugate spectra
       /\ Dtft([i \in 1..Len(q) |-> << q[i][1] + 1, q[i][2], q[i][3] >>], f) = Turned(<< 0 >> \o Dtft(q, f), f)   \* a delay turns the phase
=============================================================================
