------------------------------ MODULE ScalarsMC ------------------------------
EXTENDS Machine, Scalars
CONSTANT Level
Ns == (IF Level = 1 THEN {-9, -8, -1, 0, 1, 2, 8, 9} ELSE {-1000, -17, -9, -8, -2, -1, 0, 1, 2, 3, 7, 8, 9, 16, 1000})
Nums == { << n, 0 >> : n \in Ns } \cup { << n, 1 >> : n \in {-3, 1} }
Vs == LET S == IF Level = 1 THEN {-1, 0, 2} ELSE {-2, -1, 0, 1, 3} IN S \X S \X S
Lists(S, n) == UNION { [1..k -> S] : k \in 1..n }
Sigs == { [i \in 1..k |-> << p[1] + (i - 1) * p[2], v[i][1], v[i][2] >>] : k \in 1..(IF Level = 1 THEN 2 ELSE 3), p \in { <<0, 1>>, <<-3, 2>>, <<1, 5>> }, v \in [1..3 -> { <<1, 0>>, <<2, -1>>, <<0, 3>> }] }
UOps(s) ==
  { << "cmp", a, b, r, k >> : a \in Nums, b \in Nums, r \in {0, 1, 8, 20}, k \in {-1, 0, 1, 4} }
  \cup { << "ceil", n, r >> : n \in -20..20, r \in {0, 1, 4} } \cup { << "round", n >> : n \in -40..40 } \cup { << "sign", n >> : n \in {-5, 0, 7} }
  \cup { << "lin", a, b, n >> : a \in {-3, 0, 2}, b \in {-3, 0, 5, 12}, n \in 0..8 }
  \cup { x \in { << "linI", a, b, n >> : a \in {-3, 0, 2}, b \in {-3, 0, 5, 12}, n \in 0..8 } : x[4] < 2 \/ (x[3] - x[2]) % (x[4] - 1) = 0 }
  \cup { x \in { << "log", a, b, n >> : a \in -4..3, b \in -4..3, n \in 0..8 } : x[4] < 2 \/ (x[3] - x[2]) % (x[4] - 1) = 0 }
  \cup { << n, q >> : n \in {"stats", "statsI"}, q \in Lists({-7, -1, 0, 3, 5}, IF Level = 1 THEN 4 ELSE 5) }
  \cup { << "sph", v >> : v \in Vs } \cup { << "ray", t, p, f >> : t \in 0..2, p \in -2..3, f \in Vs }
  \cup { << "dtft", q, f >> : q \in Sigs, f \in {-2, 0, 1, 3} }
  \cup { << "phase", q, f >> : q \in {-3, 0, 1, 2, 5}, f \in {-1, 0, 1, 2} }
  \cup { << "spectrum", sp, q, m, f >> : sp \in {1, 2}, q \in {0, 1, 3}, m \in {0, 2}, f \in {-2, 0, 1} }
=============================================================================
