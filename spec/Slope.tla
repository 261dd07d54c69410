-------------------------------- MODULE Slope --------------------------------
(* C38: which triangles are walkable.  Vertices are small integers.           *)
EXTENDS Integers, Sequences, FiniteSets

\* angles in tenths of a degree, and 10000 times the square of the cosine
Angles == <<0, 100, 200, 225, 300, 400, 450, 500, 600, 675, 700, 800, 850>>
Cos2 == <<10000, 9698, 8830, 8535, 7500, 5868, 5000, 4131, 2500, 1464, 1169, 301, 75>>

Diff(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Normal(a, b, c) ==
  LET u == Diff(b, a)  v == Diff(c, a) IN
  <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Length2(n) == n[1] * n[1] + n[2] * n[2] + n[3] * n[3]
Flat(a, b, c) == Normal(a, b, c) = <<0, 0, 0>>

\* certainly below the angle with that number, and certainly not
Below(a, b, c, k) ==
  LET n == Normal(a, b, c) IN n[2] > 0 /\ n[2] * n[2] * 10000 > (Cos2[k] + 2) * Length2(n)
NotBelow(a, b, c, k) ==
  LET n == Normal(a, b, c) IN n # <<0, 0, 0>> /\ (n[2] <= 0 \/ n[2] * n[2] * 10000 < (Cos2[k] - 1) * Length2(n))
==============================================================================
