------------------------------ MODULE Extremes ------------------------------
(* What the statistics of a solution say: for each quantity, its largest value and where it is reached first.
   Quantities which are not whole numbers are given by their ranks along the grid (equal values have equal ranks; 0: unknown),
   and a reported value by the point which has it. *)
EXTENDS Integers, Sequences
VARIABLES soln,   \* [grid (eighths of a degree), vt, rho, slow, alfven, fast, vz, misfit]
          said
vars == <<soln, said>>
InitWith(s) == soln = s /\ said = FALSE
Points == 1..Len(soln.grid)
Known(q) == {p \in 1..Len(q) : q[p] # 0}
\* the first of the points with the largest rank; 0 if nothing is known
First(q, ps) == IF ps = {} THEN 0 ELSE CHOOSE p \in ps : (\A o \in ps : q[o] <= q[p]) /\ \A o \in ps : o < p => q[o] < q[p]
Largest(q) == First(q, Known(q))
RECURSIVE Sum(_, _)
Sum(q, n) == IF n = 0 THEN 0 ELSE q[n] + Sum(q, n - 1)
At(p) == IF p = 0 THEN -1 ELSE soln.grid[p]
Rising(upto) == \A p \in Points : p > 1 /\ soln.grid[p] <= upto => soln.vt[p - 1] <= soln.vt[p]
Report ==
  [slow |-> soln.slow[IF Largest(soln.slow) = 0 THEN 1 ELSE Largest(soln.slow)], slowAt |-> At(Largest(soln.slow)),
   alfven |-> soln.alfven[IF Largest(soln.alfven) = 0 THEN 1 ELSE Largest(soln.alfven)], alfvenAt |-> At(Largest(soln.alfven)),
   fast |-> soln.fast[IF Largest(soln.fast) = 0 THEN 1 ELSE Largest(soln.fast)], fastAt |-> At(Largest(soln.fast)),
   sonic |-> soln.vt[First(soln.vt, Points)], sonicAt |-> At(First(soln.vt, Points)),
   vz |-> soln.vz[Largest(soln.vz)], vzAt |-> Largest(soln.vz),
   sum |-> Sum(soln.rho, Len(soln.rho)), last |-> soln.grid[Len(soln.grid)],
   rising |-> Rising(160), low |-> soln.vt[Len(soln.vt)] <= 10,
   misfit |-> [k \in 1..7 |-> soln.misfit[k][Largest(soln.misfit[k])]],
   points |-> TRUE]
Say(r) == r = Report /\ ~said /\ said' = TRUE /\ UNCHANGED soln
\* ---- what must be so
OnTheGrid == \A q \in {soln.slow, soln.alfven, soln.fast} : Largest(q) \in Points \cup {0} /\ (Largest(q) = 0 <=> Known(q) = {})
NothingLarger == \A q \in {soln.slow, soln.alfven, soln.fast, soln.vz} : \A p \in Points : Largest(q) # 0 => q[p] <= q[Largest(q)]
ReachedFirst == \A q \in {soln.slow, soln.alfven, soln.fast} : \A p \in Points : p < Largest(q) => q[p] # q[Largest(q)]
=============================================================================
