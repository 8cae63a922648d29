-------------------------------- MODULE Select --------------------------------
(* Which solutions a command works on.  A run has n numbered solutions 0..n-1 and possibly a final one; a command is given
   one (run, selector) pair, a list of them, or a whole run with or without a list of wanted numbers.  Selectors: none
   (nothing given), final, latest, or a number as text (numbers nobody has, or text which is no number, are the number -1).
   A solution is named by its number; Final, Nothing (no such final solution) and Fail stand beside them. *)
EXTENDS Integers, Sequences
VARIABLES runs, got
vars == <<runs, got>>
Final == 100
Nothing == -1
Fail == -2
InitWith(r) == runs = r /\ got = <<>>
Lookup(r, sel) ==
  LET n == runs[r].n
      Number(k) == IF k \in 0..n-1 THEN k ELSE Fail
  IN CASE sel.kind = "none" -> Number(0)
       [] sel.kind = "number" -> Number(sel.k)
       [] sel.kind = "final" -> IF runs[r].fin THEN Final ELSE Nothing
       [] OTHER -> IF runs[r].fin THEN Final ELSE Number(n - 1)
\* one solution: a command that needs one may also fail if there is no final solution
One(r, sel, res) == /\ res = Lookup(r, sel) \/ (Lookup(r, sel) = Nothing /\ res = Fail)
                    /\ got' = Append(got, <<<<r, res>>>>) /\ UNCHANGED runs
\* several: in the order given, missing final solutions left out, up to the first unknown one
RECURSIVE Several(_)
Several(ps) == IF ps = <<>> THEN <<>> ELSE
               LET x == Lookup(ps[1].run, ps[1].sel) IN
               IF x = Fail THEN <<<<ps[1].run, Fail>>>>
               ELSE IF x = Nothing THEN Several(Tail(ps)) ELSE <<<<ps[1].run, x>>>> \o Several(Tail(ps))
Many(ps, res) == res = Several(ps) /\ got' = Append(got, res) /\ UNCHANGED runs
\* a whole run: every numbered solution in numerical order, or exactly the wanted ones in the order wanted
RECURSIVE Wanted(_, _)
Wanted(r, w) == IF w = <<>> THEN <<>> ELSE
                IF w[1] \in 0..runs[r].n-1 THEN <<<<r, w[1]>>>> \o Wanted(r, Tail(w)) ELSE <<<<r, Fail>>>>
All(r, res) == res = [i \in 1..runs[r].n |-> <<r, i - 1>>] /\ got' = Append(got, res) /\ UNCHANGED runs
Some(r, w, res) == res = Wanted(r, w) /\ got' = Append(got, res) /\ UNCHANGED runs
\* whatever is selected is there
Exists == \A i \in 1..Len(got) : \A j \in 1..Len(got[i]) :
            LET x == got[i][j] IN x[2] \in {Nothing, Fail} \/ (x[2] = Final /\ runs[x[1]].fin) \/ x[2] \in 0..runs[x[1]].n-1
NothingAfterFailure == \A i \in 1..Len(got) : \A j \in 1..Len(got[i])-1 : got[i][j][2] # Fail
=============================================================================
