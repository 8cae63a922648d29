------------------------------ MODULE Provenance ------------------------------
(* Every search repeatedly chooses an input, solves the equations for it and  *)
(* records (some of) the solutions.  Whatever it does to its working input    *)
(* afterwards, a record keeps the input and initial conditions it was solved  *)
(* with.  Inputs and conditions are identities; C maps an input to the        *)
(* initial conditions derived from it.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES work,    \* the search's working input
          solved,  \* per solution: the input it was solved with
          recs     \* recorded solutions: [of, inp]

vars == <<work, solved, recs>>

Init == work = 0 /\ solved = <<>> /\ recs = <<>>
Choose(i) == work' = i /\ UNCHANGED <<solved, recs>>
Solve == solved' = Append(solved, work) /\ UNCHANGED <<work, recs>>
Record(k) == /\ k \in 1..Len(solved)
             /\ recs' = Append(recs, [of |-> k, inp |-> solved[k]])
             /\ UNCHANGED <<work, solved>>

Kept == \A j \in 1..Len(recs) : recs[j].inp = solved[recs[j].of]
Frozen == [][\A j \in 1..Len(recs) : recs'[j] = recs[j]]_vars
=============================================================================
