------------------------------- MODULE PlotArgs -------------------------------
(* What a plot shows.  A request for plot arguments names an ordering of the variables, a scale for the polar velocity, and
   how the azimuthal velocity is offset: by a given amount, by the solution's own Keplerian speed (kep), or not at all.
   Whoever asked may do what it likes to the list it got (Spoil).  Pictures are drawn in the same process: picture p of the
   catalogue looks like Fresh[p] when it is the first thing a process draws.  None of it depends on what went before. *)
EXTENDS Integers, Sequences
VARIABLES fresh, held, drawn
vars == <<fresh, held, drawn>>
NoOffset == -1
Variables(o) == CASE o = "B_phi_prime" -> <<"B_r", "B_phi", "B_theta", "v_r", "v_phi", "v_theta", "rho", "B_phi_prime">>
                  [] o = "E_r" -> <<"B_r", "B_phi", "B_theta", "v_r", "v_phi", "v_theta", "rho", "E_r">>
                  [] o = "B_phi_prime_vert" -> <<"B_r", "B_phi", "B_z", "v_r", "v_phi", "v_z", "rho", "B_phi_prime">>
                  [] OTHER -> <<"B_r", "B_phi", "B_z", "v_r", "v_phi", "v_z", "rho", "E_r">>
Offset(q) == IF q.given # NoOffset THEN q.given ELSE IF q.off THEN NoOffset ELSE q.kep
Scale(q, x) == IF x = "rho" THEN "log" ELSE IF x = "v_theta" THEN q.scale ELSE "linear"
Entry(q, x) == [name |-> x, scale |-> Scale(q, x),
                offset |-> IF x = "v_phi" THEN Offset(q) ELSE NoOffset, legend |-> x \in {"v_theta", "v_z"}, extras |-> 0]
Answer(q) == [i \in 1..8 |-> Entry(q, Variables(q.ordering)[i])]
InitWith(f) == fresh = f /\ held = <<>> /\ drawn = <<>>
Ask(q, res) == res = Answer(q) /\ held' = Append(held, res) /\ UNCHANGED <<fresh, drawn>>
\* what the asker makes of its list is its own business
Spoil(i, res) == i \in 1..Len(held) /\ held' = [held EXCEPT ![i] = res] /\ UNCHANGED <<fresh, drawn>>
Draw(p, pic) == pic = fresh[p] /\ drawn' = Append(drawn, <<p, pic>>) /\ UNCHANGED <<fresh, held>>
\* one solution (all its variables equal to tok) drawn variable by variable, with lines for the wanted wave speeds
Lines(q) == [i \in 1..8 |-> [name |-> Variables("B_phi_prime")[i], scale |-> Scale(q, Variables("B_phi_prime")[i]),
                             at |-> [k \in 1..Len(q.toks) |-> q.toks[k].tok - (IF Variables("B_phi_prime")[i] = "v_phi" THEN q.toks[k].kep ELSE 0)],
                             extras |-> IF Variables("B_phi_prime")[i] = "v_theta" THEN q.extras ELSE <<>>]]
Show(q, res) == res = Lines(q) /\ UNCHANGED vars
SamePicture == \A i, j \in 1..Len(drawn) : drawn[i][1] = drawn[j][1] => drawn[i][2] = drawn[j][2]
=============================================================================
