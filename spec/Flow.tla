--------------------------------- MODULE Flow ---------------------------------
(* Following the flow and the field of a solution: the stream line and the field line which start at given places.
   A solution knows the flow at the angles of a grid (above the midplane, in increasing order); elsewhere the flow is that of the
   closest angle, and the solution ends at its last angle.  Each step has the given length; where it would leave the solution
   the length becomes a hundredth of it for this and all later steps, and a path ends where this leaves the solution too.
   The solution, with the places to start from, is cf; ph is the part of the work, at the last point of the current path. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Slack          \* how exactly angles are known
VARIABLES cf, ph, at, made, top
vars == <<cf, ph, at, made, top>>
Abs(x) == IF x < 0 THEN -x ELSE x
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Cells == 1..Len(cf.grid)
Last == cf.grid[Len(cf.grid)]
Far(x, i) == Abs(cf.grid[i] - x)
Nearest(x) == {i \in Cells : \A j \in Cells : Far(x, i) <= Far(x, j) + Slack}
\* certainly outside, certainly inside: neither within Slack of the end
Beyond(x) == x > Last - Slack
Within(x) == x <= Last + Slack
Order == <<"stats", "v", "B">>
Nowhere == [a |-> 0, cells |-> {}, e |-> 0, k |-> 0]
InitWith(c) == cf = c /\ ph = "begin" /\ at = Nowhere /\ made = {} /\ top = <<>>
Turn(w) == CASE ph = "begin" -> w = IF cf.files THEN "stats" ELSE "v"
             [] ph = "stats" -> w = "v" [] ph = "after v" -> w = "B" [] OTHER -> FALSE
\* nothing which is there already is written over
Refuse(w) == Turn(w) /\ w \in cf.taken /\ ph' = "refused" /\ UNCHANGED <<cf, at, made, top>>
Stats(m) == /\ Turn("stats") /\ "stats" \notin cf.taken /\ Abs(m - Last) <= Slack
            /\ ph' = "stats" /\ made' = made \cup {"stats"} /\ UNCHANGED <<cf, at, top>>
Open(w) == /\ w \in {"v", "B"} /\ Turn(w) /\ w \notin cf.taken
           /\ ph' = w /\ at' = Nowhere /\ top' = <<>> /\ made' = made \cup {w} /\ UNCHANGED cf
Path == cf.path[ph]
InPath == ph \in {"v", "B"}
Goes(a) == ph' = ph /\ top' = (IF top = <<>> \/ a > top[1] THEN <<a>> ELSE top) /\ UNCHANGED <<cf, made>>
\* the first point, with the flow of the cells c
First(a, c) == /\ InPath /\ at.k = 0 /\ Path.max > 0 /\ Abs(a - Path.start) <= Slack /\ Within(a) /\ c \cap Nearest(a) # {}
               /\ at' = [a |-> a, cells |-> c \cap Nearest(a), e |-> 0, k |-> 1] /\ Goes(a)
\* a step moves along the flow of a cell: away from the midplane (1), towards it (-1) or along the radius (0)
Along(d, by) == LET s == Path.way[d] IN IF s = 1 THEN by >= -Slack ELSE IF s = -1 THEN by <= Slack ELSE s = 0 /\ Abs(by) <= Slack
\* the next point: by steps of the same length, or shortened once as a full one reaches the angle full
Next(a, c, d, e, by, full) ==
  /\ InPath /\ at.k > 0 /\ at.k < Path.max /\ Within(a) /\ c \cap Nearest(a) # {}
  /\ \E x \in d \cap at.cells : Along(x, by)
  /\ IF e = at.e THEN TRUE ELSE e = at.e + 1 /\ Beyond(full)
  /\ at' = [a |-> a, cells |-> c \cap Nearest(a), e |-> e, k |-> at.k + 1] /\ Goes(a)
\* where the flow is not known nothing can follow
Unknown == \E x \in at.cells : Path.way[x] = 9
Close(full, short) ==
  /\ InPath /\ ph' = "after " \o ph /\ UNCHANGED <<cf, at, made, top>>
  /\ \/ at.k = Path.max
     \/ at.k = 0 /\ Beyond(Path.start)
     \/ at.k > 0 /\ (Unknown \/ (Beyond(full) /\ Beyond(short)))
\* what a plot says is the highest angle the stream reaches
Highest(m) == ph = "after v" /\ top # <<>> /\ Abs(m - top[1]) <= Slack /\ UNCHANGED vars
Finish == ph = "after B" /\ ph' = "done" /\ UNCHANGED <<cf, at, made, top>>

Inside == InPath /\ at.k > 0 => Within(at.a)
NotTooMany == InPath => at.k <= Path.max
OnlyNew == made \cap cf.taken = {}
FilesInOrder == /\ ("v" \in made /\ cf.files => "stats" \in made)
                /\ ("B" \in made => "v" \in made)
AllOrRefused == /\ (ph = "done" => made = {"v", "B"} \cup (IF cf.files THEN {"stats"} ELSE {}))
                /\ (ph = "refused" => cf.taken # {})
Shorter == [][at'.k > at.k /\ at.k > 0 => at'.e \in {at.e, at.e + 1}]_vars
===============================================================================
