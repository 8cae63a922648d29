------------------------------- MODULE Stages -------------------------------
(* How one solution is put together: a near-midplane expansion (a power series or an integration of its own), the main
   integration and, if asked for, crossing the sonic point by a jump or by an interpolated integration, followed by the
   integration beyond it.  Angles are integers that order as the real ones do; every row of values is a token.
   Row tokens: 0 the initial conditions, 1 the end of the power series, 2 the modified initial conditions,
   3 the state the jump lands on, W*k+i the i-th new row of the k-th integration, whose first row is its start. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cfg,      \* what is asked for (set once)
          ph,       \* the next stage, or "done" / "error"
          k,        \* integrations performed
          angs, rows, irows,   \* joined angles, value tokens, internal data entries
          rest,     \* the angles the main part of the solution may be asked at
          last,     \* end of the latest integration: [a |-> angle, r |-> row, root |-> BOOLEAN]
          flag      \* how the main integration ended
vars == <<cfg, ph, k, angs, rows, irows, rest, last, flag>>

W == 100000
Flags == {"success", "root", "tstop", "failed", "tooclose"}
After(s, a) == SelectSeq(s, LAMBDA x : x > a)
From(s, a) == SelectSeq(s, LAMBDA x : x >= a)
Refused(c) == \/ c.cross = "both"
              \/ c.cross # "none" /\ c.roots
              \/ c.cross = "interp" /\ ~c.store
NoLast == [a |-> 0, r |-> 0]
InitWith(c) ==
  /\ cfg = c /\ k = 0 /\ angs = <<>> /\ rows = <<>> /\ irows = <<>> /\ flag = "none" /\ last = NoLast
  /\ rest = IF c.mode = "modified" THEN c.grid2
            ELSE IF c.mode = "none" THEN c.grid ELSE <<c.tay>> \o After(c.grid, c.tay)
  /\ ph = IF c.mode = "integrated" THEN "expansion" ELSE IF Refused(c) THEN "error" ELSE "main"

NewRows(start, n) == [i \in 1..n |-> IF i = 1 THEN start ELSE W * (k + 1) + i]
NewInt(m) == [i \in 1..m |-> W * (k + 1) + i]
\* an integration asked for the angles want from the state start: n of them are reached, m evaluations are kept
Reached(want, n) == [i \in 1..n |-> want[i]]
StartRow == IF cfg.mode = "modified" THEN 2 ELSE IF cfg.mode = "series" THEN 1 ELSE IF cfg.mode = "integrated" THEN last.r ELSE 0

Expansion(want, start, n, m, how) ==
  /\ ph = "expansion" /\ want = cfg.grid /\ start = 0
  /\ k' = k + 1
  /\ irows' = IF cfg.store THEN NewInt(m) ELSE <<>>
  /\ \/ /\ how = "tstop"
        /\ angs' = Reached(want, n) /\ rows' = NewRows(0, n)
        /\ last' = [a |-> cfg.tay, r |-> W * (k + 1)]          \* the state where the expansion stops
        /\ ph' = IF Refused(cfg) THEN "error" ELSE "main"
     \/ how # "tstop" /\ ph' = "error" /\ UNCHANGED <<angs, rows, last>>
  /\ UNCHANGED <<cfg, rest, flag>>

Piece(want, start, n, m, how) ==      \* what every later integration adds
  /\ k' = k + 1
  /\ IF how = "tooclose" THEN UNCHANGED <<angs, rows, irows, last>>
     ELSE /\ angs' = angs \o Reached(want, n)
          /\ rows' = rows \o NewRows(start, n)
          /\ irows' = irows \o (IF cfg.store THEN NewInt(m) ELSE <<>>)
          /\ last' = [a |-> want[n], r |-> NewRows(start, n)[n]]
  /\ UNCHANGED <<cfg, rest>>

Main(want, start, n, m, how) ==
  /\ ph = "main" /\ want = rest /\ Len(want) >= 2 /\ start = StartRow
  /\ k' = k + 1 /\ flag' = how
  /\ LET pa == IF cfg.mode = "series" THEN <<0, cfg.tay>> ELSE angs
         pr == IF cfg.mode = "series" THEN <<0, 1>> ELSE rows
         ia == irows \o (IF cfg.store THEN NewInt(m) ELSE <<>>)
     IN /\ angs' = pa \o Reached(want, n)
        /\ rows' = pr \o NewRows(start, n)
        /\ irows' = ia
        /\ last' = [a |-> want[n], r |-> NewRows(start, n)[n]]
        /\ ph' = IF how = "tooclose" THEN "error"
                 ELSE IF how # "root" \/ cfg.cross = "none" THEN "done"
                 ELSE IF cfg.cross = "jump" THEN "landing"
                 ELSE IF Len(ia) >= 4 THEN "bridge" ELSE "done"      \* too little to interpolate: left uncrossed
  /\ UNCHANGED <<cfg, rest>>

Bridge(want, start, n, m, how) ==
  /\ ph = "bridge" /\ want = From(rest, last.a) /\ start = last.r /\ Len(want) >= 2
  /\ Piece(want, start, n, m, how) /\ UNCHANGED flag
  /\ ph' = IF how = "tooclose" THEN "error" ELSE "beyond"

BeyondWant(land) == IF cfg.cross = "jump" THEN <<land>> \o After(rest, land) ELSE <<last.a>> \o After(rest, last.a)
Beyond(want, start, n, m, how, land) ==
  /\ \/ ph = "landing" /\ start = 3 /\ land >= last.a
     \/ ph = "beyond" /\ start = last.r
  /\ want = BeyondWant(land) /\ Len(want) >= 2
  /\ Piece(want, start, n, m, how) /\ UNCHANGED flag
  /\ ph' = IF how = "tooclose" THEN "error" ELSE "done"

\* fewer than two angles left for a stage
Stuck(land) ==
  \/ ph = "main" /\ Len(rest) < 2
  \/ ph = "bridge" /\ Len(From(rest, last.a)) < 2
  \/ ph \in {"landing", "beyond"} /\ Len(BeyondWant(land)) < 2
GiveUp(land) == Stuck(land) /\ ph' = "error" /\ UNCHANGED <<cfg, k, angs, rows, irows, rest, last, flag>>

\* ---- what the joined solution must satisfy --------------------------------------------------
Ascending == ph # "error" => \A i \in 1..Len(angs)-1 : angs[i] <= angs[i+1]
Aligned == Len(angs) = Len(rows)
FromMidplane == ph = "done" /\ cfg.mode # "modified" => rows[1] = 0 /\ angs[1] = cfg.grid[1]
\* a stage begins with the row the previous one ended with, except across the jump and from the end of the expansion
Continuous == ph = "done" =>
  \A i \in 2..Len(rows) :
    LET a == rows[i-1] b == rows[i]
    IN \/ b = a + 1 \/ b = a
       \/ b >= W /\ b % W = 2            \* first new row of an integration started at the row before
       \/ b = 3 \/ b % W = 0
InternalInOrder == \A i \in 1..Len(irows)-1 : irows[i] < irows[i+1]
NoInternalUnlessAsked == ~cfg.store => irows = <<>>
CrossedOnlyFromRoot == ph \in {"landing", "bridge", "beyond"} => flag = "root"
NothingLost == [][(ph' # "error") => (/\ Len(rows') >= Len(rows) /\ Len(irows') >= Len(irows)
                                    /\ ((ph # "main") => SubSeq(rows', 1, Len(rows)) = rows))]_vars
=============================================================================
