------------------------------- MODULE Command -------------------------------
(* One run of a solving command: it checks what it was asked for, creates the result file, searches, and reports. *)
EXTENDS Integers, Sequences, FiniteSets
\* what is asked for: the override, the method, the setting values, the source of a re-solve, the output file
Overrides == {"none", "good", "unknown", "badvalue"}
Sources == {"config", "numbered", "final", "nosuch", "missing"}
Targets == {"auto", "named", "taken", "nodir"}
\* how the search goes: found: success, failed: no success, none: nothing returned, error, crash
Hows == {"found", "failed", "none", "error", "crash"}
VARIABLES ask, files, printed, status, ph
vars == <<ask, files, printed, status, ph>>
InitWith(a) == ask = a /\ files = (IF a.target = "taken" THEN {"old"} ELSE {}) /\ printed = FALSE /\ status = -1 /\ ph = "start"
Sound == /\ ask.override \in {"none", "good"} /\ ask.method # "bad" /\ ask.source \notin {"nosuch", "missing"}
Give(s) == status' = s /\ ph' = "end"
Refuse == ph = "start" /\ ~Sound /\ Give(1) /\ UNCHANGED <<ask, files, printed>>
Create == /\ ph = "start" /\ Sound /\ ask.target \in {"auto", "named"}
          /\ files' = files \cup {"new"} /\ ph' = "search" /\ UNCHANGED <<ask, printed, status>>
CannotCreate == ph = "start" /\ Sound /\ ask.target \in {"taken", "nodir"} /\ Give(1) /\ UNCHANGED <<ask, files, printed>>
Search == /\ ph = "search"
          /\ IF ask.how \in {"error", "crash"} THEN Give(1) /\ UNCHANGED printed
             ELSE /\ printed' = TRUE /\ Give(IF ask.how = "found" THEN 0 ELSE 1)
          /\ UNCHANGED <<ask, files>>
Next == Refuse \/ Create \/ CannotCreate \/ Search
ZeroOnlyOnSuccess == status = 0 => (Sound /\ ask.how = "found" /\ "new" \in files /\ printed)
SuccessIsZero == (ph = "end" /\ "new" \in files /\ ask.how = "found") => status = 0
NothingMadeWhenRefused == ~Sound => "new" \notin files
OldKept == ask.target = "taken" => files = {"old"}
PrintedExists == printed => "new" \in files
=============================================================================
