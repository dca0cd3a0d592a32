------------------------------- MODULE Outcome -------------------------------
(* What an assembler run leaves behind: exit status, output files, error      *)
(* files, messages. A run takes modules in turn; a module is a sequence of    *)
(* statements, walked in passes. A statement is sound ("ok"), erroneous as    *)
(* it stands ("e1": reported in the first pass), erroneous only once all      *)
(* names are known ("e2": reported in a later pass), worth a warning ("w",    *)
(* with a level) or breaks the assembly off ("fatal"); "we"/"ww" are errors   *)
(* and warnings found when the output is written, "ee" an error found at the  *)
(* end of the first pass (no line in either case).                            *)
(* A case: opt [W, WX, e, zs, fo, fl, quiet, eq], mods: sequence of           *)
(* [name, stale (extensions of files from an earlier run), stmts: <<k, line,  *)
(* lvl>>].                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, m, pass, k, phase, log, fatal, done
vars == <<i, m, pass, k, phase, log, fatal, done>>
Opt == Cases[i].opt
Mod == Cases[i].mods[m]
St == Mod.stmts[k]
Errs(l) == SelectSeq(l, LAMBDA x : x.kind \in {"E", "F"})
Warns(l) == SelectSeq(l, LAMBDA x : x.kind = "W")
Init == i = 1 /\ m = 0 /\ pass = 0 /\ k = 0 /\ phase = "none" /\ log = <<>> /\ fatal = FALSE /\ done = <<>>
Pick == m = 0 /\ i' \in 1..Len(Cases) /\ m' = 1 /\ pass' = 1 /\ k' = 1 /\ phase' = "open" /\ UNCHANGED <<log, fatal, done>>
Msg(kd, ln) == [kind |-> kd, line |-> ln]
\* an error beyond the limit ends the assembly with a fatal error of its own
Limit(l) == Opt.e >= 0 /\ Len(Errs(l)) = Opt.e + 1
AddErr(ln) == LET l == Append(log, Msg("E", ln)) IN
  IF Limit(l) THEN log' = Append(l, Msg("F", ln)) /\ fatal' = TRUE
  ELSE log' = l /\ fatal' = fatal
AddWarn(ln, lvl) ==
  /\ fatal' = fatal
  /\ log' = IF lvl > Opt.W THEN log ELSE Append(log, Msg(IF Opt.WX THEN "E" ELSE "W", ln))
Open == /\ phase = "open" /\ UNCHANGED <<i, m, pass, k, done>>
        /\ IF (Opt.fo = "bad" /\ ~Opt.zs) \/ Opt.fl = "bad"
           THEN log' = <<Msg("F", 0)>> /\ fatal' = TRUE /\ phase' = "close"
           ELSE phase' = "pass" /\ UNCHANGED <<log, fatal>>
Stmt == /\ phase = "pass" /\ k <= Len(Mod.stmts) /\ ~fatal /\ UNCHANGED <<i, m, pass, done>>
        /\ CASE St.k = "e1" /\ pass = 1 -> AddErr(St.line)
             [] St.k = "e2" /\ pass = 2 -> AddErr(St.line)
             [] St.k = "w" /\ pass = 1 -> AddWarn(St.line, St.lvl)
             [] St.k = "fatal" /\ pass = 1 -> log' = Append(log, Msg("F", St.line)) /\ fatal' = TRUE
             [] St.k = "we" /\ pass = 3 -> AddErr(0)
             [] St.k = "ww" /\ pass = 3 -> AddWarn(0, St.lvl)
             [] OTHER -> UNCHANGED <<log, fatal>>
        /\ k' = k + 1 /\ phase' = phase
\* pass 3 stands for writing the output
\* what a pass as a whole is found to lack is reported behind its statements, if these are sound
AtEnd == IF pass = 1 /\ Errs(log) = <<>> /\ \E j \in 1..Len(Mod.stmts) : Mod.stmts[j].k = "ee" THEN <<Msg("E", 0)>> ELSE <<>>
EndPass == /\ phase = "pass" /\ (k > Len(Mod.stmts) \/ fatal) /\ UNCHANGED <<i, m, fatal, done>>
           /\ log' = IF fatal THEN log ELSE log \o AtEnd
           /\ IF fatal \/ Errs(log') # <<>> \/ pass = 3 \/ (pass = 2 /\ Opt.zs)
              THEN phase' = "close" /\ UNCHANGED <<pass, k>>
              ELSE pass' = pass + 1 /\ k' = 1 /\ phase' = phase
Result ==
  LET ok == Errs(log) = <<>> IN
  [ok |-> ok, log |-> log, summary |-> ~fatal,
   out |-> IF Opt.zs THEN (IF "out" \in Range(Mod.stale) THEN "open" ELSE "none") ELSE IF ok THEN "new" ELSE "none",
   err |-> log # <<>>]
Close == /\ phase = "close" /\ done' = Append(done, Result) /\ log' = <<>> /\ fatal' = FALSE /\ i' = i
         /\ IF m < Len(Cases[i].mods) THEN m' = m + 1 /\ pass' = 1 /\ k' = 1 /\ phase' = "open"
            ELSE phase' = "end" /\ UNCHANGED <<m, pass, k>>
Next == Pick \/ Open \/ Stmt \/ EndPass \/ Close
Status == IF \A n \in 1..Len(done) : done[n].ok THEN 0 ELSE 1
----------------------------------------------------------------------------
\* the property, without reference to the steps
Lines(s, kk) == {s[j].line : j \in {j \in 1..Len(s) : s[j].k = kk}}
Outcomes == phase = "end" =>
  \A n \in 1..Len(done) :
    LET d == done[n]  s == Cases[i].mods[n].stmts
        LL == {d.log[j].line : j \in {j \in 1..Len(d.log) : d.log[j].kind = "E"}}
        bad == \E j \in 1..Len(s) : s[j].k \in {"e1", "e2", "ee", "fatal"} \/ (s[j].k = "we" /\ ~Opt.zs)
        strict == Opt.WX /\ \E j \in 1..Len(s) : (s[j].k = "w" \/ (s[j].k = "ww" /\ ~Opt.zs)) /\ s[j].lvl <= Opt.W
        io == (Opt.fo = "bad" /\ ~Opt.zs) \/ Opt.fl = "bad" IN
    /\ d.ok <=> ~(bad \/ strict \/ io)
    /\ d.ok /\ ~Opt.zs => d.out = "new"
    /\ ~d.ok => d.out # "new"
    /\ d.err <=> d.log # <<>>
    /\ ~io /\ d.summary => (Lines(s, "e1") \subseteq LL \/ (Opt.e >= 0 /\ Len(d.log) > Opt.e))
    /\ ~io /\ d.summary /\ Lines(s, "e1") \cup Lines(s, "ee") = {} /\ ~Opt.WX => (Lines(s, "e2") \subseteq LL \/ (Opt.e >= 0 /\ Len(d.log) > Opt.e))
    /\ \A j \in 1..Len(d.log) : d.log[j].kind = "W" => \E q \in 1..Len(s) : s[q].line = d.log[j].line \/ d.log[j].line = 0
OneFails == phase = "end" => ((Status = 0) <=> \A n \in 1..Len(done) : done[n].ok)
Report == phase = "end" => PrintT(<<"@R", i, ToJson([status |-> Status, mods |-> done])>>)
Inv == Outcomes /\ OneFails /\ Report
=============================================================================
