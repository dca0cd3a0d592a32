------------------------------ MODULE CondAsm ------------------------------
(* Conditional assembly alone: the stack machine of Preproc.tla against    *)
(* the declarative meaning of the block structure, for every sequence of   *)
(* directives up to MaxLen. Directive: if1 if0 (condition true/false),     *)
(* el1 el0 (ELSEIF), els, end, b (a data byte).                            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, PrintLen      \* prints the cases of length <= PrintLen
Dir == {"if1", "if0", "el1", "el0", "els", "end", "b"}
VARIABLES seq, cs, emitted, bad
vars == <<seq, cs, emitted, bad>>
Init == seq = <<>> /\ cs = <<>> /\ emitted = {} /\ bad = {}

n == Len(cs)
Active == n = 0 \/ cs[n].st = "on"
Put(c) == SubSeq(cs, 1, n - 1) \o <<c>>
Next == \E d \in Dir :
  /\ Len(seq) < MaxLen
  /\ seq' = Append(seq, d)
  /\ LET k == Len(seq) + 1
         skip == UNCHANGED <<cs, emitted, bad>>
         err == cs' = cs /\ emitted' = emitted /\ bad' = bad \cup {k}
     IN CASE d = "b" -> /\ emitted' = IF Active THEN emitted \cup {k} ELSE emitted
                        /\ UNCHANGED <<cs, bad>>
          [] d \in {"if0", "if1"} ->
               /\ cs' = Append(cs, [st |-> IF ~Active THEN "dead" ELSE IF d = "if1" THEN "on" ELSE "seek",
                                    els |-> FALSE])
               /\ UNCHANGED <<emitted, bad>>
          [] d = "end" -> IF n = 0 THEN err ELSE cs' = SubSeq(cs, 1, n - 1) /\ UNCHANGED <<emitted, bad>>
          [] d = "els" -> IF n = 0 THEN err
                          ELSE IF cs[n].st = "dead" THEN skip
                          ELSE IF cs[n].els THEN err
                          ELSE /\ cs' = Put([st |-> IF cs[n].st = "seek" THEN "on" ELSE "done", els |-> TRUE])
                               /\ UNCHANGED <<emitted, bad>>
          [] OTHER -> IF n = 0 THEN err
                      ELSE IF cs[n].st \in {"dead"} THEN skip
                      ELSE IF cs[n].els THEN err
                      ELSE /\ cs' = Put([cs[n] EXCEPT !.st =
                                 IF @ = "on" THEN "done" ELSE IF @ = "seek" /\ d = "el1" THEN "on" ELSE @])
                           /\ UNCHANGED <<emitted, bad>>

\* ---- declarative meaning
If == {"if0", "if1"}
Heads == {"if0", "if1", "el0", "el1", "els"}
RECURSIVE LevelAt(_)
LevelAt(k) == IF k = 0 THEN 0
              ELSE LevelAt(k - 1) + (IF seq[k] \in If THEN 1 ELSE IF seq[k] = "end" THEN (IF LevelAt(k - 1) = 0 THEN 0 ELSE -1) ELSE 0)
\* the IF of the innermost block around position k that is still open before k; 0 if none
RECURSIVE OpenIf(_, _)
OpenIf(k, lvl) == IF k = 0 THEN 0
                  ELSE IF seq[k] = "end" /\ LevelAt(k - 1) > 0 THEN OpenIf(k - 1, lvl + 1)
                  ELSE IF seq[k] \in If THEN (IF lvl = 0 THEN k ELSE OpenIf(k - 1, lvl - 1))
                  ELSE OpenIf(k - 1, lvl)
BlockOf(k) == OpenIf(k - 1, 0)
\* the branch heads of block i before position k, in order
HeadsOf(i, k) == {i} \cup {j \in (i + 1)..(k - 1) : seq[j] \in Heads \ If /\ BlockOf(j) = i}
True(j) == seq[j] \in {"if1", "el1", "els"}
RECURSIVE Taken(_)
\* is the text at position k assembled?
Taken(k) == LET i == BlockOf(k) IN
            IF i = 0 THEN TRUE
            ELSE LET H == HeadsOf(i, k)
                     \* heads behind an ELSE of the block are errors and no heads
                     G == {j \in H : ~\E e \in H : e < j /\ seq[e] = "els"}
                     h == CHOOSE j \in G : \A x \in G : x <= j
                 IN Taken(i) /\ True(h) /\ \A j \in G : j < h => ~True(j)
Faulty(k) == \/ seq[k] \in {"end", "els", "el0", "el1"} /\ BlockOf(k) = 0
             \/ seq[k] \in {"els", "el0", "el1"} /\ BlockOf(k) # 0 /\ Taken(BlockOf(k))
                /\ \E e \in HeadsOf(BlockOf(k), k) : seq[e] = "els"
Meaning == /\ emitted = {k \in DOMAIN seq : seq[k] = "b" /\ Taken(k)}
           /\ bad = {k \in DOMAIN seq : Faulty(k)}
           /\ n = LevelAt(Len(seq))
\* at most one branch of a block is taken
OneBranch == \A i \in DOMAIN seq : seq[i] \in If =>
  \A k, l \in emitted : (k > i /\ l > k /\ BlockOf(k) = i /\ BlockOf(l) = i)
     => ~\E h \in (k + 1)..(l - 1) : seq[h] \in Heads \ If /\ BlockOf(h) = i /\ h \notin bad
Show == Len(seq) <= PrintLen /\ Len(seq) > 0
         => PrintT(<<"@SEQ", Len(seq), ToJson([s |-> seq, e |-> emitted, b |-> bad, o |-> n])>>)
=============================================================================
