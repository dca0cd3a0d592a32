------------------------------- MODULE Session -------------------------------
(* One run of the assembler over several modules. The command line is a       *)
(* sequence of options and files; an option applies to the files behind it.   *)
(* The state is what the options have set so far; a file's result is a        *)
(* function of that state and of the file alone (the table is recorded from   *)
(* runs of one file). Option kinds: "set" replaces (last one wins), "flag" is *)
(* sticky, "acc" accumulates in order, "once" names a file of the next module *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES i, pc, set, acc, once, last, log
vars == <<i, pc, set, acc, once, last, log>>
None == [x \in {} |-> ""]
Init == /\ i \in 1..Len(Cases) /\ pc = 1 /\ set = None /\ acc = <<>> /\ once = None /\ last = None /\ log = <<>>
Items == Cases[i].items
It == Items[pc]
Put(f, k, v) == (k :> v) @@ f
\* the state as a value: options sorted by kind, then the accumulated ones
Key == [set |-> set, acc |-> acc, once |-> once]
Step ==
  \/ It.k = "set" /\ set' = Put(set, It.kind, It.text) /\ UNCHANGED <<acc, once, last, log>>
  \/ It.k = "acc" /\ acc' = Append(acc, It.text) /\ UNCHANGED <<set, once, last, log>>
  \/ It.k = "once" /\ once' = Put(once, It.kind, It.text) /\ UNCHANGED <<set, acc, last, log>>
  \/ /\ It.k = "file"
     /\ log' = Append(log, [f |-> It.text, key |-> Key, at |-> pc])
     /\ last' = Put(last, It.text, Len(log) + 1)       \* a later result of the same file replaces the earlier one
     /\ once' = None /\ UNCHANGED <<set, acc>>
Next == pc <= Len(Items) /\ Step /\ pc' = pc + 1 /\ i' = i
\* the result of a file depends on no earlier file, only on the options before it
Prefix == \A n \in 1..Len(log) :
  LET opts == SelectSeq(SubSeq(Items, 1, log[n].at - 1), LAMBDA x : x.k = "set" \/ x.k = "acc") IN
  /\ DOMAIN log[n].key.set = {opts[j].kind : j \in {j \in 1..Len(opts) : opts[j].k = "set"}}
  /\ log[n].key.acc = [j \in 1..Len(SelectSeq(opts, LAMBDA x : x.k = "acc")) |-> SelectSeq(opts, LAMBDA x : x.k = "acc")[j].text]
Report == pc > Len(Items) => PrintT(<<"@R", i, ToJson([log |-> log, last |-> last])>>)
Inv == Report /\ Prefix
=============================================================================
