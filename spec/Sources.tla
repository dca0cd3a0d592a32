------------------------------ MODULE Sources ------------------------------
(* Reading a source: files that include files, macros and loops, as a stack of *)
(* frames. What each statement emits, and the position that a message about it *)
(* names: the innermost file with its line, and the chain of frames below.     *)
(*   files   <<[dir (components), base, b (body)]>>                            *)
(*   macros  <<[name, file (base name of the file that defines it), b]>>       *)
(*   bodies  <<sequence of statements>>; a statement: k and n, the number of   *)
(*           physical lines it takes; by k:                                    *)
(*     "skip"  nothing      "emit" bytes b      "line" @Line as a word          *)
(*     "name"  @FileCur as text                                               *)
(*     "ins" an instruction, bytes b: debug records map them to its position    *)
(*     "bad"   id: a message of pass one   "late" id: one of a later pass      *)
(*     "incl"  txt (directories as written), dir (components), base           *)
(*     "bin"   txt, dir, base, off, size (-1: none)                            *)
(*     "mac"   t a macro    "loop" b a body, cnt (the line is that of ENDM)     *)
(*     "exit"  EXITM: leaves the macro or loop                                 *)
(*   bins    <<[dir, base, b]>>, dirs <<[txt, dir]>> the include path in order *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
\* ---- file names
Step(d, x) == IF x = "." THEN d ELSE IF x = ".." /\ Len(d) > 0 /\ d[Len(d)] # ".." THEN SubSeq(d, 1, Len(d) - 1) ELSE Append(d, x)
Normal(d) == FoldLeft(Step, <<>>, d)
Places(c, cur, s) ==   \* where s is looked for, in order: [txt, dir]
    (IF cur.txt = "" THEN <<>> ELSE <<[txt |-> cur.txt \o s.txt, dir |-> cur.dir \o s.dir]>>)
    \o <<[txt |-> s.txt, dir |-> s.dir]>>
    \o [k \in 1..Len(c.dirs) |-> [txt |-> c.dirs[k].txt \o s.txt, dir |-> c.dirs[k].dir \o s.dir]]
At(F, p, base) == {f \in 1..Len(F) : F[f].base = base /\ F[f].dir = Normal(p.dir)}
\* [f (0: not found), txt, dir]
Find(c, F, cur, s) ==
    LET P == Places(c, cur, s)
        hit == {k \in 1..Len(P) : At(F, P[k], s.base) # {}}
    IN IF hit = {} THEN [f |-> 0, txt |-> "", dir |-> <<>>]
       ELSE LET k == CHOOSE k \in hit : \A j \in hit : k <= j IN [f |-> CHOOSE f \in At(F, P[k], s.base) : TRUE, txt |-> P[k].txt, dir |-> P[k].dir]
\* ---- frames: innermost last. [k "file" "mac" "loop", b body, pc, line, it, cnt, name, txt, dir]
FileFrame(c, r) == [k |-> "file", b |-> c.files[r.f].b, pc |-> 1, line |-> 0, it |-> 0, cnt |-> 1, name |-> r.txt \o c.files[r.f].base, txt |-> r.txt, dir |-> r.dir]
MacFrame(c, t) == [k |-> "mac", b |-> c.macros[t].b, pc |-> 1, line |-> 0, it |-> 0, cnt |-> 1, name |-> c.macros[t].name, txt |-> c.macros[t].file, dir |-> <<>>]
LoopFrame(s) == [k |-> "loop", b |-> s.b, pc |-> 1, line |-> 0, it |-> 1, cnt |-> s.cnt, name |-> "MacroLoop", txt |-> "", dir |-> <<>>]
Here(st) == LET F == {k \in 1..Len(st) : st[k].k = "file"} IN st[CHOOSE k \in F : \A j \in F : j <= k]
Pos(fr) == fr.name \o "(" \o ToString(fr.line) \o ")"
Note(fr, main) == CASE main -> Pos(fr) \o ": Main line code"
                    [] fr.k = "file" -> Pos(fr) \o ": Included by"
                    [] fr.k = "mac" -> Pos(fr) \o "[" \o fr.txt \o "]: Macro called from"
                    [] OTHER -> Pos(fr) \o ": iteration " \o ToString(fr.it) \o ": Macro called from"
Chain(st) == IF Len(st) = 1 THEN <<>> ELSE [k \in 1..Len(st) |-> Note(st[Len(st) + 1 - k], k = Len(st))]
SetTop(st, fr) == [st EXCEPT ![Len(st)] = fr]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
Finished(st) == Len(st) = 0
\* the bytes of a range
Piece(b, off, size) == IF off >= Len(b) THEN <<>> ELSE SubSeq(b, off + 1, IF size < 0 \/ size > Len(b) - off THEN Len(b) ELSE off + size)
\* a step: [st, out, diag] -> the same
Statement(c, m) ==
    LET fr0 == m.st[Len(m.st)]
        s == c.bodies[fr0.b][fr0.pc]
        fr == [fr0 EXCEPT !.pc = @ + 1, !.line = @ + s.n]
        st == SetTop(m.st, fr)
        cur == Here(st)
    IN CASE s.k = "emit" -> [m EXCEPT !.st = st, !.out = @ \o s.b]
         [] s.k = "line" -> [m EXCEPT !.st = st, !.out = @ \o <<cur.line % 256, cur.line \div 256>>]
         [] s.k = "name" -> [m EXCEPT !.st = st, !.out = Append(@, cur.name)]
         [] s.k = "bad" -> [m EXCEPT !.st = st, !.diag = Append(@, [id |-> s.id, pos |-> Pos(cur), chain |-> Chain(st)])]
         [] s.k = "late" -> [m EXCEPT !.st = st, !.diag = Append(@, [id |-> s.id, pos |-> Pos(cur), chain |-> <<>>])]
         [] s.k = "ins" -> [m EXCEPT !.st = st, !.out = @ \o s.b, !.diag = @ \o [j \in 1..Len(s.b) |-> [id |-> "", pos |-> Pos(cur), chain |-> <<>>]]]
         [] s.k = "incl" -> LET r == Find(c, c.files, cur, s) IN [m EXCEPT !.st = IF r.f = 0 THEN st ELSE Append(st, FileFrame(c, r))]
         [] s.k = "bin" -> LET r == Find(c, c.bins, cur, s) IN [m EXCEPT !.st = st, !.out = @ \o (IF r.f = 0 THEN <<>> ELSE Piece(c.bins[r.f].b, s.off, s.size))]
         [] s.k = "mac" -> [m EXCEPT !.st = Append(st, MacFrame(c, s.t))]
         [] s.k = "loop" -> [m EXCEPT !.st = IF s.cnt = 0 THEN st ELSE Append(st, LoopFrame(s))]
         [] s.k = "exit" -> [m EXCEPT !.st = Pop(@)]
         [] OTHER -> [m EXCEPT !.st = st]
Run(c, m) ==
    LET fr == m.st[Len(m.st)] IN
    IF fr.pc <= Len(c.bodies[fr.b]) THEN Statement(c, m)
    ELSE IF fr.it < fr.cnt /\ fr.k = "loop" THEN [m EXCEPT !.st = SetTop(@, [fr EXCEPT !.pc = 1, !.line = 0, !.it = @ + 1])]
    ELSE [m EXCEPT !.st = Pop(@)]
Start(c) == [st |-> <<FileFrame(c, [f |-> 1, txt |-> "", dir |-> <<>>])>>, out |-> <<>>, diag |-> <<>>]
\* ---- what must hold while reading
LinesOf(b, n) == FoldLeft(LAMBDA a, k : a + b[k].n, 0, [k \in 1..n |-> k])
LineOk(c, m) == \A k \in 1..Len(m.st) : LET f == m.st[k] IN f.line = LinesOf(c.bodies[f.b], f.pc - 1)
BottomOk(m) == Finished(m.st) \/ m.st[1].k = "file"
=============================================================================
