-------------------------------- MODULE GDXIO --------------------------------
(***************************************************************************)
(* How a file comes into being: the order in which the parts of a file     *)
(* are handed to the buffered stream, what the stream hands to the system, *)
(* system writes that fail or are cut short, and a process that may stop   *)
(* at any moment.  A cell is one unit of the file; the index (reserved     *)
(* near the front, completed last) is a mark followed by the places of     *)
(* NT tables.                                                              *)
(*                                                                         *)
(* This is the design behind C16 and C17; the code is bound to it by the   *)
(* crash images (IoSnap) and injected failures replayed into the library   *)
(* and judged by GDX.tla (ApplyIo) and GDXFormat.tla (Decode).             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS NData,      \* cells of symbol data
          NT,         \* number of tables
          BufSize,    \* cells held back by the stream
          MarkLast,   \* TRUE: the index is reserved with an invalid mark, which is corrected after everything else (the design)
          Latched     \* TRUE: the first failure is remembered until close (the design)

VARIABLES file,       \* cells on disk: place -> content
          pos,        \* place of the stream
          buf,        \* cells not yet handed to the system
          todo,       \* what remains to be written: sequence of [at, c]; at = 0: at the current place
          latch,      \* a failure has been seen by the stream
          failed,     \* a system write was not carried out completely (ghost)
          st          \* "writing", "closed" (success reported), "error" (failure reported), "dead" (the process stopped)
vars == <<file, pos, buf, todo, latch, failed, st>>

IdxAt == 2
Idx == 1 + NT
TabAt(t) == 1 + Idx + NData + t
Hdr == <<[at |-> 0, c |-> <<"head", 0>>]>>
Reserve == [i \in 1..Idx |-> [at |-> 0, c |-> <<"zero", 0>>]]
Data == [i \in 1..NData |-> [at |-> 0, c |-> <<"data", i>>]]
Tabs == [t \in 1..NT |-> [at |-> 0, c |-> <<"tab", t>>]]
\* the places of the tables, then the mark; the other way round, a write that is cut short leaves a mark and not all places
Places == [i \in 1..NT |-> [at |-> IF i = 1 THEN IdxAt + 1 ELSE 0, c |-> <<"place", TabAt(i)>>]]
Mark(at) == <<[at |-> at, c |-> <<"mark", 0>>]>>
Final == IF MarkLast THEN Places \o Mark(IdxAt) ELSE Mark(IdxAt) \o Places
Plan == Hdr \o Reserve \o Data \o Tabs \o Final
Whole == LET RECURSIVE Go(_, _, _)
             Go(k, p, f) == IF k > Len(Plan) THEN f
                            ELSE LET q == IF Plan[k].at = 0 THEN p ELSE Plan[k].at IN Go(k + 1, q + 1, (q :> Plan[k].c) @@ f)
         IN Go(1, 1, <<>>)

Init == /\ file = <<>> /\ pos = 1 /\ buf = <<>> /\ todo = Plan
        /\ latch = FALSE /\ failed = FALSE /\ st = "writing"

\* the system takes the first n cells of the buffer; it may take fewer than offered
Flush(n) == LET f == [p \in pos..(pos + n - 1) |-> buf[p - pos + 1]] @@ file IN
   /\ file' = f
   /\ pos' = pos + Len(buf) /\ buf' = <<>>
   /\ failed' = (failed \/ n < Len(buf))
   /\ latch' = IF Latched THEN latch \/ n < Len(buf) ELSE n < Len(buf)
SysWrite == \E n \in 0..Len(buf) : Flush(n)

Put == /\ st = "writing" /\ todo # <<>>
       /\ IF todo[1].at # 0 /\ todo[1].at # pos + Len(buf) /\ buf # <<>>
          THEN SysWrite /\ UNCHANGED <<todo, st>>                            \* a seek empties the buffer first
          ELSE IF Len(buf) = BufSize THEN SysWrite /\ UNCHANGED <<todo, st>>
          ELSE /\ buf' = Append(buf, todo[1].c) /\ todo' = Tail(todo)
               /\ pos' = IF todo[1].at # 0 /\ buf = <<>> THEN todo[1].at ELSE pos
               /\ UNCHANGED <<file, latch, failed, st>>
Close == /\ st = "writing" /\ todo = <<>>
         /\ IF buf # <<>> THEN SysWrite /\ UNCHANGED <<todo, st>>
            ELSE st' = (IF latch THEN "error" ELSE "closed") /\ UNCHANGED <<file, pos, buf, todo, latch, failed>>
\* the process stops; of a write in progress any part may have been carried out
Die == /\ st = "writing" /\ st' = "dead"
       /\ \E n \in 0..Len(buf) : file' = [p \in pos..(pos + n - 1) |-> buf[p - pos + 1]] @@ file
       /\ UNCHANGED <<pos, buf, todo, latch, failed>>
Cut == /\ st = "closed" /\ st' = "dead"
       /\ \E n \in 0..Cardinality(DOMAIN file) : file' = [p \in 1..n |-> IF p \in DOMAIN file THEN file[p] ELSE <<"zero", 0>>]
       /\ UNCHANGED <<pos, buf, todo, latch, failed>>
Next == Put \/ Close \/ Die \/ Cut
Spec == Init /\ [][Next]_vars

\* what opening for reading does: header, mark, and at every place the table it names; old files do not have the last table
At(p) == IF p \in DOMAIN file THEN file[p] ELSE <<"none", 0>>
Accepts == /\ At(1) = <<"head", 0>> /\ At(IdxAt) = <<"mark", 0>>
           /\ \A t \in 1..NT : \/ (At(IdxAt + t) = <<"place", TabAt(t)>> /\ At(TabAt(t)) = <<"tab", t>>)
                               \/ (t = NT /\ At(IdxAt + t) = <<"zero", 0>>)

\* C16: what the reader accepts is the whole file - unless a write failed, which the writer would have reported
NeverMistaken == Accepts /\ ~failed => file = Whole
\* C17: success at close means the file is whole; a failure is reported
Reported == /\ st = "closed" => file = Whole /\ ~failed
            /\ st = "error" => failed
=============================================================================
