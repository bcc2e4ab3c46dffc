------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks recorded executions of the library against the specification.   *)
(* Each line of the trace file is one execution: a sequence of calls with  *)
(* everything the library answered.  The specification alone determines    *)
(* the successor state; the answers must agree with what it says.          *)
(***************************************************************************)
EXTENDS GDXDump, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, pos, S, st      \* st: "run", "done", "bad"
vars == <<tid, pos, S, st>>
View == <<tid, pos, st>>

Init == /\ tid \in 1..Len(Traces) /\ pos = 0 /\ S = InitState /\ st = "run"

Events == Traces[tid].ev

RECURSIVE MatchRec(_, _)
MatchRec(e, r) ==
   /\ DOMAIN e \subseteq DOMAIN r
   /\ \A f \in DOMAIN e : e[f] = r[f]
MatchBatch(e, r) ==
   /\ Len(e) = Len(r)
   /\ \A i \in 1..Len(e) : MatchRec(e[i], r[i])
Match(ev, q) == 
   IF ev.o \in {"Rep", "Loop"} THEN MatchBatch(q.r.l, ev.r.l) ELSE MatchRec(q.r, ev.r)
FirstBad(e, r) == IF \E i \in 1..Min2(Len(e), Len(r)) : ~MatchRec(e[i], r[i])
                  THEN LET i == CHOOSE i \in 1..Len(e) : ~MatchRec(e[i], r[i]) /\ \A j \in 1..(i - 1) : MatchRec(e[j], r[j])
                       IN <<i, e[i], r[i]>>
                  ELSE <<"length", Len(e), Len(r)>>
Why(ev, q) ==
   IF ev.o \in {"Rep", "Loop"} /\ ~Match(ev, q) THEN FirstBad(q.r.l, ev.r.l)
   ELSE IF ~Match(ev, q) THEN <<[f \in {g \in DOMAIN q.r : g \notin DOMAIN ev.r \/ ev.r[g] # q.r[g]} |-> q.r[f]]>>
   ELSE <<"error count", q.s.objs[ev.x].et>>
CountOk(ev, q) == ("ec" \in DOMAIN ev /\ ev.x \in DOMAIN q.s.objs /\ q.s.objs[ev.x].et >= 0) => ev.ec = q.s.objs[ev.x].et

Next ==
   /\ st = "run"
   /\ tid' = tid
   /\ IF pos = Len(Events)
      THEN st' = "done" /\ pos' = pos /\ S' = S /\ PrintT(<<"DONE", tid>>)
      ELSE LET ev == Events[pos + 1] IN
           IF ev.o = "CRASH"
           THEN st' = "bad" /\ pos' = pos + 1 /\ S' = S /\ PrintT(<<"MISMATCH", tid, pos + 1, "CRASH", ev.a>>)
           ELSE LET io == IF "io" \in DOMAIN ev THEN ev.io ELSE [hard |-> 0, soft |-> 0]
                    q == IF "io" \in DOMAIN ev \/ (ev.x # 0 /\ (S.lim \/ ev.x \in DOMAIN S.io))
                         THEN ApplyIo(S, ev.x, ev.o, ev.a, io, IF "rc" \in DOMAIN ev.r THEN ev.r.rc ELSE 0)
                         ELSE ApplyX(S, ev.x, ev.o, ev.a) IN
                IF Match(ev, q) /\ CountOk(ev, q)
                THEN st' = "run" /\ pos' = pos + 1 /\ S' = q.s
                ELSE st' = "bad" /\ pos' = pos + 1 /\ S' = S /\ PrintT(<<"MISMATCH", tid, pos + 1, ev.o, Why(ev, q)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
