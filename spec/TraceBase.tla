------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Skeleton of every trace-validation module.                              *)
(*                                                                         *)
(* A trace is a sequence of events recorded from the real code.  Each      *)
(* trace is one behaviour: its state `st` is the abstract state of the     *)
(* specification, and each event must be explained by a specification      *)
(* action.  A module supplies                                              *)
(*    StInit(t)     abstract state before the first event of trace t       *)
(*    Verdict(s,e)  "" if event e is allowed in state s, else the name of  *)
(*                  the violated clause                                    *)
(*    After(s,e)    abstract state after e                                 *)
(* and defines TInit == TraceInit(StInit), TNext == TraceNext(Verdict,     *)
(* After).  Every trace ends with exactly one printed verdict, OK or BAD.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACE)

VARIABLES tid, k, st, bad
vars == <<tid, k, st, bad>>

TraceInit(StInit(_)) ==
    /\ tid \in 1..Len(Traces)
    /\ k = 0
    /\ st = StInit(Traces[tid])
    /\ bad = ""

TraceNext(Verdict(_,_), After(_,_)) ==
    /\ bad = ""
    /\ k < Len(Traces[tid])
    /\ LET e == Traces[tid][k+1]
           v == Verdict(st, e)
       IN /\ k' = k + 1
          /\ bad' = v
          /\ st' = IF v = "" THEN After(st, e) ELSE st
          /\ IF v # "" THEN PrintT(<<"BAD", tid, k + 1, v>>)
             ELSE IF k + 1 = Len(Traces[tid]) THEN PrintT(<<"OK", tid>>)
             ELSE TRUE
    /\ UNCHANGED tid

=============================================================================
