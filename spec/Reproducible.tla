---------------------------- MODULE Reproducible ----------------------------
(***************************************************************************)
(* P25.  The library as an oracle: a request is answered with a grid (or an   *)
(* error), and the answer is a function of the request alone.  Neither the     *)
(* build form, nor what was asked before, nor how often, has any influence.    *)
(*                                                                           *)
(* The events are those of several program runs (different build forms and    *)
(* request orders) one after the other.  The first answer to a request is       *)
(* remembered; every later answer to the same request must be the same.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Runs == JsonDeserialize(IOEnv.VF_LOG)     \* sequence of runs, each a sequence of <<request, answer>>
NReq == atoi(IOEnv.VF_NREQ)
VARIABLES run, at, memo
vars == <<run, at, memo>>
Init == run = 1 /\ at = 0 /\ memo = [q \in 1..NReq |-> <<>>]
Ev == Runs[run][at]
Ask == /\ at < Len(Runs[run]) /\ at' = at + 1 /\ UNCHANGED run
       /\ LET e == Runs[run][at + 1]
          IN memo' = IF memo[e[1]] = <<>> THEN [memo EXCEPT ![e[1]] = e[2]] ELSE memo
NextRun == at = Len(Runs[run]) /\ run < Len(Runs) /\ run' = run + 1 /\ at' = 0 /\ UNCHANGED memo
Next == Ask \/ NextRun
Spec == Init /\ [][Next]_vars
Same == at > 0 => memo[Ev[1]] = Ev[2]
View == <<run, at>>
Alias == [run |-> run, at |-> at, event |-> IF at > 0 THEN Ev ELSE <<>>, first |-> IF at > 0 THEN memo[Ev[1]] ELSE <<>>]
=============================================================================
