----------------------------- MODULE Concurrent -----------------------------
(***************************************************************************)
(* P30.  The library under several threads.  A thread begins a request, other *)
(* threads begin and end theirs, and when the request ends its answer is the   *)
(* one the request has on its own: nothing the other threads do meanwhile, on   *)
(* their own objects or reading the same constant ones, has any influence.      *)
(* (That no access of one thread races with another's is observed by the       *)
(* thread sanitizer while the history is recorded; a race ends the recording.)  *)
(*                                                                           *)
(* A recorded history is a sequence of waves; the events of a wave are in the   *)
(* order of their tickets.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Waves == JsonDeserialize(IOEnv.VF_LOG)     \* each a sequence of <<"begin"|"end", thread, kind, variant, answer>>
AloneLog == JsonDeserialize(IOEnv.VF_ALONE)   \* <<kind, variant, answer>>, kinds from 0
Alone == [k \in 0..(Len(AloneLog) \div 2 - 1) |-> [v \in 0..1 |-> AloneLog[2 * k + v + 1][3]]]
Threads == 1..4
Idle == <<>>
VARIABLES wave, at, running      \* running[t]: the request thread t is working on
vars == <<wave, at, running>>
Init == wave \in 1..Len(Waves) /\ at = 0 /\ running = [t \in Threads |-> Idle]
Ev == Waves[wave][at + 1]
Begin == /\ at < Len(Waves[wave]) /\ Ev[1] = "begin" /\ running[Ev[2]] = Idle
         /\ running' = [running EXCEPT ![Ev[2]] = <<Ev[3], Ev[4]>>] /\ at' = at + 1 /\ UNCHANGED wave
End == /\ at < Len(Waves[wave]) /\ Ev[1] = "end" /\ running[Ev[2]] = <<Ev[3], Ev[4]>>
       /\ Ev[5] = Alone[Ev[3]][Ev[4]]
       /\ running' = [running EXCEPT ![Ev[2]] = Idle] /\ at' = at + 1 /\ UNCHANGED wave
Next == Begin \/ End
Spec == Init /\ [][Next]_vars
\* no recorded history gets stuck: each is one of the machine's behaviours
Accepted == at < Len(Waves[wave]) => ENABLED Next
Overlaps == Cardinality({w \in 1..Len(Waves) : \E i \in 1..Len(Waves[w]) - 1 : Waves[w][i][1] = "begin" /\ Waves[w][i + 1][1] = "begin"})
ASSUME PrintT(<<"COUNT", "overlapping_waves", Overlaps>>)
ASSUME \A k \in DOMAIN Alone : \A v \in 0..1 : AloneLog[2 * k + v + 1][1] = k /\ AloneLog[2 * k + v + 1][2] = v
Alias == [wave |-> wave, at |-> at, running |-> running, event |-> IF at < Len(Waves[wave]) THEN Ev ELSE <<>>,
          alone |-> IF at < Len(Waves[wave]) THEN Alone[Ev[3]][Ev[4]] ELSE ""]
=============================================================================
