------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* P27.  A rule is a finite sequence of points and one of weights.  Reading  *)
(* element i is a total operation: the value, or a rejection when there is   *)
(* no element i.  A sub-range rule over [b, e) is the subsequence b..e-1.    *)
(*                                                                         *)
(* The behaviours read every rule of the log: the whole, each element, then  *)
(* each sub-range; what the code returned must be what the model returns.    *)
(* Values are numbered by bit pattern, so equality is bit-exact.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)
Rejected == -1

VARIABLES rule, at
vars == <<rule, at>>
R == Log[rule]
N == Len(R.p)
Elem(s, i) == IF i < Len(s) THEN s[i + 1] ELSE Rejected
Steps(r) == Len(r.p) + Len(r.subs)

Init == rule \in 1..Len(Log) /\ at = 0
Next == at < Steps(R) /\ at' = at + 1 /\ UNCHANGED rule
Spec == Init /\ [][Next]_vars

Whole == "pe" \in DOMAIN R
Lengths == R.npts = N /\ Len(R.w) = N /\ (Whole => R.npts2 = N)
Views == Whole /\ at = 0 =>
   /\ R.pm = R.p /\ R.wm = R.w /\ R.pd = R.p /\ R.wd = R.w /\ R.pdm = R.p /\ R.wdm = R.w
   /\ Len(R.pe) = N /\ Len(R.we) = N
   /\ \A k \in 1..Len(R.beyond) : R.beyond[k] = <<Rejected, Rejected>>
Elements == Whole /\ at >= 1 /\ at <= N =>
   /\ R.pe[at] = Elem(R.p, at - 1) /\ R.we[at] = Elem(R.w, at - 1)
   /\ R.pem[at] = Elem(R.p, at - 1) /\ R.wem[at] = Elem(R.w, at - 1)
SubRange == at > N =>
   LET s == R.subs[at - N]  b == s[1]  e == s[2]
   IN s[3] = e - b /\ s[4] = SubSeq(R.p, b + 1, e) /\ s[5] = SubSeq(R.w, b + 1, e)
Alias == [rule |-> R.name, at |-> at, n |-> N, sub |-> IF at > N THEN R.subs[at - N] ELSE <<>>]
=============================================================================
