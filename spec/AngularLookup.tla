---------------------------- MODULE AngularLookup ----------------------------
(***************************************************************************)
(* P03 and P04.  The look-ups and the size check of each angular family as  *)
(* functions of the catalogue, compared with the recorded answers for every *)
(* argument of a range that includes negative, huge and non-catalogue        *)
(* values.                                                                  *)
(*                                                                         *)
(* The state is a query <<family, kind, argument>>; a behaviour asks one     *)
(* family one kind of question with ascending arguments.  The answer the     *)
(* catalogue prescribes and the one recorded must agree in every state.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Catalogue

Log == JsonDeserialize(IOEnv.VF_LOG)   \* one record per family, catalogue order
Fam(i) == Log[i].fam
LogOf(f) == Log[CHOOSE i \in 1..Len(Log) : Log[i].fam = f]

ASSUME Recorded == /\ Len(Log) = 4
                   /\ {Fam(i) : i \in 1..4} = FamilySet

\* sequences of pairs as functions
Pairs(s) == [k \in {s[i][1] : i \in 1..Len(s)} |-> (s[CHOOSE i \in 1..Len(s) : s[i][1] = k])[2]]
Npts  == [f \in FamilySet |-> Pairs(LogOf(f).npts)]
Order == [f \in FamilySet |-> Pairs(LogOf(f).order)]
NextL == [f \in FamilySet |-> LogOf(f).next]
Accepted == [f \in FamilySet |-> {LogOf(f).accepted[i][1] : i \in 1..Len(LogOf(f).accepted)}]
AcceptedSeq == [f \in FamilySet |-> LogOf(f).accepted]
At(fn, k) == IF k \in DOMAIN fn THEN fn[k] ELSE -1

NptsLo == -600   NptsHi == 3000     \* the argument ranges of the recording
OrderLo == -600  OrderHi == 40000
MaxN == 16500

VARIABLES fam, kind, arg
vars == <<fam, kind, arg>>

Lo(k) == CASE k = "size" -> NptsLo [] k = "order" -> OrderLo [] k = "next" -> NptsLo
           [] k = "construct" -> 0 [] k = "extreme" -> 1
Hi(k) == CASE k = "size" -> NptsHi [] k = "order" -> OrderHi [] k = "next" -> NptsHi
           [] k = "construct" -> MaxN [] k = "extreme" -> Len(LogOf(fam).extreme)

Init == /\ fam \in FamilySet
        /\ kind \in {"size", "order", "next", "construct", "extreme"}
        /\ arg = Lo(kind)
Next == /\ arg < Hi(kind)
        /\ arg' = arg + 1
        /\ UNCHANGED <<fam, kind>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* npts_by_algebraic_order and algebraic_order_by_npts
SizeAnswers  == kind = "size"  => At(Npts[fam], arg)  = SizeOf(fam, arg)
OrderAnswers == kind = "order" => At(Order[fam], arg) = OrderOf(fam, arg)

\* mutual inversion, stated on the recorded answers alone
Inverse ==
  /\ kind = "size" /\ At(Npts[fam], arg) # -1  => At(Order[fam], At(Npts[fam], arg)) = arg
  /\ kind = "order" /\ At(Order[fam], arg) # -1 => At(Npts[fam], At(Order[fam], arg)) = arg

\* next_algebraic_order: smallest catalogued order not below the request
NextAnswers ==
  kind = "next" =>
    LET a == NextL[fam][arg - NptsLo + 1]
    IN /\ a = NextOrder(fam, arg)
       /\ At(Npts[fam], a) \in Accepted[fam]       \* and it is constructible

\* a size constructs iff it is catalogued
Constructs == kind = "construct" => (arg \in Accepted[fam] <=> IsSize(fam, arg))
\* and then has that many points and weights
Complete ==
  kind = "construct" /\ arg >= 1 /\ arg <= Len(AcceptedSeq[fam]) =>
    LET e == AcceptedSeq[fam][arg] IN e[2] = e[1] /\ e[3] = e[1]
Counted == kind = "construct" /\ arg = 0 =>
  /\ LogOf(fam).maxn = MaxN
  /\ Cardinality(Accepted[fam]) + LogOf(fam).rejected = MaxN + 1
  /\ \A n \in LogOf(fam).huge : n[2] = 0          \* sizes beyond the range: all rejected

\* arguments that only differ from catalogued ones beyond 32 bits
Extremes ==
  /\ Len(LogOf(fam).extreme) > 300
  /\ kind = "extreme" =>
    LET e == LogOf(fam).extreme[arg]
    IN /\ e[2] = -1 /\ e[3] = -1
       /\ e[4] = IF e[1] < 0 THEN Table(fam)[1][1] ELSE MaxOrder(fam)
=============================================================================
