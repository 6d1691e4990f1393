------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* P17.  Radial parameter objects as values <<scheme, size, scale, exponent>>. *)
(* Compare is equality of values; Clone yields an equal, independent value;    *)
(* Build(s) yields a grid exactly for the object's own scheme; Make(s, args)   *)
(* constructs an object exactly when the scheme takes those arguments.        *)
(* A behaviour takes one recorded object through all comparisons.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Log == JsonDeserialize(IOEnv.VF_LOG)
Objs == Log.objs
Value(o) == <<o.s, o.sn, o.R, o.al>>     \* sn: the size in full, as text

VARIABLES i, j
vars == <<i, j>>
O == Objs[i]
Init == i \in 1..Len(Objs) /\ j = 0
Next == j < Len(Objs) /\ j' = j + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_vars

Size == O.snpts = O.sn
Clone == O.clone
Equality == j > 0 => O.eq[j] = IF Value(O) = Value(Objs[j]) THEN 3 ELSE 0
Build == j = 0 => (O.n <= 1000 => O.build # <<>>) /\ \A k \in 1..Len(O.build) :
   LET b == O.build[k] IN
   IF b[1] = O.s THEN (IF b[2] = "robust" THEN b[3] > 0 ELSE b[3] = O.n) ELSE b[3] = -1
Takes(s, args) == CASE s \in {"becke", "mk", "mhl"} -> args \in {"n", "i", "nR", "iR"}
                    [] s = "ta" -> args \in {"n", "i", "nR", "iR", "nRa"}
                    [] OTHER -> FALSE
Make == i = 1 /\ j = 0 => \A k \in 1..Len(Log.make) :
   LET m == Log.make[k] IN m[3] = IF Takes(m[1], m[2]) THEN 7 ELSE -1
Alias == [object |-> Value(O), how |-> O.how, npts |-> O.npts, clone |-> O.clone, other |-> IF j > 0 THEN Value(Objs[j]) ELSE <<>>, eq |-> IF j > 0 THEN O.eq[j] ELSE -1, build |-> O.build,
          make |-> IF i = 1 THEN {k \in 1..Len(Log.make) : Log.make[k][3] # IF Takes(Log.make[k][1], Log.make[k][2]) THEN 7 ELSE -1} ELSE {}]
=============================================================================
