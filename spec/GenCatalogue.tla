---------------------------- MODULE GenCatalogue ----------------------------
(* Writes the catalogue as JSON for the drivers.                           *)
EXTENDS Catalogue, Json, IOUtils
ASSUME JsonSerialize(IOEnv.VF_OUT,
         [i \in 1..4 |-> [fam |-> Families[i], table |-> Table(Families[i])]])
VARIABLE gz
Init == gz = 0
Next == UNCHANGED gz
=============================================================================
