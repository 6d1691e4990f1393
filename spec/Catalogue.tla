----------------------------- MODULE Catalogue -----------------------------
(***************************************************************************)
(* The published catalogue of angular quadratures: for each family the     *)
(* strictly increasing sequence of <<algebraic order, number of points>>.   *)
(*                                                                         *)
(* Sources: Lebedev & Laikov (1999) [the 31 rules of the original program, *)
(* without order 125], Delley (1996), Ahrens & Beylkin (2009), Womersley's  *)
(* spherical designs (orders 1..125).  The table is not taken on trust:     *)
(* AngularExact checks that each grid really has the order listed here.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Families == <<"AhrensBeylkin", "Delley", "LebedevLaikov", "Womersley">>
FamilySet == {Families[i] : i \in 1..4}

AhrensBeylkinTable ==
  <<<<14, 72>>, <<19, 132>>, <<23, 192>>, <<29, 312>>, <<32, 372>>, <<35, 432>>, <<37,
  492>>, <<39, 552>>, <<41, 612>>, <<44, 672>>, <<45, 732>>, <<47, 792>>, <<51, 912>>,
  <<53, 972>>, <<54, 1032>>, <<56, 1092>>, <<60, 1272>>, <<62, 1332>>, <<63, 1392>>,
  <<66, 1512>>, <<67, 1572>>, <<69, 1632>>, <<70, 1692>>, <<72, 1812>>, <<75, 1932>>,
  <<76, 1992>>, <<78, 2112>>, <<79, 2172>>, <<80, 2232>>, <<81, 2292>>, <<84, 2412>>,
  <<85, 2472>>, <<89, 2712>>, <<90, 2772>>, <<91, 2832>>, <<94, 3012>>, <<98, 3312>>,
  <<99, 3372>>, <<100, 3432>>, <<101, 3492>>, <<103, 3612>>, <<105, 3792>>, <<111,
  4212>>, <<113, 4332>>, <<116, 4572>>, <<117, 4692>>, <<121, 4992>>, <<124, 5232>>,
  <<127, 5472>>, <<128, 5592>>, <<130, 5772>>, <<135, 6192>>, <<136, 6312>>, <<143,
  6912>>, <<149, 7512>>, <<210, 15012>>>>

DelleyTable ==
  <<<<5, 14>>, <<7, 26>>, <<11, 50>>, <<17, 110>>, <<23, 194>>, <<29, 302>>, <<35,
  434>>, <<41, 590>>, <<47, 770>>, <<53, 974>>, <<59, 1202>>, <<65, 1454>>, <<71,
  1730>>, <<77, 2030>>, <<83, 2354>>, <<89, 2702>>, <<95, 3074>>, <<101, 3470>>>>

LebedevLaikovTable ==
  <<<<3, 6>>, <<5, 14>>, <<7, 26>>, <<9, 38>>, <<11, 50>>, <<13, 74>>, <<15, 86>>,
  <<17, 110>>, <<19, 146>>, <<21, 170>>, <<23, 194>>, <<25, 230>>, <<27, 266>>, <<29,
  302>>, <<31, 350>>, <<35, 434>>, <<41, 590>>, <<47, 770>>, <<53, 974>>, <<59,
  1202>>, <<65, 1454>>, <<71, 1730>>, <<77, 2030>>, <<83, 2354>>, <<89, 2702>>, <<95,
  3074>>, <<101, 3470>>, <<107, 3890>>, <<113, 4334>>, <<119, 4802>>, <<131, 5810>>>>

WomersleyTable ==
  <<<<1, 3>>, <<2, 6>>, <<3, 8>>, <<4, 14>>, <<5, 18>>, <<6, 26>>, <<7, 32>>, <<8,
  42>>, <<9, 50>>, <<10, 62>>, <<11, 72>>, <<12, 86>>, <<13, 98>>, <<14, 114>>, <<15,
  128>>, <<16, 146>>, <<17, 163>>, <<18, 182>>, <<19, 201>>, <<20, 222>>, <<21, 243>>,
  <<22, 266>>, <<23, 289>>, <<24, 314>>, <<25, 339>>, <<26, 366>>, <<27, 393>>, <<28,
  422>>, <<29, 451>>, <<30, 482>>, <<31, 513>>, <<32, 546>>, <<33, 579>>, <<34, 614>>,
  <<35, 649>>, <<36, 686>>, <<37, 723>>, <<38, 762>>, <<39, 801>>, <<40, 842>>, <<41,
  883>>, <<42, 926>>, <<43, 969>>, <<44, 1014>>, <<45, 1059>>, <<46, 1106>>, <<47,
  1153>>, <<48, 1202>>, <<49, 1251>>, <<50, 1302>>, <<51, 1353>>, <<52, 1406>>, <<53,
  1459>>, <<54, 1514>>, <<55, 1569>>, <<56, 1626>>, <<57, 1683>>, <<58, 1742>>, <<59,
  1801>>, <<60, 1862>>, <<61, 1923>>, <<62, 1986>>, <<63, 2049>>, <<64, 2114>>, <<65,
  2179>>, <<66, 2246>>, <<67, 2313>>, <<68, 2382>>, <<69, 2451>>, <<70, 2522>>, <<71,
  2593>>, <<72, 2666>>, <<73, 2739>>, <<74, 2814>>, <<75, 2889>>, <<76, 2966>>, <<77,
  3043>>, <<78, 3122>>, <<79, 3201>>, <<80, 3282>>, <<81, 3363>>, <<82, 3446>>, <<83,
  3529>>, <<84, 3614>>, <<85, 3699>>, <<86, 3786>>, <<87, 3873>>, <<88, 3962>>, <<89,
  4051>>, <<90, 4142>>, <<91, 4233>>, <<92, 4326>>, <<93, 4419>>, <<94, 4514>>, <<95,
  4609>>, <<96, 4706>>, <<97, 4803>>, <<98, 4902>>, <<99, 5001>>, <<100, 5102>>,
  <<101, 5203>>, <<102, 5306>>, <<103, 5409>>, <<104, 5514>>, <<105, 5619>>, <<106,
  5726>>, <<107, 5833>>, <<108, 5942>>, <<109, 6051>>, <<110, 6162>>, <<111, 6273>>,
  <<112, 6386>>, <<113, 6499>>, <<114, 6614>>, <<115, 6729>>, <<116, 6846>>, <<117,
  6963>>, <<118, 7082>>, <<119, 7201>>, <<120, 7322>>, <<121, 7443>>, <<122, 7566>>,
  <<123, 7689>>, <<124, 7814>>, <<125, 7939>>>>

Table(f) == CASE f = "AhrensBeylkin" -> AhrensBeylkinTable
              [] f = "Delley"        -> DelleyTable
              [] f = "LebedevLaikov" -> LebedevLaikovTable
              [] f = "Womersley"     -> WomersleyTable

Entries(f) == {Table(f)[i] : i \in 1..Len(Table(f))}
Orders(f) == {t[1] : t \in Entries(f)}
Sizes(f)  == {t[2] : t \in Entries(f)}
MaxOrder(f) == Table(f)[Len(Table(f))][1]

\* the three look-ups a user has, as functions of the catalogue
SizeFn  == [f \in FamilySet |-> [o \in Orders(f) |-> (CHOOSE t \in Entries(f) : t[1] = o)[2]]]
OrderFn == [f \in FamilySet |-> [n \in Sizes(f) |-> (CHOOSE t \in Entries(f) : t[2] = n)[1]]]
SizeOf(f, order) == IF order \in DOMAIN SizeFn[f] THEN SizeFn[f][order] ELSE -1
OrderOf(f, n)    == IF n \in DOMAIN OrderFn[f] THEN OrderFn[f][n] ELSE -1
NextOrder(f, order) ==
  LET above == {o \in DOMAIN SizeFn[f] : o >= order}
  IN IF above = {} THEN MaxOrder(f) ELSE CHOOSE o \in above : \A p \in above : o <= p
IsSize(f, n) == n \in DOMAIN OrderFn[f]

\* the catalogue is a strictly increasing bijection
ASSUME \A f \in FamilySet : \A i, j \in 1..Len(Table(f)) :
         i < j => /\ Table(f)[i][1] < Table(f)[j][1]
                  /\ Table(f)[i][2] < Table(f)[j][2]
=============================================================================
