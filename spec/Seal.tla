-------------------------------- MODULE Seal --------------------------------
(* Key sets whose keys are stored as ciphertexts of a crypter, where the     *)
(* crypter is itself a key set that gets rotated (C08).                      *)
(* The seal of a version is the identity of the crypter key that encrypts    *)
(* its file, "" if it is stored in the clear.  c is the snapshot of the      *)
(* crypter a command or a reader uses, NoSet for none.                       *)
EXTENDS KeySet

ReadableC(d, c) ==
  /\ d.meta
  /\ d.enc => c.meta
  /\ \A v \in Versions(d) : IF c.meta THEN d.vers[v].seal \in Keys(c) ELSE d.vers[v].seal = ""
  /\ Cardinality(Primaries(d)) <= 1
SealOf(c) == IF c.meta /\ HasPrimary(c) THEN c.vers[PrimaryOf(c)].key ELSE ""
Bare(d) == [d EXCEPT !.enc = FALSE, !.vers = [v \in Versions(d) |-> [d.vers[v] EXCEPT !.seal = ""]]]
CAfter(d, cmd, c, key) ==
  LET n == After(d, [cmd EXCEPT !.via = SealOf(c)], key) IN [n EXCEPT !.enc = c.meta]
CLegal(d, cmd, c, key) ==
  /\ ReadableC(d, c)
  /\ Legal(Bare(d), [cmd EXCEPT !.via = ""])
  /\ (c.meta /\ Versions(CAfter(d, cmd, c, key)) # {}) => HasPrimary(c)
=============================================================================
