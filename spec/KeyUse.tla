------------------------------- MODULE KeyUse -------------------------------
(* Use of key sets across rotation: producing outputs (ciphertexts,          *)
(* signatures) and opening them through handles, i.e. key set objects that   *)
(* were loaded at some moment and keep that snapshot.                        *)
(*   an output is [op, key, data, nonce]: the operation, the identity of the *)
(*   key that made it, and what went in                                      *)
EXTENDS KeySet

EncOps  == {"enc", "encs"}            \* one-shot and streaming encryption
SignOps == {"sign", "att", "unv"}     \* plain, attached and unversioned signatures
Ops == EncOps \cup SignOps

\* which key an operation has to use; only the primary
CanProduce(d) == HasPrimary(d)
ProducingKey(d) == d.vers[PrimaryOf(d)].key

Err(e) == [res |-> "err", err |-> e, val |-> ""]
Ok(v)  == [res |-> "ok", err |-> "", val |-> v]

Produce(d) == IF CanProduce(d) THEN Ok(ProducingKey(d)) ELSE Err("NoPrimaryKeyError")

\* what opening an honest output through a snapshot d must give
Open(d, o) ==
  IF o.key \in Keys(d)
  THEN CASE o.op \in EncOps -> Ok(o.data)
         [] o.op = "att"    -> Ok(o.data)
         [] OTHER           -> Ok("TRUE")
  ELSE IF o.op = "unv" THEN Ok("FALSE") ELSE Err("KeyNotFoundError")
=============================================================================
