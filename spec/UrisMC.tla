------------------------------ MODULE UrisMC --------------------------------
(* Every spelling of every short path, printed with what it stands for. *)
EXTENDS Uris, TLC, Json
Emit == told # <<>> => PrintT(ToJson([scheme |-> scheme, path |-> path, uri |-> uri]))
=============================================================================
