----------------------------- MODULE ObjHist -----------------------------
(* Starts and calls for Obj. *)
EXTENDS Obj, ObjPool
CONSTANT N
ObjLen == N
=============================================================================
