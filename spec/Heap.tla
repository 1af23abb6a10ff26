-------------------------------- MODULE Heap ---------------------------------
(***************************************************************************)
(* Who may write where.  Arrays live in blocks of memory; several arrays   *)
(* may be views of one block.  A call names the arrays it reads, the       *)
(* arrays it is given as outputs, and what kind of call it is:             *)
(*   compute   results are new memory, or the given outputs                *)
(*   view      results may be views of the operands                        *)
(*   inplace   the operands are also outputs, results are those operands   *)
(*   refused   the call ended with an exception: it may have written to    *)
(*             the outputs it was given, to nothing else                   *)
(* A block is written by a call only if one of its outputs lies in it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Kinds == {"compute", "view", "inplace", "refused"}
\* blocks of the arrays in s; home maps an array to its block
Blocks(home, s) == {home[a] : a \in s}
\* what a call may write
Writable(kind, ins, outs) == IF kind = "inplace" THEN outs \cup ins ELSE outs
\* what arrays may look different afterwards: all those that share a block with an output
MayChange(home, kind, ins, outs) ==
    {a \in DOMAIN home : home[a] \in Blocks(home, Writable(kind, ins, outs))}
\* blocks a result of the call may lie in (or it is a new one)
MayHold(home, kind, ins, outs) ==
    CASE kind = "compute" -> Blocks(home, outs)
      [] kind = "view" -> Blocks(home, ins \cup outs)
      [] kind = "inplace" -> Blocks(home, ins \cup outs)
      [] kind = "refused" -> {}
=============================================================================
