------------------------------ MODULE TreeApi ------------------------------
(***************************************************************************)
(* The links among the nodes of a tree, and SetChildren.                   *)
(*                                                                         *)
(* Nodes are 1..n.  A tree state is [k |-> class of each node, ch |-> the  *)
(* children of each, pa |-> the parent of each, 0 for none].  A node is of *)
(* class "leaf" (has no children), "one" (always has one child), or "seq". *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Range1(s) == {s[i] : i \in 1..Len(s)}

Allowed(s, x, cs) == s.k[x] = "seq" \/ (s.k[x] = "one" /\ Len(cs) = 1)

(* x's children become cs.  Those that x loses have no parent any more     *)
(* unless another node has taken them over in the meantime.                *)
SetChildren(s, x, cs) ==
  IF ~Allowed(s, x, cs) THEN s
  ELSE [s EXCEPT
          !.ch[x] = cs,
          !.pa = [y \in DOMAIN @ |-> IF y \in Range1(cs) THEN x
                                     ELSE IF y \in Range1(s.ch[x]) /\ @[y] = x THEN 0
                                     ELSE @[y]]]

(* The state right after reading.                                          *)
Linked(k, ch) ==
  [k |-> k, ch |-> ch,
   pa |-> [y \in DOMAIN k |->
             IF \E x \in DOMAIN k : y \in Range1(ch[x]) THEN CHOOSE x \in DOMAIN k : y \in Range1(ch[x]) ELSE 0]]

----------------------------------------------------------------------------
(* A parent has its child among its children.                              *)
ParentHasChild(s) == \A y \in DOMAIN s.pa : s.pa[y] # 0 => y \in Range1(s.ch[s.pa[y]])

Shared(s) == {y \in DOMAIN s.pa : Cardinality({x \in DOMAIN s.ch : y \in Range1(s.ch[x])}) > 1}
(* A child that only one node lists has it as its parent.                  *)
ChildHasParent(s, ever) ==
  \A x \in DOMAIN s.ch : \A y \in Range1(s.ch[x]) : y \notin ever => s.pa[y] = x
=============================================================================
