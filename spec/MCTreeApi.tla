----------------------------- MODULE MCTreeApi -----------------------------
EXTENDS TreeApi
CONSTANTS Depth
VARIABLES s, ever, d
K == <<"seq", "seq", "one", "leaf", "leaf">>
N == 1..Len(K)
Seqs == UNION {[1..n -> N] : n \in 0..2}
Init == /\ s \in {Linked(K, <<c1, c2, <<4>>, <<>>, <<>>>>) : c1 \in {<<>>, <<2>>, <<5>>, <<2, 3>>}, c2 \in {<<>>, <<3>>}}
        /\ Shared(s) = {} /\ ever = {} /\ d = 0
Next == /\ d < Depth
        /\ \E x \in N, cs \in Seqs : s' = SetChildren(s, x, cs)
        /\ ever' = ever \cup Shared(s')
        /\ d' = d + 1
(* While no node has ever been listed twice, the links agree.              *)
Agree == ParentHasChild(s) /\ ChildHasParent(s, ever)
Refusal == [][\A x \in N, cs \in Seqs : ~Allowed(s, x, cs) => SetChildren(s, x, cs) = s]_<<s, ever, d>>
=============================================================================
