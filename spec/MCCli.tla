-------------------------------- MODULE MCCli --------------------------------
(* The cljfmt process on all small file systems and invocations, with three *)
(* kinds of text: formatted ("f"), not formatted ("u") and unreadable ("x"). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS MaxArgs, Deep

MFmt(t, s) == [ok |-> t # <<"x">>, o |-> IF t = <<"u">> THEN <<"f">> ELSE t]
MConf(t) == [ok |-> TRUE, c |-> [ext |-> {"clj"}, over |-> <<>>, tf |-> <<>>]]
MNoConf == [ext |-> {"clj"}, over |-> <<>>, tf |-> <<>>]
\* names are pairs <<stem, extension>>; a stem "." stands for a hidden file
Rank == ("." :> 0) @@ ("a" :> 1) @@ ("b" :> 2) @@ ("d" :> 3) @@ ("l" :> 4)
MLess(a, b) == Rank[a[1]] < Rank[b[1]]
MHidden(n) == n[1] = "."
MExt(n) == n[2]

C == INSTANCE Cli WITH Fmt <- MFmt, Conf <- MConf, Less <- MLess, NoConf <- MNoConf, Transforms <- {},
                       DefaultOn <- {}, Hidden <- MHidden, ExtOf <- MExt, DotCljfmt <- <<".", "cljfmt">>

N(s, e) == <<s, e>>
P1 == <<N("a", "clj")>>
P2 == <<N(".", "clj")>>
D  == <<N("d", "")>>
P3 == D \o <<N("b", "clj")>>
P4 == D \o <<N("b", "txt")>>
P5 == D \o <<N("d", "clj")>>           \* a directory with an extension
P6 == P5 \o <<N("a", "clj")>>
L  == <<N("l", "")>>
L2 == D \o <<N("l", "clj")>>
Missing == <<N("b", "clj")>>

DirE == [k |-> "dir", t |-> <<>>, r |-> TRUE, w |-> TRUE, x |-> TRUE, to |-> <<>>]
FileE(t, r, w) == [k |-> "file", t |-> <<t>>, r |-> r, w |-> w, x |-> FALSE, to |-> <<>>]
LinkE(to) == [k |-> "link", t |-> <<>>, r |-> TRUE, w |-> TRUE, x |-> TRUE, to |-> to]

Kinds == {FileE("f", TRUE, TRUE), FileE("u", TRUE, TRUE), FileE("u", TRUE, FALSE), FileE("x", TRUE, TRUE), FileE("u", FALSE, TRUE)}
Plain == {FileE("f", TRUE, TRUE), FileE("u", TRUE, TRUE)}
Systems ==
  {(<<>> :> DirE) @@ (P1 :> a) @@ (P2 :> FileE("u", TRUE, TRUE)) @@ (D :> [DirE EXCEPT !.r = rd]) @@ (P3 :> b)
     @@ (P4 :> FileE("u", TRUE, TRUE)) @@ (P5 :> DirE) @@ (P6 :> c) @@ (L :> LinkE(to)) @@ (L2 :> LinkE(P1))
   : a \in Kinds, b \in IF Deep THEN Kinds ELSE Plain, c \in Plain, rd \in BOOLEAN, to \in {P1, D, Missing}}
Args == UNION {[1..n -> {P1, P2, P4, D, L, Missing, <<>>}] : n \in 0..MaxArgs}
FlagSets == {<<>>, <<"l">>, <<"w">>, <<"l", "w">>}
Flags(fs) == [i \in 1..Len(fs) |-> [f |-> fs[i], v |-> "", p |-> <<>>]]
Invs == {[flags |-> Flags(fl), args |-> ar, stdin |-> [k |-> "text", t |-> <<"u">>],
          src |-> [conf |-> <<>>, off |-> FALSE, home |-> <<>>], full |-> fu]
         : fl \in FlagSets, ar \in Args, fu \in BOOLEAN}

VARIABLES fs0, inv, s
vars == <<fs0, inv, s>>
Init == fs0 \in Systems /\ inv \in Invs /\ s = C!Start(fs0, inv)
Next == s.code = "" /\ s' = C!Step(s, inv) /\ UNCHANGED <<fs0, inv>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* The files to process, by where they really are.                         *)
Below(d, p) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
Takes(p) == p # <<>> /\ Last(p)[1] # "." /\ Last(p)[2] = "clj" /\ fs0[p].k \in {"file", "link"}
SelectedBy(a) ==
  LET q == C!Resolve(fs0, a) IN
  IF ~q.ok THEN {}
  ELSE IF fs0[q.p].k = "file" THEN {q.p}
  ELSE {C!Resolve(fs0, p).p : p \in {x \in DOMAIN fs0 : Below(q.p, x) /\ Takes(x) /\ C!Resolve(fs0, x).ok}}
Selected == UNION {SelectedBy(inv.args[i]) : i \in 1..Len(inv.args)}
Has(f) == C!Flag(inv, f)

(* Files are changed only if asked for, only if selected, and only into    *)
(* what the formatter makes of them.                                       *)
OnlyAsked ==
  \A p \in DOMAIN s.fs :
    s.fs[p] = fs0[p] \/ (Has("w") /\ p \in Selected /\ fs0[p].t = <<"u">> /\ fs0[p].w
                         /\ s.fs[p] = [fs0[p] EXCEPT !.t = <<"f">>])
WroteExactly == s.wrote = {p \in DOMAIN s.fs : s.fs[p] # fs0[p]}

(* A success means that everything asked for has been done.                *)
Complete ==
  s.code = "ok" /\ inv.args # <<>> =>
    /\ \A i \in 1..Len(inv.args) : C!Resolve(fs0, inv.args[i]).ok
    /\ \A p \in Selected : fs0[p].r /\ fs0[p].t # <<"x">>
    /\ Has("w") => \A p \in Selected : s.fs[p].t = <<"f">>
    /\ Has("l") => {C!Resolve(fs0, s.out[i].p).p : i \in 1..Len(s.out)} = {p \in Selected : fs0[p].t = <<"u">>}
    /\ ~Has("l") /\ ~Has("w") =>
         {s.out[i].t : i \in 1..Len(s.out)} = {<<"f">> : p \in Selected}
(* A failure has a cause.                                                  *)
Cause ==
  s.code = "fail" =>
    \/ inv.full
    \/ inv.args = <<>> /\ Has("w")
    \/ \E i \in 1..Len(inv.args) : ~C!Resolve(fs0, inv.args[i]).ok
    \/ \E p \in Selected : ~fs0[p].r \/ fs0[p].t = <<"x">> \/ (Has("w") /\ ~fs0[p].w /\ fs0[p].t = <<"u">>)
    \/ ~fs0[D].r
    \/ ~C!Resolve(fs0, L).ok
(* With -w alone nothing is printed, with -l only names.                   *)
Channels == \A i \in 1..Len(s.out) : IF Has("l") /\ inv.args # <<>> THEN s.out[i].k = "name"
                                     ELSE s.out[i].k = "text" /\ ~Has("w")
(* Doing it twice: a run with -w leaves nothing for another one.           *)
Stable ==
  s.code = "ok" /\ Has("w") /\ inv.args # <<>> =>
     LET t == C!Run(s.fs, [inv EXCEPT !.full = FALSE]) IN t.code = "ok" /\ t.wrote = {} /\ t.out = <<>>
Ends == <>(s.code # "")
=============================================================================
