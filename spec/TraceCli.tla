------------------------------ MODULE TraceCli ------------------------------
(* Records of runs of the cljfmt command in a scratch directory: see       *)
(* module Cli for the invocation; got is what happened:                    *)
(*   how "exit" or not, ok the exit status, err whether there was anything *)
(*   on standard error, named the paths it mentions, names or text what    *)
(*   was on standard output, after the file system (with touched for files *)
(*   written to), extra other files there.                                 *)
EXTENDS Transforms, Config, Trace

FmtReal(t, s) ==
  LET r == Read(t) IN
  IF ~r.ok THEN [ok |-> FALSE, o |-> <<>>]
  ELSE [ok |-> TRUE, o |-> Format(r.nodes, s.on, s.over, s.tf, SP)]
ConfReal(t) == ParseConfig(t)
LessReal(a, b) == TextLess(a, b)
HiddenReal(n) == n # <<>> /\ n[1] = "."
ExtReal(n) == LET i == LastIdx(n, ".") IN IF i = 0 THEN <<>> ELSE SubSeq(n, i, Len(n))

C == INSTANCE Cli WITH Fmt <- FmtReal, Conf <- ConfReal, Less <- LessReal, NoConf <- DefaultConfig,
       Transforms <- AllTransforms, DefaultOn <- AllTransforms \ {"use", "unused"},
       Hidden <- HiddenReal, ExtOf <- ExtReal, DotCljfmt <- Chars(".cljfmt")

FS(c) == FoldLeft(LAMBDA f, e : (e.p :> [k |-> e.k, t |-> e.t, r |-> e.r, w |-> e.w, x |-> e.x, to |-> e.to]) @@ f,
                  <<>> :> [k |-> "dir", t |-> <<>>, r |-> TRUE, w |-> TRUE, x |-> TRUE, to |-> <<>>], c.fs)

Matches(c) ==
  LET fs == FS(c)
      s == C!Run(fs, c.inv)
      g == c.got
      names == Map1(SelectSeq(s.out, LAMBDA x : x.k = "name"), LAMBDA x : x.p)
      text == Concat(Map1(SelectSeq(s.out, LAMBDA x : x.k = "text"), LAMBDA x : x.t))
  IN /\ g.how = "exit"
     /\ g.ok <=> s.code = "ok"
     /\ ~g.ok => g.err
     /\ \A i \in 1..Len(s.about) : \E j \in 1..Len(g.named) : g.named[j] = s.about[i]
     /\ c.inv.full \/ (g.names = names /\ g.text = text)
     /\ g.extra = <<>>
     /\ Len(g.after) = Len(c.fs)
     /\ \A i \in 1..Len(g.after) :
          LET e == g.after[i] IN
          /\ e.p \in DOMAIN s.fs
          /\ e.same   \* its kind, its permissions
          /\ e.t = s.fs[e.p].t
          /\ e.touched => e.p \in s.wrote

Verdict27(c) == IF Matches(c) THEN {} ELSE {"C27"}
Verdict28(c) == IF Matches(c) THEN {} ELSE {"C28"}
Verdict29(c) == IF Matches(c) THEN {} ELSE {"C29"}
Verdict30(c) == IF Matches(c) THEN {} ELSE {"C30"}
Verdict31(c) == IF Matches(c) THEN {} ELSE {"C31"}
=============================================================================
