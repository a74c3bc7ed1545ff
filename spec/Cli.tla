--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The cljfmt command as a process that works off its arguments.           *)
(*                                                                         *)
(* A path is a sequence of names; <<>> is the working directory.  A file   *)
(* system is a function from paths to entries                              *)
(*   [k, t, r, w, x, to]                                                   *)
(*   k : "dir", "file", "link" or "bad" (opens but cannot be read)         *)
(*   t : text of a file      r, w, x : permissions     to : where a link   *)
(*       leads                                                             *)
(* An invocation is                                                        *)
(*   [flags, args, stdin, src, full]                                       *)
(*   flags : sequence of [f |-> "l" "w" "c" "enable" "disable" or "?",     *)
(*           v |-> transform (enable, disable), "no" to turn off (l, w),   *)
(*                 or "empty" for an empty path, p |-> path (c)]           *)
(*   args  : sequence of paths                                             *)
(*   stdin : [k |-> "text" or "bad", t]                                    *)
(*   src   : the environment: [conf |-> <<>> or <<path>>, off |-> TRUE if  *)
(*           it asks for no configuration, home |-> <<>> or <<directory>>] *)
(*   full  : TRUE if standard output cannot be written                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Fmt(_, _),     \* Fmt(text, settings) = [ok, o]: the formatted text
          Conf(_),       \* Conf(text) = [ok, c]: the configuration
          Less(_, _),    \* order of names
          NoConf,        \* the default configuration
          Transforms, DefaultOn,
          Hidden(_), ExtOf(_), DotCljfmt

Found(p) == [ok |-> TRUE, p |-> p]
Missed == [ok |-> FALSE, p |-> <<>>]

(* Follow a path, links included, to what it denotes.                      *)
RECURSIVE Real(_, _, _)
Real(fs, p, n) ==
  IF n = 0 THEN Missed
  ELSE IF p = <<>> THEN Found(p)
  ELSE LET d == Real(fs, Front(p), n) IN
    IF ~d.ok \/ fs[d.p].k # "dir" \/ ~fs[d.p].x THEN Missed
    ELSE LET q == Append(d.p, Last(p)) IN
         IF q \notin DOMAIN fs THEN Missed
         ELSE IF fs[q].k = "link" THEN Real(fs, fs[q].to, n - 1) ELSE Found(q)
Resolve(fs, p) == Real(fs, p, 8)

(* The names in a directory, in order.                                     *)
Names(fs, d) ==
  LET ks == {p \in DOMAIN fs : p # <<>> /\ Front(p) = d} IN
  SortSeq(SetToSeq({Last(p) : p \in ks}), Less)

----------------------------------------------------------------------------
(* The state: fs the file system, todo what is to be done, out what has    *)
(* been written to standard output (texts and names), wrote the files      *)
(* written, code "" while running, then "ok" or "fail", about: the path    *)
(* that the message is about, if any.                                      *)
Do(what, p) == [do |-> what, p |-> p]
Fail(s, ps) == [s EXCEPT !.code = "fail", !.about = ps, !.todo = <<>>]

FlagsOK(inv) ==
  \A i \in 1..Len(inv.flags) :
    LET f == inv.flags[i] IN
    /\ f.f \in {"l", "w", "c", "enable", "disable"}
    /\ f.f \in {"enable", "disable"} => f.v \in Transforms
On(inv) ==
  FoldLeft(LAMBDA a, f : CASE f.f = "enable" -> a \cup {f.v} [] f.f = "disable" -> a \ {f.v} [] OTHER -> a,
           DefaultOn, inv.flags)
Flag(inv, x) == FoldLeft(LAMBDA a, f : IF f.f = x THEN f.v # "no" ELSE a, FALSE, inv.flags)

(* Where the configuration is: <<>> (nowhere) or <<path>>.                 *)
Source(inv) ==
  LET cs == SelectSeq(inv.flags, LAMBDA f : f.f = "c") IN
  IF cs # <<>> THEN (IF Last(cs).v = "empty" THEN <<>> ELSE <<Last(cs).p>>)
  ELSE IF inv.src.off THEN <<>>
  ELSE IF inv.src.conf # <<>> THEN inv.src.conf
  ELSE IF inv.src.home # <<>> THEN << Append(inv.src.home[1], DotCljfmt) >>
  ELSE <<>>

(* [ok, c, about]                                                          *)
ReadConf(fs, inv) ==
  LET src == Source(inv)
      none == [ok |-> TRUE, c |-> NoConf, about |-> <<>>]
  IN IF src = <<>> THEN none
     ELSE LET q == Resolve(fs, src[1]) IN
          IF ~q.ok \/ ~fs[q.p].r THEN none
          ELSE IF fs[q.p].k # "file" THEN [none EXCEPT !.ok = FALSE, !.about = src]
          ELSE LET r == Conf(fs[q.p].t) IN [ok |-> r.ok, c |-> r.c, about |-> src]

Start(fs, inv) ==
  LET s == [fs |-> fs, todo |-> <<>>, out |-> <<>>, wrote |-> {}, code |-> "", about |-> <<>>, c |-> NoConf]
      r == ReadConf(fs, inv)
  IN IF ~FlagsOK(inv) THEN Fail(s, <<>>)
     ELSE IF ~r.ok THEN Fail(s, r.about)
     ELSE [s EXCEPT !.c = r.c,
                    !.todo = IF inv.args = <<>> THEN <<Do("stdin", <<>>)>>
                             ELSE [i \in 1..Len(inv.args) |-> Do("arg", inv.args[i])]]

(* Emit a text or a name.  (An empty text needs no room.)                  *)
Emit(s, inv, x) ==
  IF x.t = <<>> /\ x.k = "text" THEN s
  ELSE IF inv.full THEN Fail(s, <<>>)
  ELSE [s EXCEPT !.out = Append(@, x)]

Text(t) == [k |-> "text", t |-> t, p |-> <<>>]
Name(p) == [k |-> "name", t |-> <<>>, p |-> p]

Settings(s, inv) == [on |-> On(inv), over |-> s.c.over, tf |-> s.c.tf]

(* Process the file called p.                                              *)
Process(s, inv, p) ==
  LET q == Resolve(s.fs, p) IN
  IF ~q.ok \/ ~s.fs[q.p].r \/ s.fs[q.p].k # "file" THEN Fail(s, <<p>>)
  ELSE LET e == s.fs[q.p]
           f == Fmt(e.t, Settings(s, inv))
           differs == f.o # e.t
           s1 == IF differs /\ Flag(inv, "l") THEN Emit(s, inv, Name(p)) ELSE s
           s2 == IF s1.code = "" /\ differs /\ Flag(inv, "w")
                 THEN IF e.w THEN [s1 EXCEPT !.fs[q.p].t = f.o, !.wrote = @ \cup {q.p}] ELSE Fail(s1, <<p>>)
                 ELSE s1
       IN IF ~f.ok THEN Fail(s, <<p>>)
          ELSE IF Flag(inv, "l") \/ Flag(inv, "w") THEN s2
          ELSE Emit(s, inv, Text(f.o))

Step(s, inv) ==
  LET w == Head(s.todo)
      r == [s EXCEPT !.todo = Tail(@)]
      q == Resolve(s.fs, w.p)
      below(d) == LET ns == Names(s.fs, d) IN [i \in 1..Len(ns) |-> Do("visit", Append(w.p, ns[i]))]
  IN
  IF s.todo = <<>> THEN [s EXCEPT !.code = "ok"]
  ELSE CASE w.do = "stdin" ->
              IF Flag(inv, "w") \/ inv.stdin.k = "bad" THEN Fail(r, <<>>)
              ELSE LET f == Fmt(inv.stdin.t, Settings(s, inv)) IN
                   IF f.ok THEN Emit(r, inv, Text(f.o)) ELSE Fail(r, <<>>)
         [] w.do = "arg" ->
              IF ~q.ok THEN Fail(r, <<w.p>>)
              ELSE IF s.fs[q.p].k = "dir" THEN [r EXCEPT !.todo = <<Do("walk", w.p)>> \o @]
              ELSE Process(r, inv, w.p)
         [] w.do = "walk" ->
              IF ~s.fs[q.p].r \/ (~s.fs[q.p].x /\ Names(s.fs, q.p) # <<>>) THEN Fail(r, <<w.p>>)
              ELSE [r EXCEPT !.todo = below(q.p) \o @]
         [] w.do = "visit" -> \* an entry of a directory; links are not followed to directories
              LET d == Resolve(s.fs, Front(w.p)).p
                  e == s.fs[Append(d, Last(w.p))]
              IN IF e.k = "dir" THEN [r EXCEPT !.todo = <<Do("walk", w.p)>> \o @]
                 ELSE IF Hidden(Last(w.p)) \/ ExtOf(Last(w.p)) \notin s.c.ext THEN r
                 ELSE Process(r, inv, w.p)

RECURSIVE RunFrom(_, _)
RunFrom(s, inv) == IF s.code # "" THEN s ELSE RunFrom(Step(s, inv), inv)
Run(fs, inv) == RunFrom(Start(fs, inv), inv)
=============================================================================
