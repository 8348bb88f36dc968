----------------------------- MODULE NCSession ------------------------------
(* The language server as seen through its messages. A text is a number (0: no    *)
(* document), an answer is a term that says what it is about: content is left to  *)
(* NCDoc, NCHover and NCMachine. A state is [docs, lens, macros, up]:             *)
(*   docs    text of each document                                                *)
(*   lens    the document whose lenses were asked for last (0: none)              *)
(*   macros  whether a document was opened (the variables are known from then on) *)
(*   up      whether the server reads on                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Boot(uris) == [docs |-> [u \in uris |-> 0], lens |-> 0, macros |-> FALSE, up |-> TRUE]

(* What a message is, whatever it is called: served, without a meaning here, or   *)
(* without the data it needs                                                      *)
Requests == {"init", "hover", "lens", "lensres", "complete", "resolve", "shutdown"}
Notifications == {"open", "change", "close"}
Silent == {"initialized", "config", "cancel", "unknown note", "answer", "garbage", "no id", "bad note", "headless"}
Refused == {"unknown request", "bad request"}

Reply(m, what) == [o |-> "reply", n |-> m.n, what |-> what]
Error(m) == [o |-> "error", n |-> m.n, what |-> [q |-> m.k]]
Diagnostics(u, t) == [o |-> "diagnostics", n |-> 0, what |-> [q |-> "diagnostics", u |-> u, t |-> t]]

Set(s, u, t) == [s EXCEPT !.docs[u] = t, !.macros = TRUE]

\* m = [k kind, n number of the request, u document, t texts, p place or label]
\* -> [s state, out what is said]
React(s, m) ==
  LET same(out) == [s |-> s, out |-> out]
      asked(what) == same(<<Reply(m, what)>>)
  IN IF ~s.up THEN same(<<>>)
     ELSE CASE m.k = "open" -> [s |-> Set(s, m.u, m.t[1]), out |-> <<Diagnostics(m.u, m.t[1])>>]
            [] m.k = "change" -> IF m.t = <<>> THEN same(<<>>)
                                 ELSE LET t == m.t[Len(m.t)] IN [s |-> Set(s, m.u, t), out |-> <<Diagnostics(m.u, t)>>]
            [] m.k = "close" -> [s |-> [s EXCEPT !.docs[m.u] = 0], out |-> <<>>]
            [] m.k = "hover" -> asked([q |-> "hover", t |-> s.docs[m.u], p |-> m.p])
            [] m.k = "lens" -> [s |-> IF s.docs[m.u] = 0 THEN s ELSE [s EXCEPT !.lens = m.u],
                                out |-> <<Reply(m, [q |-> "lens", t |-> s.docs[m.u]])>>]
            [] m.k = "lensres" -> asked([q |-> "lensres", t |-> IF s.lens = 0 THEN 0 ELSE s.docs[s.lens], p |-> m.p])
            [] m.k = "complete" -> asked([q |-> "complete", macros |-> s.macros])
            [] m.k = "resolve" -> asked([q |-> "resolve", macros |-> s.macros, p |-> m.p])
            [] m.k = "init" -> asked([q |-> "init"])
            [] m.k = "shutdown" -> [s |-> [s EXCEPT !.up = FALSE], out |-> <<Reply(m, [q |-> "shutdown"])>>]
            [] m.k \in {"exit", "eof"} -> [s |-> [s EXCEPT !.up = FALSE], out |-> <<>>]
            [] m.k \in Refused -> same(<<Error(m)>>)
            [] m.k \in Silent -> same(<<>>)

(********************************** the laws ***********************************)
\* over a history of messages and what was said to each
IsRequest(m) == m.k \in Requests \cup Refused
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Answers(said) == SelectSeq(Flat(said), LAMBDA x : x.o # "diagnostics")
\* the number of messages that are read: up to the one that ends the server
Read(ms) == LET e == {k \in DOMAIN ms : ms[k].k \in {"shutdown", "exit", "eof"}}
            IN IF e = {} THEN Len(ms) ELSE CHOOSE k \in e : \A j \in e : k <= j
OneReplyEach(ms, said) ==
  LET asked == SelectSeq(SubSeq(ms, 1, Read(ms)), IsRequest) a == Answers(said)
  IN Len(a) = Len(asked) /\ \A k \in DOMAIN a : a[k].n = asked[k].n
DiagnosticsEach(ms, said) ==
  \A k \in DOMAIN ms :
    LET d == SelectSeq(said[k], LAMBDA x : x.o = "diagnostics")
    IN IF k <= Read(ms) /\ (ms[k].k = "open" \/ (ms[k].k = "change" /\ ms[k].t # <<>>))
       THEN Len(d) = 1 /\ d[1].what.u = ms[k].u /\ d[1].what.t = ms[k].t[Len(ms[k].t)]
       ELSE d = <<>>
\* the text a document has: that of the last message about it
RECURSIVE TextOf(_, _)
TextOf(ms, u) ==
  IF ms = <<>> THEN 0
  ELSE LET m == ms[Len(ms)] IN
       IF m.k \in {"open", "change"} /\ m.u = u /\ m.t # <<>> THEN m.t[Len(m.t)]
       ELSE IF m.k = "close" /\ m.u = u THEN 0 ELSE TextOf(SubSeq(ms, 1, Len(ms) - 1), u)
CurrentText(ms, said) ==
  \A k \in DOMAIN ms : k <= Read(ms) /\ ms[k].k \in {"hover", "lens"} => said[k][1].what.t = TextOf(SubSeq(ms, 1, k - 1), ms[k].u)
\* messages without a meaning here can be left out
Meaningful(ms) == SelectSeq(ms, LAMBDA m : m.k \notin Silent)
RECURSIVE Run(_, _)
Run(s, ms) == IF ms = <<>> THEN <<>> ELSE LET r == React(s, Head(ms)) IN <<r.out>> \o Run(r.s, Tail(ms))
SilentLeavesNothing(uris, ms, said) == Flat(Run(Boot(uris), Meaningful(ms))) = Flat(said)
\* what is said about a document does not depend on the others
About(ms, u) == SelectSeq(ms, LAMBDA m : m.k \in {"shutdown", "exit", "eof"} \/ (m.k \in {"open", "change", "close", "hover", "lens"} /\ m.u = u))
OthersLeaveNothing(uris, ms, said) ==
  \A u \in uris : LET own == Flat([k \in DOMAIN ms |-> IF ms[k].k \in {"open", "change", "close", "hover", "lens"} /\ ms[k].u = u THEN said[k] ELSE <<>>])
                  IN SelectSeq(Flat(Run(Boot(uris), About(ms, u))), LAMBDA x : x.what.q # "shutdown") = own
\* refused requests and requests alone change nothing about documents
=============================================================================
