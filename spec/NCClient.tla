------------------------------ MODULE NCClient ------------------------------
(* The extension around the server (E01): what it starts and with which settings,  *)
(* what it asks the user, when it starts the server again, what its status says.   *)
(* A setting has a value of the user and one of the workspace, which goes first.   *)
(* State: [on, plat, user, ws, args, at, file, tool, status]                       *)
(*   on      FALSE before the activation and after the end                         *)
(*   args    the settings the server was started with, at the settings file of it  *)
(*   file    what is in the settings file, tool whether the configuration tool runs*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Cases == In.cases                 \* [alphabet, depth, script]
Paths == In.paths                 \* [p, stem, file]: how a file is written, its name without extension, which file it is
Contents == In.contents           \* [id]: the name of the machine in the settings file, or none

Keys == {"log", "nc", "pt", "mac"}
Has(f, x) == x \in DOMAIN f
Effective(s, k) == IF s.ws[k] # "" THEN s.ws[k] ELSE IF s.user[k] # "" THEN s.user[k] ELSE IF k = "pt" THEN "true" ELSE ""
Config(s) == [k \in Keys |-> Effective(s, k)]
\* a file is written in several ways
PathOf(p) == CHOOSE x \in {Paths[i] : i \in DOMAIN Paths} : x.p = p
Status(p, f) == IF p = "" THEN "default" ELSE IF Contents[f].id # "" THEN Contents[f].id ELSE PathOf(p).stem
\* settings that are not given and a calculation not wanted are not passed on
Args(c) == [k \in {k \in Keys : c[k] # "" /\ ~(k = "pt" /\ c[k] = "false")} |-> c[k]]

Nobody == [k \in Keys |-> ""]
Off == [on |-> FALSE, plat |-> "", user |-> Nobody, ws |-> Nobody, args |-> <<>>, at |-> "", file |-> 1, tool |-> FALSE, status |-> ""]
Set(s, layer, k, v) == IF layer = "user" THEN [s EXCEPT !.user[k] = v] ELSE [s EXCEPT !.ws[k] = v]

E(e) == [e |-> e]
Reload(ev) == <<E("ask")>> \o (IF ev.reload THEN <<E("reload")>> ELSE <<>>)
\* the user changes settings himself: he is asked once if any of ours has another value
Change(s, layer, k, v, ev) ==
  LET t == Set(s, layer, k, v)
  IN [s |-> t, e |-> IF Config(t) # Config(s) THEN Reload(ev) ELSE <<>>]

\* several settings at once, as when their file is saved
RECURSIVE SetAll(_, _)
SetAll(s, q) == IF q = <<>> THEN s ELSE SetAll(Set(s, Head(q).layer, Head(q).k, Head(q).v), Tail(q))
Edit(s, ev) == LET t == SetAll(s, ev.sets) IN [s |-> t, e |-> IF Config(t) # Config(s) THEN Reload(ev) ELSE <<>>]

Start(s) == [s EXCEPT !.args = Args(Config(s)), !.at = Effective(s, "nc"), !.status = Status(Effective(s, "nc"), s.file)]

\* the tool for settings exists for one system only and once at a time
Create(s) ==
  IF s.plat # "win32" \/ s.tool THEN [s |-> s, e |-> <<E("info")>>]
  ELSE [s |-> [s EXCEPT !.tool = TRUE], e |-> <<E("exec")>>]

\* the choice of a file is written where the user said, and he is asked once to load it
Select(s, ev) ==
  LET mid == IF ev.during = "" THEN [s |-> s, e |-> <<>>] ELSE Change(s, "user", "log", ev.during, ev)
      yes == ev.answer \in {"user", "ws"}
      t == IF yes /\ ev.pick # "" THEN Set(mid.s, ev.answer, ev.what, ev.pick) ELSE mid.s
  IN [s |-> t,
      e |-> <<E("which")>> \o mid.e
            \o (IF yes THEN <<[e |-> "dialog", k |-> ev.what]>> ELSE <<>>)
            \o (IF yes /\ ev.pick # "" THEN <<[e |-> "update", k |-> ev.what, v |-> ev.pick, layer |-> ev.answer]>> \o Reload(ev) ELSE <<>>)]

Toggle(s, ev) ==
  LET v == IF Effective(s, "pt") = "true" THEN "false" ELSE "true"
  IN [s |-> Set(s, "user", "pt", v), e |-> <<[e |-> "update", k |-> "pt", v |-> v, layer |-> "user"]>> \o Reload(ev)]

Activate(s, ev) ==
  LET a == [Start([s EXCEPT !.plat = ev.plat]) EXCEPT !.on = TRUE, !.tool = FALSE]
      st == <<[e |-> "start", args |-> a.args]>> \o (IF ev.ok THEN <<>> ELSE <<E("channel")>>)
      next == CASE a.at # "" -> [s |-> a, e |-> <<>>]
                [] a.at = "" /\ ev.first = "create" -> LET c == Create(a) IN [s |-> c.s, e |-> <<E("first")>> \o c.e]
                [] a.at = "" /\ ev.first = "select" -> LET c == Select(a, ev) IN [s |-> c.s, e |-> <<E("first")>> \o c.e]
                [] OTHER -> [s |-> a, e |-> <<E("first")>>]
  IN [s |-> next.s, e |-> st \o next.e]

\* the settings file of the server was written: it starts again and reads it
Written(s, ev) ==
  IF s.at # "" /\ PathOf(s.at).file = ev.file
  THEN [s |-> [s EXCEPT !.status = Status(s.at, s.file)], e |-> <<E("stop"), [e |-> "start", args |-> s.args], E("info")>>]
  ELSE [s |-> s, e |-> <<>>]

Possible(s, ev) ==
  CASE ev.op = "activate" -> ~s.on
    [] ev.op \in {"content", "change", "edit"} -> TRUE
    [] ev.op = "toolend" -> s.on /\ s.tool
    [] OTHER -> s.on
Do(s, ev) ==
  CASE ev.op = "activate" -> Activate(s, ev)
    [] ev.op = "deactivate" -> [s |-> [s EXCEPT !.on = FALSE, !.tool = FALSE, !.args = <<>>, !.at = "", !.status = ""], e |-> <<E("stop")>>]
    [] ev.op = "content" -> [s |-> [s EXCEPT !.file = ev.content], e |-> <<>>]
    [] ev.op = "change" -> LET c == Change(s, ev.layer, ev.k, ev.v, ev) IN [s |-> c.s, e |-> IF s.on THEN c.e ELSE <<>>]
    [] ev.op = "edit" -> LET c == Edit(s, ev) IN [s |-> c.s, e |-> IF s.on THEN c.e ELSE <<>>]
    [] ev.op = "other" -> [s |-> s, e |-> <<>>]
    [] ev.op = "select" -> Select(s, ev)
    [] ev.op = "toggle" -> Toggle(s, ev)
    [] ev.op = "create" -> Create(s)
    [] ev.op = "toolend" -> [s |-> [s EXCEPT !.tool = FALSE], e |-> IF ev.ok THEN <<>> ELSE <<E("channel")>>]
    [] ev.op = "written" -> Written(s, ev)
    [] OTHER -> [s |-> s, e |-> <<E("document")>>]

VARIABLES n, h, st, prev, last
vars == <<n, h, st, prev, last>>
Show(i, r) == PrintT("EDGE " \o ToJson([n |-> n, h |-> h', t |-> ToString(<<Len(h'), r.s>>), e |-> r.e, status |-> r.s.status]))
Init == n \in 1..Len(Cases) /\ h = <<>> /\ st = Off /\ prev = Off /\ last = <<>>
Next == /\ Len(h) < (IF Cases[n].script THEN Len(Cases[n].alphabet) ELSE Cases[n].depth)
        /\ \E i \in (IF Cases[n].script THEN {Len(h) + 1} ELSE DOMAIN Cases[n].alphabet) :
             /\ Possible(st, Cases[n].alphabet[i])
             /\ LET r == Do(st, Cases[n].alphabet[i])
                IN st' = r.s /\ prev' = st /\ last' = r.e /\ h' = Append(h, i) /\ UNCHANGED n /\ Show(i, r)
Spec == Init /\ [][Next]_vars
View == <<n, Len(h), st>>

(***************************** laws ********************************************)
Ev == Cases[n].alphabet[h'[Len(h')]]
Count(es, k) == Cardinality({i \in DOMAIN es : es[i].e = k})
TypeOK == st.on => st.status # "" /\ Has(Contents, st.file)
\* the server has the settings there were when the extension was activated, whatever happens
SameArgs == [][st.on /\ st'.on => st'.args = st.args /\ st'.at = st.at]_vars
StartsWithThem == [][\A i \in DOMAIN last' : last'[i].e = "start" => last'[i].args = st'.args]_vars
\* it is started by the activation and by its file alone, and stopped before it is started again
OneServer == [][/\ Count(last', "start") <= 1 /\ (Count(last', "start") = 1 => Ev.op \in {"activate", "written"})
                /\ (Count(last', "stop") = Count(last', "start") \/ Ev.op \in {"activate", "deactivate"})]_vars
\* a setting with another value is asked about, exactly once each
AsksOnce == [][st.on => (Config(st') # Config(st) => Count(last', "ask") \in {1, 2}) /\ Count(last', "ask") <= 2 /\ (Ev.op \in {"change", "edit", "toggle"} => Count(last', "ask") <= 1)]_vars
NoNoise == [][Ev.op \in {"other", "written", "content", "toolend", "create", "placeholder"} => Config(st') = Config(st) /\ Count(last', "ask") = 0]_vars
\* nothing reloads but by the wish of the user
ReloadWished == [][Count(last', "reload") <= Count(last', "ask") /\ (Count(last', "reload") > 0 => Ev.reload)]_vars
\* the tool runs once at a time, and only where there is one
OneTool == [][Count(last', "exec") > 0 => ~(st.on /\ st.tool) /\ st'.tool /\ st'.plat = "win32"]_vars
\* toggling twice is nothing
Twice == [][Ev.op = "toggle" => LET r == Toggle(st', Ev) IN st.ws["pt"] = "" => Effective(r.s, "pt") = Effective(st, "pt") /\ Effective(st', "pt") # Effective(st, "pt")]_vars
=============================================================================
