----------------------------- MODULE NCMessage ------------------------------
(* Messages by the data they carry: which members a method needs, of which type,  *)
(* and what becomes of a message in which some of them are different or missing.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

In == JsonDeserialize(IOEnv.NC_IN)
Types == {"obj", "arr", "str", "int", "neg", "big", "frac", "bool", "null", "missing"}

\* path -> the types with which the message is served; a path names its ancestors by prefix
Needs(method) ==
  CASE method = "open" -> (<<"params">> :> {"obj"}) @@ (<<"params", "textDocument">> :> {"obj"}) @@ (<<"params", "textDocument", "uri">> :> {"str"}) @@ (<<"params", "textDocument", "text">> :> {"str"})
    [] method = "change" -> (<<"params">> :> {"obj"}) @@ (<<"params", "textDocument">> :> {"obj"}) @@ (<<"params", "textDocument", "uri">> :> {"str"})
                            @@ (<<"params", "contentChanges">> :> {"arr"}) @@ (<<"params", "contentChanges", "0">> :> {"obj"}) @@ (<<"params", "contentChanges", "0", "text">> :> {"str"})
    [] method \in {"close", "lens"} -> (<<"params">> :> {"obj"}) @@ (<<"params", "textDocument">> :> {"obj"}) @@ (<<"params", "textDocument", "uri">> :> {"str"})
    [] method = "hover" -> (<<"params">> :> {"obj"}) @@ (<<"params", "textDocument">> :> {"obj"}) @@ (<<"params", "textDocument", "uri">> :> {"str"})
                           @@ (<<"params", "position">> :> {"obj"}) @@ (<<"params", "position", "line">> :> {"int", "neg"}) @@ (<<"params", "position", "character">> :> {"int", "neg"})
    [] method = "lensres" -> (<<"params">> :> {"obj"}) @@ (<<"params", "range">> :> {"obj"}) @@ (<<"params", "range", "start">> :> {"obj"}) @@ (<<"params", "range", "start", "line">> :> {"int", "neg"})
    [] method = "resolve" -> (<<"params">> :> {"obj"}) @@ (<<"params", "label">> :> {"str"})
    [] OTHER -> <<>>
\* members a message may have that nothing depends on
Spare(method) ==
  CASE method = "open" -> {<<"params", "textDocument", "version">>, <<"params", "textDocument", "languageId">>, <<"params", "textDocument", "more">>}
    [] method = "change" -> {<<"params", "textDocument", "version">>, <<"params", "contentChanges", "0", "range">>}
    [] method = "resolve" -> {<<"params", "kind">>, <<"params", "data">>, <<"params", "insertTextFormat">>}
    [] method = "lensres" -> {<<"params", "range", "end">>}
    [] method \in {"hover", "lens", "close"} -> {<<"params", "workDoneToken">>}
    [] OTHER -> {<<"params">>}
Requests == {"init", "hover", "lens", "lensres", "complete", "resolve", "shutdown"}
Methods == Requests \cup {"open", "change", "close"}
Paths(method) == DOMAIN Needs(method) \cup Spare(method)

Prefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Own(m, p) == IF \E c \in m.change : c.p = p THEN (CHOOSE c \in m.change : c.p = p).t
             ELSE "as needed"
\* a member is there only if everything above it is what it should be
Above(m, p) == \A q \in DOMAIN Needs(m.k) : Prefix(q, p) => Own(m, q) = "as needed" \/ Own(m, q) \in Needs(m.k)[q] \cap {"obj", "arr"}
Replaced(m, p) == \E c \in m.change : Prefix(c.p, p)     \* something above it is replaced by an empty value
Fits(m, p) == ~Replaced(m, p) /\ Above(m, p) /\ (Own(m, p) = "as needed" \/ Own(m, p) \in Needs(m.k)[p])
\* an empty list of changes is none
NoChange(m) == m.k = "change" /\ Own(m, <<"params", "contentChanges">>) = "arr"
Served(m) == IF NoChange(m) THEN \A p \in {<<"params">>, <<"params", "textDocument">>} : Fits(m, p)
             ELSE IF m.k = "resolve" /\ Own(m, <<"params">>) = "missing" THEN TRUE
             ELSE \A p \in DOMAIN Needs(m.k) : Fits(m, p)

\* "reply", "diagnostics", "closed" (nothing is said, the document is gone), "error", "nothing"
Outcome(m) ==
  IF m.k \in Requests
  THEN IF m.id = "missing" THEN "nothing" ELSE IF Served(m) THEN "reply" ELSE "error"
  ELSE IF ~Served(m) \/ NoChange(m) THEN "nothing" ELSE IF m.k = "close" THEN "closed" ELSE "diagnostics"
\* the id of the reply is that of the request
IdKept(m) == m.id \in {"int", "neg", "big", "frac", "str"}

VARIABLES m
Changes(k) == {[p |-> p, t |-> t] : p \in Paths(k), t \in Types}
Sets(k) == LET c == Changes(k) IN {{}} \cup {{x} : x \in c} \cup (IF In.pairs THEN {s \in {{x, y} : x \in c, y \in c} : \A x, y \in s : x # y => x.p # y.p} ELSE {})
Ids(k) == IF k \in Requests THEN {"int", "neg", "big", "frac", "str", "missing", "null", "obj", "arr", "bool"} ELSE {"missing"}
Init == \E k \in Methods : \E c \in Sets(k) : \E i \in Ids(k) :
          /\ Cardinality(c) = 0 \/ i \in {"int", "missing"}
          /\ m = [k |-> k, id |-> i, change |-> c]
          /\ PrintT("MSG " \o ToJson([k |-> k, id |-> i, change |-> c, o |-> Outcome(m), keep |-> IdKept(m)]))
Next == FALSE /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m>>

\* what a message says is decided: complete messages are served, and more members make nothing worse
CompleteServed == m.change = {} /\ m.id # "missing" => Outcome(m) \notin {"error"}
SpareIgnored == (\A c \in m.change : c.p \in Spare(m.k)) => Outcome(m) \notin {"error"}
NotesSilent == m.k \notin Requests => Outcome(m) \notin {"error", "reply"}
=============================================================================
