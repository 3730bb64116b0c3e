--------------------------- MODULE Trace_KsVerdiff --------------------------
(* Every report is judged against the difference of the two versions.      *)
EXTENDS KsVerdiff
Sessions == ndJsonDeserialize("sessions.ndjson")
VARIABLES sid, verdict
Ses == Sessions[sid]
O == Ses.obs
Blocks(kind, c) == {j \in 1..Len(O.opts) : O.opts[j].c = c /\ O.opts[j].kind = kind}
Judged(j) == O.opts[j].c \in Comparable(Ses.f, Ses.t)
Judge ==
  LET f == Ses.f  t == Ses.t IN
  CASE O.exc # "" -> "unhandled exception " \o O.exc
    [] f = "" \/ t = "" -> IF O.rc = 0 THEN "an unsupported version gave status 0" ELSE IF O.said THEN "ok" ELSE "nothing is said about an unsupported version"
    [] O.rc # 0 -> "status " \o ToString(O.rc)
    [] O.blocks # <<"removed", "deprecated", "added">> -> "command lists: expected one each of removed, deprecated, added"
    [] ~Listing(O.removed, Removed(f, t)) -> "commands removed: expected " \o ToString(Removed(f, t))
    [] ~Listing(O.added, Added(f, t)) -> "commands added: expected " \o ToString(Added(f, t))
    [] ~Listing(O.deprecated, Deprecated(f, t)) -> "commands deprecated: expected " \o ToString(Deprecated(f, t))
    [] \E j \in 1..Len(O.opts) : O.opts[j].c \notin Common(f, t) ->
         LET j == CHOOSE j \in 1..Len(O.opts) : O.opts[j].c \notin Common(f, t)
         IN "options of " \o O.opts[j].c \o ", which is not common to both"
    [] \E j \in 1..Len(O.opts) : Judged(j) /\ <<O.opts[j].c, O.opts[j].kind>> \notin OptNews(f, t) ->
         LET j == CHOOSE j \in 1..Len(O.opts) : Judged(j) /\ <<O.opts[j].c, O.opts[j].kind>> \notin OptNews(f, t)
         IN "options said to be " \o O.opts[j].kind \o " for " \o O.opts[j].c
    [] \E x \in OptNews(f, t) : Cardinality(Blocks(x[2], x[1])) # 1 ->
         LET x == CHOOSE x \in OptNews(f, t) : Cardinality(Blocks(x[2], x[1])) # 1
         IN "options " \o x[2] \o " of " \o x[1] \o " must be listed once"
    [] \E j \in 1..Len(O.opts) : Judged(j) /\ ~Listing(O.opts[j].l, OptsOf(O.opts[j].kind, f, t, O.opts[j].c)) ->
         LET j == CHOOSE j \in 1..Len(O.opts) : Judged(j) /\ ~Listing(O.opts[j].l, OptsOf(O.opts[j].kind, f, t, O.opts[j].c))
         IN "options " \o O.opts[j].kind \o " of " \o O.opts[j].c \o ": expected " \o ToString(OptsOf(O.opts[j].kind, f, t, O.opts[j].c))
    [] ~O.named -> "a heading names another version"
    [] O.other # "" -> "unexpected line " \o O.other
    [] OTHER -> "ok"
Init == sid \in 1..Len(Sessions) /\ verdict = "run"
Next == \/ verdict = "run" /\ sid' = sid /\ verdict' = Judge /\ PrintT("V|" \o ToString(sid) \o "|1|" \o verdict')
        \/ verdict # "run" /\ UNCHANGED <<sid, verdict>>
Spec == Init /\ [][Next]_<<sid, verdict>>

(* the differences are differences: nothing from a version to itself, and back is the opposite *)
Versions == DOMAIN G.versions
ASSUME \A v \in Versions : Removed(v, v) = {} /\ Added(v, v) = {} /\ \A x \in OptNews(v, v) : x[2] = "deprecated"
ASSUME \A v, w \in Versions : Removed(v, w) = Added(w, v) /\ Removed(v, w) \cap Added(v, w) = {}
=============================================================================
