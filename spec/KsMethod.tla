----------------------------- MODULE KsMethod ------------------------------
(***************************************************************************)
(* The installation source of a handler as programs see it through         *)
(* handler.method: which source was given, choosing another one, and        *)
(* reading and assigning its settings.  S is the state of the handler's     *)
(* commands (KsLines).  The proxy itself has no state but a line number.    *)
(***************************************************************************)
EXTENDS KsLines

AllSources == {"cdrom", "harddrive", "nfs", "url", "liveimg", "hmc"}
KeyOf(ver, m) == G.versions[ver][m]
Known(ver) == {m \in AllSources : m \in DOMAIN G.versions[ver] /\ G.classes[KeyOf(ver, m)].kind = "active"}
(* Where the proxy is deprecated, it has stopped at the sources of its time. *)
Old(ver) == G.classes[KeyOf(ver, "method")].kind # "active"
Sources(ver) == Known(ver) \ (IF Old(ver) THEN {"hmc"} ELSE {})

Obj(S, ver, m) == ObjOf(S, KeyOf(ver, m))
Marked(S, ver) == {m \in Sources(ver) : Obj(S, ver, m).seen}
(* What reading the proxy's "method" may answer: one that was given. *)
Answers(S, ver) == IF Marked(S, ver) = {} THEN {"none"} ELSE Marked(S, ver)
(* Whose settings the proxy stands for. *)
Target(name) == IF name = "none" THEN "url" ELSE name
Attrs(S, ver, name) == Obj(S, ver, Target(name)).attrs

Choose(S, ver, m) ==
  [exc |-> "", S |-> [key \in DOMAIN S \cup {KeyOf(ver, x) : x \in Sources(ver)} |->
                        IF \E x \in Sources(ver) : key = KeyOf(ver, x) THEN [ObjOf(S, key) EXCEPT !.seen = (m # "none" /\ key = KeyOf(ver, m))] ELSE S[key]]]
SetMethod(S, ver, m) == IF m \in Sources(ver) \cup {"none"} THEN Choose(S, ver, m) ELSE [exc |-> "attr", S |-> S]

SetAttr(S, ver, name, a, x) ==
  IF a \notin DOMAIN Attrs(S, ver, name) THEN [exc |-> "attr", S |-> S]
  ELSE LET key == KeyOf(ver, Target(name)) IN [exc |-> "", S |-> (key :> [ObjOf(S, key) EXCEPT !.attrs = [@ EXCEPT ![a] = x]]) @@ S]

Reset(S, ver, m) == [key \in DOMAIN S \ {KeyOf(ver, m)} |-> S[key]]
Mark(S, ver, m, b) == LET key == KeyOf(ver, m) IN (key :> [ObjOf(S, key) EXCEPT !.seen = b]) @@ S

(* The source as an additional repository: only a url can be one. *)
ToRepo(S, ver, name) ==
  LET u == Obj(S, ver, "url").attrs["url"] IN
  IF name \in {"none", "url"} /\ Truthy(u) THEN [exc |-> "", url |-> u] ELSE [exc |-> "kick", url |-> Nil]
=============================================================================
