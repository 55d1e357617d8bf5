------------------------------- MODULE JsonRpc -------------------------------
(***************************************************************************)
(* What a JSON value that arrives means, by the shape of its members, and  *)
(* what a served connection does with it; the error codes; the messages    *)
(* that can be built.                                                      *)
(*                                                                         *)
(* The server has one method `req` that returns its params or fails, one   *)
(* notification `note`, and may be waiting for one reply of the client.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

VARIABLES
  call,   \* the server is waiting for a reply to its own request
  ev
vars == <<call, ev>>
view == call

Init == call = FALSE /\ ev = [a |-> "start"]

-----------------------------------------------------------------------------
\* Shapes of the members; "bad" is a value of the wrong type.
Versions == {"ok", "absent", "bad"}
Ids      == {"absent", "null", "num", "str", "mine", "bad"}   \* mine: the id of the server's request
Methods  == {"absent", "req", "note", "unknown", "bad"}
Params   == {"absent", "null", "value"}
Results  == {"absent", "null", "value"}
Errors   == {"absent", "plain", "data", "bad"}
Shape    == [j : Versions, i : Ids, m : Methods, p : Params, r : Results, e : Errors]

HasId(s)   == s.i \notin {"absent", "bad"}
HasBody(s) == s.r # "absent" \/ s.e \in {"plain", "data"}

(* Is it a response?  A response whose error is malformed is not specified. *)
IsResponse(s) == CASE s.j # "ok" \/ ~HasId(s) -> "no"
                   [] HasBody(s)              -> "yes"
                   [] s.e = "bad"             -> "open"
                   [] OTHER                   -> "no"

(* Can it be read as a request or notification? *)
IsRequest(s) == IF s.j = "ok" /\ s.i # "bad" /\ s.m # "bad" THEN "yes" ELSE "no"

(* How a connection takes it: responses go first.  A missing method is not  *)
(* specified.                                                               *)
Class(s) == CASE IsResponse(s) = "open"                   -> "open"
              [] IsResponse(s) = "yes"                    -> "response"
              [] IsRequest(s) = "no"                      -> "reject"
              [] s.m = "absent"                           -> "open"
              [] s.i = "absent"                           -> "notification"
              [] OTHER                                    -> "request"

\* <<handler run, what is written>>
Served(s, out) ==
  CASE Class(s) = "reject"       -> <<"-", "e-32600:null">>
    [] Class(s) = "notification" -> <<IF s.m = "note" /\ s.p # "absent" THEN "note" ELSE "-", "-">>
    [] Class(s) = "request"      ->
         (CASE s.m = "unknown"                    -> <<"-", "e-32601">>
            [] s.m = "note"                       -> <<"-", "e-32600">>
            [] s.m = "req" /\ s.p = "absent"      -> <<"-", "e-32602">>
            [] OTHER                              -> <<"req", out>>)
    [] OTHER                     -> <<"-", "-">>

\* How the server's own request ends.
Replied(s) == IF Class(s) # "response" \/ s.i # "mine" \/ ~call THEN "-"
              ELSE CASE s.e = "absent" -> "ok"
                     [] s.r = "absent" -> "err"
                     [] s.e = "bad"    -> "ok"
                     [] OTHER          -> "any"      \* both: either

-----------------------------------------------------------------------------
Ask ==
  /\ ~call /\ call' = TRUE
  /\ ev' = [a |-> "ask", sc |-> {"P21"}]

Msg(s, out) ==
  /\ (s.i = "mine") => call
  /\ (out = "err") => (Class(s) = "request" /\ s.m = "req" /\ s.p # "absent")
  /\ LET w == Served(s, out) IN
     ev' = [a |-> "msg", s |-> s, out |-> out, cls |-> Class(s), isreq |-> IsRequest(s), isresp |-> IsResponse(s),
            run |-> w[1], writes |-> w[2], replied |-> Replied(s),
            sc |-> {"P21"} \cup (IF Class(s) = "reject" THEN {"P14"} ELSE {})]
  /\ call' = (call /\ Replied(s) = "-")

\* JSON that is not an object
Other(k) ==
  /\ ev' = [a |-> "other", k |-> k, writes |-> "e-32600:null", sc |-> {"P21", "P14"}]
  /\ UNCHANGED call

\* Error codes with a name; every other code is a server error.
Codes == {<<-32700, "ParseError">>, <<-32600, "InvalidRequest">>, <<-32601, "MethodNotFound">>,
          <<-32602, "InvalidParams">>, <<-32603, "InternalError">>, <<-32800, "RequestCancelled">>,
          <<-32801, "ContentModified">>}
Named == {c[1] : c \in Codes}
Near  == UNION {{c - 1, c, c + 1} : c \in Named} \cup {0, 1, -1, -32000, -32001, -32002, -32099, -32100, -32802, -32803, 32700, 2147483647}
NameOf(c) == IF c \in Named THEN (CHOOSE x \in Codes : x[1] = c)[2] ELSE "ServerError"

Code(c) ==
  /\ ev' = [a |-> "code", code |-> c, name |-> NameOf(c), sc |-> {"P21"}]
  /\ UNCHANGED call

Build(i, p) ==
  /\ i \notin {"bad", "mine"}
  /\ ev' = [a |-> "build", i |-> i, p |-> p, sc |-> {"P21"}]
  /\ UNCHANGED call

Respond(i, b) ==
  /\ i \notin {"bad", "mine", "absent"}
  /\ ev' = [a |-> "respond", i |-> i, b |-> b, sc |-> {"P21"}]
  /\ UNCHANGED call

Next ==
  \/ Ask
  \/ \E s \in Shape, out \in {"ok", "err"} : Msg(s, out)
  \/ \E k \in {"batch", "empty", "string", "number", "bool", "null"} : Other(k)
  \/ \E c \in Near : Code(c)
  \/ \E i \in Ids, p \in Params : Build(i, p)
  \/ \E i \in Ids, b \in {"null", "value", "plain", "data"} : Respond(i, b)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Every shape has exactly one meaning, and the meanings exclude each other.
Sane == \A s \in Shape :
  /\ Class(s) = "response" => IsResponse(s) = "yes"
  /\ Class(s) \in {"request", "notification"} => IsRequest(s) = "yes" /\ IsResponse(s) = "no"
  /\ Class(s) = "request" <=> (Class(s) \in {"request", "notification"} /\ s.i # "absent")
  /\ Class(s) = "reject" => IsResponse(s) = "no" /\ IsRequest(s) = "no"
  /\ s.j # "ok" => Class(s) = "reject"
  \* a result or an error never makes a difference without an id
  /\ ~HasId(s) => Class(s) = Class([s EXCEPT !.r = "absent", !.e = "absent"])
\* Exactly one answer is written for a request, none for anything accepted otherwise.
Answers == \A s \in Shape, o \in {"ok", "err"} :
  Class(s) \in {"request", "reject"} <=> Served(s, o)[2] # "-"
OneToOne == \A c, d \in Named : NameOf(c) = NameOf(d) => c = d

Emit == PrintT(<<"EDGE", ToJson([f |-> ToString(call), e |-> ev', t |-> ToString(call')])>>)
=============================================================================
