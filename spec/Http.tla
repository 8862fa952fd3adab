-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* Requests and responses as values, and the builders that make them.      *)
(* A request is [method, url, headers, body, extra], a response            *)
(* [status, headers, body, extra]; extra is the certificate version or the *)
(* upgrade flag, <<"none">> or <<"some", text>>; the update forms do not   *)
(* have it.                                                                *)
(***************************************************************************)
EXTENDS Prim, FiniteSets
None == <<"none">>
Methods == [get |-> "GET", post |-> "POST", put |-> "PUT", patch |-> "PATCH", delete |-> "DELETE"]
StartRequest(s) ==
    IF s \in DOMAIN Methods THEN [method |-> Methods[s], url |-> "/start", headers |-> <<>>, body |-> "", extra |-> None]
    ELSE [method |-> "GET", url |-> "/", headers |-> <<>>, body |-> "", extra |-> None]
StartResponse == [status |-> "200", headers |-> <<>>, body |-> "", extra |-> None]

(* one builder call; "rebuild" builds the value and starts again from it *)
Build(v, op) ==
    CASE op[1] = "method" -> [v EXCEPT !.method = op[2]]
      [] op[1] = "url" -> [v EXCEPT !.url = op[2]]
      [] op[1] = "status" -> [v EXCEPT !.status = op[2]]
      [] op[1] = "headers" -> [v EXCEPT !.headers = op[2]]
      [] op[1] = "body" -> [v EXCEPT !.body = op[2]]
      [] op[1] \in {"version", "upgrade"} -> [v EXCEPT !.extra = <<"some", op[2]>>]
      [] op[1] = "rebuild" -> v
      [] op[1] = "add" -> [v EXCEPT !.headers = Append(@, op[2])]
      [] op[1] = "first" -> [v EXCEPT !.headers = <<op[2]>> \o @]
      [] op[1] = "clear" -> [v EXCEPT !.headers = <<>>]
RECURSIVE BuildAll(_, _)
BuildAll(v, ops) == IF ops = <<>> THEN v ELSE BuildAll(Build(v, Head(ops)), Tail(ops))
Update(v) == [v EXCEPT !.extra = None]

(* Values are equal if all their parts are; the order of response headers is not one of them. *)
Times(x, xs) == Cardinality({i \in 1..Len(xs) : xs[i] = x})
SameBag(xs, ys) == Len(xs) = Len(ys) /\ \A i \in 1..Len(xs) : Times(xs[i], xs) = Times(xs[i], ys)
Same(a, b) ==
    IF "method" \in DOMAIN a THEN a = b
    ELSE /\ SameBag(a.headers, b.headers)
         /\ [a EXCEPT !.headers = <<>>] = [b EXCEPT !.headers = <<>>]

(* What the canister interface can carry but is no request or response.    *)
(* the method characters the http crate accepts *)
TokenChars == {"!", "*", "+", "-", ".", "^", "_", "`", "|", "~",
    "0","1","2","3","4","5","6","7","8","9",
    "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
    "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
ValidMethod(m) == m # "" /\ \A i \in 1..Len(m) : SubSeq(m, i, i) \in TokenChars
ValidStatus(s) == DecLeq("100", s) /\ DecLeq(s, "999")
Received(w) == IF IF "method" \in DOMAIN w THEN ValidMethod(w.method) ELSE ValidStatus(w.status)
               THEN <<"ok", w>> ELSE <<"err">>
=============================================================================
