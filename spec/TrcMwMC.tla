------------------------------- MODULE TrcMwMC --------------------------------
(* Every handler, up to Depth calls of its response writer, that ends in      *)
(* every way: the response writer's guarantees are checked, and the scripts   *)
(* are printed, so that they can be executed by the real code, with and       *)
(* without the middleware. TrcMw judges the outcome.                          *)
EXTENDS TrcHTTP, Json

CONSTANTS Profile, Depth

VARIABLES q, hist
mwvars == <<q, hist>>

Open(m, direct, fl) == [o |-> "mwopen", cat |-> "c", mr |-> [direct |-> direct, fl |-> fl, m |-> m, u |-> "/x%25d", hd |-> <<>>, body |-> 0]]
Length(n) == [o |-> "mwset", j |-> 1, name |-> "Content-Length", v |-> ToString(n), n |-> n]
Header    == [o |-> "mwset", j |-> 1, name |-> "X-One", v |-> "1"]
Status(c) == [o |-> "mwhead", j |-> 1, n |-> c]
Write(n, style) == [o |-> "mww", j |-> 1, n |-> n, style |-> style]
Flush(style) == [o |-> "mwf", j |-> 1, style |-> style]
Break     == [o |-> "mwbreak", j |-> 1]
Ev        == [o |-> "ev", h |-> 1, k |-> "E", p |-> <<[s |-> "e%d", c |-> 0]>>]
Fin       == [o |-> "fin", h |-> 1]
Change    == [o |-> "mwmod", j |-> 1, style |-> 0]
Adv       == [o |-> "tick", d |-> 1500]
End(k)    == [o |-> "mwend", j |-> 1, k |-> k]

Opens == {Open("GET", FALSE, TRUE), Open("HEAD", FALSE, TRUE), Open("GET", TRUE, TRUE), Open("POST", TRUE, FALSE)}
Calls ==
    {Status(c) : c \in {103, 200, 204, 404} \cup (IF q.direct THEN {101} ELSE {})} \cup {Write(0, 0), Write(4, 0), Write(4, 1), Write(6, 2), Write(3001, 0), Flush(0), Flush(1), Ev, Adv}
    \cup (IF q.cl < 0 THEN {Length(5)} ELSE {}) \cup (IF q.direct THEN {} ELSE {Break}) \cup {Header, Fin, Change}
Start == <<[o |-> "col", b |-> 1, src |-> "s"]>>

Apply(op) ==
    CASE op.o = "mwset"  -> IF op.name = "Content-Length" THEN SetLength(q, op.n) ELSE q
      [] op.o = "mwhead" -> WriteHead(q, op.n)
      [] op.o = "mww"    -> WriteBody(q, op.n, Accepts(Implicit(q), op.n))
      [] op.o = "mwf"    -> FlushOut(q)
      [] op.o = "mwbreak" -> GoAway(q)
      [] op.o = "mwend"  -> EndOf(q)
      [] OTHER           -> q

MwInit == \E op \in Opens : q = MkResponse(op.mr.m, op.mr.direct, op.mr.fl) /\ hist = Append(Start, op)
MwNext ==
    /\ q.on
    /\ \E op \in IF Len(hist) < 2 + Depth THEN Calls ELSE {End(k) : k \in {"none", "value", "error", "abort"}} :
         /\ q' = Apply(op)
         /\ hist' = Append(hist, op)

Emit == ~q.on => PrintT("OPS " \o ToJson(hist))

(* what was counted was accepted *)
Sizes == /\ q.n <= q.att \/ q.direct
         /\ ~q.direct /\ NoBody(q.code) => q.n = 0
         /\ ~q.direct /\ q.cl >= 0 => q.n <= q.cl
         /\ q.n > 0 => Final(q.code)
         /\ Visible(q) <= q.n
(* the status is decided once *)
Decided == [][q.code # 0 => q'.code = q.code]_mwvars
Grows   == [][q'.n >= q.n /\ q'.att >= q.att]_mwvars
===============================================================================
