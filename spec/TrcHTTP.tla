------------------------------- MODULE TrcHTTP --------------------------------
(* The response writer of net/http, as far as status and size of the response *)
(* are concerned: a request in progress is a record                           *)
(*   code: status (0: none yet), n: bytes accepted, att: bytes tried, cl:     *)
(*   Content-Length (-1: none), m: method, fl: can be flushed, gone: the      *)
(*   client went away, on: the handler runs; direct: a response writer that   *)
(*   is not that of the server, and accepts at most 3000 bytes at a time.     *)
EXTENDS TrcData

MkResponse(m, direct, fl) ==
    [code |-> 0, att |-> 0, n |-> 0, cl |-> -1, m |-> m, direct |-> direct, fl |-> fl, gone |-> FALSE, on |-> TRUE]

Implicit(q) == [q EXCEPT !.code = IF @ = 0 THEN 200 ELSE @]
Final(c) == c >= 200 \/ c = 101
NoBody(c) == c \in {204, 304}
(* how much of n bytes is accepted *)
Accepts(q, n) ==
    IF q.direct THEN Min2(n, 3000)
    ELSE IF n = 0 \/ NoBody(q.code) \/ (q.cl >= 0 /\ q.att + n > q.cl) THEN 0
    ELSE n

(* how much of it the client gets *)
Visible(q) == IF q.m = "HEAD" /\ ~q.direct THEN 0 ELSE q.n

(* the calls of the handler *)
SetLength(q, cl) == [q EXCEPT !.cl = IF q.code = 0 /\ cl >= 0 THEN cl ELSE @]
(* the first status that is not informational counts *)
WriteHead(q, code) == [q EXCEPT !.code = IF @ = 0 /\ Final(code) THEN code ELSE @]
(* r: what was accepted *)
WriteBody(q, n, r) == LET i == Implicit(q) IN [i EXCEPT !.n = @ + r, !.att = @ + (IF NoBody(i.code) THEN 0 ELSE n)]
FlushOut(q) == IF q.fl THEN Implicit(q) ELSE q
GoAway(q) == [q EXCEPT !.gone = TRUE]
EndOf(q) == [q EXCEPT !.on = FALSE]

(*----------------------------- sizes, as shown ----------------------------*)
Half(n, d) == LET q == n \div d
                  r == n % d
              IN  IF 2 * r > d \/ (2 * r = d /\ q % 2 = 1) THEN q + 1 ELSE q
One(n, d) == LET x == Half(n * 10, d) IN ToString(x \div 10) \o "." \o ToString(x % 10)
KiB == 1024
MiB == 1024 * 1024
Bytes(n) ==
    IF n < KiB THEN ToString(n) \o ".0B"
    ELSE IF n < 100 * KiB THEN One(n, KiB) \o "KB"
    ELSE IF n < MiB THEN ToString(Half(n, KiB)) \o "KB"
    ELSE One(n, MiB) \o "MB"
===============================================================================
