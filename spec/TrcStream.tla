------------------------------ MODULE TrcStream -------------------------------
(* Streams over HTTP: a client (or a plain request) makes a subscription on   *)
(* the server, whose traces it receives, and makes another one after its      *)
(* connection broke.                                                          *)
EXTENDS Trc

VARIABLE hc \* streams

svars == <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm, hc>>

S == 1000000
Unbounded == 1000000000

(* parameters: the client has typed fields, a plain request has tokens *)
ClientInterval(d, def) == IF d = 0 THEN def ELSE Clamp(d, 1 * S, 60 * S)
IsClient(k) == k \in {"client", "cli"} \* cli: the command line tool
BufOf(r) ==
    IF IsClient(r.k) THEN LET n == IF r.buf = <<>> THEN 0 ELSE Clamp(r.buf[1].v, 0, 100000) IN IF n = 0 THEN 100 ELSE n
    ELSE IF r.buf = <<>> \/ ~r.buf[1].ok THEN 100 ELSE Clamp(r.buf[1].v, 0, 100000)
IntervalOf(r) ==
    IF IsClient(r.k) THEN ClientInterval(IF r.stats = <<>> THEN 0 ELSE r.stats[1].v, 10 * S)
    ELSE IF r.stats = <<>> \/ ~r.stats[1].ok \/ r.stats[1].v <= 0 THEN 10 * S ELSE r.stats[1].v
RetryOf(r) == ClientInterval(r.retry, 3 * S)

Zero == [sk |-> 0, se |-> 0, dr |-> 0]
(* `trc stream` streams traces when they finish, or all their events *)
CliFilter(op) == IF op.r.k = "cli" THEN [op.f EXCEPT !.act = FALSE, !.fin = ~op.co.ev] ELSE op.f
MkStream(op) ==
    [ st |-> "wait", kind |-> op.r.k, b |-> op.b, f |-> CliFilter(op), loose |-> op.r.loose,
      cap |-> BufOf(op.r), int |-> IntervalOf(op.r), retry |-> RetryOf(op.r),
      j |-> 0,           \* its subscription
      new |-> FALSE,     \* just connected
      ninit |-> 0, nconn |-> 0,
      at |-> now, due |-> now, late |-> FALSE, fails |-> op.r.fails, refuse |-> IF op.r.code = "" /\ op.f.bad THEN "err" ELSE op.r.code, pause |-> Max2(0, op.r.retry), cx |-> FALSE, gate |-> TRUE, lag |-> FALSE,
      off |-> 0,         \* items of the subscription considered
      acc |-> <<>>,      \* accepted by the server's buffer, not received
      ns |-> 0,          \* periodic counts received
      last |-> Zero, ret |-> "-" ]
MkSub(b, f) == [MkChan(Unbounded) EXCEPT !.on = TRUE, !.b = b, !.f = f]

Core == <<now, gmax, gstk, tr, col, hnd, reg, cell, log, qm>>

Stop(h) == IF h.j = 0 THEN sub ELSE [sub EXCEPT ![h.j].on = FALSE]

(* the connection breaks: the client will reconnect *)
BreakStream(k) ==
    LET h == hc[k] IN
    /\ IF h.st # "on" THEN UNCHANGED <<sub, hc>>
       ELSE /\ sub' = Stop(h)
            /\ hc' = [hc EXCEPT ![k] = IF IsClient(h.kind) THEN [h EXCEPT !.st = "wait", !.due = now + h.retry]
                                          ELSE [h EXCEPT !.st = "end", !.ret = "ok"]]
    /\ UNCHANGED Core

(* a cancelled client disconnects at once and returns within its retry interval *)
CancelStream(k) ==
    LET h == hc[k] IN
    /\ IF h.st = "on" THEN sub' = Stop(h) /\ hc' = [hc EXCEPT ![k] = IF IsClient(h.kind) THEN [h EXCEPT !.st = "wait", !.cx = TRUE, !.due = now + h.retry]
                                                                       ELSE [h EXCEPT !.st = "end", !.cx = TRUE, !.ret = "ok"]]
       ELSE sub' = sub /\ hc' = [hc EXCEPT ![k].cx = TRUE]
    /\ UNCHANGED Core

(* the server refuses the next n connections *)
FailStream(k, n) == hc' = [hc EXCEPT ![k].fails = n] /\ UNCHANGED <<Core, sub>>
(* ... and then one, in a way that is not worth another try *)
RefuseStream(k, ret) == hc' = [hc EXCEPT ![k].refuse = ret] /\ UNCHANGED <<Core, sub>>
(* the client stops or continues reading *)
GateStream(k, on) == hc' = [hc EXCEPT ![k] = [@ EXCEPT !.gate = on, !.lag = @ \/ ~on]] /\ UNCHANGED <<Core, sub>>

(* reconnects until time t *)
RECURSIVE Retry(_, _)
Retry(h, t) ==
    IF h.st # "wait" \/ h.due > t THEN h
    ELSE IF h.cx THEN [h EXCEPT !.st = "end", !.ret = "ok", !.late = TRUE]
    ELSE IF h.fails > 0 THEN Retry([h EXCEPT !.fails = @ - 1, !.due = @ + h.retry], t)
    ELSE IF h.refuse # "" THEN IF h.kind = "cli" THEN Retry([h EXCEPT !.refuse = "", !.due = @ + h.pause], t) \* tries again
                               ELSE [h EXCEPT !.st = "end", !.ret = h.refuse]
    ELSE [h EXCEPT !.st = "on", !.new = TRUE, !.nconn = @ + 1, !.at = h.due, !.off = 0, !.acc = <<>>, !.ns = 0, !.last = Zero, !.lag = ~h.gate]

OpenStream(op) ==
    LET h == Retry(MkStream(op), now) IN
    /\ IF h.st # "on" THEN hc' = Append(hc, h) /\ UNCHANGED sub
       ELSE /\ sub' = Append(sub, MkSub(h.b, h.f))
            /\ hc' = Append(hc, [h EXCEPT !.j = Len(sub) + 1])
    /\ UNCHANGED Core

TickStreams(d) ==
    LET h1 == [k \in 1..Len(hc) |-> Retry(hc[k], now + d)]
        nw == SelectSeq([k \in 1..Len(hc) |-> k], LAMBDA k : hc[k].st # "on" /\ h1[k].st = "on")
        ix(k) == CHOOSE i \in 1..Len(nw) : nw[i] = k
    IN  /\ now' = now + d
        /\ sub' = sub \o [i \in 1..Len(nw) |-> MkSub(h1[nw[i]].b, h1[nw[i]].f)]
        /\ hc' = [k \in 1..Len(hc) |-> IF \E i \in 1..Len(nw) : nw[i] = k THEN [h1[k] EXCEPT !.j = Len(sub) + ix(k)] ELSE h1[k]]
        /\ UNCHANGED <<gmax, gstk, tr, col, hnd, reg, cell, log, qm>>
===============================================================================
