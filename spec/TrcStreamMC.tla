------------------------------ MODULE TrcStreamMC -----------------------------
(* Every behaviour of Depth steps of streams over HTTP: clients that connect, *)
(* lose their connection, are refused, stop reading, are cancelled, while     *)
(* traces come and go and time passes. Guarantees of the state machine        *)
(* TrcStream are checked, and the behaviours are printed, so that they can be *)
(* executed by the real client and server; TrcWeb judges the outcome.         *)
EXTENDS TrcStream, Json

CONSTANTS Profile, Depth

VARIABLE hist
smvars == <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm, hc, hist>>

NoFilter == [src |-> <<>>, ids |-> <<>>, cat |-> "", act |-> FALSE, fin |-> FALSE, min |-> <<>>, suc |-> FALSE, err |-> FALSE, q |-> "", bad |-> FALSE]
Fins == [NoFilter EXCEPT !.fin = TRUE]
Tok(n) == <<[raw |-> ToString(n), ok |-> TRUE, v |-> n]>>
Client(fails) == [k |-> "client", buf |-> Tok(10), stats |-> Tok(2 * S), retry |-> 1 * S, own |-> FALSE, loose |-> FALSE, fails |-> fails, code |-> ""]
Plain == [k |-> "url", buf |-> Tok(1), stats |-> <<[raw |-> "2s", ok |-> TRUE, v |-> 2 * S]>>, retry |-> 0, own |-> FALSE, loose |-> FALSE, fails |-> 0, code |-> ""]

HOpen(sr, f) == [o |-> "hopen", c |-> 1, b |-> 1, f |-> f, sr |-> sr]
HBreak(k)    == [o |-> "hbreak", j |-> k]
HCancel(k)   == [o |-> "hcancel", j |-> k]
HFail(k, n)  == [o |-> "hfail", j |-> k, n |-> n, on |-> n = 1]
HGate(k, on) == [o |-> "hgate", j |-> k, on |-> on]
Col          == [o |-> "col", b |-> 1, src |-> "s"]
New(k)       == [o |-> "new", c |-> 1, cat |-> k]
Ev(h, k)     == [o |-> "ev", h |-> h, k |-> k, p |-> <<[s |-> "x&y", c |-> 0]>>]
Fin(h)       == [o |-> "fin", h |-> h]
Adv(d)       == [o |-> "tick", d |-> d]

Ks == 1..Len(hc)
Start ==
    CASE Profile = "stream1" -> <<Col, New("a"), HOpen(Client(0), NoFilter)>>
      [] Profile = "stream2" -> <<Col, New("a")>>
Alphabet ==
    {New("b"), Ev(1, "T"), Fin(Len(hnd)), Adv(1 * S), Adv(2 * S)}
    \cup (IF Profile = "stream2" /\ Len(hc) < 2 THEN {HOpen(Client(0), Fins), HOpen(Client(1), NoFilter), HOpen(Plain, NoFilter)} ELSE {})
    \cup {HBreak(k) : k \in {i \in Ks : hc[i].gate}} \cup {HCancel(k) : k \in {i \in Ks : hc[i].gate /\ ~hc[i].cx}}
    \cup {HFail(k, n) : n \in {0, 1, 2}, k \in {i \in Ks : hc[i].kind = "client"}}
    \cup {HGate(k, ~hc[k].gate) : k \in {i \in Ks : hc[i].st = "on" \/ ~hc[i].gate}}
RECURSIVE CatAll(_)
CatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatAll(Tail(ss))
Tail0 ==
    CatAll([k \in Ks |-> IF hc[k].gate THEN <<>> ELSE <<HGate(k, TRUE)>>]) \o <<Ev(1, "E"), Adv(1000)>>
    \o [k \in Ks |-> HCancel(k)] \o <<Adv(190 * S)>>

Steps(op) ==
    CASE op.o = "hopen"   -> OpenStream([r |-> op.sr, f |-> op.f, b |-> op.b])
      [] op.o = "hbreak"  -> BreakStream(op.j)
      [] op.o = "hcancel" -> CancelStream(op.j)
      [] op.o = "hfail"   -> FailStream(op.j, op.n)
      [] op.o = "hgate"   -> GateStream(op.j, op.on)
      [] op.o = "tick"    -> TickStreams(op.d)
      [] op.o = "col"     -> NewCollector(op.src, op.b, FALSE, <<>>) /\ UNCHANGED hc
      [] op.o = "new"     -> NewTrace(op.c, op.cat) /\ UNCHANGED hc
      [] op.o = "ev"      -> Event(op.h, op.k, op.p, <<>>) /\ UNCHANGED hc
      [] op.o = "fin"     -> Finish(op.h) /\ UNCHANGED hc

SMInit == Init0 /\ cell = <<>> /\ qm = [x \in {} |-> {}] /\ hc = <<>> /\ hist = <<>>
SMNext ==
    /\ Len(hist) < Len(Start) + Depth
    /\ \E op \in IF Len(hist) < Len(Start) THEN {Start[Len(hist) + 1]} ELSE Alphabet :
         Steps(op) /\ hist' = Append(hist, op)

Emit == Len(hist) = Len(Start) + Depth => PrintT("OPS " \o ToJson(hist \o Tail0))

(* one subscription for each stream that is connected, and no other *)
OneEach ==
    /\ \A k \in Ks : hc[k].st = "on" => hc[k].j # 0 /\ sub[hc[k].j].on
    /\ \A j \in 1..Len(sub) : sub[j].on => Cardinality({k \in Ks : hc[k].st = "on" /\ hc[k].j = j}) = 1
(* a stream that waits has something to wait for; it is never forgotten *)
Waits == \A k \in Ks : hc[k].st = "wait" => hc[k].due > now /\ hc[k].due <= now + hc[k].retry
(* a plain request does not come back *)
Once  == \A k \in Ks : hc[k].kind = "url" => hc[k].nconn <= 1
(* a cancelled stream gets nothing more, and ends *)
Cancelled == \A k \in Ks : hc[k].cx => hc[k].st # "on"
(* what a subscription is offered is what its trace published since *)
Offered == \A j \in 1..Len(sub) : sub[j].dr = 0 /\ \A i \in 1..Len(sub[j].buf) : sub[j].f.fin => sub[j].buf[i].fin
Ends == [][\A k \in Ks : hc[k].st = "end" => hc'[k].st = "end" /\ hc'[k].nconn = hc[k].nconn]_smvars
Prompt == [][\A k \in Ks : hc[k].cx /\ hc[k].st = "wait" /\ now' >= hc[k].due => hc'[k].st = "end"]_smvars
===============================================================================
