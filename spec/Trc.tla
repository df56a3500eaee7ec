--------------------------------- MODULE Trc ---------------------------------
(* The state machine: what a program that uses trc can do, and what happens.  *)
(* Each action is one call of the public interface, taken as atomic; calls    *)
(* that overlap are in TrcConc.                                               *)
EXTENDS TrcData

VARIABLES
    now,   \* clock
    gmax,  \* global event limit
    gstk,  \* global stack setting
    tr,    \* all traces ever created, in order of creation
    col,   \* collectors: [src, cap, cats, b (broker), lg (log decorator), pf (of other decorators)]
    hnd,   \* handles: a (decorated) trace in a context: [t, pf (prefix pieces)]
    reg,   \* open regions: [h (surrounding handle), name, at]
    sub,   \* channels: [on, b, f, cap, buf, sk, se, dr]
    cell,  \* mutable arguments
    log,   \* lines written by log decorators: [t, k, s, d]
    qm     \* what queries match (constant)

vars == <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm>>

Init0 ==
    /\ now = 0 /\ gmax = MaxEventsDefault /\ gstk = TRUE
    /\ tr = <<>> /\ col = <<>> /\ hnd = <<>> /\ reg = <<>> /\ sub = <<>> /\ log = <<>>

BrokerOf(t) == IF t.c = 0 THEN 0 ELSE col[t.c].b
Listeners(b) == {i \in 1..Len(sub) : sub[i].on /\ sub[i].b = b}

(* publish trace number i, with contents t, to all subscribers of its broker  *)
Publish(ss, i, t) ==
    [j \in 1..Len(ss) |->
        IF t.c # 0 /\ ss[j].on /\ ss[j].b = BrokerOf(t)
        THEN Offer(ss[j], Allow(ss[j].f, StreamView(i, t, now, cell, qm, ss[j].f)), StreamItem(i, t, now))
        ELSE ss[j]]
(* publishing evaluates lazy arguments *)
Touched(t) == IF t.c # 0 /\ Listeners(BrokerOf(t)) # {} THEN PeekAll(t, cell) ELSE t

LogLine(i, t, k, s, d) == IF t.lg THEN Append(log, [t |-> i, k |-> k, s |-> s, d |-> d]) ELSE log

Tick(d) ==
    /\ now' = now + d
    /\ UNCHANGED <<gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm>>

SetGlobalMax(n) ==
    /\ gmax' = ClampMaxEvents(n)
    /\ UNCHANGED <<now, gstk, tr, col, hnd, reg, sub, cell, log, qm>>

SetGlobalStacks(on) ==
    /\ gstk' = on
    /\ UNCHANGED <<now, gmax, tr, col, hnd, reg, sub, cell, log, qm>>

SetCell(i, s) ==
    /\ cell' = [cell EXCEPT ![i] = s]
    /\ UNCHANGED <<now, gmax, gstk, tr, col, hnd, reg, sub, log, qm>>

(* pf: what the decorators of the caller put in front of texts *)
NewCollector(src, b, lg, pf) ==
    /\ col' = Append(col, [src |-> IF src = "" THEN "default" ELSE src, cap |-> 1000, cats |-> [x \in {} |-> <<>>], b |-> b, lg |-> lg, pf |-> pf])
    /\ UNCHANGED <<now, gmax, gstk, tr, hnd, reg, sub, cell, log, qm>>

(* other decorators: for the traces created from now on *)
SetDecorators(c, lg, pf) ==
    /\ col' = [col EXCEPT ![c].lg = lg, ![c].pf = pf]
    /\ UNCHANGED <<now, gmax, gstk, tr, hnd, reg, sub, cell, log, qm>>

SetSource(c, s) ==
    /\ col' = [col EXCEPT ![c].src = s]
    /\ UNCHANGED <<now, gmax, gstk, tr, hnd, reg, sub, cell, log, qm>>

(* A dropped trace that is finished may lose its events. *)
Lose(ts, D0) == \* (the function is there to evaluate D0 only once)
    [D \in {D0} |-> [i \in 1..Len(ts) |-> IF i \in D /\ ts[i].fin THEN [ts[i] EXCEPT !.lost = TRUE] ELSE ts[i]]][D0]

Resize(c, n) ==
    LET C == col[c] IN
    /\ IF n <= 0 THEN UNCHANGED <<col, tr>>
       ELSE /\ col' = [col EXCEPT ![c].cap = n, ![c].cats = [k \in DOMAIN C.cats |-> TakeFirst(C.cats[k], n)]]
            /\ tr' = Lose(tr, UNION {Range(SubSeq(C.cats[k], n + 1, Len(C.cats[k]))) : k \in DOMAIN C.cats})
    /\ UNCHANGED <<now, gmax, gstk, hnd, reg, sub, cell, log, qm>>

(* a new trace outside of any collector; lg: with log decorator *)
NewCore(src, cat, lg) ==
    LET t == MkTrace(src, cat, now, gmax, gstk, 0, lg)
        i == Len(tr) + 1
    IN  /\ tr' = Append(tr, t)
        /\ hnd' = Append(hnd, [t |-> i, pf |-> <<>>])
        /\ log' = LogLine(i, t, "new", src \o "/" \o cat, 0)
        /\ UNCHANGED <<now, gmax, gstk, col, reg, sub, cell, qm>>

(* a new trace in collector c, in a context without trace *)
NewTrace(c, cat) ==
    LET C    == col[c]
        t    == MkTrace(C.src, cat, now, gmax, gstk, c, C.lg)
        i    == Len(tr) + 1
        old  == IF cat \in DOMAIN C.cats THEN C.cats[cat] ELSE <<>>
        keep == TakeFirst(<<i>> \o old, C.cap)
        drop == Range(SubSeq(<<i>> \o old, C.cap + 1, Len(old) + 1))
    IN  /\ tr' = Append(Lose(tr, drop), t)
        /\ col' = [col EXCEPT ![c].cats = [k \in DOMAIN C.cats \cup {cat} |-> IF k = cat THEN keep ELSE C.cats[k]]]
        /\ hnd' = Append(hnd, [t |-> i, pf |-> C.pf])
        /\ sub' = Publish(sub, i, t)
        /\ log' = LogLine(i, t, "new", C.src \o "/" \o cat, 0)
        /\ UNCHANGED <<now, gmax, gstk, reg, cell, qm>>

(* n new traces in a row that nobody watches, each k-th of which is finished at once *)
NewTraces(c, cat, n, k) ==
    LET C    == col[c]
        t    == MkTrace(C.src, cat, now, gmax, gstk, c, C.lg)
        i    == Len(tr)
        ts   == [j \in 1..n |-> IF k > 0 /\ j % k = 0 THEN FinishTrace(t, now) ELSE t]
        old  == IF cat \in DOMAIN C.cats THEN C.cats[cat] ELSE <<>>
        all  == [j \in 1..n |-> i + n + 1 - j] \o old
    IN  /\ sub = <<>> /\ ~C.lg
        /\ tr' = Lose(tr \o ts, Range(SubSeq(all, C.cap + 1, Len(all))))
        /\ col' = [col EXCEPT ![c].cats = [x \in DOMAIN C.cats \cup {cat} |-> IF x = cat THEN TakeFirst(all, C.cap) ELSE C.cats[x]]]
        /\ hnd' = hnd \o [j \in 1..n |-> [t |-> i + j, pf |-> C.pf]]
        /\ UNCHANGED <<now, gmax, gstk, reg, sub, cell, log, qm>>

(* an event through handle h; rd >= 0: end of a region of that duration *)
DoEvent(h, kind, p, fr) ==
    LET i    == hnd[h].t
        full == hnd[h].pf \o p
        ise  == kind \in {"E", "LE"}
        ev   == MkEvent(now, ise, kind \in {"LT", "LE"}, full, cell, fr)
        t1   == AddEvent(tr[i], ev)
        t2   == Touched(t1)
    IN  /\ tr' = [tr EXCEPT ![i] = t2]
        /\ sub' = Publish(sub, i, t2)
        /\ log' = LogLine(i, t1, IF ise THEN "err" ELSE "ev", Text(full, cell), 0)
        /\ UNCHANGED <<now, gmax, gstk, col, cell, qm>>

Event(h, kind, p, fr) == DoEvent(h, kind, p, fr) /\ UNCHANGED <<hnd, reg>>

(* n events in a row, numbered, of a trace that nobody watches *)
Events(h, kind, s, n, fr) ==
    LET i   == hnd[h].t
        ise == kind \in {"E", "LE"}
        evs == [j \in 1..n |-> MkEvent(now, ise, kind \in {"LT", "LE"}, hnd[h].pf \o <<[s |-> s \o ToString(j), c |-> 0]>>, cell, fr)]
        t1  == AddEvents(tr[i], evs)
    IN  /\ sub = <<>> /\ ~tr[i].lg
        /\ tr' = [tr EXCEPT ![i] = Touched(t1)]
        /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, sub, cell, log, qm>>

(* creating a trace in a context that has one: the existing one is returned *)
NewInContext(h, cat, fr) ==
    /\ DoEvent(h, "LT", <<[s |-> "(+ " \o cat \o ")", c |-> 0]>>, fr)
    /\ hnd' = Append(hnd, hnd[h])
    /\ UNCHANGED reg

Prefix(h, p) ==
    /\ hnd' = Append(hnd, IF p = <<>> THEN hnd[h] ELSE [hnd[h] EXCEPT !.pf = @ \o p \o <<[s |-> " ", c |-> 0]>>])
    /\ UNCHANGED <<now, gmax, gstk, tr, col, reg, sub, cell, log, qm>>

Region(h, name, fr) ==
    /\ DoEvent(h, "LT", <<[s |-> "<U+2192> " \o name, c |-> 0]>>, fr)
    /\ hnd' = Append(hnd, [hnd[h] EXCEPT !.pf = @ \o <<[s |-> "<U+00B7> ", c |-> 0]>>])
    /\ reg' = Append(reg, [h |-> h, name |-> name, at |-> now])

(* the duration in the text is represented by [D=us] *)
EndRegion(r, fr) ==
    /\ DoEvent(reg[r].h, "LT", <<[s |-> "<U+2190> " \o reg[r].name \o " [D]", c |-> 0]>>, fr)
    /\ UNCHANGED <<hnd, reg>>

Finish(h) ==
    LET i  == hnd[h].t
        t1 == FinishTrace(tr[i], now)
        t2 == Touched(t1)
    IN  /\ tr' = [tr EXCEPT ![i] = t2]
        /\ sub' = Publish(sub, i, t2)
        /\ log' = LogLine(i, t2, "fin", IF t2.err THEN "errored" ELSE "success", t2.du)
        /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, cell, qm>>

SetMax(h, n) ==
    /\ tr' = [tr EXCEPT ![hnd[h].t].max = ClampMaxEvents(n)]
    /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, sub, cell, log, qm>>

(*------------------------------ subscriptions -----------------------------*)
MkChan(cap) == [on |-> FALSE, b |-> 0, f |-> 0, cap |-> cap, buf |-> <<>>, sk |-> 0, se |-> 0, dr |-> 0]
NewChan(cap) ==
    /\ sub' = Append(sub, MkChan(cap))
    /\ UNCHANGED <<now, gmax, gstk, tr, col, hnd, reg, cell, log, qm>>

(* fails (no effect) if already subscribed *)
Subscribe(j, b, f) ==
    /\ sub' = IF sub[j].on THEN sub
              ELSE [sub EXCEPT ![j] = [@ EXCEPT !.on = TRUE, !.b = b, !.f = f, !.sk = 0, !.se = 0, !.dr = 0]]
    /\ UNCHANGED <<now, gmax, gstk, tr, col, hnd, reg, cell, log, qm>>

Unsubscribe(j) ==
    /\ sub[j].on
    /\ sub' = [sub EXCEPT ![j].on = FALSE]
    /\ UNCHANGED <<now, gmax, gstk, tr, col, hnd, reg, cell, log, qm>>

Receive(j) ==
    /\ sub[j].buf # <<>>
    /\ sub' = [sub EXCEPT ![j].buf = Tail(@)]
    /\ UNCHANGED <<now, gmax, gstk, tr, col, hnd, reg, cell, log, qm>>

(*---------------------------------- search --------------------------------*)
(* A searcher: [k |-> "col", c] / "err" / "nil" / "reserr" (result and error) *)
(* / "prob" (result with a problem) / [k |-> "multi", s |-> Seq(searcher)].   *)
Leaf == {"col", "reserr", "prob"}
RECURSIVE SearchBy(_, _), ProblemsBy(_), SourcesBy(_)
SearchBy(s, req) ==
    IF s.k \in Leaf THEN SearchCats(col[s.c].cats, tr, now, cell, qm, req.f, req.lim, req.b, s.sk)
    ELSE IF s.k = "multi" THEN CombineRes([i \in 1..Len(s.s) |-> SearchBy(s.s[i], req)], req.lim)
    ELSE [total |-> 0, match |-> 0, ids |-> <<>>, stats |-> {}]
(* problems apart from those of the request *)
ProblemsBy(s) ==
    IF s.k \in {"err", "nil"} THEN 1
    ELSE IF s.k = "reserr" THEN 2
    ELSE IF s.k = "prob" THEN 1
    ELSE IF s.k = "multi" THEN SumUp([i \in 1..Len(s.s) |-> ProblemsBy(s.s[i])])
    ELSE 0
SourcesBy(s) ==
    IF s.k \in Leaf THEN {col[s.c].src}
    ELSE IF s.k = "multi" THEN UNION {SourcesBy(s.s[i]) : i \in 1..Len(s.s)}
    ELSE {}

(* searching evaluates lazy arguments of what is retained *)
RECURSIVE Retained(_)
Retained(s) ==
    IF s.k \in Leaf THEN UNION {Range(col[s.c].cats[k]) : k \in DOMAIN col[s.c].cats}
    ELSE IF s.k = "multi" THEN UNION {Retained(s.s[i]) : i \in 1..Len(s.s)}
    ELSE {}
=============================================================================
