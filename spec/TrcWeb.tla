-------------------------------- MODULE TrcWeb --------------------------------
(* Judges recorded runs with streams over HTTP (TrcStream), like TrcReplay;   *)
(* what the streams did is observed after every call (hobs).                  *)
EXTENDS TrcReplay, TrcStream

wvars == <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm, run, pos, bad, hc>>

(*------------------------------ observations ------------------------------*)
ItemBad(it, v) ==
    LET t == tr[it.t] IN
    IF v.t # it.t THEN {[g |-> "hs.recv", m |-> ToString(<<it, v>>)]}
    ELSE E("hs.item", [src |-> t.src, cat |-> t.cat, st |-> t.st, fin |-> it.fin, err |-> it.err, du |-> it.du],
                      [src |-> v.src, cat |-> v.cat, st |-> v.st, fin |-> v.fin, err |-> v.err, du |-> v.du])
         \cup {[b EXCEPT !.g = "hs.item"] : b \in EventsBad(t, it.k, it.m, v.ev, "no", 0, it.at)}

RECURSIVE Some(_, _)
Some(p, r) ==
    IF r = <<>> THEN TRUE ELSE IF p = <<>> THEN FALSE
    ELSE IF ItemBad(Head(p), Head(r)) = {} THEN Some(Tail(p), Tail(r)) ELSE Some(Tail(p), r)

(* what was accepted by the server's buffer since the last observation *)
NewItems(h) == IF h.j = 0 THEN <<>> ELSE SubSeq(sub[h.j].buf, h.off + 1, Len(sub[h.j].buf))
Dropped(h, o) == IF h.loose \/ h.st # "on" THEN 0 ELSE o.s.dr - h.last.dr
Accepted(h, o) == IF Dropped(h, o) > 0 THEN SubSeq(NewItems(h), 1, Max2(0, Len(NewItems(h)) - Dropped(h, o))) ELSE NewItems(h)
Pending(h, o) == h.acc \o Accepted(h, o)

StreamBad(h, o) ==
    LET p == Pending(h, o)
        n == Len(o.recv)
        conns == [i \in 1..Len(o.conns) |-> [o.conns[i] EXCEPT !.f = AsSets(@)]]
    IN  E("hs.active", IF h.st = "on" THEN 1 ELSE 0, o.nact)
        \* a client cancelled while it waits to reconnect may still connect, briefly
        \cup B("hs.conn", \/ conns = IF h.new THEN <<[at |-> h.at, cap |-> h.cap, f |-> AsSets(NormFilter(h.f))]>> ELSE <<>>
                          \/ h.late /\ conns = <<[at |-> h.due, cap |-> h.cap, f |-> AsSets(NormFilter(h.f))]>>, h, o.conns)
        \cup B("hs.ret", o.ret = h.ret \/ (h.cx /\ h.st = "wait" /\ o.ret = "ok") \/ (h.cx /\ o.ret = h.refuse), h.ret, o.ret)
        \cup E("hs.own", 0, o.own) \cup E("hs.type", <<>>, o.other)
        \cup UNION {E("hs.init", [f |-> AsSets(NormFilter(h.f)), cap |-> h.cap], [o.inits[i] EXCEPT !.f = AsSets(@)]) : i \in 1..Len(o.inits)}
        \cup B("hs.init", IF h.kind = "cli" THEN TRUE ELSE IF h.gate /\ ~h.cx THEN h.ninit + Len(o.inits) = h.nconn ELSE h.ninit + Len(o.inits) <= h.nconn, h.nconn, h.ninit + Len(o.inits))
        \cup (IF h.loose \/ h.st # "on" \/ o.nact # 1 THEN {}
              ELSE E("hs.count", <<sub[h.j].sk, sub[h.j].se>>, <<o.s.sk, o.s.se + o.s.dr>>)
                   \cup B("hs.drop", Dropped(h, o) = 0 \/ (Dropped(h, o) > 0 /\ Len(p) >= h.cap), h.acc, o.s))
        \* what is received
        \cup (IF h.cx THEN B("hs.recv", Some(p, o.recv), p, o.recv) \* what it was handing over when cancelled may be lost
              ELSE IF n > Len(p) THEN {[g |-> "hs.recv", m |-> ToString(<<p, o.recv>>)]}
              ELSE UNION {ItemBad(p[i], o.recv[i]) : i \in 1..n}
                   \cup B("hs.recv", ~(h.gate /\ h.st = "on") \/ n = Len(p), p, o.recv))
        \* periodic counts
        \cup (IF h.kind = "cli" \/ h.lag \/ h.loose \/ h.st # "on" THEN {}
              ELSE E("hs.stats", [i \in 1..Max2(0, (now - h.at) \div h.int - h.ns) |-> [at |-> h.at + (h.ns + i) * h.int, s |-> h.last]], o.stats))

Observed(h, o) ==
    LET p == Pending(h, o) IN
    [h EXCEPT !.new = FALSE, !.late = FALSE, !.ninit = @ + Len(o.inits), !.last = o.s,
              !.ns = IF h.lag THEN (now - h.at) \div h.int ELSE @ + Len(o.stats), \* a client that did not read missed some
              !.lag = @ /\ ~h.gate,
              !.off = IF h.j = 0 THEN 0 ELSE Len(sub[h.j].buf),
              !.acc = SubSeq(p, Min2(Len(p), Len(o.recv)) + 1, Len(p))]

DoObs ==
    /\ Ok(UNION {StreamBad(hc[k], Op.c[k]) : k \in 1..Len(hc)})
    /\ hc' = [k \in 1..Len(hc) |-> Observed(hc[k], Op.c[k])]
    /\ Keep

WDo ==
    CASE Op.o = "hopen"   -> OpenStream(Op) /\ Ok({})
      [] Op.o = "hbreak"  -> BreakStream(Op.k) /\ Ok({})
      [] Op.o = "hcancel" -> CancelStream(Op.k) /\ Ok({})
      [] Op.o = "hfail"   -> FailStream(Op.k, Op.n) /\ Ok({})
      [] Op.o = "hcode"   -> RefuseStream(Op.k, Op.ret) /\ Ok({})
      [] Op.o = "hgate"   -> GateStream(Op.k, Op.on) /\ Ok({})
      [] Op.o = "tick"    -> TickStreams(Op.d) /\ Ok({})
      [] Op.o = "hobs"    -> DoObs
      [] OTHER            -> Do /\ UNCHANGED hc

WInit == Init /\ hc = <<>>
WNext ==
    /\ pos <= Len(Runs[run].ops)
    /\ WDo
    /\ pos' = pos + 1 /\ run' = run
WSpec == WInit /\ [][WNext]_wvars
===============================================================================
