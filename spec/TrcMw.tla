-------------------------------- MODULE TrcMw ---------------------------------
(* The HTTP middleware: each request makes a trace, which records what the    *)
(* handler answers. Judges recorded runs, like TrcReplay.                     *)
EXTENDS TrcReplay, TrcHTTP

VARIABLE rq \* requests

mvars == <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm, run, pos, bad, rq>>

P(s) == <<[s |-> s, c |-> 0]>>

(* several events of trace i, made at once by the library *)
RECURSIVE AddAll(_, _)
AddAll(t, texts) ==
    IF texts = <<>> THEN t
    ELSE AddAll(Touched(AddEvent(t, MkEvent(now, FALSE, TRUE, P(Head(texts)), cell, <<>>))), Tail(texts))
LogAll(i, t, texts) == IF t.lg THEN [j \in 1..Len(texts) |-> [t |-> i, k |-> "ev", s |-> texts[j], d |-> 0]] ELSE <<>>

(*---------------------------------- steps ---------------------------------*)
Head0 == <<"10.0.0.1:1234 " \o Op.m \o " " \o Op.u>> \o [j \in 1..Len(Op.hd) |-> Op.hd[j].n \o ": " \o Op.hd[j].v]

DoOpen ==
    LET C  == col[Op.c]
        i  == Len(tr) + 1
        t0 == MkTrace(C.src, Op.cat, now, gmax, gstk, Op.c, C.lg)
        t1 == AddAll(t0, Head0)
        old == IF Op.cat \in DOMAIN C.cats THEN C.cats[Op.cat] ELSE <<>>
    IN  /\ tr' = Append(tr, t1)
        /\ col' = [col EXCEPT ![Op.c].cats = [k \in DOMAIN C.cats \cup {Op.cat} |-> IF k = Op.cat THEN TakeFirst(<<i>> \o old, C.cap) ELSE C.cats[k]]]
        /\ hnd' = Append(hnd, [t |-> i, pf |-> <<>>])
        /\ log' = LogLine(i, t0, "new", C.src \o "/" \o Op.cat, 0) \o LogAll(i, t0, Head0)
        /\ rq' = Append(rq, [t |-> i, at |-> now] @@ MkResponse(Op.m, Op.direct, Op.fl))
        /\ UNCHANGED <<now, gmax, gstk, reg, sub, cell, qm>>
        /\ Ok(E("ctx", i, Op.t))

DoSet ==
    /\ rq' = [rq EXCEPT ![Op.k] = SetLength(@, Op.cl)]
    /\ Keep /\ Ok({})

DoHead ==
    /\ rq' = [rq EXCEPT ![Op.k] = WriteHead(@, Op.code)]
    /\ Keep /\ Ok({})

DoWrite ==
    LET q == Implicit(rq[Op.k])
        n == IF q.gone THEN Op.r ELSE Accepts(q, Op.n)
    IN  /\ rq' = [rq EXCEPT ![Op.k] = WriteBody(@, Op.n, n)]
        /\ Keep
        /\ Ok(B("mw.write", Op.r = n /\ Op.r \in 0..Op.n, n, Op.r))

DoFlush ==
    LET q == FlushOut(rq[Op.k]) IN
    /\ rq' = [rq EXCEPT ![Op.k] = q]
    /\ Keep
    \* everything so far has arrived
    /\ Ok(IF q.gone \/ ~q.fl THEN {} ELSE E("mw.flush", <<q.code, Visible(q)>>, <<Op.status, Op.n>>))

DoGone == rq' = [rq EXCEPT ![Op.k] = GoAway(@)] /\ Keep /\ Ok({})

PanicText(k) == CASE k = "none" -> "" [] k = "value" -> "handler panics" [] k = "error" -> "handler fails" [] k = "abort" -> "net/http: abort Handler"

DoEnd ==
    LET q    == rq[Op.k]
        i    == q.t
        code == IF q.code # 0 THEN q.code ELSE IF Op.pan = "none" THEN 200 ELSE Op.code \* nothing was sent
        txt  == "HTTP " \o ToString(code) \o ", " \o Bytes(q.n) \o ", D"
        t1   == AddAll(tr[i], <<txt>>)
        t2   == FinishTrace(t1, now)
        full == Len(tr[i].ev) >= tr[i].max
    IN  /\ tr' = [tr EXCEPT ![i] = t2]
        /\ log' = (log \o LogAll(i, tr[i], <<txt>>)) \o (IF t2.lg THEN <<[t |-> i, k |-> "fin", s |-> IF t2.err THEN "errored" ELSE "success", d |-> t2.du]>> ELSE <<>>)
        /\ rq' = [rq EXCEPT ![Op.k] = EndOf(@)]
        /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, sub, cell, qm>>
        /\ Ok(B("mw.du", tr[i].fin \/ full \/ HumanOK(now - q.at, Op.d), now - q.at, Op.d)
              \cup B("mw.code", tr[i].fin \/ full \/ Op.code = code, code, Op.code)
              \cup E("mw.panic", PanicText(Op.pan), Op.gotpan)
              \* what the client got
              \cup (IF q.gone \/ Op.pan # "none" THEN {}
                    ELSE E("mw.sent", <<code, Visible(q)>>, <<Op.status, Op.n>>)))

MDo ==
    CASE Op.o = "mwopen"  -> DoOpen
      [] Op.o = "mwset"   -> DoSet
      [] Op.o = "mwhead"  -> DoHead
      [] Op.o = "mww"     -> DoWrite
      [] Op.o = "mwf"     -> DoFlush
      [] Op.o = "mwbreak" -> DoGone
      [] Op.o = "mwend"   -> DoEnd
      [] Op.o = "mwsame"  -> Keep /\ UNCHANGED rq /\ Ok(B("mw.same", Op.same, Op.without, Op.with))
      [] OTHER            -> Do /\ UNCHANGED rq

MInit == Init /\ rq = <<>>
MNext ==
    /\ pos <= Len(Runs[run].ops)
    /\ MDo
    /\ pos' = pos + 1 /\ run' = run
MSpec == MInit /\ [][MNext]_mvars
===============================================================================
