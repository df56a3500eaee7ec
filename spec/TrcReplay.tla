------------------------------ MODULE TrcReplay ------------------------------
(* Checks recorded runs of the real code against the state machine Trc. Each  *)
(* run is a sequence of calls with everything the real code answered. The     *)
(* state machine makes the same steps; bad collects the disagreements, and    *)
(* the invariant Agrees is violated when one of them concerns the property    *)
(* that is being checked (Care).                                              *)
EXTENDS Trc, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
Care == Range(JsonDeserialize(IOEnv.CARE))

VARIABLES run, pos, bad
rvars == <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm, run, pos, bad>>

Op == Runs[run].ops[pos]

B(tag, ok, exp, got) == IF ok THEN {} ELSE {[g |-> tag, m |-> ToString(<<exp, got>>)]}
E(tag, exp, got) == B(tag, exp = got, exp, got)

(*------------------------------ observations ------------------------------*)
Ns(fr) == [i \in 1..Len(fr) |-> fr[i].f]
Ls(fr) == [i \in 1..Len(fr) |-> fr[i].l]

StackBad(t, ev, o, depth) ==
    IF ~t.stk \/ depth < 0 THEN E("stk.none", <<>>, o.s)
    ELSE IF ev.fr = <<>> THEN {} \* made by the library itself
    ELSE LET n == Len(o.s) IN
         B("stk", /\ n >= 1 /\ n <= Len(ev.fr)
                  /\ o.s = SubSeq(ev.fr, 1, n)
                  /\ depth > 0 => n <= depth /\ n >= Min2(depth, 2)
                  /\ depth = 0 => n >= 2,
           <<depth, ev.fr>>, o.s)

(* obs: observed events; idx: numbers of the stored events to be seen; m: the *)
(* marker or ""; stk: "full" stacks of given depth, "no" stacks, "any"        *)
EventsBad(t, idx, m, obs, stk, depth, mw) ==
    IF t.lost /\ obs = <<>> THEN {}
    ELSE LET n == Len(idx) + (IF m = "" THEN 0 ELSE 1) IN
      IF Len(obs) # n THEN {[g |-> IF m = "" THEN "ev.len" ELSE "tru.len", m |-> ToString(<<n, obs>>)]}
      ELSE UNION {
              E("ev.err", t.ev[idx[j]].e, obs[j].e)
              \cup B("ev.txt", obs[j].x \in Admissible(t.ev[idx[j]], cell), Admissible(t.ev[idx[j]], cell), obs[j].x)
              \cup E("ev.when", t.ev[idx[j]].w, obs[j].w)
              \cup (IF stk = "full" THEN StackBad(t, t.ev[idx[j]], obs[j], depth)
                    ELSE IF stk = "no" THEN E("stk.strm", <<>>, obs[j].s) ELSE {})
              : j \in 1..Len(idx)}
           \cup (IF m = "" THEN {}
                 ELSE E("tru", <<m, FALSE, mw>>, <<obs[n].x, obs[n].e, obs[n].w>>))

FixSeen(t, idx, obs) ==
    IF Len(obs) < Len(idx) THEN t
    ELSE [t EXCEPT !.ev = [k \in 1..Len(t.ev) |->
            IF Len(idx) > 0 /\ k >= idx[1] /\ k < idx[1] + Len(idx) \* they are consecutive
            THEN Fix(t.ev[k], obs[k - idx[1] + 1].x) ELSE t.ev[k]]]

HeadBad(i, t, v, du) ==
    E("v.id", i, v.t)
    \cup E("v.src", t.src, v.src) \cup E("v.cat", t.cat, v.cat) \cup E("v.st", t.st, v.st)
    \cup E("v.fin", t.fin, v.fin) \cup E("v.err", t.err, v.err) \cup E("v.du", du, v.du)

TMarker(t) == IF t.tru > 0 THEN Marker(t) ELSE ""

ViewBad(i, v, depth) ==
    LET t == tr[i] IN
    IF v.t # i THEN {[g |-> "v.id", m |-> ToString(<<i, v.t>>)]}
    ELSE HeadBad(i, t, v, DurationOf(t, now))
         \cup EventsBad(t, Shown(t, 0), TMarker(t), v.ev, v.k, depth, now)

(*---------------------------------- steps ---------------------------------*)
Keep == UNCHANGED <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm>>
Ok(b) == bad' = b

(* a region's duration is shown in a human readable, truncated form *)
HumanOK(exp, got) == got <= exp /\ got >= exp - exp \div 5

DoNew ==
    /\ IF Op.ctx # 0 THEN NewInContext(Op.ctx, Op.cat, Op.fr)
       ELSE IF Op.c = 0 THEN NewCore(Op.src, Op.cat, Op.lg)
       ELSE NewTrace(Op.c, Op.cat)
    /\ Ok(IF Op.ctx # 0 THEN E("ctx", hnd[Op.ctx].t, Op.t)
          ELSE E("ctx", Len(tr) + 1, Op.t))

DoSub ==
    /\ Subscribe(Op.j, Op.b, Op.f)
    /\ Ok(E("sub.dup", sub[Op.j].on, Op.e))

StatsRec(s) == [sk |-> s.sk, se |-> s.se, dr |-> s.dr]

DoUnsub ==
    /\ Unsubscribe(Op.j)
    /\ Ok(E("sub.fin", StatsRec(sub[Op.j]), Op.s) \cup E("sub.err", TRUE, Op.ctxerr))

DoStats ==
    /\ Keep
    /\ Ok(E("sub.known", sub[Op.j].on, Op.ok)
          \cup (IF sub[Op.j].on /\ Op.ok THEN E("sub.stats", StatsRec(sub[Op.j]), Op.s) ELSE {}))

DoRecv ==
    LET s == sub[Op.j] IN
    IF s.buf = <<>> THEN Keep /\ Ok(E("sub.recv", FALSE, Op.ok))
    ELSE IF ~Op.ok THEN Receive(Op.j) /\ Ok({[g |-> "sub.recv", m |-> ToString(<<Head(s.buf), "nothing">>)]})
    ELSE LET it == Head(s.buf)
             t  == tr[it.t]
             v  == Op.v
         IN  /\ sub' = [sub EXCEPT ![Op.j].buf = Tail(@)]
             /\ tr' = [tr EXCEPT ![it.t] = FixSeen(t, it.k, v.ev)]
             /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, cell, log, qm>>
             /\ Ok(IF v.t # it.t THEN {[g |-> "sub.order", m |-> ToString(<<it, v>>)]}
                   ELSE E("v.src", t.src, v.src) \cup E("v.cat", t.cat, v.cat) \cup E("v.st", t.st, v.st)
                        \cup E("sub.item", [fin |-> it.fin, err |-> it.err, du |-> it.du],
                                           [fin |-> v.fin, err |-> v.err, du |-> v.du])
                        \cup EventsBad(t, it.k, it.m, v.ev, "no", 0, it.at))

DoRead ==
    LET i == hnd[Op.h].t IN
    /\ tr' = [tr EXCEPT ![i] = FixSeen(tr[i], Shown(tr[i], 0), Op.v.ev)]
    /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, sub, cell, log, qm>>
    /\ Ok(ViewBad(i, Op.v, 0))

(* the trace in the context of handle h (0: no trace) *)
DoGet ==
    /\ Keep
    /\ Ok(E("ctx", IF Op.h = 0 THEN 0 ELSE hnd[Op.h].t, Op.t))

(* Rates: traces and events per 1000 seconds since the oldest one. Those of   *)
(* several collectors, and of several categories, add up.                     *)
Rate(n, d) == IF d <= 0 \/ n = 0 THEN 0
              ELSE IF n > 2000 \/ d < 5000 THEN 0 - 1
              ELSE IF d >= 1000000 THEN (n * 1000000) \div (d \div 1000)
              ELSE LET q == (n * 1000000) \div d IN
                   IF q > 1000000 THEN 0 - 1 ELSE 1000 * q + (1000 * ((n * 1000000) % d)) \div d
RateSum(f) == IF \E i \in DOMAIN f : f[i] < 0 \/ f[i] > 1000000000 \div Len(f) THEN 0 - 1 ELSE SumUp(f) \* -1: not judged
RECURSIVE RatesBy(_, _, _)
RatesBy(s, cat, k) ==
    IF s.k \in Leaf THEN
        IF cat \notin DOMAIN col[s.c].cats \/ col[s.c].cats[cat] = <<>> THEN 0
        ELSE LET ids == col[s.c].cats[cat]
                 N   == 1..Len(ids)
                 old == Min({tr[ids[i]].st : i \in N})
             IN  Rate(IF k = 1 THEN Len(ids) ELSE SumUp([i \in N |-> ShownLen(tr[ids[i]], 0)]), now - old)
    ELSE IF s.k = "multi" THEN RateSum([i \in 1..Len(s.s) |-> RatesBy(s.s[i], cat, k)])
    ELSE 0
RateBad(exp, got) ==
    IF exp < 0 \/ exp > 900000000 \/ got < 0 THEN {} ELSE B("st.rate", got <= exp + exp \div 500 + 20 /\ got >= exp - exp \div 500 - 20, exp, got)
RatesBad(s, r) ==
    LET n == Len(r.stats) IN
    IF Len(r.rates) # n + 1 \/ \E i \in Retained(s) : tr[i].st >= now THEN {}
    ELSE UNION {UNION {RateBad(RatesBy(s, r.stats[i].cat, k), r.rates[i][k]) : i \in 1..n} : k \in 1..2}
         \cup UNION {RateBad(RateSum([i \in 1..n |-> RatesBy(s, r.stats[i].cat, k)]), r.rates[n + 1][k]) : k \in 1..2}

StatsBad(exp, r) ==
    LET got == Range(r.stats) IN
    B("st", exp.stats = got /\ Len(r.stats) = Cardinality(got), exp.stats, r.stats)
    \cup E("st.over", Overall(exp.stats, r.bk), r.over)

(* what: parts of the response that are there: "stats", "req" *)
SearchParts(s, req, r, what) ==
    LET exp == SearchBy(s, req)
        ids == [j \in 1..Len(r.tr) |-> r.tr[j].t]
        xid == [j \in 1..Len(exp.ids) |-> exp.ids[j].t]
        loc(j) == [r.tr[j] EXCEPT !.st = @ - (exp.ids[j].st - tr[ids[j]].st)]
    IN  IF r.panic # "" THEN {[g |-> "panic", m |-> r.panic]}
        ELSE
        E("s.total", exp.total, r.total) \cup E("s.match", exp.match, r.match)
        \cup E("s.ids", xid, ids)
        \cup (IF xid # ids THEN {} ELSE UNION {ViewBad(ids[j], loc(j), req.depth) : j \in 1..Len(ids)})
        \cup (IF "stats" \in what THEN StatsBad(exp, r) ELSE {})
        \cup (IF Op.via = "" THEN RatesBad(s, r) ELSE {})
        \cup E("s.src", SourcesBy(s), Range(r.src)) \cup E("s.srcl", Len(r.src), Cardinality(Range(r.src)))
        \cup E("s.srco", TRUE, r.srcsorted)
        \cup E("s.prob", ProblemsBy(s) + (IF req.f.bad THEN 1 ELSE 0), r.np)
        \cup (IF what # {"stats", "req"} THEN {} ELSE
              E("s.norm", [lim |-> NormLimit(req.lim), b |-> NormBucketing(req.b), q |-> IF req.f.bad THEN "" ELSE req.f.q],
                          [lim |-> r.lim, b |-> r.bk, q |-> r.q]))
SearchBad(s, req, r) == SearchParts(s, req, r, {"stats", "req"})

(* A search over HTTP. Parameters of a URL are tokens [raw, ok, v]: ok says   *)
(* that it can be parsed, v its value; n, min and stack are given at most     *)
(* once. What can't be parsed is replaced by the default, numbers are clamped *)
(* to their range.                                                            *)
UrlReq(req, u) ==
    [ f     |-> [req.f EXCEPT !.min = IF u.min = <<>> \/ ~u.min[1].ok THEN <<>> ELSE <<u.min[1].v>>],
      lim   |-> IF u.n = <<>> \/ ~u.n[1].ok THEN LimitDefault ELSE Clamp(u.n[1].v, 1, LimitMax),
      b     |-> LET g == SelectSeq(u.b, LAMBDA x : x.ok) IN [i \in 1..Len(g) |-> g[i].v],
      depth |-> IF u.stack = <<>> \/ ~u.stack[1].ok THEN 0 ELSE u.stack[1].v ]
(* the command line tool has no bucketing, and 0 means no stacks *)
CliReq(req) == [req EXCEPT !.b = <<>>, !.depth = IF @ = 0 THEN 0 - 1 ELSE @]
Req(op) == IF op.via \in {"url", "html"} THEN UrlReq(op.req, op.u) ELSE IF op.via = "cli" THEN CliReq(op.req) ELSE op.req

(* the request, as the server has to understand it *)
NormFilter(f) == [src |-> f.src, ids |-> f.ids, cat |-> f.cat, act |-> f.act, fin |-> f.fin, min |-> f.min,
                  suc |-> f.suc, err |-> f.err, q |-> IF f.bad THEN "" ELSE f.q]
(* sources and ids are given as lists, but mean sets *)
AsSets(f) == [f EXCEPT !.src = Range(@), !.ids = Range(@)]
Sets(q) == [q EXCEPT !.f = AsSets(@)]
NormReq(req) == [f |-> NormFilter(req.f), lim |-> NormLimit(req.lim), b |-> NormBucketing(req.b), depth |-> req.depth]

(* A page that shows a search. Links of the table: what they search for. *)
PageLink(req, row, k, j) ==
    LET nr == NormReq(req) IN
    {<<"n", ToString(nr.lim)>>}
    \cup (IF nr.f.q = "" THEN {} ELSE {<<"q", nr.f.q>>})
    \cup {<<"source", x>> : x \in Range(nr.f.src)}
    \cup (IF nr.b = DefaultBucketing THEN {} ELSE {<<"b", ToString(x)>> : x \in Range(nr.b)})
    \cup (IF row = "overall" THEN {} ELSE {<<"category", row>>})
    \cup (CASE k = "act" -> {<<"active", "">>} [] k = "er" -> {<<"errored", "">>} [] k = "bk" -> {<<"min", ToString(nr.b[j])>>} [] OTHER -> {})
Near(a, b) == a - b <= 1 /\ b - a <= 1
HumanNear(exp, got) == IF exp < 0 THEN TRUE ELSE Near(exp, got) \/ HumanOK(exp, got)
RowBad(req, s, row) ==
    E("h.rows", [cat |-> s.cat, act |-> s.act, bk |-> s.bk, er |-> s.er, total |-> StatsTotal(s)],
                [cat |-> row.cat, act |-> row.act, bk |-> row.bk, er |-> row.er, total |-> row.total])
    \cup (IF s.old < 0 THEN {} ELSE B("h.age", HumanNear(now - s.old, row.old) /\ HumanNear(now - s.new, row.new), <<now - s.old, now - s.new>>, <<row.old, row.new>>))
    \cup (IF StatsTotal(s) = 0 THEN {} ELSE
          LET cs == <<s.act>> \o s.bk \o <<s.er>> IN
          E("h.pct", [i \in 1..Len(cs) |-> [n |-> cs[i], of |-> StatsTotal(s), p |-> (100 * cs[i]) \div StatsTotal(s), bar |-> (100 * cs[i]) \div StatsTotal(s)]], row.pct))
    \cup (IF Len(row.bk) # Len(s.bk) THEN {} ELSE
         UNION {E("h.links", PageLink(req, s.cat, row.links[i].k, i - 2), {<<x[1], x[2]>> : x \in Range(row.links[i].p)}) : i \in 1..Len(row.links)})
(* a trace, on the page: it starts at st; ws: times of its events *)
PageTraceBad(t, st, o, depth, stk) ==
    LET idx == Shown(t, 0)
        n   == Len(idx) + (IF t.tru > 0 THEN 1 ELSE 0)
        du  == DurationOf(t, now)
        w(i) == IF i = 0 THEN st ELSE IF i > n THEN st + du ELSE IF i > Len(idx) THEN now ELSE t.ev[idx[i]].w
    IN  B("h.end", (o.end = "finished") = t.fin /\ (o.end = "active...") = ~t.fin, t.fin, o.end)
        \cup B("h.du", Near(du, o.du.d) /\ HumanNear(du, o.du.h), du, o.du)
        \cup B("h.meta", /\ [k |-> "id", v |-> ToString(o.t), t |-> ToString(o.t)] \in Range(o.meta)
                          /\ [k |-> "source", v |-> t.src, t |-> t.src] \in Range(o.meta)
                          /\ [k |-> "category", v |-> t.cat, t |-> t.cat] \in Range(o.meta),
               <<o.t, t.src, t.cat>>, o.meta)
        \cup (IF Len(o.times) # n + 2 THEN {[g |-> "h.time", m |-> ToString(<<n, o.times>>)]}
             ELSE UNION {B("h.time", Near(w(i), o.times[i + 1].w), <<i, w(i)>>, o.times[i + 1]) : i \in 0..(n + 1)}
                  \cup UNION {LET d == w(i) - w(i - 1)
                                  c == w(i) - st
                              IN  B("h.delta", /\ Near(d, o.times[i + 1].d) /\ Near(c, o.times[i + 1].c)
                                               /\ HumanNear(d, o.times[i + 1].h), <<i, d, c>>, o.times[i + 1]) : i \in 1..(n + 1)})
        \cup (IF ~stk THEN {} ELSE IF Len(o.stacks) # n THEN {[g |-> "h.stack", m |-> ToString(<<n, o.stacks>>)]}
             ELSE {[g |-> "h.stack", m |-> x.m] : x \in UNION {StackBad(t, t.ev[idx[i]], [s |-> o.stacks[i]], depth) : i \in 1..Len(idx)}})

(* the form that searches again keeps what was asked for *)
FormOf(req, srcs) ==
    LET nr == NormReq(req) f == nr.f IN
    {<<"q", f.q>>, <<"n", ToString(nr.lim)>>}
    \cup (IF f.cat \in {"", "overall"} THEN {} ELSE {<<"category", f.cat>>})
    \cup (IF f.act THEN {<<"active", "true">>} ELSE {}) \cup (IF f.fin THEN {<<"finished", "true">>} ELSE {})
    \cup (IF f.suc THEN {<<"success", "true">>} ELSE {}) \cup (IF f.err THEN {<<"errored", "true">>} ELSE {})
    \cup (IF f.min = <<>> THEN {} ELSE {<<"min", ToString(f.min[1])>>})
    \cup (IF Cardinality(srcs) <= 1 THEN {} ELSE IF f.src = <<>> THEN {<<"source", "">>}
         ELSE IF f.src[1] \in srcs THEN {<<"source", f.src[1]>>} ELSE {})

PageBad(s, req, r) ==
    LET exp == SearchBy(s, req)
        ids == [j \in 1..Len(r.tr) |-> r.tr[j].t]
        xid == [j \in 1..Len(exp.ids) |-> exp.ids[j].t]
        n   == Cardinality(exp.stats)
        nr  == NormReq(req)
    IN  IF r.panic # "" THEN {[g |-> "panic", m |-> r.panic]}
        ELSE
        E("s.total", exp.total, r.total) \cup E("s.match", exp.match, r.match)
        \cup E("s.ids", <<xid, Len(xid)>>, <<ids, r.shown>>)
        \cup E("s.prob", ProblemsBy(s) + (IF req.f.bad THEN 1 ELSE 0), r.np)
        \cup E("s.src", <<SourcesBy(s), Cardinality(SourcesBy(s))>>, <<Range(r.src), r.nsrc>>)
        \cup E("h.form", FormOf(req, SourcesBy(s)), {<<x[1], x[2]>> : x \in Range(r.form)})
        \cup (IF xid # ids THEN {} ELSE UNION {PageTraceBad(tr[ids[j]], exp.ids[j].st, r.tr[j], req.depth, r.stk) : j \in 1..Len(ids)})
        \cup (IF xid # ids THEN {} ELSE UNION {
                LET t   == tr[ids[j]]
                    idx == Shown(t, 0)
                    o   == r.tr[j].ev
                    m   == TMarker(t)
                    k   == Len(idx) + (IF m = "" THEN 0 ELSE 1)
                IN  IF Len(o) # k THEN {[g |-> "h.page", m |-> ToString(<<idx, o>>)]}
                    ELSE UNION {B("h.page", o[i].x \in Admissible(t.ev[idx[i]], cell) /\ o[i].e = t.ev[idx[i]].e, t.ev[idx[i]], o[i]) : i \in 1..Len(idx)}
                         \cup (IF m = "" THEN {} ELSE E("h.page", m, o[k].x))
                : j \in 1..Len(ids)})
        \cup (IF Len(r.rows) # n + 1 THEN {[g |-> "h.rows", m |-> ToString(<<exp.stats, r.rows>>)]}
             ELSE UNION {LET c == CHOOSE x \in exp.stats \cup {Overall(exp.stats, nr.b)} :
                                    IF i = n + 1 THEN x = Overall(exp.stats, nr.b) ELSE x \in exp.stats /\ (x.cat = r.rows[i].cat \/ \A y \in exp.stats : y.cat # r.rows[i].cat)
                         IN RowBad(req, c, r.rows[i]) : i \in 1..(n + 1)}
                  \cup E("h.rows", n + 1, Cardinality({r.rows[i].cat : i \in 1..(n + 1)})))

(* the command line tool *)
CliBad(op) ==
    LET req == Req(op) r == op.r IN
    IF r.panic # "" THEN {[g |-> "c.out", m |-> r.panic]}
    ELSE E("c.opt", <<op.co.iq, op.co.is>>, <<r.iq, r.is>>)
         \cup SearchParts(op.s, req, r, (IF r.is THEN {"stats"} ELSE {}) \cup (IF r.iq THEN {"req"} ELSE {}))
         \cup (IF r.iq THEN E("h.req", Sets(NormReq(req)), Sets(r.hreq)) ELSE {})

(* the tool as a process. hist: traces (negative: still active) as they      *)
(* change; src: the server of each; out: those printed; vals: values printed  *)
Abs(x) == IF x < 0 THEN -x ELSE x
Lasting(h) == {i \in 1..Len(h) : \A j \in (i + 1)..Len(h) : Abs(h[j]) # Abs(h[i])}
Newest(h, S(_)) == \* what a search for all finds: the latest state of each trace, youngest first
    LET n == Cardinality(Lasting(h))
        last(k) == h[CHOOSE i \in Lasting(h) : Abs(h[i]) = k]
        ks == [j \in 1..n |-> n + 1 - j]
    IN  SelectSeq([j \in 1..n |-> last(ks[j])], LAMBDA x : S(x))
ProcOut(op) ==
    LET first(x)  == op.src[Abs(x)] = 1
        done(x)   == x > 0
        doneOne(x) == x > 0 /\ first(x)
    IN  CASE op.kind \in {"search", "search-down"} -> Newest(op.hist, first)
          [] op.kind = "search-env" -> TakeFirst(Newest(op.hist, first), 2)
          [] op.kind = "search-two" -> Newest(op.hist, done)
          [] op.kind \in {"stream", "stream-stop", "stream-later"} -> SelectSeq(op.hist, doneOne)
          [] op.kind = "stream-two" -> SelectSeq(op.hist, done)
          [] op.kind \in {"events", "events-env"} -> SelectSeq(op.hist, first)
          [] OTHER -> <<>>
ProcBad(op) ==
    LET wrong == op.kind \in {"none", "no-uri", "bad-flag", "bad-value", "bad-level"} IN
    (IF op.kind = "no-command" THEN {} ELSE E("c.exit", IF wrong THEN 1 ELSE 0, op.code))
    \cup E("c.out", ProcOut(op), op.out)
    \cup B("c.out", op.json /\ (op.verb \notin {"search", "stream", "events"} => op.vals = 0) /\ (op.verb = "search" => op.vals = 1), "values", op.vals)
    \cup E("s.prob", IF op.kind = "search-down" THEN 1 ELSE 0, op.prob)
    \cup B("c.bad", wrong => op.said, "a message", op.err)

WebBad(op) ==
    IF op.via = "cli" THEN CliBad(op)
    ELSE IF op.via = "html" THEN PageBad(op.s, Req(op), op.r)
    ELSE SearchBad(op.s, Req(op), op.r)
         \cup (IF op.via = "" \/ op.r.panic # "" THEN {} ELSE E("h.req", Sets(NormReq(Req(op))), Sets(op.r.hreq)))

DoSearch ==
    LET rt == Op.r.tr IN
    /\ \E R \in {Retained(Op.s)}, ts \in {IF Op.via = "html" THEN {} ELSE {rt[j].t : j \in 1..Len(rt)}} :
         tr' = [i \in 1..Len(tr) |->
                  LET t == IF i \in R THEN PeekAll(tr[i], cell) ELSE tr[i] IN
                  IF i \in ts THEN FixSeen(t, Shown(t, 0), rt[CHOOSE j \in 1..Len(rt) : rt[j].t = i].ev) ELSE t]
    /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, sub, cell, log, qm>>
    /\ Ok(WebBad(Op))

(* a filter, applied directly to the trace of handle h *)
DoAllow ==
    LET i == hnd[Op.h].t
        t == PeekAll(tr[i], cell)
        f == Op.f
        exp == AllowTrace(f, i, t, now, cell, qm)
        Mn == {<<"src", f.src # <<>>>>, <<"ids", f.ids # <<>>>>, <<"cat", f.cat # "">>, <<"act", f.act>>, <<"fin", f.fin>>,
               <<"min", f.min # <<>>>>, <<"suc", f.suc>>, <<"err", f.err>>, <<"q", f.q # "">>}
    IN  /\ tr' = [tr EXCEPT ![i] = t]
        /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, sub, cell, log, qm>>
        /\ Ok(E("f.allow", exp, Op.r)
              \cup E("f.prob", IF f.bad THEN 1 ELSE 0, Op.np)
              \cup E("f.str", {x[1] : x \in {y \in Mn : y[2]}}, Range(Op.str)))

LogBad ==
    LET exp == [j \in 1..Len(log) |-> [t |-> log[j].t, k |-> log[j].k, s |-> log[j].s]]
        got == [j \in 1..Len(Op.l) |-> [t |-> Op.l[j].t, k |-> Op.l[j].k, s |-> Op.l[j].s]]
    IN  IF exp # got THEN {[g |-> "log", m |-> ToString(<<exp, got>>)]}
        ELSE B("log.du", \A j \in 1..Len(log) : HumanOK(log[j].d, Op.l[j].d), log, Op.l)

RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE Lex(a, b, i + 1)

(* identifiers of all traces so far: digits, digits of their start time *)
DoIDs ==
    /\ Keep
    /\ Ok(UNION {E("id.len", 26, Len(Op.ids[j].id)) \cup E("id.time", Op.ids[j].st, SubSeq(Op.ids[j].id, 1, 10))
                 : j \in 1..Len(Op.ids)}
          \cup UNION {B("id.order", Lex(Op.ids[j].id, Op.ids[j+1].id, 1), j, Op.ids[j+1]) : j \in 1..(Len(Op.ids) - 1)}
          \cup E("id.same", TRUE, Op.same))

(* n: how often the call evaluated its arguments *)
DoEv ==
    LET t == tr[hnd[Op.h].t]
        own == HasCell(Op.p)
    IN  /\ Event(Op.h, Op.k, Op.p, Op.fr)
        /\ Ok(IF ~own \/ t.fin \/ Len(t.ev) >= t.max THEN {}
              ELSE IF Op.k \in {"LT", "LE"}
              THEN B("evals", Op.n = 0 \/ t.lg \/ (t.c # 0 /\ Listeners(BrokerOf(t)) # {}), "0 evaluations", Op.n)
              ELSE B("evals", Op.n > 0, "evaluated", Op.n))

Do ==
    CASE Op.o = "tick"  -> Tick(Op.d) /\ Ok({})
      [] Op.o = "gmax"  -> SetGlobalMax(Op.n) /\ Ok({})
      [] Op.o = "gstk"  -> SetGlobalStacks(Op.on) /\ Ok({})
      [] Op.o = "cell"  -> SetCell(Op.i, Op.v) /\ Ok({})
      [] Op.o = "col"   -> NewCollector(Op.src, Op.b, Op.lg, Op.pf) /\ Ok({})
      [] Op.o = "deco"  -> SetDecorators(Op.c, Op.lg, Op.pf) /\ Ok({})
      [] Op.o = "src"   -> SetSource(Op.c, Op.src) /\ Ok({})
      [] Op.o = "size"  -> Resize(Op.c, Op.n) /\ Ok({})
      [] Op.o = "new"   -> DoNew
      [] Op.o = "ev"    -> DoEv
      [] Op.o = "newn"  -> NewTraces(Op.c, Op.cat, Op.n, Op.k) /\ Ok(E("ctx", Len(tr) + 1, Op.t))
      [] Op.o = "evn"   -> Events(Op.h, Op.k, Op.s, Op.n, Op.fr) /\ Ok({})
      [] Op.o = "pfx"   -> Prefix(Op.h, Op.p) /\ Ok(E("ctx", hnd[Op.h].t, Op.t))
      [] Op.o = "reg"   -> Region(Op.h, Op.name, Op.fr) /\ Ok(E("ctx", hnd[Op.h].t, Op.t))
      [] Op.o = "rend"  -> EndRegion(Op.r, Op.fr) /\ LET t == tr[hnd[reg[Op.r].h].t] IN
                               Ok(B("reg.du", t.fin \/ Len(t.ev) >= t.max \/ HumanOK(now - reg[Op.r].at, Op.d), now - reg[Op.r].at, Op.d))
      [] Op.o = "fin"   -> Finish(Op.h) /\ Ok({})
      [] Op.o = "max"   -> (IF Op.ok THEN SetMax(Op.h, Op.n) ELSE Keep) /\ Ok(B("max", Op.ok \/ ~Op.must, TRUE, Op.ok))
      [] Op.o = "read"  -> DoRead
      [] Op.o = "get"   -> DoGet
      [] Op.o = "search" -> DoSearch
      [] Op.o = "hbad"  -> Keep /\ Ok(B("h.bad", (Op.r.code >= 400 /\ Op.r.code < 500) \/ Op.r.np > 0, "client error", Op.r))
      [] Op.o = "hodd"  -> Keep /\ Ok(E("h.odd", TRUE, Op.e))
      [] Op.o = "cproc" -> Keep /\ Ok(ProcBad(Op))
      [] Op.o = "cbad"  -> Keep /\ Ok(B("c.bad", Op.r.code = 1 /\ Op.r.out = "", "error", Op.r))
      [] Op.o = "again" -> Keep /\ Ok(E("again", "", Op.diff))
      [] Op.o = "chan"  -> NewChan(Op.cap) /\ Ok({})
      [] Op.o = "sub"   -> DoSub
      [] Op.o = "unsub" -> DoUnsub
      [] Op.o = "stats" -> DoStats
      [] Op.o = "recv"  -> DoRecv
      [] Op.o = "allow" -> DoAllow
      [] Op.o = "log"   -> Keep /\ Ok(LogBad)
      [] Op.o = "evals" -> Keep /\ Ok(E("evals", <<>>, Op.bad))
      [] Op.o = "ids"   -> DoIDs
      [] Op.o = "idburst" -> Keep /\ Ok(E("id.order", 0, Op.bad))
      [] Op.o = "panic" -> Keep /\ Ok({[g |-> "panic", m |-> Op.m]})

Init ==
    /\ run \in 1..Len(Runs) /\ pos = 1 /\ bad = {}
    /\ Init0
    /\ cell = Runs[run].cells
    /\ qm = [q \in DOMAIN Runs[run].qm |-> Range(Runs[run].qm[q])]

Next ==
    /\ pos <= Len(Runs[run].ops)
    /\ Do
    /\ pos' = pos + 1 /\ run' = run

Spec == Init /\ [][Next]_rvars

Agrees == {b \in bad : b.g \in Care} = {}
=============================================================================
