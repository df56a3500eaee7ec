--------------------------------- MODULE TrcMC ---------------------------------
(* Bounded model checking of the state machine Trc. All behaviours of Depth   *)
(* calls from a small alphabet are explored: the guarantees below are checked *)
(* on the specification, and every behaviour is printed, so that it can be    *)
(* replayed into the real code, whose answers TrcReplay then judges.          *)
EXTENDS Trc, Json, IOUtils

CONSTANTS Profile, Depth

VARIABLES
    hist, \* the calls
    att,  \* events attempted, per trace, before it was finished: [n, e]
    pub,  \* per channel: published while subscribed
    rcv   \* per channel: received since subscribed, of what was sent then
mvars == <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm, hist, att, pub, rcv>>

(*--------------------------------- calls ----------------------------------*)
NoFilter == [src |-> <<>>, ids |-> <<>>, cat |-> "", act |-> FALSE, fin |-> FALSE, min |-> <<>>, suc |-> FALSE, err |-> FALSE, q |-> "", bad |-> FALSE]
Fins == [NoFilter EXCEPT !.fin = TRUE]
Errs == [NoFilter EXCEPT !.err = TRUE]
Lit(s) == <<[s |-> s, c |-> 0]>>
Arg(c) == <<[s |-> "v=", c |-> c]>>

Col(b)       == [o |-> "col", b |-> b, src |-> "s" \o ToString(b)]
ColLog(b)    == [o |-> "col", b |-> b, src |-> "s", on |-> TRUE]
GStk(on)     == [o |-> "gstk", on |-> on]
Size(n)      == [o |-> "size", c |-> 1, n |-> n]
GMax(n)      == [o |-> "gmax", n |-> n]
SMax(h, n)   == [o |-> "max", h |-> h, n |-> n]
New(c, k)    == [o |-> "new", c |-> c, cat |-> k, src |-> "core source"]
NewIn(h, k)  == [o |-> "new", c |-> 1, cat |-> k, ctx |-> h]
Ev(h, k, p)  == [o |-> "ev", h |-> h, k |-> k, p |-> p]
Fin(h)       == [o |-> "fin", h |-> h]
Adv(d)       == [o |-> "tick", d |-> d]
Cell(v)      == [o |-> "cell", i |-> 1, v |-> v]
Rd(h)        == [o |-> "read", h |-> h, on |-> TRUE]
All          == [o |-> "searchall"]
Chan(n)      == [o |-> "chan", cap |-> n]
SubC(j, f)   == [o |-> "sub", j |-> j, c |-> 1, b |-> 1, f |-> f]
Unsub(j)     == [o |-> "unsub", j |-> j]
Recv(j)      == [o |-> "recv", j |-> j]
StatsC(j)    == [o |-> "stats", j |-> j, c |-> 1]
Pfx(h, s)    == [o |-> "pfx", h |-> h, p |-> Lit(s)]
Reg(h, s)    == [o |-> "reg", h |-> h, name |-> s]
Rend(r)      == [o |-> "rend", rg |-> r]
EvVia(h, k, via, n) == [o |-> "ev", h |-> h, k |-> k, p |-> Lit("s"), via |-> via, nest |-> n]
Full         == [o |-> "full"] \* record whole stacks
Ids          == [o |-> "ids"]
Log          == [o |-> "log"]
In(c)        == [k |-> "col", c |-> c, d |-> 0, sk |-> 0]
Multi(s)     == [k |-> "multi", c |-> 0, d |-> 0, sk |-> 0, s |-> s]
Failing(k, c) == [k |-> k, c |-> c, d |-> 0, sk |-> 0]
Find(s, f, lim, b, depth) == [o |-> "search", s |-> s, req |-> [f |-> f, lim |-> lim, b |-> b, depth |-> depth]]
AllowIt(h, f) == [o |-> "allow", h |-> h, f |-> f]

(* one filter for every criterion, and some combinations *)
Filters ==
    << NoFilter, [NoFilter EXCEPT !.cat = "b"], [NoFilter EXCEPT !.act = TRUE], Fins, Errs, [NoFilter EXCEPT !.suc = TRUE],
       [NoFilter EXCEPT !.min = <<0>>], [NoFilter EXCEPT !.min = <<100>>], [NoFilter EXCEPT !.min = <<101>>],
       [NoFilter EXCEPT !.ids = <<1>>], [NoFilter EXCEPT !.ids = <<2, 0>>], [NoFilter EXCEPT !.src = <<"s1">>], [NoFilter EXCEPT !.src = <<"other">>],
       [NoFilter EXCEPT !.q = "x"], [NoFilter EXCEPT !.q = "["], [NoFilter EXCEPT !.suc = TRUE, !.fin = TRUE], [NoFilter EXCEPT !.err = TRUE, !.act = TRUE],
       [NoFilter EXCEPT !.act = TRUE, !.fin = TRUE], [NoFilter EXCEPT !.q = "x", !.cat = "a", !.fin = TRUE] >>
Trees ==
    << Multi(<<In(1), In(2)>>), Multi(<<In(2), In(1)>>), Multi(<<>>), Multi(<<In(1)>>), Multi(<<Multi(<<In(1)>>), Multi(<<Multi(<<In(2)>>)>>)>>),
       Multi(<<Failing("err", 1), In(2)>>), Multi(<<In(1), Failing("nil", 1)>>), Multi(<<Failing("reserr", 1), In(2)>>),
       Multi(<<Failing("prob", 2), Failing("prob", 1)>>), Multi(<<[In(1) EXCEPT !.d = 300], In(2)>>), Multi(<<[In(2) EXCEPT !.sk = 3], In(1)>>), Multi(<<Failing("err", 1)>>) >>

H == Len(hnd)
Ten(h) == [i \in 1..9 |-> Ev(h, "T", Lit("e" \o ToString(i)))]
Both(f(_)) == IF H = 0 THEN {} ELSE {f(1), f(H)}

(* where each profile starts, and what it can do *)
Start ==
    CASE Profile = "core" -> <<GMax(10), Col(1), New(1, "a")>> \o Ten(1)
      [] Profile = "lazy" -> <<Col(1), Chan(2), New(1, "a")>>
      [] Profile = "ret"  -> <<Col(1), Size(2)>>
      [] Profile = "rec"  -> <<Col(1), Size(1)>>
      [] Profile = "sub"  -> <<Col(1), Chan(1), Chan(2), New(1, "a")>>
      [] Profile = "ctx"  -> <<Col(1), New(1, "a")>>
      [] Profile = "find" -> <<Col(1), Size(3), New(1, "a")>>
      [] Profile = "multi" -> <<Col(1), Col(2), Size(2), New(1, "a")>>
      [] Profile = "log"  -> <<ColLog(1), New(1, "a")>>
      [] Profile = "stk"  -> <<Full, Col(1), New(1, "a")>>
      [] Profile = "ids"  -> <<Col(1)>>
Alphabet ==
    CASE Profile = "core" -> {Ev(1, "T", Lit("x")), Ev(1, "LE", Lit("y")), Fin(1), SMax(1, 11), SMax(1, 5), SMax(1, 12), GMax(11), New(0, "b"), Adv(7), Rd(1)}
                             \cup (IF H > 1 THEN {Ev(H, "E", Lit("z")), Fin(H)} ELSE {})
      [] Profile = "lazy" -> {Ev(1, "T", Arg(1)), Ev(1, "LT", Arg(1)), Ev(1, "LE", Arg(1)), Cell("c1"), Cell("d"), Rd(1), All, Fin(1), SubC(1, NoFilter), Recv(1)}
      [] Profile = "ret"  -> {New(1, "a"), New(1, "b"), Size(1), Size(2), Size(3), Size(0)} \cup Both(Fin)
      [] Profile = "rec"  -> {New(1, "a"), Size(2), Size(1), All} \cup Both(Fin) \cup Both(LAMBDA h : Ev(h, "T", Lit("h" \o ToString(h)))) \cup Both(Rd)
      [] Profile = "sub"  -> {SubC(1, NoFilter), SubC(2, Fins), SubC(2, Errs), Unsub(1), Unsub(2), Recv(1), Recv(2), StatsC(1), StatsC(2), New(1, "b"), Ev(1, "E", Lit("x")), Ev(H, "T", Lit("y")), Fin(1)}
      [] Profile = "ctx"  -> {Pfx(H, "p"), Pfx(1, "100%"), Reg(H, "r"), Reg(1, "s"), NewIn(H, "c"), Ev(H, "T", Lit("x")), Ev(1, "LT", Lit("y")), Adv(3)}
                             \cup (IF Len(reg) > 0 THEN {Rend(Len(reg)), Rend(1)} ELSE {})

      [] Profile = "find" -> {New(1, "a"), New(1, "b"), Ev(H, "T", Lit("x")), Ev(1, "E", Lit("y")), Fin(1), Adv(100)} \cup {Fin(H)}
      [] Profile = "multi" -> {New(1, "a"), New(2, "a"), New(2, "b"), Ev(1, "E", Lit("y")), Ev(H, "T", Lit("x")), Fin(1), Fin(H), Adv(100)}
      [] Profile = "log"  -> {New(1, "b"), NewIn(H, "c"), Ev(H, "T", Lit("50%")), Ev(1, "E", Arg(1)), Ev(H, "LE", Lit("x")), Ev(1, "LT", Arg(1)), Pfx(H, "p"), Reg(H, "r"), Fin(H), Fin(1), Adv(1500), SMax(1, 10)}
                             \cup (IF Len(reg) > 0 THEN {Rend(Len(reg))} ELSE {})
      [] Profile = "stk"  -> {GStk(FALSE), GStk(TRUE), New(1, "b"), Pfx(H, "p"), Reg(H, "r")}
                             \cup {EvVia(H, k, v, 0) : k \in {"T", "E", "LT", "LE"}, v \in {"", "get", "ez"}} \cup {EvVia(1, "T", "one", 1), EvVia(H, "LT", "two", 3), EvVia(H, "E", "ezget", 2)}
                             \cup (IF Len(reg) > 0 THEN {Rend(Len(reg))} ELSE {})
      [] Profile = "ids"  -> {New(1, "a"), New(0, "b"), Adv(0), Adv(1), Adv(999), Adv(1000), Adv(60000000), Ids} \cup Both(Fin) \cup (IF H > 0 THEN {NewIn(H, "c")} ELSE {})

(* the questions that every behaviour ends with *)
Tail0 ==
    CASE Profile = "find" -> [i \in 1..Len(Filters) |-> Find(In(1), Filters[i], i % 3, IF i % 4 = 0 THEN <<100, 0, 100>> ELSE IF i % 4 = 2 THEN <<50, -1>> ELSE <<>>, 0)]
                             \o [i \in 1..Len(Filters) |-> AllowIt(1 + (i % H), Filters[i])] \o [i \in 1..Len(Filters) |-> AllowIt(1 + ((i + 1) % H), Filters[i])]
      [] Profile = "multi" -> [i \in 1..Len(Trees) |-> Find(Trees[i], NoFilter, 1 + (i % 3), <<>>, 0)] \o [i \in 1..Len(Trees) |-> Find(Trees[i], Filters[i], 0, <<100>>, 0)]
      [] Profile = "log"  -> <<Log>>
      [] Profile = "stk"  -> [i \in 1..5 |-> Find(In(1), NoFilter, 0, <<>>, i - 2)]
      [] Profile = "ids"  -> <<Ids>>
      [] OTHER            -> <<>>

(*--------------------------------- steps ----------------------------------*)
Look ==
    LET R == UNION {Retained([k |-> "col", c |-> c]) : c \in 1..Len(col)} IN
    /\ tr' = [i \in 1..Len(tr) |-> IF i \in R THEN PeekAll(tr[i], cell) ELSE tr[i]]
    /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, sub, cell, log, qm>>
ReadIt(h) ==
    /\ tr' = [tr EXCEPT ![hnd[h].t].ev = [i \in 1..Len(@) |-> Fix(@[i], TheText(@[i], cell))]]
    /\ UNCHANGED <<now, gmax, gstk, col, hnd, reg, sub, cell, log, qm>>
Nothing == UNCHANGED <<now, gmax, gstk, tr, col, hnd, reg, sub, cell, log, qm>>

Apply(op) ==
    CASE op.o = "col"   -> NewCollector(op.src, op.b, "on" \in DOMAIN op, <<>>)
      [] op.o = "size"  -> Resize(op.c, op.n)
      [] op.o = "gmax"  -> SetGlobalMax(op.n)
      [] op.o = "max"   -> SetMax(op.h, op.n)
      [] op.o = "new"   -> IF "ctx" \in DOMAIN op THEN NewInContext(op.ctx, op.cat, <<>>)
                           ELSE IF op.c = 0 THEN NewCore(op.src, op.cat, FALSE) ELSE NewTrace(op.c, op.cat)
      [] op.o = "ev"    -> Event(op.h, op.k, op.p, <<>>)
      [] op.o = "fin"   -> Finish(op.h)
      [] op.o = "tick"  -> Tick(op.d)
      [] op.o = "cell"  -> SetCell(op.i, op.v)
      [] op.o = "read"  -> ReadIt(op.h)
      [] op.o = "searchall" -> Look
      [] op.o = "chan"  -> NewChan(op.cap)
      [] op.o = "sub"   -> Subscribe(op.j, op.b, op.f)
      [] op.o = "unsub" -> IF sub[op.j].on THEN Unsubscribe(op.j) ELSE Nothing
      [] op.o = "recv"  -> IF sub[op.j].buf # <<>> THEN Receive(op.j) ELSE Nothing
      [] op.o \in {"stats", "full", "ids"} -> Nothing
      [] op.o = "gstk"  -> SetGlobalStacks(op.on)
      [] op.o = "pfx"   -> Prefix(op.h, op.p)
      [] op.o = "reg"   -> Region(op.h, op.name, <<>>)
      [] op.o = "rend"  -> EndRegion(op.rg, <<>>)

(* what the steps should add up to *)
Target(op) == CASE op.o \in {"ev", "reg"} -> hnd[op.h].t [] op.o = "rend" -> reg[op.rg].h [] op.o = "new" /\ "ctx" \in DOMAIN op -> hnd[op.ctx].t [] OTHER -> 0
Ghost(op) ==
    /\ att' = LET a == IF Len(tr') > Len(att) THEN Append(att, [n |-> 0, e |-> FALSE]) ELSE att
                  i == IF op.o = "rend" THEN hnd[reg[op.rg].h].t ELSE Target(op)
              IN  IF i = 0 \/ tr[i].fin THEN a
                  ELSE [a EXCEPT ![i].n = @ + 1, ![i].e = @ \/ (op.o = "ev" /\ op.k \in {"E", "LE"})]
    /\ pub' = LET p == IF op.o = "chan" THEN Append(pub, 0) ELSE pub
                  n == IF op.o \in {"ev", "fin", "reg", "rend"} \/ (op.o = "new" /\ op.c # 0) THEN 1 ELSE 0
                  t == IF op.o = "fin" THEN hnd[op.h].t ELSE IF op.o = "new" /\ "ctx" \notin DOMAIN op THEN Len(tr') ELSE IF op.o = "rend" THEN hnd[reg[op.rg].h].t ELSE Target(op)
              IN  [j \in 1..Len(p) |-> IF op.o = "sub" /\ op.j = j /\ ~sub[j].on THEN 0
                                       ELSE IF n = 1 /\ sub[j].on /\ tr'[t].c # 0 THEN p[j] + 1 ELSE p[j]]
    /\ rcv' = LET p == IF op.o = "chan" THEN Append(rcv, 0) ELSE rcv
              IN  [j \in 1..Len(p) |-> IF op.o = "sub" /\ op.j = j /\ ~sub[j].on THEN 0 - Len(sub[j].buf)
                                       ELSE IF op.o = "recv" /\ op.j = j /\ sub[j].buf # <<>> THEN p[j] + 1 ELSE p[j]]

MCInit ==
    /\ Init0 /\ cell = <<"c1", "c2", "c3">> /\ qm = [q \in {"x", "["} |-> {"x"} \cap {q}]
    /\ hist = <<>> /\ att = <<>> /\ pub = <<>> /\ rcv = <<>>
MCNext ==
    /\ Len(hist) < Len(Start) + Depth
    /\ \E op \in IF Len(hist) < Len(Start) THEN {Start[Len(hist) + 1]} ELSE Alphabet :
         /\ Apply(op)
         /\ Ghost(op)
         /\ hist' = Append(hist, op)

(* complete behaviours are printed *)
Emit == Len(hist) = Len(Start) + Depth => PrintT("OPS " \o ToJson(hist \o Tail0))

(*------------------------------- guarantees -------------------------------*)
N == 1..Len(tr)
(* C05: the most recent ones of each category are retained, newest first *)
Retention ==
    \A c \in 1..Len(col) : \A k \in DOMAIN col[c].cats :
        LET s == col[c].cats[k] IN
        /\ Len(s) <= col[c].cap
        /\ \A i \in 1..Len(s) : tr[s[i]].c = c /\ tr[s[i]].cat = k
        /\ \A i \in 1..Len(s) - 1 : s[i] > s[i + 1]
        /\ \A t \in N : tr[t].c = c /\ tr[t].cat = k => t \in Range(s) \/ (s # <<>> /\ t < s[Len(s)])
(* C06: only traces that are finished and no longer retained lose events *)
OnlyDropped == \A t \in N : tr[t].lost => tr[t].fin /\ \A c \in 1..Len(col) : \A k \in DOMAIN col[c].cats : t \notin Range(col[c].cats[k])
(* C01, C03: what is stored and counted is what was attempted *)
Complete == \A t \in N : Len(tr[t].ev) + tr[t].tru = att[t].n /\ tr[t].err = att[t].e
(* C03: a trace shows no more than its stored events, a marker included *)
ShowsAtMost == \A t \in N : ShownLen(tr[t], 0) <= Max2(Len(tr[t].ev), 1) /\ (tr[t].tru > 0 => Shown(tr[t], 0) # [i \in 1..Len(tr[t].ev) |-> i])
(* C11, C12: every publication is counted, as skip, send or drop *)
Counted == \A j \in 1..Len(sub) : sub[j].on => sub[j].sk + sub[j].se + sub[j].dr = pub[j]
Sent    == \A j \in 1..Len(sub) : Len(sub[j].buf) <= sub[j].cap /\ (sub[j].on => sub[j].se = rcv[j] + Len(sub[j].buf))
(* C12: nothing but a trace that passes the filter is sent *)
Passing == \A j \in 1..Len(sub) : \A i \in 1..Len(sub[j].buf) : sub[j].buf[i].t \in N
(* C17: a context belongs to one trace *)
Handles == \A h \in 1..Len(hnd) : hnd[h].t \in N

(* C07, C08: what a search answers *)
S(f, lim) == SearchBy(In(1), [f |-> f, lim |-> lim, b |-> <<>>])
Norm(f) == [f EXCEPT !.bad = (f.q = "[")]
Results ==
    Profile = "find" /\ Len(hist) > Len(Start) => \A i \in 1..Len(Filters) :
        LET f == Norm(Filters[i])
            all == S(f, 100)
            R == Retained(In(1))
        IN  /\ {x.t : x \in Range(all.ids)} = {t \in R : AllowTrace(f, t, tr[t], now, cell, qm)}
            /\ all.match = Len(all.ids) /\ all.total = Cardinality(R)
            /\ \A n \in 1..2 : LET s == S(f, n) IN s.ids = TakeFirst(all.ids, n) /\ s.total = all.total /\ s.match <= all.match
            /\ \A j \in 1..(Len(all.ids) - 1) : all.ids[j].st >= all.ids[j + 1].st
            \* C09: the statistics do not depend on the filter, and add up
            /\ i > 1 => all.stats = S(NoFilter, 1).stats
            /\ i = 1 => /\ SumOver(all.stats, StatsTotal) = all.total
                        /\ StatsTotal(Overall(all.stats, DefaultBucketing)) = all.total
                        /\ \A s \in all.stats : \A j \in 1..(Len(s.bk) - 1) : s.bk[j] >= s.bk[j + 1]
(* C10: several searchers answer like one that has everything *)
M(s, lim) == SearchBy(s, [f |-> NoFilter, lim |-> lim, b |-> <<>>])
Merged ==
    Profile = "multi" /\ Len(hist) > Len(Start) => \A n \in 1..3 :
        /\ M(Trees[1], n) = M(Trees[2], n) /\ M(Trees[1], n) = M(Trees[5], n)
        /\ M(Trees[4], n) = M(In(1), n)
        /\ M(Trees[6], n) = M(In(2), n) /\ M(Trees[7], n) = M(In(1), n)
        /\ M(Trees[1], n).total = M(In(1), n).total + M(In(2), n).total
        /\ M(Trees[1], n).ids = TakeFirst(NewestFirst(Range(M(In(1), 100).ids) \cup Range(M(In(2), 100).ids)), n)
        /\ LET b == DefaultBucketing IN Overall(M(Trees[1], n).stats, b) = AddStats(Overall(M(In(1), n).stats, b), Overall(M(In(2), n).stats, b))
(* C18: every call on a trace writes a line *)
Logged == Profile = "log" => Len(log) = Cardinality({i \in 1..Len(hist) : hist[i].o \in {"new", "ev", "reg", "rend", "fin"}})

(* C01: events are only added, at the end; C02: nothing happens to a finished *)
(* trace, but that its events may get lost                                    *)
Frozen == [][\A t \in N :
        /\ Len(tr'[t].ev) >= Len(tr[t].ev)
        /\ \A i \in 1..Len(tr[t].ev) : tr'[t].ev[i].p = tr[t].ev[i].p /\ tr'[t].ev[i].w = tr[t].ev[i].w /\ tr'[t].ev[i].e = tr[t].ev[i].e
        /\ \A i \in 1..Len(tr[t].ev) : ~tr[t].ev[i].open => tr'[t].ev[i].x = tr[t].ev[i].x
        /\ tr[t].fin => [tr'[t] EXCEPT !.lost = tr[t].lost, !.max = tr[t].max, !.ev = tr[t].ev] = tr[t] /\ Len(tr'[t].ev) = Len(tr[t].ev)
        /\ tr'[t].st = tr[t].st /\ tr'[t].src = tr[t].src /\ tr'[t].cat = tr[t].cat]_mvars
================================================================================
