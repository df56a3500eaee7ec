------------------------------- MODULE TrcConc -------------------------------
(* What may happen when calls overlap. A call is one or several steps, each   *)
(* of them atomic; the steps of different calls interleave. Searches and      *)
(* copies are not atomic: what they may return is stated in terms of the      *)
(* versions that traces and categories had during the call.                   *)
(*                                                                            *)
(* The module checks recorded histories (calls and returns, with results)     *)
(* of the real code: a history is accepted if the steps can be placed between *)
(* the calls and the returns in such a way that every result is explained.    *)
(* Steps are only taken when a return needs them, which loses nothing.        *)
EXTENDS TrcData, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)

VARIABLES
    run, pos,
    pend,  \* per thread: the pending call [op, pc, i, wl, wv, s], or <<>>
    tr,    \* traces: [ex, c, cat, ev, ver, ulk, dp, lost, ...]
    cap,   \* per collector: category size
    lst,   \* per collector: category -> history of its lists (newest first)
    rcap,  \* per collector: category -> capacity
    sub,   \* channels: [on, b, f, cap, buf, sk, se, dr, n]
    canc   \* cancelled contexts

vars == <<run, pos, pend, tr, cap, lst, rcap, sub, canc>>

R == Runs[run]
H == R.h
QM(q) == Range(R.qm[q])
Threads == 0..R.nth

(*--------------------------------- versions -------------------------------*)
(* A version of a trace: number of events, events not stored, finished, error *)
V(n, tru, fin, err) == [n |-> n, tru |-> tru, fin |-> fin, err |-> err]
Cur(t) == tr[t].ver[Len(tr[t].ver)]

Strip(ev) == [x |-> ev.x, e |-> ev.e]
MarkerOf(v) == [x |-> "(truncated event count " \o ToString(v.tru) \o ")", e |-> FALSE]
(* the events that a reader sees of version v (the last m, 0: all) *)
EventsOf(t, v, m) ==
    LET k  == IF m = 0 \/ m > v.n THEN v.n ELSE m
        lo == v.n - k + (IF v.tru > 0 THEN 2 ELSE 1)
    IN  [i \in 1..(v.n - lo + 1) |-> Strip(tr[t].ev[lo + i - 1])]
        \o (IF v.tru > 0 THEN <<MarkerOf(v)>> ELSE <<>>)
CountOf(v) == v.n

AllowView(f, cat, fin, err, evs) ==
    /\ f.cat # "" => cat = f.cat
    /\ f.act => ~fin
    /\ f.fin => fin
    /\ f.suc => ~err
    /\ f.err => err
    /\ f.q # "" => \E i \in 1..Len(evs) : evs[i].x \in QM(f.q)

(*-------------------------------- publishing ------------------------------*)
BrokerOf(t) == IF tr[t].c = 0 THEN 0 ELSE R.br[tr[t].c]
Item(t, v) == [t |-> t, cat |-> tr[t].cat, src |-> "s" \o ToString(tr[t].c), fin |-> v.fin, err |-> v.err,
               ev |-> EventsOf(t, v, IF v.fin THEN 0 ELSE 1)]
OfferItem(ss, b, it) ==
    [j \in 1..Len(ss) |->
        IF ss[j].on /\ ss[j].b = b
        THEN Offer(ss[j], AllowView(ss[j].f, it.cat, it.fin, it.err, it.ev), it) ELSE ss[j]]

(*---------------------------------- steps ---------------------------------*)
Done(th) == pend' = [pend EXCEPT ![th].pc = 99]
To(th, pc) == pend' = [pend EXCEPT ![th].pc = pc]
ListOf(c, k) == IF k \in DOMAIN lst[c] THEN lst[c][k][Len(lst[c][k])] ELSE <<>>

(* traces D are dropped by thread th *)
DropAll(ts, D, th) ==
    [t \in 1..Len(ts) |->
        IF t \in D THEN [ts[t] EXCEPT !.dp = IF ts[t].ver[Len(ts[t].ver)].fin THEN -1 ELSE th,
                                      !.lost = ts[t].ver[Len(ts[t].ver)].fin]
        ELSE ts[t]]

StepNew(th, op, pc) ==
    IF pc = 0 THEN
        LET v == V(0, 0, FALSE, FALSE)
            t == op.t
            new == [tr[t] EXCEPT !.ex = TRUE, !.c = op.c, !.cat = op.cat, !.ver = <<v>>]
            it == [t |-> t, cat |-> op.cat, src |-> "s" \o ToString(op.c), fin |-> FALSE, err |-> FALSE, ev |-> <<>>]
        IN  /\ tr' = [tr EXCEPT ![t] = new]
            /\ sub' = IF op.c = 0 THEN sub ELSE OfferItem(sub, R.br[op.c], it)
            /\ IF op.c = 0 THEN Done(th) ELSE To(th, 1)
            /\ UNCHANGED <<cap, lst, rcap, canc>>
    ELSE LET c   == op.c
             k   == op.cat
             has == k \in DOMAIN lst[c]
             rc  == IF has THEN rcap[c][k] ELSE cap[c]
             old == ListOf(c, k)
             new == TakeFirst(<<op.t>> \o old, rc)
         IN  /\ lst' = [lst EXCEPT ![c] = [x \in DOMAIN lst[c] \cup {k} |->
                            IF x = k THEN (IF has THEN lst[c][k] ELSE <<<<>>>>) \o <<new>> ELSE lst[c][x]]]
             /\ rcap' = [rcap EXCEPT ![c] = [x \in DOMAIN lst[c] \cup {k} |-> IF x = k THEN rc ELSE rcap[c][x]]]
             /\ tr' = DropAll(tr, Range(old) \ Range(new), th)
             /\ Done(th)
             /\ UNCHANGED <<cap, sub, canc>>

(* pc 0: set the size; pc 1: one category after the other (todo) *)
StepSize(th, op, pc) ==
    IF op.n <= 0 THEN Done(th) /\ UNCHANGED <<tr, cap, lst, rcap, sub, canc>>
    ELSE IF pc = 0 THEN
        /\ \A x \in Threads : (pend[x] # <<>> /\ pend[x].op.o = "size" /\ pend[x].op.c = op.c) => pend[x].pc \in {0, 99}
        /\ cap' = [cap EXCEPT ![op.c] = op.n]
        /\ pend' = [pend EXCEPT ![th].pc = IF DOMAIN lst[op.c] = {} THEN 99 ELSE 1, ![th].wl = DOMAIN lst[op.c]]
        /\ UNCHANGED <<tr, lst, rcap, sub, canc>>
    ELSE \E k \in pend[th].wl :
        LET old == ListOf(op.c, k)
            new == TakeFirst(old, op.n)
        IN  /\ lst' = [lst EXCEPT ![op.c][k] = Append(@, new)]
            /\ rcap' = [rcap EXCEPT ![op.c][k] = op.n]
            /\ tr' = DropAll(tr, Range(old) \ Range(new), th)
            /\ pend' = [pend EXCEPT ![th].wl = @ \ {k}, ![th].pc = IF pend[th].wl = {k} THEN 99 ELSE 1]
            /\ UNCHANGED <<cap, sub, canc>>

(* pc 0: the update; pc 1: publish it, before the trace is updated again; pc  *)
(* 2: the same, but nothing was updated (finished trace), so it's optional    *)
StepUpdate(th, op, pc) ==
    LET t == op.t
        v == Cur(t)
    IN
    IF pc = 0 THEN
        /\ tr[t].ulk = -1
        /\ LET v1 == IF v.fin THEN v
                     ELSE IF op.o = "fin" THEN [v EXCEPT !.fin = TRUE]
                     ELSE IF v.n >= R.gmax THEN [v EXCEPT !.tru = @ + 1, !.err = @ \/ op.e]
                     ELSE [v EXCEPT !.n = @ + 1, !.err = @ \/ op.e]
               e1 == IF v1.n > v.n THEN Append(tr[t].ev, [x |-> op.x, e |-> op.e, i |-> pend[th].i]) ELSE tr[t].ev
           IN  tr' = [tr EXCEPT ![t] = [@ EXCEPT !.ver = IF v.fin THEN @ ELSE Append(@, v1), !.ev = e1,
                                                 !.ulk = IF tr[t].c = 0 THEN -1 ELSE th,
                                                 !.fi = IF v1.fin /\ ~v.fin THEN pend[th].i ELSE @,
                                                 !.lost = @ \/ (v1.fin /\ ~v.fin /\ tr[t].dp > 0)]]
        /\ To(th, IF tr[t].c = 0 THEN 99 ELSE IF v.fin THEN 2 ELSE 1)
        /\ UNCHANGED <<cap, lst, rcap, sub, canc>>
    ELSE /\ tr' = [tr EXCEPT ![t].ulk = -1]
         /\ \/ sub' = OfferItem(sub, BrokerOf(t), Item(t, v))
            \/ pc = 2 /\ sub' = sub
            \/ pc = 2 /\ tr[t].lost /\ sub' = OfferItem(sub, BrokerOf(t), [Item(t, v) EXCEPT !.ev = <<>>])
         /\ Done(th)
         /\ UNCHANGED <<cap, lst, rcap, canc>>

(* the result of the call that is being explained *)
RetOf(th) == LET i == CHOOSE i \in pos..Len(H) : H[i].th = th /\ H[i].k = "ret" /\ \A j \in pos..(i-1) : ~(H[j].th = th /\ H[j].k = "ret")
             IN H[i].r
HasRet(th) == \E i \in pos..Len(H) : H[i].th = th /\ H[i].k = "ret"

StepRead(th, op) ==
    LET t == op.t
        v == Cur(t)
        r == RetOf(th)
    IN  /\ HasRet(th)
        /\ CASE op.o = "evs"   -> r.ev = EventsOf(t, v, 0) \/ (tr[t].lost /\ r.ev = <<>>)
             [] op.o = "isfin" -> r.b = v.fin
             [] op.o = "iserr" -> r.b = v.err
        /\ Done(th)
        /\ UNCHANGED <<tr, cap, lst, rcap, sub, canc>>

StepSub(th, op, pc) ==
    IF pc = 0 THEN
        IF sub[op.j].on
        THEN /\ pend' = [pend EXCEPT ![th].pc = 99, ![th].s = <<>>]
             /\ UNCHANGED <<tr, cap, lst, rcap, sub, canc>>
        ELSE /\ sub' = [sub EXCEPT ![op.j] = [@ EXCEPT !.on = TRUE, !.b = R.br[op.c], !.f = op.f, !.sk = 0, !.se = 0, !.dr = 0]]
             /\ To(th, 1)
             /\ UNCHANGED <<tr, cap, lst, rcap, canc>>
    ELSE /\ op.n \in canc
         /\ sub' = [sub EXCEPT ![op.j].on = FALSE]
         /\ pend' = [pend EXCEPT ![th].pc = 99, ![th].s = [sk |-> sub[op.j].sk, se |-> sub[op.j].se, dr |-> sub[op.j].dr]]
         /\ UNCHANGED <<tr, cap, lst, rcap, canc>>

StepStats(th, op) ==
    LET r == RetOf(th)
        s == sub[op.j]
    IN  /\ HasRet(th)
        /\ r.ok = (s.on /\ s.b = R.br[op.c])
        /\ r.ok => r.s = [sk |-> s.sk, se |-> s.se, dr |-> s.dr]
        /\ Done(th)
        /\ UNCHANGED <<tr, cap, lst, rcap, sub, canc>>

StepRecv(th, op) ==
    LET r == RetOf(th)
        s == sub[op.j]
    IN  /\ HasRet(th)
        /\ IF s.buf = <<>> THEN ~r.ok /\ sub' = sub
           ELSE /\ r.ok
                /\ r.v = Head(s.buf)
                /\ sub' = [sub EXCEPT ![op.j].buf = Tail(@)]
        /\ Done(th)
        /\ UNCHANGED <<tr, cap, lst, rcap, canc>>

Step(th) ==
    LET op == pend[th].op
        pc == pend[th].pc
    IN  CASE op.o = "new" -> StepNew(th, op, pc)
          [] op.o = "size" -> StepSize(th, op, pc)
          [] op.o \in {"ev", "fin"} -> StepUpdate(th, op, pc)
          [] op.o \in {"evs", "isfin", "iserr"} -> StepRead(th, op)
          [] op.o = "sub" -> StepSub(th, op, pc)
          [] op.o = "stats" -> StepStats(th, op)
          [] op.o = "recv" -> StepRecv(th, op)
          [] op.o = "cancel" -> canc' = canc \cup {op.n} /\ Done(th) /\ UNCHANGED <<tr, cap, lst, rcap, sub>>
          [] OTHER -> FALSE \* searches and copies are judged at the end

(*------------------------- searches and copies -----------------------------*)
Window(th, t) == LET from == Max2(1, pend[th].wv[t]) IN {tr[t].ver[i] : i \in from..Len(tr[t].ver)}

HasErr(evs) == \E i \in 1..Len(evs) : evs[i].e

(* A copy of trace t, taken during the call of th. direct: not by a search or *)
(* stream, so that the trace may lose its events in the meantime.             *)
Coherent(th, v, direct) ==
    /\ v.t # 0 /\ tr[v.t].ex
    /\ LET t == v.t
           W == Window(th, t)
       IN  /\ v.cat = tr[t].cat
           /\ v.src = IF tr[t].c = 0 THEN "core" ELSE "s" \o ToString(tr[t].c)
           /\ \/ direct /\ tr[t].lost /\ v.ev = <<>>
              \/ \E w \in W : v.ev = EventsOf(t, w, 0)
           /\ IF v.fin THEN Cur(t).fin /\ v.err = Cur(t).err /\ (v.ev = EventsOf(t, Cur(t), 0) \/ (direct /\ tr[t].lost /\ v.ev = <<>>))
              ELSE \E w \in W : ~w.fin
           /\ v.err => \E w \in W : w.err
           /\ ~v.err => \E w \in W : ~w.err
           /\ HasErr(v.ev) => v.err

SearchOK(th, op, r) ==
    LET c     == op.c
        ks    == DOMAIN lst[c]
        found == {r.tr[i].t : i \in 1..Len(r.tr)}
        stOf(k) == LET S == {i \in 1..Len(r.st) : r.st[i].cat = k}
                   IN IF S = {} THEN [cat |-> k, act |-> 0, er |-> 0, bk |-> 0, ev |-> 0] ELSE r.st[CHOOSE i \in S : TRUE]
        lists(k) == {lst[c][k][i] : i \in (IF k \in DOMAIN pend[th].wl THEN pend[th].wl[k] ELSE 1)..Len(lst[c][k])}
        sure(t)  == LET W == Window(th, t) IN \A w \in W : AllowView(op.f, tr[t].cat, w.fin, w.err, EventsOf(t, w, 0))
        Cnt(L, P(_)) == Cardinality({i \in 1..Len(L) : P(L[i])})
        fits(k, L) ==
            LET s == stOf(k)
                act(t) == \A w \in Window(th, t) : ~w.fin
                mact(t) == \E w \in Window(th, t) : ~w.fin
                er(t) == \A w \in Window(th, t) : w.fin /\ w.err
                mer(t) == \E w \in Window(th, t) : w.fin /\ w.err
                gd(t) == \A w \in Window(th, t) : w.fin /\ ~w.err
                mgd(t) == \E w \in Window(th, t) : w.fin /\ ~w.err
                lo(t) == Min({CountOf(w) : w \in Window(th, t)})
                hi(t) == Max({CountOf(w) : w \in Window(th, t)})
            IN  /\ s.act + s.er + s.bk = Len(L)
                /\ Cnt(L, act) <= s.act /\ s.act <= Cnt(L, mact)
                /\ Cnt(L, er) <= s.er /\ s.er <= Cnt(L, mer)
                /\ Cnt(L, gd) <= s.bk /\ s.bk <= Cnt(L, mgd)
                /\ SumUp([i \in 1..Len(L) |-> lo(L[i])]) <= s.ev /\ s.ev <= SumUp([i \in 1..Len(L) |-> hi(L[i])])
                /\ \A t \in found : tr[t].cat = k => t \in Range(L)
                /\ Len(r.tr) < op.lim => \A t \in Range(L) : sure(t) => t \in found
    IN  /\ \A i \in 1..Len(r.tr) : /\ Coherent(th, r.tr[i], FALSE)
                                   /\ tr[r.tr[i].t].c = c
                                   /\ AllowView(op.f, r.tr[i].cat, r.tr[i].fin, r.tr[i].err, r.tr[i].ev)
        /\ Cardinality(found) = Len(r.tr)
        /\ Len(r.tr) <= op.lim
        /\ \A i \in 1..Len(r.st) : r.st[i].cat \in ks
        /\ r.total = SumUp([i \in 1..Len(r.st) |-> r.st[i].act + r.st[i].er + r.st[i].bk])
        /\ Len(r.tr) = Min2(op.lim, r.match)
        /\ \A k \in ks : \E L \in lists(k) : fits(k, L)

RetOK(th, r) ==
    LET op == pend[th].op IN
    CASE op.o = "copy" -> Coherent(th, r.v, TRUE)
      [] op.o = "search" -> SearchOK(th, op, r)
      [] op.o = "sub" -> IF pend[th].s = <<>> THEN ~r.ok ELSE r.ok /\ r.s = pend[th].s
      [] OTHER -> TRUE
Judged(th) == pend[th].op.o \in {"copy", "search"}

(*--------------------------------- history --------------------------------*)
Call(e) ==
    /\ pend' = [pend EXCEPT ![e.th] =
            [ op |-> e.op, pc |-> 0, i |-> pos, s |-> 0,
              wl |-> IF e.op.o = "search" THEN [k \in DOMAIN lst[e.op.c] |-> Len(lst[e.op.c][k])] ELSE {},
              wv |-> [t \in 1..R.nt |-> Len(tr[t].ver)] ]]
    /\ UNCHANGED <<tr, cap, lst, rcap, sub, canc>>

Ret(e) ==
    /\ pend[e.th].pc = 99 \/ Judged(e.th)
    /\ RetOK(e.th, e.r)
    /\ pend' = [pend EXCEPT ![e.th] = <<>>]
    /\ tr' = [t \in 1..R.nt |-> [tr[t] EXCEPT !.dp = IF @ = e.th THEN -1 ELSE @,
                !.ri = IF pend[e.th].op.o = "new" /\ pend[e.th].op.t = t THEN pos ELSE @,
                !.ci = IF pend[e.th].op.o = "new" /\ pend[e.th].op.t = t THEN pend[e.th].i ELSE @]]
    /\ UNCHANGED <<cap, lst, rcap, sub, canc>>

(* identifiers: rank of the ID of each trace *)
IdsOK(e) ==
    \A a, b \in 1..R.nt : a # b => /\ e.rank[a] # e.rank[b]
                                   /\ tr[a].ri < tr[b].ci => e.rank[a] < e.rank[b]

RetPos(i) == CHOOSE j \in i..Len(H) : H[j].k = "ret" /\ H[j].th = H[i].th /\ \A k \in i..(j-1) : ~(H[k].k = "ret" /\ H[k].th = H[i].th)
In(x, i) == H[i].now <= x /\ x <= H[RetPos(i)].now
TimesOK(e) ==
    \A t \in 1..R.nt :
        LET T == e.ts[t]
            idx == IF Cur(t).tru > 0 THEN 2..Cur(t).n ELSE 1..Cur(t).n
            off == IF Cur(t).tru > 0 THEN 1 ELSE 0
        IN  /\ In(T.st, tr[t].ci)
            /\ Cur(t).fin => In(T.st + T.du, tr[t].fi)
            /\ T.w # <<>> => \A k \in idx : /\ In(T.w[k - off], tr[t].ev[k].i)
                                            /\ k > off + 1 => T.w[k - off] >= T.w[k - off - 1]
                                            /\ T.w[k - off] >= T.st
                                            /\ Cur(t).fin => T.w[k - off] <= T.st + T.du

(* what the log decorators wrote: a line for every call, no line before a line *)
(* whose call had returned before, the outcome is explained by the history    *)
CallsOf(t) == {i \in 1..Len(H) : H[i].k = "call" /\ H[i].op.o \in {"new", "ev", "fin"} /\ H[i].op.t = t /\ tr[t].c > 0}
LineOK(t, i, x) ==
    LET o == H[i].op IN
    CASE o.o = "new" -> x = "started, source 's" \o ToString(o.c) \o "', category '" \o o.cat \o "'"
      [] o.o = "ev" -> x = (IF o.e THEN "ERROR: " ELSE "") \o o.x
      [] o.o = "fin" ->
            \/ x = "done, success" /\ ~\E j \in CallsOf(t) : H[j].op.o = "ev" /\ H[j].op.e /\ RetPos(j) < i /\ ~(Cur(t).fin /\ ~Cur(t).err)
            \/ x = "done, errored" /\ Cur(t).err
LogOK(e) ==
    \A t \in 1..R.nt :
        LET L == SelectSeq(e.l, LAMBDA x : x.t = t)
            C == CallsOf(t)
            cand(k) == {i \in C : LineOK(t, i, L[k].x)}
            pos1(i) == {k \in 1..Len(L) : i \in cand(k)}
        IN  /\ Len(L) = Cardinality(C)
            /\ \A k \in 1..Len(L) : cand(k) # {}
            /\ \A i \in C : Cardinality(pos1(i)) = 1 \/ H[i].op.o = "fin"
            /\ \A i, j \in C : RetPos(i) < j => Min(pos1(i)) <= Max(pos1(j)) /\ (H[i].op.o # "fin" \/ H[j].op.o # "fin" => Min(pos1(i)) < Max(pos1(j)))
LogWhole(e) == \A k \in 1..Len(e.l) : e.l[k].t > 0

Init ==
    /\ run \in 1..Len(Runs) /\ pos = 1
    /\ pend = [th \in Threads |-> <<>>]
    /\ tr = [t \in 1..R.nt |-> [ex |-> FALSE, c |-> 0, cat |-> "", ev |-> <<>>, ver |-> <<>>, ulk |-> -1, dp |-> -1, lost |-> FALSE,
                                ri |-> 0, ci |-> 0, fi |-> 0]]
    /\ cap = R.size
    /\ lst = [c \in 1..Len(R.size) |-> [x \in {} |-> 0]]
    /\ rcap = [c \in 1..Len(R.size) |-> [x \in {} |-> 0]]
    /\ sub = [j \in 1..Len(R.caps) |-> [on |-> FALSE, b |-> 0, f |-> 0, cap |-> R.caps[j], buf |-> <<>>, sk |-> 0, se |-> 0, dr |-> 0]]
    /\ canc = {}

Next ==
    /\ pos <= Len(H)
    /\ run' = run
    /\ LET e == H[pos] IN
       CASE e.k = "call" -> Call(e) /\ pos' = pos + 1
         [] e.k = "ret" ->
              IF pend[e.th].pc = 99 THEN Ret(e) /\ pos' = pos + 1
              ELSE \/ Judged(e.th) /\ Ret(e) /\ pos' = pos + 1
                   \/ /\ \E th \in Threads : pend[th] # <<>> /\ pend[th].pc # 99 /\ Step(th)
                      /\ pos' = pos
         [] e.k = "ids" -> IdsOK(e) /\ pos' = pos + 1 /\ UNCHANGED <<pend, tr, cap, lst, rcap, sub, canc>>
         [] e.k = "log" -> LogWhole(e) /\ LogOK(e) /\ pos' = pos + 1 /\ UNCHANGED <<pend, tr, cap, lst, rcap, sub, canc>>
         [] e.k = "times" -> TimesOK(e) /\ pos' = pos + 1 /\ UNCHANGED <<pend, tr, cap, lst, rcap, sub, canc>>
         [] OTHER -> FALSE \* panic, deadlock
    /\ pos' > Len(H) => PrintT(<<"ACC", run>>)

Spec == Init /\ [][Next]_vars
=============================================================================
