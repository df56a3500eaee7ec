------------------------------- MODULE TrcData -------------------------------
(* The data of trc: traces, events, filters, search, statistics, streamed     *)
(* forms. Everything here is a pure operator; the state machine is in Trc.    *)
(*                                                                            *)
(* Times and durations are integers (microseconds). Traces are numbered in    *)
(* the order of their creation, so that a larger number means a later start   *)
(* or, in the same instant, a larger ID.                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SumOver(S, F(_)) == FoldSet(LAMBDA x, acc : acc + F(x), 0, S)
SumUp(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Last1(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))

(*------------------------------- event limit ------------------------------*)
MaxEventsMin     == 10
MaxEventsDefault == 1000
MaxEventsMax     == 10000
ClampMaxEvents(n) == Clamp(n, MaxEventsMin, MaxEventsMax)

(*---------------------------------- texts ---------------------------------*)
(* The text of an event is given by pieces [s |-> string, c |-> cell]: the    *)
(* string followed by the value of the cell (0: no cell). Cells are mutable   *)
(* arguments. An eager event fixes its text at the call. A lazy event is      *)
(* "open" until it is first read; cand are the texts it may already have been *)
(* given by a reader we could not observe.                                    *)
RECURSIVE PiecesText(_, _, _)
PiecesText(p, i, cells) ==
    IF i > Len(p) THEN ""
    ELSE p[i].s \o (IF p[i].c = 0 THEN "" ELSE cells[p[i].c]) \o PiecesText(p, i + 1, cells)
Text(p, cells) == PiecesText(p, 1, cells)
HasCell(p) == \E i \in 1..Len(p) : p[i].c # 0

(* ev: when, isError, admissible texts, open?, pieces, call chain *)
MkEvent(when, iserr, lazy, pieces, cells, frames) ==
    [ w |-> when, e |-> iserr, p |-> pieces, fr |-> frames,
      open |-> lazy /\ HasCell(pieces),
      x |-> IF lazy /\ HasCell(pieces) THEN {} ELSE {Text(pieces, cells)} ]

(* what a reader may see now *)
Admissible(ev, cells) == IF ev.open THEN ev.x \cup {Text(ev.p, cells)} ELSE ev.x
TheText(ev, cells)    == CHOOSE s \in Admissible(ev, cells) : TRUE
(* a read that we can't observe *)
Peek(ev, cells) == IF ev.open THEN [ev EXCEPT !.x = Admissible(ev, cells)] ELSE ev
(* a read that returned text s *)
Fix(ev, s) == [ev EXCEPT !.x = {s}, !.open = FALSE]

(*--------------------------------- traces ---------------------------------*)
MkTrace(src, cat, start, max, stacks, c, lg) ==
    [ src |-> src, cat |-> cat, st |-> start, fin |-> FALSE, du |-> 0, err |-> FALSE,
      ev |-> <<>>, max |-> max, tru |-> 0, stk |-> stacks, c |-> c, lg |-> lg, lost |-> FALSE ]

AddEvent(t, ev) ==
    IF t.fin THEN t
    ELSE LET t1 == [t EXCEPT !.err = t.err \/ ev.e]
         IN  IF Len(t.ev) >= t.max THEN [t1 EXCEPT !.tru = t.tru + 1]
             ELSE [t1 EXCEPT !.ev = Append(t.ev, ev)]
AddEvents(t, evs) ==
    IF t.fin \/ Len(evs) = 0 THEN t
    ELSE LET k == IF t.max <= Len(t.ev) THEN 0 ELSE IF Len(evs) < t.max - Len(t.ev) THEN Len(evs) ELSE t.max - Len(t.ev)
         IN  [t EXCEPT !.err = t.err \/ \E i \in 1..Len(evs) : evs[i].e, !.tru = t.tru + Len(evs) - k, !.ev = t.ev \o SubSeq(evs, 1, k)]
FinishTrace(t, now) == IF t.fin THEN t ELSE [t EXCEPT !.fin = TRUE, !.du = now - t.st]
DurationOf(t, now) == IF t.fin THEN t.du ELSE now - t.st
PeekAll(t, cells) == [t EXCEPT !.ev = [i \in 1..Len(t.ev) |-> Peek(t.ev[i], cells)]]

(* Reading: the numbers of the stored events that are shown (the last n, or   *)
(* all), and whether the marker follows; a marker takes the place of the      *)
(* oldest one shown.                                                          *)
Shown(t, n) ==
    LET k  == Len(t.ev)
        m  == IF n <= 0 \/ n > k THEN k ELSE n
        lo == IF t.tru > 0 THEN k - m + 2 ELSE k - m + 1
    IN  [i \in 1..Max2(0, k - lo + 1) |-> lo + i - 1]
Marker(t) == "(truncated event count " \o ToString(t.tru) \o ")"
ShownLen(t, n) == Len(Shown(t, n)) + (IF t.tru > 0 THEN 1 ELSE 0)

(*--------------------------------- filters --------------------------------*)
(* A filter: [src, ids: Seq, cat, act, fin, min: <<>> or <<d>>, suc, err, q,  *)
(* bad]; bad says that q is not a valid regular expression (it is ignored).   *)
(* The view that is judged: [src, t, cat, fin, du, err, match], where match   *)
(* says if the query matches some event.                                      *)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
Allow(f, v) ==
    /\ f.src # <<>> => InSeq(v.src, f.src)
    /\ f.ids # <<>> => InSeq(v.t, f.ids)
    /\ f.cat # "" => v.cat = f.cat
    /\ f.act => ~v.fin
    /\ f.fin => v.fin
    /\ f.min # <<>> => v.fin /\ v.du >= f.min[1]
    /\ f.suc => ~v.err
    /\ f.err => v.err
    /\ f.q # "" /\ ~f.bad => v.match

(* qm: function from queries to the set of texts they match. *)
Matches(qm, q, s) == s \in qm[q]
EventMatches(qm, q, ev, cells, stacks) ==
    \/ Matches(qm, q, TheText(ev, cells))
    \/ stacks /\ \E i \in 1..Len(ev.fr) : Matches(qm, q, ev.fr[i].f) \/ Matches(qm, q, ev.fr[i].l)

(* full view of trace number i *)
ViewOf(i, t, now, cells, qm, f) ==
    [ src |-> t.src, t |-> i, cat |-> t.cat, fin |-> t.fin, du |-> DurationOf(t, now), err |-> t.err,
      match |-> IF f.q = "" \/ f.bad THEN TRUE
                ELSE \/ \E k \in Range(Shown(t, 0)) : EventMatches(qm, f.q, t.ev[k], cells, t.stk)
                     \/ t.tru > 0 /\ Matches(qm, f.q, Marker(t)) ]
AllowTrace(f, i, t, now, cells, qm) == Allow(f, ViewOf(i, t, now, cells, qm, f))

(*------------------------------ streamed form -----------------------------*)
StreamShown(t) == Shown(t, IF t.fin THEN 0 ELSE 1)
StreamItem(i, t, now) ==
    [ t |-> i, fin |-> t.fin, du |-> DurationOf(t, now), err |-> t.err,
      k |-> StreamShown(t), m |-> IF t.tru > 0 THEN Marker(t) ELSE "", at |-> now ]
StreamView(i, t, now, cells, qm, f) ==
    [ src |-> t.src, t |-> i, cat |-> t.cat, fin |-> t.fin, du |-> DurationOf(t, now), err |-> t.err,
      match |-> IF f.q = "" \/ f.bad THEN TRUE
                ELSE \/ \E k \in Range(StreamShown(t)) : Matches(qm, f.q, TheText(t.ev[k], cells))
                     \/ t.tru > 0 /\ Matches(qm, f.q, Marker(t)) ]

(* offer an item to a subscriber *)
Offer(s, ok, item) ==
    IF ~ok THEN [s EXCEPT !.sk = s.sk + 1]
    ELSE IF Len(s.buf) >= s.cap THEN [s EXCEPT !.dr = s.dr + 1]
    ELSE [s EXCEPT !.se = s.se + 1, !.buf = Append(s.buf, item)]

(*-------------------------------- requests --------------------------------*)
LimitDefault == 10
LimitMax     == 250
NormLimit(n) == IF n <= 0 THEN LimitDefault ELSE Min2(n, LimitMax)
DefaultBucketing == <<0, 100, 1000, 5000, 10000, 25000, 50000, 100000, 1000000>>
NormBucketing(b) ==
    IF b = <<>> THEN DefaultBucketing
    ELSE LET nn == SortSeq(SelectSeq(b, LAMBDA d : d >= 0), LAMBDA x, y : x < y)
         IN  IF nn = <<>> \/ nn[1] # 0 THEN <<0>> \o nn ELSE nn

(*-------------------------------- statistics ------------------------------*)
(* of a sequence of trace numbers ids *)
StatsOf(cat, ids, tr, b) ==
    LET N    == 1..Len(ids)
        good == {i \in N : tr[ids[i]].fin /\ ~tr[ids[i]].err}
        sts  == {tr[ids[i]].st : i \in N}
    IN  [ cat |-> cat,
          ev  |-> SumUp([i \in N |-> ShownLen(tr[ids[i]], 0)]),
          act |-> Cardinality({i \in N : ~tr[ids[i]].fin}),
          bk  |-> [j \in 1..Len(b) |-> Cardinality({i \in good : tr[ids[i]].du >= b[j]})],
          er  |-> Cardinality({i \in N : tr[ids[i]].fin /\ tr[ids[i]].err}),
          old |-> IF sts = {} THEN -1 ELSE Min(sts),
          new |-> IF sts = {} THEN -1 ELSE Max(sts) ]
StatsTotal(s) == s.act + s.er + s.bk[1]
AddStats(a, b) ==
    [ cat |-> a.cat, ev |-> a.ev + b.ev, act |-> a.act + b.act, er |-> a.er + b.er,
      bk |-> [j \in 1..Len(a.bk) |-> a.bk[j] + b.bk[j]],
      old |-> IF a.old = -1 THEN b.old ELSE IF b.old = -1 THEN a.old ELSE Min2(a.old, b.old),
      new |-> Max2(a.new, b.new) ]
ZeroStats(cat, b) == [cat |-> cat, ev |-> 0, act |-> 0, er |-> 0, bk |-> [j \in 1..Len(b) |-> 0], old |-> -1, new |-> -1]
(* ss: set of per-category statistics *)
Overall(ss, b) == FoldSet(LAMBDA s, acc : AddStats(acc, s), ZeroStats("overall", b), ss)
MergeStats(A, B) ==
    {IF \E y \in B : y.cat = x.cat THEN AddStats(x, CHOOSE y \in B : y.cat = x.cat) ELSE x : x \in A}
    \cup {y \in B : \A x \in A : x.cat # y.cat}

(*---------------------------------- search --------------------------------*)
(* cats: function category -> sequence of trace numbers, newest first.        *)
(* A result is a set of items [t, st]: a trace, and the start time it reports *)
(* (sk: how much the clock of that searcher is ahead).                        *)
NewestFirst(S) == SetToSortSeq(S, LAMBDA x, y : x.st > y.st \/ (x.st = y.st /\ x.t > y.t))
TakeFirst(s, n) == SubSeq(s, 1, Min2(n, Len(s)))
SearchCats(cats, tr, now, cells, qm, f, lim0, b0, sk) ==
    LET lim  == NormLimit(lim0)
        b    == NormBucketing(b0)
        sel  == [c \in DOMAIN cats |->
                    TakeFirst(SelectSeq(cats[c], LAMBDA i : AllowTrace(f, i, tr[i], now, cells, qm)), lim)]
    IN  [ total |-> SumOver(DOMAIN cats, LAMBDA c : Len(cats[c])),
          match |-> SumOver(DOMAIN cats, LAMBDA c : Len(sel[c])),
          ids   |-> TakeFirst(NewestFirst({[t |-> i, st |-> tr[i].st + sk] : i \in UNION {Range(sel[c]) : c \in DOMAIN cats}}), lim),
          stats |-> {StatsOf(c, cats[c], tr, b) : c \in DOMAIN cats} ]
(* answer of several searchers, as one *)
CombineRes(rs, lim0) ==
    [ total |-> SumUp([i \in 1..Len(rs) |-> rs[i].total]),
      match |-> SumUp([i \in 1..Len(rs) |-> rs[i].match]),
      ids   |-> TakeFirst(NewestFirst(UNION {Range(rs[i].ids) : i \in 1..Len(rs)}), NormLimit(lim0)),
      stats |-> FoldLeft(LAMBDA a, r : MergeStats(a, r.stats), {}, rs) ]
=============================================================================
