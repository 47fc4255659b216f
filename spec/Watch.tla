---------------------------- MODULE Watch ----------------------------
(* The file watcher: what it may answer. Times in milliseconds. Free: TLC explores all short
   histories of a watcher that looks at most that often, for the bound on staleness;
   otherwise every recorded history is checked.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Stale == 2000
ASSUME TLCSet(7, JsonDeserialize("hist.json"))
(* Sequence of [ops, res]: ops: [k, a, b, x]: adv by x; make, remove file a; new watcher a of file b;
   ask a; copy: new a from b, assign: a from b, move, massign: b is gone; res: <<answer, file>>  *)
Hist == TLCGet(7)
VARIABLES hi, pos, now,
          file,     \* per file [is, was, at]: exists, since when, and what was before
          w         \* per watcher: [f, t, a]: its file (0: none), last answer and its time (-1: none)
vars == <<hi, pos, now, file, w>>
H == Hist[hi]
Op == H.ops[pos]

Init == /\ hi \in 1..Len(Hist) /\ pos = 1 /\ now = 0
        /\ file = [i \in 1..2 |-> [is |-> FALSE, was |-> FALSE, at |-> 0 - 10000]]
        /\ w = [i \in 1..4 |-> [f |-> 0, t |-> 0 - 1, a |-> FALSE]]

May(f) == {file[f].is} \cup (IF now - file[f].at <= Stale THEN {file[f].was} ELSE {})
Change(f, v) == file' = [file EXCEPT ![f] = IF @.is = v THEN @ ELSE [is |-> v, was |-> ~v, at |-> now]]
None == [f |-> 0, t |-> 0 - 1, a |-> FALSE]
\* nothing happened to the files since then
Fresh(i) == w[i].t = now /\ file[w[i].f].at < now
Do ==
  LET a == Op.a  b == Op.b  r == H.res[pos] IN
  CASE Op.k = "adv" -> now' = now + Op.x /\ UNCHANGED <<file, w>>
    [] Op.k = "make" -> Change(a, TRUE) /\ UNCHANGED <<now, w>>
    [] Op.k = "remove" -> Change(a, FALSE) /\ UNCHANGED <<now, w>>
    [] Op.k = "new" -> w' = [w EXCEPT ![a] = [f |-> b, t |-> 0 - 1, a |-> FALSE]] /\ r[2] = b /\ UNCHANGED <<now, file>>
    [] Op.k = "ask" -> /\ r[2] = w[a].f
                       /\ r[1] \in May(w[a].f)
                       /\ Fresh(a) => r[1] = w[a].a          \* the same instant: the same answer
                       /\ w' = [w EXCEPT ![a].t = now, ![a].a = r[1]]
                       /\ UNCHANGED <<now, file>>
    [] Op.k \in {"copy", "assign"} -> w' = [w EXCEPT ![a] = w[b]] /\ r[2] = w[b].f /\ UNCHANGED <<now, file>>
    [] OTHER -> w' = (IF a = b THEN w ELSE [w EXCEPT ![a] = w[b], ![b] = None])
                /\ r[2] = w[b].f /\ UNCHANGED <<now, file>>
Next == pos <= Len(H.ops) /\ Do /\ pos' = pos + 1 /\ UNCHANGED hi
Spec == Init /\ [][Next]_vars

(* Free: watchers 1 and 2 of file 1 that look when their last look (t, with result a) is older than
   the bound, and share what they know when copied.                                        *)
FreeInit == /\ hi = 0 /\ pos = 1 /\ now = 0
            /\ file = [i \in 1..2 |-> [is |-> FALSE, was |-> FALSE, at |-> 0 - 10000]]
            /\ w = [i \in 1..4 |-> [f |-> 1, t |-> 0, a |-> FALSE]]
FreeNext ==
  /\ pos <= 7 /\ pos' = pos + 1 /\ UNCHANGED hi
  /\ \/ \E x \in {1, 1000, 2000, 2001} : now' = now + x /\ UNCHANGED <<file, w>>
     \/ \E v \in BOOLEAN : Change(1, v) /\ UNCHANGED <<now, w>>
     \/ \E i \in 1..2 : w' = [w EXCEPT ![i] = IF now - @.t > Stale THEN [f |-> 1, t |-> now, a |-> file[1].is] ELSE @] /\ UNCHANGED <<now, file>>
     \/ w' = [w EXCEPT ![2] = w[1]] /\ UNCHANGED <<now, file>>
FreeSpec == FreeInit /\ [][FreeNext]_vars
\* whoever answers without looking is right or at most that late
NotStale == hi = 0 => \A i \in 1..2 : now - w[i].t <= Stale => w[i].a \in May(1)
Explained == IF pos > Len(H.ops) THEN PrintT("@@" \o ToString(hi)) ELSE TRUE
======================================================================
