-------------------------- MODULE Senders --------------------------
(* The publisher's sender threads. Times are in milliseconds.

   A publication measures once and sends what it measured in batches of at most `batch`
   measurements, side by side: as many at the same time as there are threads, and no thread is idle
   while a batch waits for one. Each measurement is in one batch, with the common tags as they were
   when the publication began. A batch is one request, which is made again, with the same content,
   when there was no connection (at once) or the server is busy (after 200 ms and then 400 ms),
   three times at most. Each measurement is counted once, as sent or as dropped and why, and the
   publication after it has the counts. The publication ends with its last batch; the next one is
   due `freq` after it began, or then, if that is later. A stop waits for a publication under way
   to end, and nothing is sent after it.

   The specification judges histories of the real code (their events in order, with their times);
   with Free it generates its own: every order, every answer, with the programs of Programs.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Free, Programs
VARIABLES h,          \* the history
          pos,        \* its event that comes next
          now,
          run, phase, since,
          due,        \* of the next publication
          sending, began, ended,
          todo,       \* measurements that wait for a thread
          active,     \* batches that have one: [b: measurements, a: attempts made, at: when the next is due, io: is under way]
          tags,       \* the common tags
          next,       \* as they are about to be, or None
          cand,       \* those that the publication may have
          acc,        \* counted since the last publication: sent, validation, http-error, other
          total, upto, \* measured, and counted, in all
          left        \* the operation that comes next (Free)
vars == <<h, pos, now, run, phase, since, due, sending, began, ended, todo, active, tags, next, cand, acc, total, upto, left>>

ASSUME TLCSet(7, JsonDeserialize("hist.json"))
Hist == TLCGet(7)
None == 0 - 1
H == IF Free THEN Programs[h] ELSE Hist[h]
E == H.ev[pos]
Max(a, b) == IF a > b THEN a ELSE b
Range(s) == {s[i] : i \in 1..Len(s)}

Init == /\ h \in (IF Free THEN 1..Len(Programs) ELSE 1..Len(Hist))
        /\ pos = 1 /\ now = 0 /\ run = FALSE /\ phase = "" /\ since = 0 /\ due = None
        /\ sending = FALSE /\ began = None /\ ended = 0 /\ todo = {} /\ active = {}
        /\ tags = 1 /\ next = None /\ cand = {} /\ acc = <<0, 0, 0, 0>> /\ total = 0 /\ upto = 0 /\ left = 1

\* what has to happen, happens in time
Idle == Cardinality(active) < H.pool
Punctual(t) ==
  /\ t >= now
  /\ (run /\ ~sending /\ phase # "stopping" => t <= due)
  /\ (\A a \in active : ~a.io => t <= a.at)
  /\ (todo # {} /\ Idle => t = now)
  /\ (phase = "starting" \/ next # None => t = now)
  /\ (phase = "stopping" /\ ~sending => t = Max(since, ended))

Rest == <<h, pos, left>>
StartBegins(t) == /\ phase = "" /\ ~run /\ phase' = "starting" /\ since' = t /\ run' = TRUE /\ due' = t
                  /\ UNCHANGED <<sending, began, ended, todo, active, tags, next, cand, acc, total, upto>>
StartEnds == /\ phase = "starting" /\ phase' = ""
             /\ UNCHANGED <<run, since, due, sending, began, ended, todo, active, tags, next, cand, acc, total, upto>>
StopBegins(t) == /\ phase = "" /\ run /\ phase' = "stopping" /\ since' = t
                 /\ UNCHANGED <<run, due, sending, began, ended, todo, active, tags, next, cand, acc, total, upto>>
StopEnds == /\ phase = "stopping" /\ ~sending /\ phase' = "" /\ run' = FALSE /\ due' = None
            /\ UNCHANGED <<since, sending, began, ended, todo, active, tags, next, cand, acc, total, upto>>
TagBegins(x) == /\ phase = "" /\ next = None /\ next' = x
                /\ cand' = (IF sending THEN cand \cup {x} ELSE cand)
                /\ UNCHANGED <<run, phase, since, due, sending, began, ended, todo, active, tags, acc, total, upto>>
TagEnds == /\ next # None /\ tags' = next /\ next' = None
           /\ UNCHANGED <<run, phase, since, due, sending, began, ended, todo, active, cand, acc, total, upto>>
\* n measurements, of which the counters say c
Measured(t, n, c) ==
  /\ run /\ ~sending /\ t = due /\ (phase = "stopping" => t = since)     \* (the stop was not yet noticed)
  /\ (IF H.status THEN c = acc ELSE c = <<0, 0, 0, 0>>)
  /\ acc' = <<0, 0, 0, 0>> /\ began' = t /\ todo' = 1..n /\ sending' = (n > 0) /\ total' = total + n
  /\ (IF n = 0 THEN ended' = t /\ due' = t + H.freq ELSE UNCHANGED <<ended, due>>)
  /\ cand' = ({tags, next} \ {None})
  /\ UNCHANGED <<run, phase, since, active, tags, next, upto>>
\* the caller's own, at the end
Counted(c) == /\ ~run /\ phase = "" /\ (IF H.status THEN c = acc ELSE c = <<0, 0, 0, 0>>) /\ acc' = <<0, 0, 0, 0>>
              /\ UNCHANGED <<run, phase, since, due, sending, began, ended, todo, active, tags, next, cand, total, upto>>
\* a request with the measurements b and the common tags g: the first of a batch, or one more
PostBegins(t, b, g) ==
  /\ sending /\ g \in cand /\ cand' = {g}
  /\ \/ /\ b # {} /\ b \subseteq todo /\ Cardinality(b) <= H.batch /\ Idle
        /\ todo' = todo \ b /\ active' = active \cup {[b |-> b, a |-> 1, at |-> t, io |-> TRUE]}
     \/ \E a \in active : /\ a.b = b /\ ~a.io /\ t = a.at
                          /\ active' = (active \ {a}) \cup {[a EXCEPT !.a = @ + 1, !.io = TRUE]}
                          /\ UNCHANGED todo
  /\ UNCHANGED <<run, phase, since, due, sending, began, ended, tags, next, acc, total, upto>>
\* the answers: 0 all accepted, 1 an error of the server, 2 no connection, 3 all but one accepted, 4 too many requests, 5 an error of ours
Final(x, a) == x \in {0, 3, 5} \/ a = 3
Counts(x, n) == CASE x = 0 -> <<n, 0, 0, 0>>
                  [] x = 1 -> <<0, 0, n, 0>>
                  [] x = 3 -> <<n - 1, 1, 0, 0>>
                  [] OTHER -> <<0, 0, 0, n>>
PostEnds(t, b, g, x) ==
  /\ g \in cand
  /\ \E a \in active :
       /\ a.b = b /\ a.io
       /\ IF Final(x, a.a)
          THEN LET n == Cardinality(b)  c == Counts(x, n) IN
               /\ active' = active \ {a} /\ upto' = upto + n
               /\ acc' = [i \in 1..4 |-> acc[i] + c[i]]
               /\ IF active' = {} /\ todo = {}
                  THEN sending' = FALSE /\ ended' = t /\ due' = Max(began + H.freq, t)
                  ELSE UNCHANGED <<sending, ended, due>>
          ELSE /\ active' = (active \ {a}) \cup {[a EXCEPT !.io = FALSE, !.at = t + (IF x = 2 THEN 0 ELSE IF a.a = 1 THEN 200 ELSE 400)]}
               /\ UNCHANGED <<sending, ended, due, acc, upto>>
  /\ UNCHANGED <<run, phase, since, began, todo, tags, next, cand, total>>

Judge ==
  /\ pos <= Len(H.ev) /\ pos' = pos + 1 /\ UNCHANGED <<h, left>>
  /\ Punctual(E.t) /\ now' = E.t
  /\ CASE E.k = "sb" -> StartBegins(E.t)
       [] E.k = "se" -> StartEnds
       [] E.k = "tb" -> StopBegins(E.t)
       [] E.k = "te" -> StopEnds
       [] E.k = "gb" -> TagBegins(E.g)
       [] E.k = "ge" -> TagEnds
       [] E.k = "m" -> Measured(E.t, E.n, E.c)
       [] E.k = "c" -> Counted(E.c)
       [] E.k = "pb" -> PostBegins(E.t, Range(E.b), E.g)
       [] E.k = "pe" -> PostEnds(E.t, Range(E.b), E.g, E.x)

\* histories of the specification's own: batches in the order of the measurements, every answer, requests of H.took
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
First == {x \in todo : x < Least(todo) + H.batch}
Times == {now} \cup {t \in {due} \cup {a.at : a \in active} \cup {a.at + d : a \in {b \in active : b.io}, d \in H.took}
                          \cup (IF left <= Len(H.ops) THEN {H.ops[left].t} ELSE {}) : t > now}
FreeNext ==
  \E t \in Times :
    /\ Punctual(t) /\ now' = t /\ UNCHANGED <<h, pos>>
    /\ (\A a \in active : a.io => \E d \in H.took : t <= a.at + d)
    /\ (left <= Len(H.ops) => t <= Max(now, H.ops[left].t))
    /\ \/ /\ left <= Len(H.ops) /\ left' = left + 1 /\ t >= H.ops[left].t
          /\ CASE H.ops[left].k = "start" -> StartBegins(t)
               [] H.ops[left].k = "stop" -> StopBegins(t)
               [] H.ops[left].k = "tag" -> TagBegins(H.ops[left].g)
       \/ /\ UNCHANGED left
          /\ \/ StartEnds \/ StopEnds \/ TagEnds
             \/ Measured(t, H.n, IF H.status THEN acc ELSE <<0, 0, 0, 0>>)
             \/ \E g \in cand : \/ todo # {} /\ PostBegins(t, First, g)
                                \/ \E a \in active : ~a.io /\ PostBegins(t, a.b, g)
             \/ \E a \in active : a.io /\ (\E d \in H.took : t = a.at + d) /\ \E g \in cand, x \in H.answers : PostEnds(t, a.b, g, x)

Next == IF Free THEN FreeNext ELSE Judge
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Next)

\* ---- what holds
\* each measurement is waiting, with a thread or counted, and just one of them
Sum(S) == LET RECURSIVE F(_)
              F(T) == IF T = {} THEN 0 ELSE LET a == CHOOSE a \in T : TRUE IN Cardinality(a.b) + F(T \ {a})
          IN F(S)
Once == /\ total = upto + Cardinality(todo) + Sum(active)
        /\ \A a \in active : a.b \cap todo = {} /\ \A b \in active : a = b \/ a.b \cap b.b = {}
Bounded == Cardinality(active) <= H.pool /\ \A a \in active : a.a <= 3 /\ Cardinality(a.b) <= H.batch
\* the counts of a publication are complete when the next one measures
Complete == ~sending => todo = {} /\ active = {}
Counting == acc[1] + acc[2] + acc[3] + acc[4] <= upto
Quiet == ~run => ~sending
\* a batch is done with at most three requests and 600 ms of waiting after it has its thread
Prompt == phase = "stopping" /\ ~sending => now = Max(since, ended)
Stops == (phase = "stopping") ~> (phase = "")
Short == Free => now <= H.until

Explained == IF pos > Len(H.ev) THEN PrintT("@@" \o ToString(h)) ELSE TRUE
=======================================================================
