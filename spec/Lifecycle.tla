-------------------------- MODULE Lifecycle --------------------------
(* Starting and stopping the registry, and the server's end. Times are in milliseconds.

   Between start and stop the registry, when it has a URI, publishes at once and then every
   `freq`, or as soon as the publication before has ended when that takes longer, and drops idle
   meters every `exp`. A publication is one measurement and one batch of it: a request, which is
   made again when there was no connection (at once) or the server is busy (after 200 ms and then
   400 ms), three times at most. A stop ends both: it waits for a publication under way and for
   nothing else, and after it none happens. A second start, and a stop when there is nothing to
   stop, do nothing.
   The server keeps house when it starts and then every 30 s until the signal, and then ends at
   once.

   The specification judges histories of the real code (their events in order, with their times);
   with Free it generates its own: every order and time that it allows, with the programs of
   Programs, for the properties below.                                                          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Free, Programs
VARIABLES h,          \* the history
          pos,        \* its event that comes next
          now,
          run,        \* started
          due,        \* of the next publication
          sending,    \* one is under way
          sent,       \* when the last one began
          ended,      \* when the last one ended
          again,      \* when its next request is due
          attempt, inPost,
          tick,       \* of the next expiration or housekeeping
          last,       \* of the meter: last update
          there,      \* the meter, or the entry of the cache
          phase,      \* "", "starting", "stopping", of the caller
          since,      \* of the phase
          left        \* operations that were performed (Free)
vars == <<h, pos, now, run, due, sending, sent, ended, again, attempt, inPost, tick, last, there, phase, since, left>>

ASSUME TLCSet(7, JsonDeserialize("hist.json"))
Hist == TLCGet(7)
N == 1..Len(Hist)
None == 0 - 1
H == IF Free THEN Programs[h] ELSE Hist[h]
E == H.ev[pos]           \* [k, t, x]
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ h \in (IF Free THEN 1..Len(Programs) ELSE N)
        /\ pos = 1 /\ now = 0 /\ run = FALSE /\ due = None /\ sending = FALSE /\ sent = None /\ ended = 0 /\ again = None
        /\ attempt = 0 /\ inPost = FALSE /\ tick = None /\ last = None /\ there = FALSE /\ phase = "" /\ since = 0 /\ left = 1

\* what has to happen, happens in time
Server == H.u = "srv"
Punctual(t) ==
  /\ t >= now
  /\ run /\ H.uri /\ ~sending /\ phase # "stopping" => t <= due
  /\ sending /\ ~inPost => t <= again
  /\ run /\ phase # "stopping" /\ tick # None => t <= tick
  /\ phase = "starting" => t = since
  /\ phase = "stopping" /\ ~sending => t = Max(since, IF ended > since THEN ended ELSE since)
\* (an event at the very time of something else: either may come first)

StartBegins(t) == /\ phase = "" /\ phase' = "starting" /\ since' = t
                  /\ run' = TRUE
                  /\ due' = IF run \/ ~H.uri THEN due ELSE t
                  /\ tick' = IF run \/ H.exp = 0 THEN tick ELSE t + H.exp
                  /\ UNCHANGED <<sending, sent, ended, again, attempt, inPost, last, there>>
StartEnds(t) == /\ phase = "starting" /\ phase' = ""
                /\ UNCHANGED <<run, due, sending, sent, ended, again, attempt, inPost, tick, last, there, since>>
StopBegins(t) == /\ phase = "" /\ phase' = "stopping" /\ since' = t
                 /\ UNCHANGED <<run, due, sending, sent, ended, again, attempt, inPost, tick, last, there>>
StopEnds(t) == /\ phase = "stopping" /\ phase' = "" /\ ~sending
               /\ run' = FALSE /\ due' = None /\ tick' = None
               /\ UNCHANGED <<sending, sent, ended, again, attempt, inPost, last, there, since>>
Measured(t) == /\ run /\ H.uri /\ ~sending /\ t = due
               /\ (phase = "stopping" => t = since)      \* (the stop was not yet noticed)
               /\ sending' = TRUE /\ sent' = t /\ again' = t /\ attempt' = 0
               /\ UNCHANGED <<run, due, ended, inPost, tick, last, there, phase, since>>
PostBegins(t) == /\ sending /\ ~inPost /\ t = again
                 /\ inPost' = TRUE
                 /\ UNCHANGED <<run, due, sending, sent, ended, again, attempt, tick, last, there, phase, since>>
\* x: 0 an answer, 1 busy, 2 no connection
PostEnds(t, x) == /\ inPost /\ inPost' = FALSE
                  /\ IF x # 0 /\ attempt < 2
                     THEN /\ attempt' = attempt + 1
                          /\ again' = t + (IF x = 2 THEN 0 ELSE IF attempt = 0 THEN 200 ELSE 400)
                          /\ UNCHANGED <<sending, due, ended>>
                     ELSE /\ sending' = FALSE /\ ended' = t /\ due' = Max(sent + H.freq, t)
                          /\ UNCHANGED <<attempt, again>>
                  /\ UNCHANGED <<run, sent, tick, last, there, phase, since>>
Update(t) == /\ last' = t /\ there' = (IF Server THEN there ELSE TRUE)
             /\ UNCHANGED <<run, due, sending, sent, ended, again, attempt, inPost, tick, phase, since>>
Look(x) == /\ there = x
           /\ UNCHANGED <<run, due, sending, sent, ended, again, attempt, inPost, tick, last, there, phase, since>>
\* the server's: "up" the event loop runs, "raise" the signal, "end" Start returns
Up(t) == /\ run' = TRUE /\ tick' = t
         /\ UNCHANGED <<due, sending, sent, ended, again, attempt, inPost, last, there, phase, since>>
Raise(t) == StopBegins(t)
End(t) == StopEnds(t)

Step(e) ==
  /\ Punctual(e.t) /\ now' = e.t
  /\ CASE e.k = "sb" -> StartBegins(e.t)
       [] e.k = "se" -> StartEnds(e.t)
       [] e.k = "tb" -> StopBegins(e.t)
       [] e.k = "te" -> StopEnds(e.t)
       [] e.k = "m" -> Measured(e.t)
       [] e.k = "pb" -> PostBegins(e.t)
       [] e.k = "pe" -> PostEnds(e.t, e.x)
       [] e.k = "u" -> Update(e.t)
       [] e.k = "l" -> Look(e.x = 1)
       [] e.k = "up" -> Up(e.t)
       [] e.k = "raise" -> Raise(e.t)
       [] e.k = "end" -> End(e.t)
\* expiration: not an event
Tick(t) == /\ run /\ tick # None /\ tick = t
           /\ tick' = tick + H.exp
           /\ IF Server      \* (what it reports)
              THEN there' \in {last # None /\ t - last <= H.ttl} \cup (IF t = last THEN {FALSE} ELSE {})
              ELSE there' = (there /\ t - last <= H.ttl)

Judge == \/ /\ pos <= Len(H.ev) /\ Step(E) /\ pos' = pos + 1 /\ UNCHANGED <<h, left>>
         \/ /\ pos <= Len(H.ev) /\ tick # None /\ tick <= E.t /\ Punctual(tick) /\ Tick(tick) /\ now' = Max(now, tick)
            /\ UNCHANGED <<h, pos, run, due, sending, sent, ended, again, attempt, inPost, last, phase, since, left>>

\* histories of the specification's own: the caller performs H.ops, times move to whatever is next
Op == H.ops[left]
Times == {now} \cup {t \in {due, again, tick} : t > now} \cup {now + d : d \in H.steps}
Own(k, t, x) == Step([k |-> k, t |-> t, x |-> x]) /\ UNCHANGED <<h, pos>>
FreeNext ==
  \E t \in Times :
    \/ /\ left <= Len(H.ops) /\ phase = "" /\ left' = left + 1
       /\ Own(CASE Op = "start" -> "sb" [] Op = "stop" -> "tb" [] Op = "update" -> "u", t, 0)
    \/ /\ left' = left
       /\ \/ Own("se", t, 0) \/ Own("te", t, 0) \/ Own("m", t, 0) \/ Own("pb", t, 0)
          \/ \E x \in {0, 1, 2} : inPost /\ t <= again + 300 /\ Own("pe", t, x)
          \/ /\ Punctual(t) /\ Tick(t) /\ now' = t
             /\ UNCHANGED <<h, pos, run, due, sending, sent, ended, again, attempt, inPost, last, phase, since, left>>

Next == IF Free THEN FreeNext ELSE Judge
Spec == Init /\ [][Next]_vars

\* a stop ends with the publication under way, or at once; nothing happens between a stop and a start
Prompt == /\ (phase = "stopping" /\ ~sending => now = since \/ now = ended)
          /\ (~run => ~sending /\ ~inPost /\ tick = None /\ due = None)
\* no URI, no request
Silent == ~H.uri => ~sending
Short == Free => now <= H.until

Explained == IF pos > Len(H.ev) THEN PrintT("@@" \o ToString(h)) ELSE TRUE
=======================================================================
