--------------------------- MODULE Sockets ---------------------------
(* A datagram listener: datagrams arrive in order; whenever the listener gets to run it hands each
   of those that wait, and that are neither empty nor too large for its buffer, to the parser, once
   and in order. A receive call that fails loses nothing that waits. TLC generates histories
   together with the datagrams that each round hands over.
   Server: which parser the datagrams of a socket go to, and what the counters show.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, Contents, Errors, Buffer, Room, Depth, Weighted
VARIABLES wait,       \* the datagrams that wait, by number
          size,       \* of all datagrams
          given,      \* what was handed over, over all
          fails,      \* a receive call is going to fail
          ops, want, n
vars == <<wait, size, given, fails, ops, want, n>>

Fits(i) == size[i] > 0 /\ size[i] < Buffer
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE size[Head(q)] + Sum(Tail(q))

Init == wait = <<>> /\ size = <<>> /\ given = <<>> /\ fails = FALSE /\ ops = <<>> /\ want = <<>> /\ n = 0
\* (a socket holds only so much)
CanSend(s) == wait = <<>> \/ (Len(wait) < 8 /\ Sum(wait) + s <= Room)
Send(s, c) == /\ CanSend(s)
              /\ size' = Append(size, s) /\ wait' = Append(wait, Len(size) + 1)
              /\ ops' = Append(ops, <<"send", s, c>>) /\ UNCHANGED <<given, fails, want>>
Fail(e) == ~fails /\ fails' = TRUE /\ ops' = Append(ops, <<"fail", e>>) /\ UNCHANGED <<wait, size, given, want>>
Poll == LET now == SelectSeq(wait, Fits) IN
        /\ wait' = <<>> /\ given' = given \o now /\ want' = Append(want, now) /\ fails' = FALSE
        /\ ops' = Append(ops, <<"poll">>) /\ UNCHANGED size
Next == n < Depth /\ n' = n + 1 /\
  IF n = Depth - 1 THEN Poll
  ELSE IF Weighted
  THEN \E r \in {RandomElement(1..10)}, s \in {RandomElement(Sizes)}, c \in {RandomElement(Contents)}, e \in {RandomElement(Errors)} :
          IF r <= 6 /\ CanSend(s) THEN Send(s, c) ELSE IF r = 7 /\ ~fails THEN Fail(e) ELSE Poll
  ELSE Poll \/ (\E e \in Errors : Fail(e)) \/ (\E s \in Sizes, c \in Contents : Send(s, c))
Spec == Init /\ [][Next]_vars

Once == /\ \A i, j \in 1..Len(given) : i < j => given[i] < given[j]
        /\ {given[i] : i \in 1..Len(given)} = {i \in 1..Len(size) : Fits(i) /\ \A k \in 1..Len(wait) : wait[k] # i}
Emit == IF n = Depth THEN PrintT("@@" \o ToJson([ops |-> ops, want |-> want])) ELSE TRUE
=======================================================================
