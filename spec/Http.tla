------------------------------- MODULE Http -------------------------------
(* One request of the HTTP client: the outcome of every attempt is chosen by the
   environment; the client decides whether to go on. An outcome is a status, or 0
   and the way in which there was no response.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Outcomes, Max, Requests    \* Requests: how many requests in a row
VARIABLES tried, finished, past      \* attempts of the current request; is it over; earlier requests
hvars == <<tried, finished, past>>

Failed(o) == o.st = 0
\* a failure leaves no time for another attempt only when it used up the whole budget
Spent(o) == o.fail = "slow"
Again(o) == IF Failed(o) THEN ~Spent(o) ELSE o.st = 429 \/ o.st \div 100 = 5

Result(o) == IF ~Failed(o) /\ o.st \div 100 = 2 THEN "success" ELSE "failure"
Why(o) == CASE o.fail \in {"slow", "hang"} -> "timeout"
            [] o.fail = "refused" -> "connection_error"
            [] Failed(o) -> "unknown"
            [] o.st \div 100 = 2 -> "success"
            [] OTHER -> "http_error"
Nth == <<"initial", "second", "third_up">>
Record(k) == [status |-> IF Failed(tried[k]) THEN "-1" ELSE ToString(tried[k].st), result |-> Result(tried[k]), why |-> Why(tried[k]),
              attempt |-> Nth[k], final |-> finished /\ k = Len(tried)]
Reached(o) == o.fail \notin {"refused", "hang"}       \* the server sees a request

Init == tried = <<>> /\ finished = FALSE /\ past = <<>>
Attempt(o) == /\ ~finished
              /\ tried' = Append(tried, o)
              /\ finished' = (~Again(o) \/ Len(tried) + 1 = Max)
              /\ past' = past
Summary == [script |-> tried, status |-> IF Failed(tried[Len(tried)]) THEN 0 - 1 ELSE tried[Len(tried)].st,
            seen |-> Cardinality({k \in 1..Len(tried) : Reached(tried[k])}),
            records |-> [k \in 1..Len(tried) |-> Record(k)]]
NextRequest == /\ finished /\ Len(past) + 1 < Requests
               /\ past' = Append(past, Summary) /\ tried' = <<>> /\ finished' = FALSE
Next == NextRequest \/ \E o \in Outcomes : Attempt(o)
Spec == Init /\ [][Next]_hvars

AtMostThree == Len(tried) <= 3
OnlyRetryable == \A k \in 1..(Len(tried) - 1) : Again(tried[k])
GivesUpLate == finished => ~Again(tried[Len(tried)]) \/ Len(tried) = 3
OneFinal == finished => Cardinality({k \in 1..Len(tried) : Record(k).final}) = 1
Good == AtMostThree /\ OnlyRetryable /\ GivesUpLate /\ OneFinal
Emitting == IF finished /\ Len(past) + 1 = Requests THEN PrintT("@@" \o ToJson(Append(past, Summary))) ELSE TRUE
===========================================================================
