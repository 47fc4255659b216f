--------------------------- MODULE Compress ---------------------------
(* A compressed buffer: begun, appended to in pieces, finished, begun again, replaced. The
   pieces are numbered as they are appended; a result must be the concatenation of those since
   the buffer was begun. TLC generates the histories together with what each result must be. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Pieces,     \* the kinds of pieces: sequence of <<kind, size>>; "bytes" are single bytes
          Depth, Weighted
VARIABLES st,         \* "new", "open", "done"
          first, last,     \* the pieces since it was begun
          ops, want, n     \* history; per operation <<>> or the pieces of the result; length
vars == <<st, first, last, ops, want, n>>

Init == st = "new" /\ first = 1 /\ last = 0 /\ ops = <<>> /\ want = <<>> /\ n = 0
Did(op, w) == ops' = Append(ops, op) /\ want' = Append(want, w) /\ n' = n + 1

Begin == st' = "open" /\ first' = last + 1 /\ last' = last /\ Did(<<"init">>, <<>>)
Add(k) == st = "open" /\ st' = "open" /\ first' = first /\ last' = last + 1
          /\ Did(IF Pieces[k][1] = "bytes" THEN <<"bytes", Pieces[k][2]>> ELSE <<"add", Pieces[k][1], Pieces[k][2]>>, <<>>)
\* (asked again, it is still the same)
Finish == st \in {"open", "done"} /\ st' = "done" /\ UNCHANGED <<first, last>> /\ Did(<<"result">>, <<first, last>>)
Discard == st' = "new" /\ first' = last + 1 /\ last' = last /\ Did(<<"new">>, <<>>)
Next == n < Depth /\
  IF Weighted THEN LET r == RandomElement(1..10) IN
       IF st = "new" \/ (st = "done" /\ r <= 7) THEN Begin
       ELSE IF r <= 7 \/ (st = "done" /\ r = 8) THEN (IF st = "open" THEN Add(RandomElement(1..Len(Pieces))) ELSE Finish)
       ELSE IF r = 8 THEN Begin
       ELSE IF r = 9 THEN Finish ELSE Discard
  ELSE Begin \/ Finish \/ Discard \/ \E k \in 1..Len(Pieces) : Add(k)
Spec == Init /\ [][Next]_vars

\* results are consecutive runs of pieces: none lost, none twice
Runs == LET rs == SelectSeq(want, LAMBDA w : w # <<>>) IN
        \A i \in 1..Len(rs) : /\ rs[i][2] >= rs[i][1] - 1
                              /\ \A j \in 1..(i - 1) : rs[j] = rs[i] \/ rs[j][2] < rs[i][1]
Emit == IF n = Depth THEN PrintT("@@" \o ToJson([ops |-> ops, want |-> want])) ELSE TRUE

=======================================================================
