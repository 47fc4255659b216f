---------------------------- MODULE Serve ----------------------------
(* The server and its sockets: 1 spectatord protocol on UDP, 2 statsd on UDP, 3 spectatord
   protocol on a Unix socket. A line counts up a counter when it is of the protocol of its socket,
   and is an error otherwise. *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Sockets,    \* those that are there
          Depth
VARIABLES count,      \* per counter
          good, bad, ops, n
vars == <<count, good, bad, ops, n>>
Names == {"a", "b", "c.d"}
Protocol(s) == IF s = 2 THEN "statsd" ELSE "line"
Line(p, name, v) == IF p = "statsd" THEN name \o ":" \o ToString(v) \o "|c" ELSE "c:" \o name \o ":" \o ToString(v)

Init == count = [x \in Names |-> 0] /\ good = 0 /\ bad = 0 /\ ops = <<>> /\ n = 0
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \E s \in {RandomElement(Sockets)}, q \in {RandomElement(1..4)}, x \in {RandomElement(Names)}, y \in {RandomElement(Names)},
         v \in {RandomElement(1..9)}, w \in {RandomElement(1..9)}, k \in {RandomElement(0..2)} :
     LET p == IF q = 1 THEN "statsd" ELSE IF q = 2 THEN "line" ELSE Protocol(s)
         right == p = Protocol(s)
         lines == IF k = 0 THEN 1 ELSE 2
     IN /\ ops' = Append(ops, <<s, Line(p, x, v) \o (IF k = 0 THEN "" ELSE "\n" \o Line(p, y, w)), lines>>)
        /\ good' = IF right THEN good + lines ELSE good
        /\ bad' = IF right THEN bad ELSE bad + lines
        /\ count' = IF ~right THEN count
                    ELSE LET one == [count EXCEPT ![x] = @ + v] IN IF k = 0 THEN one ELSE [one EXCEPT ![y] = @ + w]
Spec == Init /\ [][Next]_vars
Emit == IF n = Depth THEN PrintT("@@" \o ToJson([ops |-> ops, count |-> count, good |-> good, bad |-> bad])) ELSE TRUE
=======================================================================
