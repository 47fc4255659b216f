---------------------------- MODULE Paths ----------------------------
(* The path of a URL. *)
EXTENDS Text, Json

CONSTANTS Tokens,     \* the texts URLs are made of
          MaxTokens
VARIABLES url, n

\* the position of "://" when it ends a protocol: nothing of a path or query before it
Proto(s) == LET at == {p \in 1..(Len(s) - 2) : s[p] = 58 /\ s[p + 1] = 47 /\ s[p + 2] = 47}
                p == CHOOSE q \in at : \A r \in at : q <= r
            IN IF at = {} THEN 0 ELSE IF \E i \in 1..(p - 1) : s[i] \in {47, 63} THEN 0 ELSE p
PathOf(s) ==
  IF s = <<>> THEN B("/")
  ELSE IF Proto(s) = 0 THEN s
  ELSE LET a == Proto(s) + 3
           q == FirstOf(s, a, {63})
           e == IF q = 0 THEN Len(s) ELSE q - 1
           p == FirstOf(s, a, {47})
       IN IF p = 0 \/ p > e THEN B("/") ELSE SubSeq(s, p, e)

Init == url = <<>> /\ n = 0
Next == n < MaxTokens /\ n' = n + 1 /\ \E t \in Tokens : url' = url \o t
Spec == Init /\ [][Next]_<<url, n>>
Sound == LET p == PathOf(url) IN
  /\ p # <<>>
  /\ Proto(url) # 0 => p[1] = 47 /\ \A i \in 1..Len(p) : p[i] # 63
Emit == PrintT("@@" \o ToJson(<<url, PathOf(url)>>))
======================================================================
