---------------------------- MODULE Daemon ----------------------------
(* What the daemon makes of its command line: whether it starts at all, the configuration it
   runs with, the sockets it opens, where and with which common tags it publishes.

   An argument is [f |-> name, v |-> text]; the last one of a name counts. The daemon starts
   from the configuration it is built with (Built).                                        *)
EXTENDS Text, Integers, Json

CONSTANTS
  Args,           \* the arguments to choose from, a sequence
  BuiltUri,       \* text
  Pick(_),
  Depth

VARIABLES given   \* indices into Args
vars == <<given>>

Max16 == 65535
RECURSIVE Value(_, _, _)
Value(ds, b, acc) == IF ds = <<>> THEN acc ELSE IF acc > 10000000 THEN acc ELSE Value(Tail(ds), b, acc * b + Head(ds))
Trim(s) == LET in == {i \in 1..Len(s) : ~IsSpace(s[i])}
           IN IF in = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in in : \A j \in in : i <= j, CHOOSE i \in in : \A j \in in : i >= j)
\* <<>> or <<number>>: a decimal or hexadecimal number with an optional sign (here: numbers up to some 10^8)
IntOf(text) ==
  LET s == Trim(text)
      signed == At(s, 1) \in {43, 45}
      u == IF signed THEN Tail(s) ELSE s
      hex == At(u, 1) = 48 /\ At(u, 2) \in {120, 88}
      d == IF hex THEN SubSeq(u, 3, Len(u)) ELSE u
      ok == d # <<>> /\ \A i \in 1..Len(d) : IF hex THEN IsHex(Lower(d[i])) ELSE IsDigit(d[i])
      n == Value([i \in 1..Len(d) |-> HexVal(Lower(d[i]))], IF hex THEN 16 ELSE 10, 0)
  IN IF ok THEN <<IF At(s, 1) = 45 THEN -n ELSE n>> ELSE <<>>
IsPort(text) == LET n == IntOf(text) IN n # <<>> /\ n[1] >= 1 /\ n[1] <= Max16
IsCount(text) == At(Trim(text), 1) # 45 /\ IntOf(text) # <<>>

Truths == {B(x) : x \in {"true", "t", "yes", "y", "1"}}
Lies == {B(x) : x \in {"false", "f", "no", "n", "0"}}
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
IsBool(text) == LowerAll(text) \in Truths \cup Lies
True(text) == LowerAll(text) \in Truths

\* durations: numbers with a unit, one after the other; thousandths of a second (here: up to 23 days)
Units == (B("ms") :> 1) @@ (B("s") :> 1000) @@ (B("m") :> 60000) @@ (B("h") :> 3600000)
RECURSIVE Span(_, _)
Span(s, acc) ==      \* <<>> or <<milliseconds>>
  IF s = <<>> THEN <<acc>>
  ELSE LET d == Skip(s, 1, LAMBDA c : IsDigit(c))
           f == IF At(s, d) = 46 THEN Skip(s, d + 1, LAMBDA c : IsDigit(c)) ELSE d
           e == Skip(s, f, LAMBDA c : Lower(c) \in 97..122)
           u == Sub(s, f, e - 1)
           whole == Sub(s, 1, d - 1)
           part == Sub(s, d + 1, f - 1)
           Num(t) == Value([i \in 1..Len(t) |-> t[i] - 48], 10, 0)
           Pow == CASE Len(part) = 0 -> 1 [] Len(part) = 1 -> 10 [] OTHER -> 100
       IN IF whole \o part = <<>> \/ u \notin DOMAIN Units THEN <<>>
          ELSE Span(Sub(s, e, Len(s)), acc + Num(whole) * Units[u] + (Num(part) * Units[u]) \div Pow)
SpanOf(s) == IF s = B("0") THEN <<0>> ELSE IF s = <<>> THEN <<>> ELSE Span(s, 0)

\* the tags of k=v,k=v..
RECURSIVE Split(_, _)
Split(s, c) == LET p == FirstOf(s, 1, {c}) IN IF p = 0 THEN <<s>> ELSE <<Sub(s, 1, p - 1)>> \o Split(Sub(s, p + 1, Len(s)), c)
Pair(s) == LET p == FirstOf(s, 1, {61}) IN IF p <= 1 \/ p = Len(s) THEN <<>> ELSE <<Sub(s, 1, p - 1), Sub(s, p + 1, Len(s))>>
RECURSIVE TagsFrom(_, _)
TagsFrom(ps, acc) == IF ps = <<>> THEN acc ELSE TagsFrom(Tail(ps), (ps[1][1] :> ps[1][2]) @@ acc)
AreTags(s) == s = <<>> \/ \A i \in 1..Len(Split(s, 44)) : Pair(Split(s, 44)[i]) # <<>>
TagsOf(s) == LET x == Split(s, 44) IN TagsFrom([i \in 1..Len(x) |-> Pair(x[i])], <<>>)

-----------------------------------------------------------------------
Ports == {"port", "admin_port", "statsd_port"}
Bools == {"debug", "enable_external", "enable_socket", "enable_statsd", "ipv4_only", "no_common_tags", "verbose", "verbose_http"}
Texts == {"metatron_dir", "socket_path", "uri"}
WellFormed(a) ==
  CASE a.f \in Ports -> IsPort(a.v)
    [] a.f \in Bools -> IsBool(a.v)
    [] a.f \in Texts -> TRUE
    [] a.f = "age_gauge_limit" -> IsCount(a.v)
    [] a.f = "meter_ttl" -> SpanOf(a.v) # <<>>
    [] a.f = "common_tags" -> TRUE
    [] OTHER -> FALSE

A(g) == [i \in 1..Len(g) |-> Args[g[i]]]
Has(as, f) == \E i \in 1..Len(as) : as[i].f = f
Last(as, f, dflt) == IF Has(as, f) THEN as[CHOOSE i \in 1..Len(as) : as[i].f = f /\ \A j \in (i + 1)..Len(as) : as[j].f # f].v ELSE dflt
Flag(as, f, dflt) == IF Has(as, f) THEN True(Last(as, f, <<>>)) ELSE dflt
PortOf(as, f, dflt) == IF Has(as, f) THEN IntOf(Last(as, f, <<>>))[1] ELSE dflt

BuiltTags == (B("nf.app") :> B("dflt")) @@ (B("nf.node") :> B("i-1"))
Elsewhere == B("https://atlas-aggr-dev.us-east-1.ieptest.netflix.net/api/v4/update")
ExternalUri == B("@/ext")

Fails(as) == (\E i \in 1..Len(as) : ~WellFormed(as[i])) \/ ~AreTags(Last(as, "common_tags", <<>>))

Config(as) ==
  LET debug == Flag(as, "debug", FALSE)
      uri == Last(as, "uri", <<>>)
      ext == ~debug /\ uri = <<>> /\ Flag(as, "enable_external", FALSE)
      none == Flag(as, "no_common_tags", FALSE)
      own == Last(as, "common_tags", <<>>)
  IN [uri |-> IF debug THEN Elsewhere ELSE IF uri # <<>> THEN uri ELSE IF ext THEN ExternalUri ELSE BuiltUri,
      external |-> ext,
      metatron |-> IF ext THEN Last(as, "metatron_dir", <<>>) ELSE <<>>,
      ttl |-> SpanOf(Last(as, "meter_ttl", B("15m")))[1],
      limit |-> IntOf(Last(as, "age_gauge_limit", B("1000")))[1],
      tags |-> IF none THEN <<>> ELSE IF own = <<>> THEN BuiltTags ELSE TagsOf(own),
      status |-> ~none]

\* the sockets: kind, and the port or path
Binds(as) ==
  LET v == IF Flag(as, "ipv4_only", FALSE) THEN "inet" ELSE "inet6"
  IN {<<"admin", PortOf(as, "admin_port", 1234)>>, <<v, PortOf(as, "port", 1234)>>}
     \cup (IF Flag(as, "enable_statsd", FALSE) THEN {<<v, PortOf(as, "statsd_port", 8125)>>} ELSE {})
Unix(as) == IF Flag(as, "enable_socket", TRUE) THEN <<Last(as, "socket_path", B("/run/spectatord/spectatord.unix"))>> ELSE <<>>

\* the ways by which a line of the protocol, or of statsd, arrives
Ways(as) == LET fams == IF Flag(as, "ipv4_only", FALSE) THEN {"v4"} ELSE {"v4", "v6"}
            IN {"line." \o f : f \in fams} \cup (IF Flag(as, "enable_statsd", FALSE) THEN {"statsd." \o f : f \in fams} ELSE {})
               \cup (IF Unix(as) # <<>> THEN {"line.unix"} ELSE {})

\* how many of three age gauges are kept (with status metrics the daemon has one itself)
Ages(c) == LET room == IF c.status THEN c.limit - 1 ELSE c.limit IN IF room < 0 THEN 0 ELSE IF room > 3 THEN 3 ELSE room

\* the requests of our aggregator: the path of the URI, when it is ours
Prefix == B("@")
PathOf(uri) == IF Len(uri) > 0 /\ uri[1] = Prefix[1] THEN <<Tail(uri)>> ELSE <<>>

TagSet(t) == {<<k, t[k]>> : k \in DOMAIN t}
Outcome(as) ==
  IF Fails(as) THEN [fails |-> TRUE]
  ELSE LET c == Config(as) IN
       [fails |-> FALSE, config |-> [c EXCEPT !.tags = TagSet(@)], binds |-> Binds(as), unix |-> Unix(as), ways |-> Ways(as),
        
        published |-> {<<Clean(x[1]), Clean(x[2])>> : x \in TagSet(c.tags)},      \* the common tags as they are sent
        ages |-> Ages(c), posts |-> PathOf(c.uri), verbose |-> Flag(as, "verbose", FALSE)]

-----------------------------------------------------------------------
Init == given = <<>>
Next == Len(given) < Depth /\ \E i \in Pick({j \in 1..Len(Args) : TRUE}) :
          /\ given' = Append(given, i)
Spec == Init /\ [][Next]_vars

\* the order of arguments with different names does not matter: one order is enough
Ordered == \A i \in 1..(Len(given) - 1) : Args[given[i]].f = Args[given[i + 1]].f \/ given[i] < given[i + 1]

\* without common tags there are no status metrics, and none with an error in them are dropped silently
Sound == LET as == A(given) IN
  ~Fails(as) => /\ (Config(as).status <=> ~Flag(as, "no_common_tags", FALSE))
                /\ (~Config(as).status => Config(as).tags = <<>>)
                /\ (Config(as).external => ~Flag(as, "debug", FALSE))
                /\ "line.v4" \in Ways(as)
                /\ \A k \in DOMAIN Config(as).tags : k # <<>> /\ Config(as).tags[k] # <<>>
\* a malformed argument is never ignored, not even when a later one corrects it
Strict == LET as == A(given) IN \A i \in 1..Len(as) : ~WellFormed(as[i]) => Fails(as)

All(S) == S
One(S) == {RandomElement(S)}
EmitAll == PrintT("@@" \o ToJson([args |-> A(given), out |-> Outcome(A(given))]))
EmitLast == IF Len(given) = Depth THEN EmitAll ELSE TRUE
=======================================================================
