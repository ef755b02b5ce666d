--------------------------------- MODULE Sig ---------------------------------
(* A signature as it is made and as it is shown to a verifier: for which     *)
(* message, key and base, and with what done to it.  Messages are sequences  *)
(* of blocks, so that prefixes, extensions, changes at any place and the     *)
(* empty message are all among the pairs.                                    *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxLen, MaxLies

Guards == {"content", "length", "key", "base", "chal", "resp", "size"}
Msgs == UNION {[1..n -> {0, 1}] : n \in 0..MaxLen}

Keys  == {"same", "other", "neg", "id"}
Bases == {"same", "other", "std"}
Alts  == {"none", "c+1", "r+1", "swap", "negc", "negr", "zc", "zr", "zz",   \* the two numbers
          "oldc", "oldr",                                                 \* from a signature of another message
          "flipc", "flipr",                                               \* a bit of either
          "short", "half", "empty"}                                       \* the encoding
Chal == {"c+1", "swap", "negc", "zc", "zz", "oldc", "flipc"}
Resp == {"r+1", "swap", "negr", "zr", "zz", "oldr", "flipr"}
Size == {"short", "half", "empty"}

Lies(x) == (IF x.m = x.v THEN 0 ELSE 1) + (IF x.key = "same" THEN 0 ELSE 1)
           + (IF x.base = "same" THEN 0 ELSE 1) + (IF x.alt = "none" THEN 0 ELSE 1)
Cases(n) == {x \in [m : Msgs, v : Msgs, key : Keys, base : Bases, alt : Alts] : Lies(x) <= n}

SameHash(x, G) ==
  LET k == IF Len(x.m) < Len(x.v) THEN Len(x.m) ELSE Len(x.v) IN
  /\ "length" \in G => Len(x.m) = Len(x.v)
  /\ "content" \in G => \A i \in 1..k : x.m[i] = x.v[i]
SameT(x, G) == /\ "key" \in G => x.key = "same"
               /\ "base" \in G => x.base = "same"
               /\ "resp" \in G => x.alt \notin Resp
Accept(x, G) == /\ "size" \in G => x.alt \notin Size
                /\ "chal" \in G => (x.alt \notin Chal /\ SameHash(x, G) /\ SameT(x, G))

True(x) == x.m = x.v /\ x.key = "same" /\ x.base = "same" /\ x.alt = "none"

ASSUME \A g \in Guards : \E x \in Cases(1) : Accept(x, Guards \ {g}) /\ ~True(x)

VARIABLES c, out
Init == c \in Cases(MaxLies) /\ out = "sent"
Next == out = "sent" /\ out' = (IF Accept(c, Guards) THEN "accept" ELSE "reject") /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, out>>

Sound    == out = "accept" => True(c)
Complete == (out # "sent" /\ True(c)) => out = "accept"
Show == out = "sent" \/ PrintT("VEC " \o ToJson([c |-> c, out |-> out]))
==============================================================================
