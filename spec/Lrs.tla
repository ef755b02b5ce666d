--------------------------------- MODULE Lrs ---------------------------------
(* Linkable ring signatures: what a verifier may accept, whoever assembled   *)
(* the signature, and what two signatures say about their signers.           *)
(*                                                                           *)
(* A signature closes a chain of n pairs of commitments z1_i = g^s_i y_i^c_i *)
(* and z2_i = h^s_i y0^c_i under one challenge, the hash of everything; the  *)
(* signer at place pi closes it with the exponent t.  z1_pi fits if t is the *)
(* key's secret, z2_pi fits if t is the exponent of the tag y0 = h^tag.      *)
(* A forger hashes all but `omit`, which helps against verifiers that hash   *)
(* no more than that.                                                        *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANT MaxN

Guards == {"len", "range", "group", "sum", "y0", "m", "L", "z1", "z2"}

Z(n, k) == {<<k, i>> : i \in 1..n}
Fields(n) == {<<"y0", 0>>, <<"m", 0>>, <<"L", 0>>} \cup Z(n, "z1") \cup Z(n, "z2")

Alters(n) == {<<"none", 0, 0>>, <<"m", 0, 0>>, <<"y0", 0, 0>>} \cup {<<"y", i, 0>> : i \in 1..n} \cup {<<"s", i, 0>> : i \in 1..n}
             \cup {<<"c", i, 0>> : i \in 1..n} \cup {<<"shift", i, j>> : i, j \in 1..n} \cup {<<"swapS", i, j>> : i, j \in 1..n}
             \cup {<<"swapY", i, j>> : i, j \in 1..n}
Lens == {"ok", "extraC", "extraS", "shortC", "shortS", "shortY", "longY"}
Encs == {"ok", "plusP", "neg", "zero"}

Case(n, pi, t, tag, omit, enc, len, alter) ==
    [n |-> n, pi |-> pi, t |-> t, tag |-> tag, omit |-> omit, enc |-> enc, len |-> len, alter |-> alter]
Honest(n, pi) == Case(n, pi, "own", "own", {}, "ok", "ok", <<"none", 0, 0>>)

Omits(n, pi) == {{<<"z1", pi>>}, {<<"z2", pi>>}, Z(n, "z1"), Z(n, "z2"), {<<"y0", 0>>}, {<<"m", 0>>}, {<<"L", 0>>}}

Cases ==
    UNION { {Honest(n, pi)}
            \* an outsider; a member with a tag of its own choosing, or with another member's
            \cup {[Honest(n, pi) EXCEPT !.t = x[1], !.tag = x[2], !.omit = o] :
                  x \in {<<"foreign", "foreign">>, <<"own", "foreign">>} \cup (IF n > 1 THEN {<<"own", "frame">>} ELSE {}),
                  o \in {{}} \cup Omits(n, pi)}
            \cup {[Honest(n, pi) EXCEPT !.enc = e] : e \in Encs}
            \cup {[Honest(n, pi) EXCEPT !.len = l] : l \in Lens}
            \cup {[Honest(n, pi) EXCEPT !.alter = a, !.omit = o] :
                  a \in {x \in Alters(n) : x[1] \in {"shift", "swapS", "swapY"} => x[2] < x[3]}, o \in {{}} \cup Omits(n, pi)}
            \* a tag that is computed from the challenge; the other members' challenges are 0 then
            \cup {[Honest(n, pi) EXCEPT !.alter = <<"y0solve", 0, 0>>, !.omit = {<<"y0", 0>>}]}
            : <<n, pi>> \in {x \in (1..MaxN) \X (1..MaxN) : x[2] <= x[1]} }

RingAltered(c) == c.alter[1] \in {"y", "swapY"}
HashAltered(c) == c.alter[1] = "m" \/ RingAltered(c)

Z1ok(c, i) == /\ (i = c.pi => c.t = "own")
              /\ ~(c.alter[1] \in {"s", "c", "y"} /\ c.alter[2] = i)
              /\ ~(c.alter[1] \in {"shift", "swapS", "swapY"} /\ i \in {c.alter[2], c.alter[3]})
Z2ok(c, i) == /\ (i = c.pi => c.t = c.tag)
              /\ ~(c.alter[1] \in {"s", "c"} /\ c.alter[2] = i)
              /\ ~(c.alter[1] \in {"shift", "swapS"} /\ i \in {c.alter[2], c.alter[3]})
              /\ c.alter[1] # "y0"
HOk(c, G) == /\ (c.alter[1] = "m" => "m" \notin G) /\ (RingAltered(c) => "L" \notin G)

\* what the verifier hashes
Hashed(c, G) == {f \in Fields(c.n) : f[1] \in G}

Accept(c, G) ==
    /\ (c.len # "ok" => "len" \notin G /\ c.len \in {"extraC", "extraS"})
    /\ (c.enc = "plusP" => "range" \notin G)
    /\ (c.enc = "neg" => "group" \notin G)
    /\ (c.enc = "zero" => "range" \notin G /\ "group" \notin G)
    /\ \/ "sum" \notin G
       \/ /\ c.omit = Fields(c.n) \ Hashed(c, G)
          /\ c.alter[1] # "c"
          /\ \A f \in Hashed(c, G) :
                CASE f[1] = "z1" -> Z1ok(c, f[2])
                  [] f[1] = "z2" -> Z2ok(c, f[2]) /\ HOk(c, G)
                  [] f[1] = "y0" -> c.alter[1] \notin {"y0", "y0solve"}
                  [] f[1] = "m"  -> c.alter[1] # "m"
                  [] f[1] = "L"  -> ~RingAltered(c)
                  [] OTHER -> TRUE

\* what it may accept: what the holder of a ring member's key made for this message and ring, with its own tag
Good(c) == c.t = "own" /\ c.tag = "own" /\ c.enc = "ok" /\ c.len = "ok" /\ c.alter[1] = "none"

Weak == {{g} : g \in {"len", "range", "group", "sum", "y0", "m", "z1", "z2"}}
ASSUME \A w \in Weak : \E c \in Cases : Accept(c, Guards \ w) /\ ~Good(c)

VARIABLES c, out
Init == c \in Cases /\ out = "made"
Next == out = "made" /\ out' = (IF Accept(c, Guards) THEN "accept" ELSE "reject") /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, out>>

Sound    == out = "accept" => Good(c)
Complete == (out # "made" /\ Good(c) /\ c.omit = {}) => out = "accept"
Show == out = "made" \/ PrintT("VEC " \o ToJson([c |-> c, out |-> out]))
=============================================================================
