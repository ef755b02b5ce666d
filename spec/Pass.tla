-------------------------------- MODULE Pass --------------------------------
(* A table on its way from one server to the next, with the shuffle proof    *)
(* that comes with it: what a server may accept, whoever made the message.   *)
(*                                                                           *)
(* The sender shuffled the list Y (with X beside it): row i of the matrix    *)
(* says of which entries of Y the i-th output is the product; only a         *)
(* permutation matrix is a shuffle.  `keys` is the table that is sent, as    *)
(* indices into Y (0 is a key from elsewhere).  The proof's challenges are   *)
(* hashes of a statement of five parts; a sender who omits parts from the    *)
(* hash can change one of them afterwards (`alt`) if the receiver does not   *)
(* hash it either.                                                           *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS N,        \* number of entries
          MaxDev,   \* how many things a message may have wrong
          Kinds     \* announcement, round end

Parts  == {"pk", "X", "Y", "Xb", "Yb"}
Idx    == 1..N

\* the equations of the verifier (Neff, section 4 and, for the simple shuffle, section 3), and with each of
\* them the prover who deviates so that all the others hold for a list that is no shuffle
Lies == { "34:0", "35:0" } \cup { e \o ToString(i) : e \in {"33:", "tieR:", "tieS:"}, i \in 0..(N - 1) }
        \cup { "ss:" \o ToString(i) : i \in 0..(2 * N - 1) }
Guards == {"sender", "present", "tie", "intact", "perm"} \cup { "bind_" \o p : p \in Parts } \cup { "eq_" \o l : l \in Lies }

Id   == [i \in Idx |-> [j \in Idx |-> IF i = j THEN 1 ELSE 0]]
Seq0 == [i \in Idx |-> i]

IsPermMatrix(r) == /\ \A i \in Idx : Cardinality({j \in Idx : r[i][j] = 1}) = 1
                   /\ \A j \in Idx : Cardinality({i \in Idx : r[i][j] = 1}) = 1
IsPermSeq(k)    == {k[i] : i \in Idx} = Idx

\* the determinant over the integers: a product with an invertible matrix can be inverted,
\* so that the prover of a mix knows all that the proof without its tie asks for
Perms == {f \in [Idx -> Idx] : \A i, j \in Idx : f[i] = f[j] => i = j}
Inversions(f) == Cardinality({<<i, j>> \in Idx \X Idx : i < j /\ f[i] > f[j]})
RECURSIVE Prod(_, _, _)
Prod(r, f, i) == IF i = 0 THEN 1 ELSE r[i][f[i]] * Prod(r, f, i - 1)
RECURSIVE Sum(_, _)
Sum(r, S) == IF S = {} THEN 0
             ELSE LET f == CHOOSE x \in S : TRUE
                  IN (IF Inversions(f) % 2 = 0 THEN 1 ELSE -1) * Prod(r, f, N) + Sum(r, S \ {f})
Invertible(r) == Sum(r, Perms) # 0

Rows == [Idx -> [Idx -> 0..1]]
Keys == [Idx -> 0..N]

\* `claim`: another server's message that looks like the coordinator's, which starts a pass and needs no proof
Msg(kind, rows, keys, alt, omit, flag, garble) ==
    [lie |-> "", claim |-> FALSE, kind |-> kind, rows |-> rows, keys |-> keys, alt |-> alt, omit |-> omit, flag |-> flag, garble |-> garble]

\* the messages, by what is wrong with them
Altered == {<<p, S>> \in Parts \X (SUBSET Parts) : p \in S}
Dev(m) == (IF IsPermMatrix(m.rows) THEN 0 ELSE 1) + (IF IsPermSeq(m.keys) THEN 0 ELSE 1)
          + (IF m.alt = "" THEN 0 ELSE 1) + (IF m.flag THEN 0 ELSE 1) + (IF m.garble = 0 THEN 0 ELSE 1) + (IF m.claim THEN 1 ELSE 0) + (IF m.lie = "" THEN 0 ELSE 1)
Base(kind) == Msg(kind, Id, Seq0, "", {}, TRUE, 0)
One == UNION { {[Base(k) EXCEPT !.rows = r] : r \in Rows} \cup {[Base(k) EXCEPT !.keys = q] : q \in Keys}
               \cup {[Base(k) EXCEPT !.alt = a[1], !.omit = a[2]] : a \in Altered}
               \cup {[Base(k) EXCEPT !.lie = l] : l \in Lies}
               \cup {[Base(k) EXCEPT !.flag = FALSE]} \cup {[Base(k) EXCEPT !.flag = FALSE, !.claim = TRUE]} \cup {[Base(k) EXCEPT !.garble = g] : g \in 1..8} : k \in Kinds }
Two(KK) == UNION { {[Base(k) EXCEPT !.rows = r, !.keys = q] : r \in Rows, q \in Keys}
               \cup {[Base(k) EXCEPT !.keys = q, !.flag = FALSE] : q \in Keys}
               \cup {[Base(k) EXCEPT !.keys = q, !.flag = f, !.claim = TRUE] : q \in Keys, f \in BOOLEAN} : k \in KK }
Msgs == IF MaxDev = 1 THEN One ELSE One \cup Two(Kinds)

\* what the receiver does
Hashed(G) == {p \in Parts : ("bind_" \o p) \in G}
Accept(m, G) ==
    IF m.claim /\ "sender" \notin G THEN TRUE
    ELSE IF m.claim /\ m.kind = "ANN" THEN FALSE       \* no generator to go on from
    ELSE IF ~m.flag THEN N <= 1 \/ "present" \notin G
    ELSE /\ ("intact" \in G => m.garble = 0)
         /\ m.omit = Parts \ Hashed(G)                      \* both hash the same
         /\ m.alt \notin Hashed(G)
         /\ ("eq_" \o m.lie) \notin G
         /\ (IF "tie" \in G THEN IsPermMatrix(m.rows) ELSE Invertible(m.rows))
         /\ ("perm" \in G => IsPermSeq(m.keys))

\* what it may do
Good(m) == (m.flag \/ N <= 1) /\ IsPermMatrix(m.rows) /\ IsPermSeq(m.keys) /\ m.alt = "" /\ m.garble = 0 /\ m.lie = ""
Honest(m) == m.flag /\ ~m.claim /\ Good(m) /\ m.omit = {}

\* each check is needed: without it a message is taken that must not be
ASSUME N = 2 => \A g \in Guards : \E m \in One : Accept(m, Guards \ {g}) /\ ~Good(m)

VARIABLES msg, out
vars == <<msg, out>>
Init == msg \in Msgs /\ out = "sent"
Next == out = "sent" /\ out' = (IF Accept(msg, Guards) THEN "accept" ELSE "reject") /\ UNCHANGED msg
Spec == Init /\ [][Next]_vars

Sound    == out = "accept" => Good(msg)
Complete == (out # "sent" /\ Honest(msg)) => out = "accept"
Show == out = "sent" \/ PrintT("VEC " \o ToJson([m |-> msg, out |-> out, dev |-> Dev(msg)]))
=============================================================================
