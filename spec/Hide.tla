-------------------------------- MODULE Hide --------------------------------
(* What an observer learns from the responses of proofs.  A member with a     *)
(* reputation asks several times; each request names an indicator and proves  *)
(* something about what is left, rep - ind, by a response                     *)
(*        z = mask + challenge * (rep - ind)                                  *)
(* of which the observer sees all but the mask and the reputation.  The       *)
(* observer knows how the masks are drawn.  Nothing may be learnt but that    *)
(* the reputation reaches each indicator.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxRep,   \* reputations are 0..MaxRep
          MaxAsk,   \* requests of one member
          MaxE,     \* challenges are 0..MaxE
          G         \* the guards

Guards == {"fresh",    \* each proof draws its mask anew
           "wide",     \* from a range much wider than what it hides
           "own"}      \* and not from anything the observer knows
Full == Guards
Top == MaxE * MaxRep              \* the largest value that is hidden
M == IF "wide" \in G THEN 4 * Top ELSE Top
Public(e, i) == (e + 2 * i) % M

VARIABLES rep, asks, first
vars == <<rep, asks, first>>

Init == rep \in 0..MaxRep /\ asks = <<>> /\ first = -1
Mask(e, i) == IF "own" \notin G THEN {Public(e, i)}
              ELSE IF "fresh" \notin G /\ first >= 0 THEN {first} ELSE 0..(M - 1)
Ask == /\ Len(asks) < MaxAsk
       /\ \E i \in 0..rep, e \in 1..MaxE : \E m \in Mask(e, i) :
            /\ asks' = Append(asks, [ind |-> i, e |-> e, z |-> m + e * (rep - i)])
            /\ first' = m
       /\ UNCHANGED rep
Next == Ask
Spec == Init /\ [][Next]_vars

\* the mask that reputation r would have needed
Need(r, a) == a.z - a.e * (r - a.ind)
Possible(r) == /\ \A k \in 1..Len(asks) : /\ r >= asks[k].ind
                                         /\ Need(r, asks[k]) \in 0..(M - 1)
                                         /\ "own" \notin G => Need(r, asks[k]) = Public(asks[k].e, asks[k].ind)
               /\ "fresh" \notin G => \A j, k \in 1..Len(asks) : Need(r, asks[j]) = Need(r, asks[k])
Proved(r) == \A k \in 1..Len(asks) : r >= asks[k].ind
\* responses near the ends of the range say more: they have to be rare
Ends == {k \in 1..Len(asks) : asks[k].z < Top \/ asks[k].z > M - 1}
Hidden == Ends = {} => \A r \in 0..MaxRep : Proved(r) => Possible(r)
Rare == 4 * (M - Top) >= 3 * M

RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o s : x \in S, s \in Seqs(S, n - 1)}
ASSUME \A r \in 0..MaxRep : \A s \in Seqs(0..r, MaxAsk) \ {<<>>} : PrintT("ASK " \o ToJson([rep |-> r, ind |-> s]))
=============================================================================
