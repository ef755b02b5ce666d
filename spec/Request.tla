------------------------------- MODULE Request -------------------------------
(* A bridge request as the numbers that its commitments hold and the ways in *)
(* which its arguments were made: what a verifier may accept.  Qm stands for *)
(* the order of the group of the Pedersen commitments, which know numbers    *)
(* only modulo Qm, while the Fujisaki-Okamoto commitment holds an integer.   *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS MaxRep, MaxInd, Qm, MaxLies
ASSUME Qm > 3 * (MaxRep + MaxInd)

Guards == {"ind", "d", "nn1", "nn2", "bindRx", "bindC", "bindCr", "equal", "hashPed", "hashFO", "bound"}

\* how the argument of non-negativity of a negative number was made
NNbad == {"first",   \* satisfies the first equation only (of a number that is one)
          "second",  \* the second equation only
          "other",   \* is one for another commitment
          "zero",
          "lateRx", "lateC", "lateCr"}  \* a part of the first move is computed from the challenge
\* how the argument that two commitments hold one number was made when they do not
EQbad == {"ped",     \* right on the Pedersen side, the other side left out of the challenge
          "fo", "plainPed", "plainFO"}

Mod(x) == ((x % Qm) + Qm) % Qm

\* pd: the Pedersen commitment to the difference is the quotient (-1), or one to a number of its own
Ped(rep, indC, pd) == IF pd = -1 THEN rep - indC ELSE pd
Lies(x, w, nn, eq) == (IF x[2] = x[3] THEN 0 ELSE 1) + (IF x[4] = -1 THEN 0 ELSE 1) + (IF nn = "ok" THEN 0 ELSE 1)
                      + (IF eq = "ok" THEN 0 ELSE 1) + (IF w = 0 THEN 0 ELSE 1)
NN(fo)     == IF fo >= 0 THEN {"ok"} ELSE NNbad
EQ(fo, vd) == IF Mod(fo) = Mod(vd) THEN {"ok"} ELSE EQbad
Cases ==
  UNION { LET vd == Ped(x[1], x[3], x[4])
              fo == vd + y[1] + Qm * y[2]
          IN { [rep |-> x[1], ind |-> x[2], indC |-> x[3], pd |-> x[4], vd |-> vd, off |-> y[1], wrap |-> y[2],
                fo |-> fo, nn |-> z[1], eq |-> z[2]] :
               z \in {q \in NN(fo) \X EQ(fo, vd) : Lies(x, y[2], q[1], q[2]) <= MaxLies} } :
          x \in (0..MaxRep) \X (0..MaxInd) \X (0..MaxInd) \X {-1, 0, 2},
          y \in {0, 1, MaxInd} \X {0, 1, 2} }

Binds == {"bindRx", "bindC", "bindCr"}
NonNeg(c, G) ==
    CASE c.nn = "ok"     -> Binds \subseteq G
      [] c.nn = "first"  -> Binds \subseteq G /\ "nn2" \notin G
      [] c.nn = "second" -> Binds \subseteq G /\ "nn1" \notin G
      [] c.nn = "other"  -> FALSE
      [] c.nn = "zero"   -> "nn1" \notin G /\ "nn2" \notin G
      [] c.nn = "lateRx" -> Binds \ G = {"bindRx"}
      [] c.nn = "lateC"  -> Binds \ G = {"bindC"}
      [] c.nn = "lateCr" -> Binds \ G = {"bindCr"}
Equal(c, G) ==
    \/ "equal" \notin G
    \/ CASE c.eq = "ok"  -> {"hashPed", "hashFO"} \subseteq G
         [] c.eq = "ped" -> "hashPed" \in G /\ "hashFO" \notin G
         [] c.eq = "fo"  -> "hashPed" \notin G /\ "hashFO" \in G
         [] OTHER        -> FALSE

Accept(c, G) == /\ ("ind" \in G => c.indC = c.ind)
                /\ ("d" \in G => c.pd = -1)
                /\ NonNeg(c, G)
                /\ Equal(c, G)
                /\ ("bound" \in G => c.fo < Qm - MaxInd)

True(c)   == c.ind <= c.rep
Honest(c) == c.ind = c.indC /\ c.pd = -1 /\ c.nn = "ok" /\ c.eq = "ok" /\ c.wrap = 0 /\ c.off = 0

\* without any one check there is a false request that is accepted
ASSUME \A g \in Guards : \E c \in Cases : Accept(c, Guards \ {g}) /\ ~True(c)

VARIABLES c, out
Init == c \in Cases /\ out = "sent"
Next == out = "sent" /\ out' = (IF Accept(c, Guards) THEN "accept" ELSE "reject") /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, out>>

Sound    == out = "accept" => True(c)
Complete == (out # "sent" /\ Honest(c)) => out = "accept"
Show == out = "sent" \/ (True(c) /\ ~Honest(c)) \/ PrintT("VEC " \o ToJson([c |-> c, out |-> out]))
=============================================================================
