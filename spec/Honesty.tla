------------------------------- MODULE Honesty -------------------------------
(* The honesty test of the parameters: for each generator and each place the *)
(* prover fixes a first move, is sent a bit, and answers.  A generator out   *)
(* of the group can only be answered for at the places where the prover has  *)
(* guessed the bit.  Part one is the check of the answers, part two what a   *)
(* client does that is sent parameters and answers in some order.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Gens, W, MaxSteps

Places == Gens \X (1..W)
Guards == {"all", "gen", "bit", "answer", "count"}
(* per generator: in the group, or not; per place: the bit, the prover's     *)
(* guess; off: what is done to one answer, at one place                      *)
Offs == {"none", "+1", "-1", "zero", "neg", "swap", "gens", "short", "empty"}
Checks == [foreign : SUBSET Gens, bits : [Places -> {0, 1}], guess : [Places -> {0, 1}],
           off : Offs, at : Places]
Useful(x) == /\ \A p \in Places : p[1] \notin x.foreign => x.guess[p] = 0
             /\ x.off = "none" => x.at = CHOOSE p \in Places : TRUE
             /\ Cardinality(x.foreign) <= 1 /\ (x.foreign # {} => x.off = "none")
Fits(x, p, G) ==
  /\ (p[1] \in x.foreign /\ "gen" \in G /\ "bit" \in G) => x.guess[p] = x.bits[p]
  /\ (x.off \notin {"none", "short", "empty"} /\ "answer" \in G) => x.at # p
Pass(x, G) == /\ "count" \in G => x.off \notin {"short", "empty"}
              /\ IF "all" \in G THEN \A p \in Places : Fits(x, p, G)
                 ELSE \E p \in Places : Fits(x, p, G)
Good(x) == x.off = "none" /\ \A p \in Places : p[1] \in x.foreign => x.guess[p] = x.bits[p]
ASSUME \A g \in Guards : \E x \in {y \in Checks : Useful(y)} : Pass(x, Guards \ {g}) /\ ~Good(x)

(* part two *)
Steps == {"conf", "confBad", "right", "wrong", "none", "old"}
VARIABLES mode, c, out, q, st
vars == <<mode, c, out, q, st>>
\* st: "new", "asked" (honest parameters, challenge sent), "askedBad", "ok", "dead"
Init == \/ /\ mode = "check" /\ c \in {y \in Checks : Useful(y)} /\ out = "sent"
           /\ q = <<>> /\ st = "new"
        \/ mode = "client" /\ c = <<>> /\ out = "sent" /\ q = <<>> /\ st = "new"
Check == /\ mode = "check" /\ out = "sent"
         /\ out' = (IF Pass(c, Guards) THEN "pass" ELSE "fail") /\ UNCHANGED <<mode, c, q, st>>
Had(s) == \E i \in 1..Len(q) : q[i] = s
Do(s) == /\ mode = "client" /\ out = "sent" /\ Len(q) < MaxSteps /\ q' = Append(q, s)
         /\ s = "old" => Cardinality({i \in 1..Len(q) : q[i] \in {"conf", "confBad"}}) > 1
         /\ s \in {"right", "wrong", "none"} => (Had("conf") \/ Had("confBad"))
         /\ st \notin {"dead", "any"}
         /\ st' = CASE s = "conf" -> "asked"
                    [] s = "confBad" -> "askedBad"
                    [] s = "right" -> IF st \in {"asked", "ok"} THEN "ok" ELSE "dead"
                    [] OTHER -> IF st = "ok" THEN "any" ELSE "dead"
         /\ UNCHANGED <<mode, c, out>>
\* then the table, and a request
Ask == /\ mode = "client" /\ out = "sent" /\ (Had("conf") \/ Had("confBad"))
       /\ out' = (IF st = "any" THEN "any" ELSE IF st = "ok" THEN "commits" ELSE "refuses")
       /\ UNCHANGED <<mode, c, q, st>>
Next == Check \/ (\E s \in Steps : Do(s)) \/ Ask
Spec == Init /\ [][Next]_vars

\* bad parameters are committed with only if each bit was guessed
Sound == /\ (mode = "check" /\ out = "pass") => Good(c)
         /\ (mode = "client" /\ out = "commits") =>
              \E i \in 1..Len(q) : /\ q[i] = "conf" /\ \A j \in i+1..Len(q) : q[j] = "right"
                                   /\ i < Len(q)
Complete == (mode = "check" /\ out # "sent" /\ Good(c)) => out = "pass"
List(f) == [p \in 1..Cardinality(Gens) |-> [i \in 1..W |-> f[<<p, i>>]]]
Show == \/ out = "sent"
        \/ mode = "client" /\ PrintT("VEC " \o ToJson([q |-> q, out |-> out]))
        \/ mode = "check" /\ PrintT("VEC " \o ToJson([foreign |-> c.foreign, bits |-> List(c.bits), guess |-> List(c.guess),
                                                      off |-> c.off, at |-> c.at, out |-> out]))
==============================================================================
