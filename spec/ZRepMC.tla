------------------------------- MODULE ZRepMC -------------------------------
(***************************************************************************)
(* Bounded exploration of ZRep: exhaustive (all interleavings within the   *)
(* budgets), the same with a guard removed (TLC must then find a           *)
(* counterexample, which is replayed into the code as an attack), and      *)
(* random simulation, whose behaviours are the scenarios for the code.     *)
(***************************************************************************)
EXTENDS ZRep, Json, TLCExt

CONSTANTS
  SrvSeq,      \* servers, in the order in which they start
  CliSeq,      \* clients that start during the run, in that order
  Pre,         \* name of the prefix that is executed first
  Budget,      \* record: how many console commands, injections, ... are left
  Inj,         \* kinds of injected messages
  Urgent,      \* main-loop steps happen at once (as in the real coordinator)
  Depth,       \* simulation: number of free steps
  MaxRd        \* number of announcements

VARIABLES s, b, h, done
vars == <<s, b, h, done>>

Bridges == {"b1", "b2", "b3"}
Advs == {k \in RangeOf(CliSeq) \cup {"E", "F"} : k \in {"E", "F", "G"}}   \* keys known to the adversary

-----------------------------------------------------------------------------
(* deterministic helpers: drain all channels, oldest channel name first *)
ChanSeq(t) == SetToSortSeq(DOMAIN t.net, LAMBDA x, y : ToString(x) < ToString(y))

RECURSIVE Drain(_, _)
Drain(t, n) ==
  IF MainEnabled(t) THEN Drain(Apply(t, [a |-> "main"], {}), n)
  ELSE IF t.net = Empty \/ n = 0 THEN t
  ELSE LET ch == CHOOSE c \in DOMAIN t.net : TRUE
           ev == [a |-> "dlv", f |-> ch[1], t |-> ch[2]]
           p == CHOOSE x \in StepPicks(t, ev) : TRUE
       IN Drain(Apply(t, ev, p), n - 1)

RECURSIVE Script(_, _)
Script(t, q) ==
  IF q = <<>> THEN t
  ELSE LET ev == Head(q) IN
    IF ev.a = "drain" THEN Script(Drain(t, 500), Tail(q))
    ELSE Script(Apply(t, ev, CHOOSE x \in StepPicks(t, ev) : TRUE), Tail(q))

D == [a |-> "drain"]
En == [a |-> "enter"]
Srv(i) == [a |-> "srv", i |-> i]
Cli(k) == [a |-> "cli", k |-> k]
Post(k, x) == [a |-> "post", k |-> k, b |-> x]
GetB(k, n) == [a |-> "get", k |-> k, n |-> n]
VoteB(k, j, v) == [a |-> "vote", k |-> k, j |-> j, v |-> v]
Dl(x, y) == [a |-> "dlv", f |-> x, t |-> y]
Servers == [i \in 1..Len(SrvSeq) |-> Srv(SrvSeq[i])]

(* prefixes *)
PreSeq ==
  CASE Pre = "none"  -> <<>>
    [] Pre = "srv"   -> Servers \o <<D>>
    [] Pre = "open"  -> Servers \o <<D, En, D>>                      \* round 1 is open
    [] Pre = "K"     -> Servers \o <<D, En, D, Cli("K"), D, En, En, D>>
    [] Pre = "KE"    -> Servers \o <<D, En, D, Cli("K"), Cli("E"), D, En, En, D>>
    [] Pre = "KEF"   -> Servers \o <<D, En, D, Cli("K"), Cli("E"), Cli("F"), D, En, En, D>>
    [] Pre = "KL"    -> Servers \o <<D, En, D, Cli("K"), Cli("L"), D, En, En, D>>
    [] Pre = "KLE"   -> Servers \o <<D, En, D, Cli("K"), Cli("L"), Cli("E"), D, En, En, D>>
       \* K's bridge was given to E, who holds the certificate
    [] Pre = "cert"  -> Servers \o <<D, En, D, Cli("K"), Cli("E"), D, En, En, D,
                                     Post("K", "b1"), D, GetB("E", 1), D>>
       \* E's bridge was given to K
    [] Pre = "certK" -> Servers \o <<D, En, D, Cli("K"), Cli("E"), D, En, En, D,
                                     Post("E", "b1"), D, GetB("K", 1), D>>
    [] Pre = "certKL" -> Servers \o <<D, En, D, Cli("K"), Cli("L"), Cli("E"), D, En, En, D,
                                     Post("L", "b1"), D, GetB("K", 1), D>>
       \* the servers have signed for requests of K and of E, the coordinator has seen no reply yet
    [] Pre = "two" -> Servers \o <<D, En, D, Cli("K"), Cli("E"), D, En, En, D,
                                   Post("K", "b1"), Post("K", "b2"), D, GetB("E", 1), Dl("E", "C"), GetB("K", 1), Dl("K", "C"),
                                   Dl("C", "S1"), Dl("C", "S1"), Dl("C", "S2"), Dl("C", "S2")>>
       \* a certificate of the round before
    [] Pre = "cert2" -> Servers \o <<D, En, D, Cli("K"), Cli("E"), D, En, En, D,
                                     Post("K", "b1"), D, GetB("E", 1), D, En, En, D>>
       \* E's reputation is 4 after a bad vote by K
    [] Pre = "low"   -> Servers \o <<D, En, D, Cli("K"), Cli("E"), D, En, En, D,
                                     Post("E", "b1"), D, GetB("K", 1), D, VoteB("K", 1, -1), D, En, En, D>>

Start == Script(InitState, PreSeq)

-----------------------------------------------------------------------------
(* what an adversary can inject; E's and F's keys are known *)
Nyms(t) == DOMAIN t.c.et
MyNyms(t) == {n \in Nyms(t) : n.o \in Advs}
Others(t) == {n \in Nyms(t) : n.o \notin Advs}
Ghost0(t) == Nym("E", IF t.c.G = {} THEN {} ELSE {<<"none", 0>>})   \* a key of its own that is in no table
ReqMsg(n, ind, sig, pf) == [t |-> "REQ", nym |-> n, ind |-> ind, sig |-> sig, pf |-> pf]
\* the certificates that were handed out so far, of all rounds
Held(t) == {[br |-> x[2], req |-> x[3], prov |-> x[4]] : x \in {y \in t.g.certs : y[6]}}

Injections(t) ==
  UNION {
    IF "post" \in Inj THEN
      {[as |-> "E", m |-> [t |-> "POST", nym |-> n, br |-> x, sig |-> "ok"]] :
          n \in MyNyms(t) \cup {Ghost0(t)}, x \in {"b1"}}
      \cup {[as |-> "E", m |-> [t |-> "POST", nym |-> n, br |-> "b2", sig |-> "bad"]] : n \in Others(t)}
    ELSE {},
    IF "req" \in Inj THEN
      {[as |-> "E", m |-> ReqMsg(n, 9, "ok", pf)] : n \in MyNyms(t),
          pf \in {"badInd", "badD", "badNN", "forgeNN", "badEq", "wrap"}}
      \cup {[as |-> "E", m |-> ReqMsg(n, 3, "bad", "ok")] : n \in MyNyms(t)}
      \cup {[as |-> "E", m |-> ReqMsg(n, 3, "bad", "badEq")] : n \in Others(t)}
      \cup {[as |-> "E", m |-> ReqMsg(Ghost0(t), 3, "ok", "badEq")]}
    ELSE {},
    IF "got" \in Inj THEN
      LET as == {[br |-> x, req |-> t.c.asg[x].req, prov |-> t.c.asg[x].prov] : x \in DOMAIN t.c.asg}
      IN {[as |-> i, m |-> [t |-> "GOT", ok |-> TRUE, asgs |-> {a}, sv |-> v]] :
            i \in RangeOf(SrvSeq), a \in as, v \in {"none"}}
         \cup {[as |-> i, m |-> [t |-> "GOT", ok |-> TRUE, asgs |-> {[a EXCEPT !.req = n]}, sv |-> "none"]] :
            i \in RangeOf(SrvSeq), a \in as, n \in MyNyms(t)}
         \* two of a server's replies made into one
         \cup UNION {LET mine == UNION {x.m.asgs : x \in {y \in RangeOf(t.g.sent) : y.m.t = "GOT" /\ y.m.ok /\ y.m.sv = i}}
                     IN {[as |-> i, front |-> TRUE, m |-> [t |-> "GOT", ok |-> TRUE, asgs |-> {a, e}, sv |-> i]] :
                          a \in mine \cap as, e \in {x \in mine \cap as : \E y \in mine \cap as : x.req # y.req}}
                    : i \in RangeOf(SrvSeq)}
    ELSE {},
    IF "vote" \in Inj THEN
      LET V(as, n, a, certs, fb, sig) ==
            [as |-> as, m |-> [t |-> "VOTE", nym |-> n, asg |-> a, certs |-> certs, fb |-> fb,
                               sig |-> sig]]
      IN {V("E", n, a, "ok", fb, "ok") :
             n \in MyNyms(t), a \in Held(t), fb \in {1, -1, 3}}
         \cup {V("E", a.req, a, "ok", -1, "ok") :       \* under a pseudonym of an earlier round
             a \in {x \in Held(t) : x.req.o \in Advs /\ x.req \notin Nyms(t)}}
         \cup {V("E", n, a, "bad", -1, "ok") : n \in MyNyms(t), a \in Held(t)}
         \cup {V("E", n, [br |-> "b3", req |-> n, prov |-> p], "bad", -1, "ok") :
             n \in MyNyms(t), p \in Others(t)}
         \cup {V("E", n, a, "ok", -1, sg) : n \in Others(t), a \in Held(t), sg \in {"bad"}}
         \cup {V("E", Ghost0(t), a, "ok", -1, "ok") : a \in Held(t)}
         \cup {V("E", v.m.nym, v.m.asg, v.m.certs, -v.m.fb, "flip") :
             v \in {x \in RangeOf(t.g.sent) : x.m.t = "VOTE"}}
    ELSE {},
    IF "sign" \in Inj THEN
      {[as |-> Coord, to |-> i, m |-> [t |-> "SIGN", nym |-> n, ind |-> 9, pf |-> pf,
                                       asgs |-> {[br |-> "b3", req |-> n, prov |-> n]}]] :
         i \in DOMAIN t.sv, n \in MyNyms(t), pf \in {"ok", "badInd", "badD", "badNN", "forgeNN", "badEq", "wrap"}}
    ELSE {},
    IF "gotc" \in Inj THEN
      \* a certificate in the coordinator's name, that it did not sign
      {[as |-> Coord, to |-> k, m |-> [t |-> "GOTC", asg |-> [br |-> x, req |-> t.k[k].nym, prov |-> n], full |-> FALSE, sig |-> "bad"]] :
         k \in {y \in DOMAIN t.k : y \notin Advs /\ t.k[y].up}, x \in {"b1", "b3"}, n \in MyNyms(t)}
    ELSE {},
    IF "reg" \in Inj THEN
      {[as |-> "E", m |-> [t |-> "CREG", pk |-> pk]] : pk \in {"badkey"} \cup t.c.keys}
    ELSE {},
    IF "junk" \in Inj THEN {[as |-> "E", m |-> [t |-> "BAD"]]} ELSE {}
  }

Opens(t, n) == n \in DOMAIN t.k
Ups(t) == {k \in DOMAIN t.k : t.k[k].up /\ t.k[k].st # "halted" /\ k \notin t.gone}

Events(t, bd) ==
  LET q == IF DOMAIN t.sv = {} THEN 0 ELSE Cardinality(DOMAIN t.sv)
      kk == Cardinality(DOMAIN t.k)
      started == RangeOf(CliSeq) \cap DOMAIN t.k
      nextK == SelectSeq(CliSeq, LAMBDA k : k \notin DOMAIN t.k)
      nextS == SelectSeq(SrvSeq, LAMBDA i : i \notin DOMAIN t.sv)
      dl == {[a |-> "dlv", f |-> ch[1], t |-> ch[2]] : ch \in DOMAIN t.net}
  IN  (IF Urgent /\ MainEnabled(t) THEN {} ELSE
        (IF nextS # <<>> THEN {Srv(Head(nextS))} ELSE {})
        \cup (IF nextK # <<>> THEN {Cli(Head(nextK))} ELSE {})
        \cup (IF EnterEnabled(t) /\ bd.enter > 0 /\ (t.c.pcs = "config" => nextS = <<>> \/ bd.late > 0)
              THEN {En} ELSE {})
        \cup {e \in dl : e.t \in DOMAIN t.sv => ~t.sv[e.t].halted}
        \cup (IF bd.post > 0 THEN {Post(k, x) : k \in Ups(t), x \in {"b1", "b2"}} ELSE {})
        \cup (IF bd.get > 0 THEN {GetB(k, n) : k \in Ups(t), n \in {1, 2, 6}} ELSE {})
        \cup (IF bd.vote > 0 THEN
               {VoteB(k, j, v) : k \in {x \in Ups(t) : Len(t.k[x].asg) > 0}, j \in {1}, v \in {1, -1}} ELSE {})
        \cup (IF bd.inj > 0 THEN {[a |-> "inj"] @@ i : i \in Injections(t)} ELSE {})
        \cup (IF bd.replay > 0 THEN
               {[a |-> "replay", n |-> i] : i \in {j \in 1..Len(t.g.sent) : t.g.sent[j].m.t \in Inj}} ELSE {})
        \cup (IF bd.gone > 0 THEN {[a |-> "gone", k |-> k] : k \in DOMAIN t.k \ t.gone} ELSE {}))
      \cup (IF MainEnabled(t) /\ t.c.rd <= MaxRd THEN {[a |-> "main"]} ELSE {})

Spend(bd, ev) == IF ev.a \in DOMAIN bd THEN [bd EXCEPT ![ev.a] = @ - 1] ELSE bd

Init == s = Start /\ b = Budget /\ h = <<>> /\ done = FALSE

Next == \E ev \in Events(s, b) : \E p \in StepPicks(s, ev) :
          /\ s' = Apply(s, ev, p)
          /\ b' = Spend(b, ev)
          /\ h' = h
          /\ UNCHANGED done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* properties *)
c == s.c
Live(k) == k \in DOMAIN s.k /\ s.k[k].st # "halted" /\ k \notin s.gone

\* C01/C02/C10: the published table
TableOK == c.status = "message" /\ c.pcs \in {"post", "vote", "endreq"} =>
  /\ {n.o : n \in DOMAIN c.et} = s.g.members
  /\ \A n, m \in DOMAIN c.et : n.o = m.o => n = m
  /\ \A n \in DOMAIN c.et : /\ c.et[n].x = s.g.ledger[n.o]
                            /\ c.et[n].b = c.base
                            /\ n.kx = c.G
ClientOK == \A k \in DOMAIN s.k : Live(k) /\ s.k[k].up /\ c.status = "message" /\ s.k[k].G = c.G =>
  /\ s.k[k].rep = s.g.ledger[k]
  /\ s.k[k].pc.x = s.k[k].rep /\ s.k[k].pc.r = s.k[k].R
LedgerOK == \A o \in DOMAIN s.g.ledger : s.g.ledger[o] = Credit +
  Cardinality({v \in s.g.legit : v[4] = 1 /\ v[1] < c.rd + (IF c.pcs \in {"ready"} THEN 1 ELSE 0) /\
                 \E a \in s.g.asgn : a[1] = v[1] /\ a[2] = v[2] /\ a[4].o = o})
  - Cardinality({v \in s.g.legit : v[4] = -1 /\ v[1] < c.rd + (IF c.pcs \in {"ready"} THEN 1 ELSE 0) /\
                 \E a \in s.g.asgn : a[1] = v[1] /\ a[2] = v[2] /\ a[4].o = o})
\* C03
SignOK == s.g.signed \subseteq {"ok"}
GrantOK == \A x \in s.g.grants : x[4] > 0 => x[3] <= x[5] /\ x[6] = "ok"
\* C04: an honest client's opening always fits the table
CompleteOK == s.g.incons = {}
\* C05
BridgeOK == /\ \A a, e \in s.g.asgn : a[1] = e[1] /\ a[2] = e[2] => a = e
            /\ \A a \in s.g.asgn : <<a[1], a[2], a[4]>> \in s.g.posts
            /\ \A x \in s.g.grants : x[4] <= (IF x[3] < 0 THEN 0 ELSE x[3])
\* C06
CertOK == \A x \in s.g.certs : x[6] /\ <<x[1], x[2], x[3], x[4]>> \in s.g.asgn
CertTo == \A x \in s.g.certs : <<x[1], x[3], x[5]>> \in s.g.asked
CertOnce == \A k \in DOMAIN s.k : \A i, j \in 1..Len(s.k[k].asg) : i # j => s.k[k].asg[i].a # s.k[k].asg[j].a
\* what members vote with is what the coordinator certified
OwnVoteOK == \A v \in RangeOf(s.g.sent) : v.m.t = "VOTE" =>
               v.m.certs = "ok" /\ \E x \in s.g.certs : <<x[2], x[3], x[4]>> = <<v.m.asg.br, v.m.asg.req, v.m.asg.prov>>
\* C07/C08: the change so far is what the authentic votes say
VoteCountOK == c.status = "message" =>
  \A o \in {n.o : n \in DOMAIN c.diff} \cup DOMAIN s.g.pend :
    LET ns == {n \in DOMAIN c.diff : n.o = o}
    IN FoldSet(LAMBDA n, acc : acc + c.diff[n], 0, ns) = Get(s.g.pend, o, 0)
\* C09
PhaseOK == /\ c.pcs \in {"config", "cfgreq"} <=> c.status = "config"
           /\ c.status # "message" => c.br = Empty \/ c.pcs = "post"
           /\ \A x \in DOMAIN c.br : <<c.rd, x>> \in {<<p[1], p[2]>> : p \in s.g.posts}
           /\ (c.status # "message" => c.asg = Empty)
\* C11
FreshOK == ~s.g.dupkx
\* C13
ChainOK == c.status # "config" =>
  /\ c.ht = RangeOf(c.servers)
  /\ \A i \in 1..Len(c.servers) : LET v == s.sv[c.servers[i]] IN
        /\ v.conn => v.prev = (IF i = 1 THEN Coord ELSE c.servers[i - 1])
  /\ Cardinality(RangeOf(c.servers)) = Len(c.servers)
\* C14
HonestOK == ~s.g.leak /\ ~s.g.blind
\* C16 (and everything): nothing stops
NoCrash == s.g.bad = {}
\* no step is lost: when nothing is under way the coordinator waits for ENTER
QuietOK == s.net = Empty /\ ~MainEnabled(s) =>
  \/ c.pcs = "config"
  \/ c.pcs \in {"post", "vote"} /\ c.status = "message" /\ c.pendK = <<>> /\ c.reg = 0
  \/ c.rd > MaxRd
-----------------------------------------------------------------------------
(* random scenarios: Depth free steps, then the history is printed *)
\* weights: deliveries dominate; console input comes when little is under way
Busy(t) == Cardinality(DOMAIN t.net)
SimNext ==
  /\ ~done
  /\ IF TLCGet("level") > Depth
     THEN /\ done' = TRUE /\ UNCHANGED <<s, b, h>>
          /\ PrintT("SCN " \o ToJson([pre |-> PreSeq, ev |-> h]))
     ELSE LET evs == Events(s, b)
              dl == {e \in evs : e.a = "dlv"}
              oth == evs \ dl
              kinds == {e.a : e \in oth}
              useD == dl # {} /\ (oth = {} \/ RandomElement(1..10) <= 7)
          IN IF evs = {} THEN /\ done' = TRUE /\ UNCHANGED <<s, b, h>>
                              /\ PrintT("SCN " \o ToJson([pre |-> PreSeq, ev |-> h]))
             ELSE \E kd \in (IF "main" \in kinds THEN {"main"} ELSE IF useD THEN {"dlv"} ELSE {RandomElement(kinds)}) :
                  \E ev \in {RandomElement({e \in evs : e.a = kd})} :
                  \E p \in {RandomElement(StepPicks(s, ev))} :
                    /\ s' = Apply(s, ev, p) /\ b' = Spend(b, ev) /\ h' = Append(h, ev)
                    /\ UNCHANGED done
SimSpec == Init /\ [][SimNext]_vars

\* counterexamples: the history is kept and printed by the violated invariant
NextH == \E ev \in Events(s, b) : \E p \in StepPicks(s, ev) :
          /\ s' = Apply(s, ev, p) /\ b' = Spend(b, ev) /\ h' = Append(h, ev) /\ UNCHANGED done
SpecH == Init /\ [][NextH]_vars
View == <<s, b>>
All == /\ TableOK /\ ClientOK /\ LedgerOK /\ GrantOK /\ SignOK /\ CompleteOK /\ BridgeOK /\ CertOK /\ CertTo /\ CertOnce /\ OwnVoteOK
       /\ VoteCountOK /\ ("status" \in Guards => PhaseOK) /\ FreshOK /\ ChainOK /\ HonestOK /\ NoCrash /\ QuietOK
Attack == All \/ (PrintT("SCN " \o ToJson([pre |-> PreSeq, ev |-> h])) /\ FALSE)
=============================================================================
