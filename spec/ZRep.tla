-------------------------------- MODULE ZRep --------------------------------
(***************************************************************************)
(* The zRep cluster: one coordinator "C", a chain of servers, clients and  *)
(* an adversary, all exchanging one-shot messages over per-pair FIFO       *)
(* channels.  Every message handler and every critical section of the      *)
(* coordinator's main loop is one operator  H_*(s, ...) that returns       *)
(* [s |-> new state, o |-> messages sent].  The exhaustive model (ZRepMC)  *)
(* and the trace specification (ZRepTrace) both step through Apply(), so   *)
(* there is a single source of truth for what each step does.              *)
(*                                                                         *)
(* Cryptography is symbolic.                                               *)
(*  - a nym is [o |-> owner, kx |-> set of <<server, epoch>>]: the owner's *)
(*    public key raised to those round keys                                *)
(*  - a commitment is [x |-> value, r |-> set of blinding tokens,          *)
(*    b |-> number of re-randomisations its base went through]             *)
(*  - signatures and proofs are the classes an adversary can produce.      *)
(* Guards is the set of checks the code performs; removing one models a    *)
(* code change that drops it, and TLC then has to find a violation.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

CONSTANTS Guards

Credit == 5          \* bridge.StartingCredit
Fakes  == 10         \* entries added by addFakeClients

AllGuards ==
  { "status",                                   \* requests only while a round is open
    "postMember", "postSig", "postDup",         \* POST_BRIDGE
    "reqMember", "reqSig", "reqInd", "reqD",    \* REQUEST_BRIDGES
    "reqNonneg", "reqBind", "reqEqual", "reqBound",
    "onlyUnused", "markUsed", "atMostInd",      \* bridge selection
    "gotPending", "gotSig", "gotDup", "gotEach",\* GOT_SIGNS
    "reqAddr",                                  \* only an accepted request sets the address
    "voteMember", "voteSig", "voteSign", "voteReq", "voteCerts",
    "voteFb", "voteProv", "voteDup",                        \* VOTE
    "cliSig",                                   \* a client takes certificates of the coordinator only
    "settleDiff",                    \* round end
    "regQueue", "regWait", "regDup", "regValid",\* client registration
    "srvQueue", "srvPhase", "srvWait",          \* server registration
    "newKey",                                   \* fresh round key every round
    "honOnce", "honFirst" }                     \* honesty test

On(g) == g \in Guards

Nil == "nil"
Coord == "C"

-----------------------------------------------------------------------------
(* helpers *)
Put(f, k, v) == (k :> v) @@ f
Del(f, ks)   == [k \in DOMAIN f \ ks |-> f[k]]
Empty        == <<>>     \* the function with the empty domain
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Msg(to, m)   == [to |-> to, m |-> m]
Out(s, o)    == [s |-> s, o |-> o]
RangeOf(q)   == {q[i] : i \in 1..Len(q)}
MinOf(a, b)  == IF a < b THEN a ELSE b

Nym(o, kx) == [o |-> o, kx |-> kx]
NoNym == Nym(Nil, {})
\* the value a commitment is worth under base version b: it opens only if it
\* went through the same re-randomisations as the base
Comm(x, r, b) == [x |-> x, r |-> r, b |-> b]

NewServer == [conn |-> FALSE, prev |-> Coord, next |-> Coord, ep |-> 0,
              km |-> Empty, et |-> Empty, halted |-> FALSE]
NewClient == [st |-> "new", R |-> {}, G |-> {}, nym |-> Nil, rep |-> Credit,
              pc |-> Nil, asg |-> <<>>, hon |-> FALSE, par |-> FALSE, up |-> FALSE]

\* pcs: program counter of the coordinator's main loop
InitCoord == [status |-> "config", pcs |-> "config", servers |-> <<>>, upd |-> FALSE,
              pendS |-> <<>>, ht |-> {}, G |-> {}, bt |-> Empty, et |-> Empty,
              base |-> 0, cl |-> Empty, keys |-> {}, pendK |-> <<>>, reg |-> 0,
              nb |-> <<>>, br |-> Empty, asg |-> Empty, ra |-> Empty,
              voted |-> {}, diff |-> Empty, prf |-> {}, rd |-> 0]

\* ghost state, only used by the properties
InitGhost == [ledger |-> Empty,    \* owner -> reputation by the rules
              votes  |-> {},       \* <<round, bridge, requester, fb>> counted by the code
              pend   |-> Empty,    \* owner -> legitimate change in this round
              legit  |-> {},       \* legitimate votes delivered while the round was open
              asgn   |-> {},       \* <<round, bridge, requester, provider>> handed out
              certs  |-> {},       \* <<round, bridge, requester, signers>> sent to clients
              asked  |-> {},       \* <<round, requester, address>> of the requests that were accepted
              grants |-> {},       \* <<round, requester, ind, number of bridges>>
              posts  |-> {},       \* <<round, bridge, provider>> first authentic post
              kxs    |-> {},       \* generators published so far
              dupkx  |-> FALSE,    \* a generator was published twice
              leak   |-> FALSE,    \* two answers for one honesty proof
              blind  |-> FALSE,    \* a commitment made before the honesty test
              shares |-> {},       \* servers whose share of HT was sent
              members|-> {},       \* registered in a round that has ended
              chal   |-> Empty,    \* address -> answers given for its current proof
              sent   |-> <<>>,     \* what clients and servers sent to C, for replays
              incons |-> {},       \* honest clients whose opening does not fit
              signed |-> {},       \* kinds of proofs that servers signed for
              bad    |-> {} ]      \* a node stopped that should not

InitState == [c |-> InitCoord, sv |-> Empty, k |-> Empty, net |-> Empty,
              gone |-> {}, g |-> InitGhost]

-----------------------------------------------------------------------------
(* channels *)
Chan(s, a, b) == Get(s.net, <<a, b>>, <<>>)
RECURSIVE PutAll(_, _, _, _)
PutAll(net, gone, from, o) ==
  IF o = <<>> THEN net
  ELSE LET h == Head(o)
           ch == <<from, h.to>>
       IN PutAll(IF h.to \in gone THEN net
                 ELSE Put(net, ch, Append(Get(net, ch, <<>>), h.m)),
                 gone, from, Tail(o))
Emit(s, from, o) == [s EXCEPT !.net = PutAll(@, s.gone, from, o)]
Pop(s, a, b) == LET q == Chan(s, a, b) IN
  [s EXCEPT !.net = IF Len(q) = 1 THEN Del(@, {<<a, b>>}) ELSE Put(@, <<a, b>>, Tail(q))]

Bcast(addrs, m) == LET q == SetToSeq(addrs) IN [i \in 1..Len(q) |-> Msg(q[i], m)]
ClientAddrs(c) == {c.cl[k] : k \in DOMAIN c.cl}

\* a table as it is published: owner -> value; what it is worth is its view
Tab(t) == {[o |-> n.o, x |-> t[n].x] : n \in DOMAIN t}

-----------------------------------------------------------------------------
(* coordinator: main loop *)

\* ENTER on the coordinator's console
EnterEnabled(s) == LET c == s.c IN
  \/ c.pcs = "config" /\ Len(c.servers) > 0
  \/ c.pcs \in {"post", "vote"} /\ c.status = "message"

H_Enter(s) == LET c == s.c IN
  IF c.pcs = "config" THEN Out([s EXCEPT !.c.pcs = "cfgreq"], <<>>)
  ELSE IF c.pcs = "post"
  THEN Out([s EXCEPT !.c.pcs = "vote"], Bcast(ClientAddrs(c), [t |-> "VSTART"]))
  ELSE Out([s EXCEPT !.c.pcs = "endreq"], <<>>)

\* a table that is announced carries the base it is committed under
AnnMsg(tab, kx, b) == [t |-> "ANN", tab |-> tab, kx |-> kx, b |-> b, pf |-> "ok"]

H_Announce(s) ==   \* new round: ANNOUNCEMENT to the first server
  LET c == s.c
      s1 == [s EXCEPT !.c.status = "announce", !.c.pcs = "post", !.c.nb = <<>>,
                      !.c.ra = Empty, !.c.voted = {}, !.c.rd = c.rd + 1]
  IN Out(s1, << Msg(Head(c.servers), AnnMsg(c.bt, {}, c.base)) >>)

MainEnabled(s) == LET c == s.c IN
  \/ c.pcs = "cfgreq" /\ (On("srvWait") => ~c.upd)
  \/ c.pcs = "ready"
  \/ c.pcs = "endreq" /\ (On("regWait") => c.reg = 0)

RECURSIVE AddNew(_, _)
AddNew(t, nb) == IF nb = <<>> THEN t
                 ELSE AddNew(Put(t, Head(nb).nym, Head(nb).cm), Tail(nb))

H_RoundEnd(s) ==
  LET c == s.c
      full == AddNew(c.et, c.nb)
      d(n) == Get(c.diff, n, 0)
      new == [n \in DOMAIN full |->
                [full[n] EXCEPT !.x = @ + (IF On("settleDiff") THEN d(n) ELSE 0),
                                !.r = @ \cup {c.rd},
                                \* adding a commitment made under another base spoils it
                                !.b = IF @ = c.base THEN @ ELSE -1]]
      s1 == [s EXCEPT !.c.status = IF On("status") THEN "ending" ELSE @,
                      !.c.pcs = "ending", !.c.et = full,
                      !.c.br = Empty, !.c.asg = Empty,
                      !.g.members = @ \cup {c.nb[i].nym.o : i \in 1..Len(c.nb)}]
      last == c.servers[Len(c.servers)]
      keys == DOMAIN full
  IN Out(s1, << Msg(last, [t |-> "RE", tab |-> new, b |-> c.base, st |-> TRUE, pf |-> "ok"]) >>
             \o Bcast(ClientAddrs(c), [t |-> "RDIFF", keys |-> keys, rd |-> c.rd]))

H_Main(s) == LET c == s.c IN
  IF c.pcs = "endreq" THEN H_RoundEnd(s)
  ELSE IF c.pcs = "cfgreq"
  THEN LET a == H_Announce([s EXCEPT !.c.status = "ready"])
       IN Out(a.s, Bcast(RangeOf(c.servers), [t |-> "BCH", ht |-> c.ht]) \o a.o)
  ELSE H_Announce(s)

-----------------------------------------------------------------------------
(* coordinator: message handlers *)

H_ServerRegister(s, id) == LET c == s.c IN
  IF On("srvPhase") /\ c.status # "config" THEN Out(s, <<>>)
  ELSE IF On("srvQueue") /\ c.upd THEN Out([s EXCEPT !.c.pendS = Append(@, id)], <<>>)
  ELSE LET last == IF c.servers = <<>> THEN Coord ELSE c.servers[Len(c.servers)]
           lnk == IF last = Coord THEN <<>> ELSE << Msg(last, [t |-> "NEXT", next |-> id]) >>
       IN Out([s EXCEPT !.c.servers = Append(@, id), !.c.upd = TRUE],
              lnk \o << Msg(id, [t |-> "SREP", prev |-> last, ht |-> c.ht]) >>)

H_UpdateH(s, ht) ==
  LET s1 == [s EXCEPT !.c.ht = ht, !.c.upd = FALSE] IN
  IF s1.c.pendS = <<>> THEN Out(s1, <<>>)
  ELSE H_ServerRegister([s1 EXCEPT !.c.pendS = Tail(@)], Head(s1.c.pendS))

\* the entry of the client that registered from this address before is dropped
AddClient(cl, pk, addr) == Put(Del(cl, {p \in DOMAIN cl : cl[p] = addr}), pk, addr)

H_ClientRegister(s, pk, addr) == LET c == s.c IN
  IF pk = "badkey" THEN
    IF On("regValid") THEN Out(s, <<>>)
    ELSE Out([s EXCEPT !.g.bad = @ \cup {Coord}], <<>>)
  ELSE IF On("regQueue") /\ c.status # "message"
  THEN Out([s EXCEPT !.c.pendK = Append(@, [pk |-> pk, addr |-> addr])], <<>>)
  ELSE IF On("regDup") /\ pk \in c.keys THEN Out(s, <<>>)
  ELSE IF c.servers = <<>> \/ c.G = {}
  THEN Out([s EXCEPT !.g.bad = @ \cup {Coord}], <<>>)      \* g is nil
  ELSE LET cm == Comm(Credit, {0}, c.base)
           s1 == [s EXCEPT !.c.cl = AddClient(@, pk, addr), !.c.keys = @ \cup {pk},
                           !.c.reg = @ + 1]
       IN Out(s1, << Msg(Head(c.servers),
                        [t |-> "CRS", nym |-> Nym(pk, {}), addr |-> addr, cm |-> cm]),
                     Msg(addr, [t |-> "INITR", kx |-> c.G]) >>)

RECURSIVE FlushK(_, _)
FlushK(a, q) ==
  IF q = <<>> THEN a
  ELSE LET b == H_ClientRegister(a.s, Head(q).pk, Head(q).addr)
       IN FlushK(Out(b.s, a.o \o b.o), Tail(q))

H_CRSBack(s, m) ==    \* CLIENT_REGISTER_SERVERSIDE arriving at the coordinator
  LET s1 == [s EXCEPT !.c.nb = Append(@, [nym |-> m.nym, cm |-> m.cm]),
                      !.c.reg = @ - 1, !.c.prf = @ \cup {m.addr},
                      !.g.chal = Put(@, m.addr, 0)]
  IN Out(s1, << Msg(m.addr, [t |-> "CONF"]) >>)

H_Challenge(s, from) == LET c == s.c IN
  IF from \in c.prf
  THEN Out([s EXCEPT !.c.prf = IF On("honOnce") THEN @ \ {from} ELSE @,
                     !.g.leak = @ \/ Get(s.g.chal, from, 0) > 0,
                     !.g.chal = Put(@, from, 1)],
           << Msg(from, [t |-> "ANSW"]) >>)
  ELSE Out(s, <<>>)

H_AnnBack(s, m) ==    \* ANNOUNCEMENT from the last server
  LET fin == [t |-> "FIN", tab |-> m.tab, kx |-> m.kx, b |-> m.b]
      s1 == [s EXCEPT !.c.et = m.tab, !.c.base = m.b, !.c.diff = Empty,
                      !.c.G = m.kx, !.c.status = "message", !.c.pendK = <<>>,
                      !.g.dupkx = @ \/ m.kx \in s.g.kxs, !.g.kxs = @ \cup {m.kx}]
      o == Bcast(ClientAddrs(s.c), fin) \o Bcast(RangeOf(s.c.servers), fin)
  IN FlushK(Out(s1, o), s.c.pendK)

\* ledger: the votes of the round are settled when the servers return the table
Settle(g) == [g EXCEPT !.ledger = [o \in DOMAIN @ |-> @[o] + Get(g.pend, o, 0)],
                       !.pend = Empty]

H_REBack(s, m) ==     \* ROUND_END from the first server: keys are public keys again
  LET c == s.c
      s1 == [s EXCEPT !.c.bt = m.tab, !.c.base = m.b, !.c.status = "ready", !.c.pcs = "ready",
                      !.g = Settle(@)]
      diffs == {[o |-> n.o, kx |-> n.kx, d |-> c.diff[n]] : n \in DOMAIN c.diff}
  IN Out(s1, Bcast(ClientAddrs(c), [t |-> "REC", diffs |-> diffs]))

Open(s) == On("status") => s.c.status = "message"

\* m: [nym, br, sig]
H_Post(s, m) == LET c == s.c
                    ok == /\ Open(s)
                          /\ On("postMember") => m.nym \in DOMAIN c.et
                          /\ On("postSig") => m.sig = "ok"
                          /\ On("postDup") => m.br \notin DOMAIN c.br
         auth == c.status = "message" /\ m.nym \in DOMAIN c.et /\ m.sig = "ok"
         s1 == IF auth /\ m.br \notin {p[2] : p \in {q \in s.g.posts : q[1] = c.rd}}
               THEN [s EXCEPT !.g.posts = @ \cup {<<c.rd, m.br, m.nym>>}] ELSE s
  IN IF ~ok THEN Out(s1, <<>>)
     ELSE Out([s1 EXCEPT !.c.br = Put(@, m.br, [prov |-> m.nym, used |-> FALSE])], <<>>)

(* Whether VerifyInd accepts.  pf is the way the proof was made:             *)
(*   ok       an honest proof (its maker knows the opening, and ind <= x)    *)
(*   badInd   PCommind is not a commitment to ind                            *)
(*   badD     PCommd is not the table's commitment minus PCommind            *)
(*   badNN    no valid non-negativity argument                               *)
(*   forgeNN  an argument whose commitrx was chosen after the challenge      *)
(*   badEq    the two commitments to d differ                                *)
(*   wrap     the Fujisaki-Okamoto commitment holds d plus the group order   *)
ProofOk(m) ==
  \/ m.pf = "ok"
  \/ m.pf = "badInd" /\ ~On("reqInd")
  \/ m.pf = "badD" /\ ~On("reqD")
  \/ m.pf = "badNN" /\ ~On("reqNonneg")
  \/ m.pf = "forgeNN" /\ (~On("reqBind") \/ ~On("reqNonneg"))
  \/ m.pf = "badEq" /\ ~On("reqEqual")
  \/ m.pf = "wrap" /\ (~On("reqBound") \/ ~On("reqEqual"))

ReqOk(s, m) == /\ Open(s)
               /\ On("reqMember") => m.nym \in DOMAIN s.c.et
               /\ On("reqSig") => m.sig = "ok"
               /\ ProofOk(m)
Unused(c) == {b \in DOMAIN c.br : On("onlyUnused") => ~c.br[b].used}
\* the sets of bridges that may be handed out
Picks(c, ind) == LET n == IF ind < 0 THEN 0 ELSE
                          IF On("atMostInd") THEN MinOf(ind, Cardinality(Unused(c)))
                          ELSE Cardinality(Unused(c))
                 IN {p \in SUBSET Unused(c) : Cardinality(p) = n}

\* m: [nym, ind, sig, pf]; from: where the reply goes; pick: the bridges chosen
H_Request(s, from, m, pick) == LET c == s.c IN
  IF On("status") /\ c.status # "message" THEN Out(s, <<>>)
  ELSE IF m.nym \notin DOMAIN c.et /\ ~On("reqMember")
  THEN Out([s EXCEPT !.g.bad = @ \cup {Coord}], <<>>)   \* nil commitment
  ELSE IF ~ReqOk(s, m)
  THEN Out(IF On("reqAddr") THEN s ELSE [s EXCEPT !.c.ra = Put(@, m.nym, from)], <<>>)
  ELSE LET asgs == {[br |-> b, req |-> m.nym, prov |-> c.br[b].prov] : b \in pick}
           s1 == [s EXCEPT
             !.c.ra = Put(@, m.nym, from),
             !.c.br = [b \in DOMAIN @ |-> IF b \in pick /\ On("markUsed") THEN [@[b] EXCEPT !.used = TRUE] ELSE @[b]],
             !.c.asg = [b \in DOMAIN @ \cup pick |->
                          IF b \in pick THEN [req |-> m.nym, prov |-> c.br[b].prov, sigs |-> {Coord}]
                          ELSE @[b]],
             !.g.asgn = @ \cup {<<c.rd, b, m.nym, c.br[b].prov>> : b \in pick},
             !.g.asked = @ \cup {<<c.rd, m.nym, from>>},
             !.g.grants = @ \cup {<<c.rd, m.nym.o, m.ind, Cardinality(pick),
                                    IF m.nym \in DOMAIN c.et THEN c.et[m.nym].x ELSE 0, m.sig>>}]
       IN Out(s1, IF pick = {} THEN <<>>
                  ELSE Bcast(RangeOf(c.servers),
                             [t |-> "SIGN", nym |-> m.nym, ind |-> m.ind, pf |-> m.pf, asgs |-> asgs]))

\* GOT_SIGNS [ok, asgs, sv] from a server: sv is whose signature it is
AllSigs(c) == RangeOf(c.servers) \cup {Coord}
RECURSIVE GotEach(_, _, _, _, _)
GotEach(s, sid, m, q, o) ==
  IF q = <<>> THEN Out(s, o)
  ELSE LET a == Head(q)
           c == s.c
           e == Get(c.asg, a.br, [req |-> NoNym, prov |-> NoNym, sigs |-> {}])
           okP == On("gotPending") => e.req = a.req /\ e.prov = a.prov
           okD == On("gotDup") => sid \notin e.sigs
           okS == On("gotSig") => m.sv = sid
           \* without the check for repeats every reply counts as one more signature
           who == IF ~On("gotDup") /\ sid \in e.sigs
                  THEN CHOOSE x \in (AllSigs(c) \ e.sigs) \cup {sid} :
                         x # sid \/ AllSigs(c) \ e.sigs = {} ELSE sid
           e1 == [e EXCEPT !.sigs = @ \cup {who}]
           s1 == [s EXCEPT !.c.asg = Put(@, a.br, e1)]
           real == {x \in e1.sigs : TRUE}
           done == e1.sigs = AllSigs(c)
           good == m.sv = sid /\ who = sid /\ e.req = a.req /\ e.prov = a.prov
           \* where the certificate goes: to the one who asked for this assignment
           rq == Get(c.ra, IF On("gotEach") THEN a.req ELSE SetToSeq(m.asgs)[1].req, Nil)
           s2 == IF done
                 THEN [s1 EXCEPT !.g.certs = @ \cup {<<c.rd, a.br, a.req, a.prov, rq, good>>}]
                 ELSE s1
       IN IF ~(okP /\ okD /\ okS) THEN GotEach(s, sid, m, Tail(q), o)
          ELSE GotEach(s2, sid, m, Tail(q),
                       IF done /\ rq # Nil THEN Append(o, Msg(rq, [t |-> "GOTC", asg |-> a, full |-> good, sig |-> "ok"]))
                       ELSE o)

H_Got(s, sid, m) ==
  IF ~Open(s) \/ ~m.ok \/ sid \notin RangeOf(s.c.servers) THEN Out(s, <<>>)
  ELSE GotEach(s, sid, m, SetToSeq(m.asgs), <<>>)

(* m: [nym, asg, certs, fb, sig]                                             *)
(*   sig: ok, bad (not by nym), flip (by nym, but for the opposite feedback) *)
(*   certs: ok, bad (some signature missing, forged or for something else)   *)
VoteOk(s, m) == LET c == s.c IN
  /\ Open(s)
  /\ On("voteMember") => m.nym \in DOMAIN c.et
  /\ m.sig = "bad" => ~On("voteSig")
  /\ m.sig = "flip" => (~On("voteSign") \/ ~On("voteSig"))
  /\ On("voteReq") => m.asg.req = m.nym
  /\ m.certs # "ok" => ~On("voteCerts")
  /\ On("voteFb") => m.fb \in {1, -1}
  /\ On("voteDup") => m.asg.br \notin c.voted
  /\ On("voteProv") => m.asg.prov \in DOMAIN c.et

\* what the rules say about a vote, whatever checks the code makes
LegitVote(s, m) == LET c == s.c IN
  /\ c.status = "message" /\ m.sig = "ok" /\ m.certs = "ok" /\ m.fb \in {1, -1}
  /\ m.nym \in DOMAIN c.et /\ m.nym = m.asg.req
  /\ <<c.rd, m.asg.br, m.asg.req, m.asg.prov>> \in s.g.asgn

H_Vote(s, m) == LET c == s.c
                    s1 == IF LegitVote(s, m)
                             /\ m.asg.br \notin {v[2] : v \in {w \in s.g.legit : w[1] = c.rd}}
                          THEN [s EXCEPT !.g.legit = @ \cup {<<c.rd, m.asg.br, m.nym.o, m.fb>>},
                                         !.g.pend = Put(@, m.asg.prov.o, Get(@, m.asg.prov.o, 0) + m.fb)]
                          ELSE s
  IN IF ~VoteOk(s, m) THEN Out(s1, <<>>)
     ELSE Out([s1 EXCEPT !.c.diff = Put(@, m.asg.prov, Get(@, m.asg.prov, 0) + m.fb),
                         !.c.voted = @ \cup {m.asg.br}], <<>>)

-----------------------------------------------------------------------------
(* servers *)
SetS(s, i, v) == [s EXCEPT !.sv[i] = v]

H_SrvReply(s, i, m) ==
  Out([s EXCEPT !.sv[i].conn = TRUE, !.sv[i].prev = m.prev, !.g.shares = @ \cup {i}],
      << Msg(Coord, [t |-> "UPH", ht |-> m.ht \cup {i}]) >>)

H_SrvAnn(s, i, m) == LET v == s.sv[i]
                        kk == <<i, v.ep>>
                        up(n) == Nym(n.o, n.kx \cup {kk})
                        tab == [n \in {up(p) : p \in DOMAIN m.tab} |->
                                  LET p == CHOOSE q \in DOMAIN m.tab : up(q) = n
                                  IN [m.tab[p] EXCEPT !.b = IF @ >= 0 THEN @ + 1 ELSE @]]
                        km == [n \in DOMAIN tab |-> CHOOSE q \in DOMAIN m.tab : up(q) = n] @@ v.km
  IN IF m.pf # "ok" THEN Out([s EXCEPT !.sv[i].halted = TRUE], <<>>)
     ELSE Out([s EXCEPT !.sv[i].km = km],
              << Msg(v.next, AnnMsg(tab, m.kx \cup {kk}, m.b + 1)) >>)

H_SrvFin(s, i, m) == Out([s EXCEPT !.sv[i].et = m.tab], <<>>)

H_SrvCRS(s, i, m) == LET v == s.sv[i]
                        n == Nym(m.nym.o, m.nym.kx \cup {<<i, v.ep>>})
  IN Out([s EXCEPT !.sv[i].km = Put(@, n, m.nym)],
         << Msg(v.next, [m EXCEPT !.nym = n]) >>)

H_SrvRE(s, i, m) == LET v == s.sv[i] IN
  IF m.pf # "ok" THEN Out([s EXCEPT !.sv[i].halted = TRUE], <<>>)
  ELSE IF ~(DOMAIN m.tab \subseteq DOMAIN v.km)
  THEN Out([s EXCEPT !.sv[i].halted = TRUE, !.g.bad = @ \cup {i}], <<>>)   \* a nil key
  ELSE LET tab == [n \in {v.km[p] : p \in DOMAIN m.tab} |->
                     LET p == CHOOSE q \in DOMAIN m.tab : v.km[q] = n
                     IN [m.tab[p] EXCEPT !.b = IF @ >= 0 THEN @ + 1 ELSE @]]
       IN Out([s EXCEPT !.sv[i].km = Empty,
                        !.sv[i].ep = IF On("newKey") THEN @ + 1 ELSE @],
              << Msg(v.prev, [t |-> "RE", tab |-> tab, b |-> m.b + 1, st |-> FALSE, pf |-> "ok"]) >>)

H_SrvSign(s, i, m) == LET v == s.sv[i] IN
  Out(IF m.nym \in DOMAIN v.et /\ ProofOk(m) THEN [s EXCEPT !.g.signed = @ \cup {m.pf}] ELSE s, << Msg(Coord, IF m.nym \in DOMAIN v.et /\ ProofOk(m)
                       THEN [t |-> "GOT", ok |-> TRUE, asgs |-> m.asgs, sv |-> i]
                       ELSE [t |-> "GOT", ok |-> FALSE, asgs |-> {}, sv |-> i]) >>)

-----------------------------------------------------------------------------
(* clients; a client's id is its key's owner and its address *)
SetK(s, k, v) == [s EXCEPT !.k[k] = v]

H_CliInitR(s, k, m) ==
  Out([s EXCEPT !.k[k].R = {0}, !.k[k].G = m.kx, !.k[k].nym = Nym(k, m.kx)], <<>>)
H_CliConf(s, k) ==
  Out([s EXCEPT !.k[k].st = "connected", !.k[k].hon = FALSE, !.k[k].par = TRUE],
      << Msg(Coord, [t |-> "CHAL"]) >>)
H_CliAnsw(s, k) == Out([s EXCEPT !.k[k].hon = TRUE], <<>>)
H_CliFin(s, k, m) == LET n == Nym(k, m.kx) IN
  IF n \notin DOMAIN m.tab
  THEN Out([s EXCEPT !.k[k].st = "halted", !.g.bad = @ \cup {k}], <<>>)   \* can not find my nym
  ELSE Out([s EXCEPT !.k[k].st = "message", !.k[k].G = m.kx, !.k[k].nym = n,
                     !.k[k].pc = m.tab[n], !.k[k].up = TRUE], <<>>)
H_CliGotc(s, k, m) ==
  Out(IF On("cliSig") /\ m.sig # "ok" THEN s ELSE [s EXCEPT !.k[k].asg = Append(@, [a |-> m.asg, full |-> m.full])], <<>>)
H_CliRdiff(s, k, m) ==
  Out(IF s.k[k].nym \in m.keys THEN [s EXCEPT !.k[k].R = @ \cup {m.rd}] ELSE s, <<>>)
MyDiff(k, diffs) == LET mine == {d \in diffs : Nym(d.o, d.kx) = k.nym}
                    IN IF mine = {} THEN 0 ELSE (CHOOSE d \in mine : TRUE).d
H_CliRec(s, k, m) ==
  Out([s EXCEPT !.k[k].st = "connected", !.k[k].rep = @ + MyDiff(s.k[k], m.diffs),
                !.k[k].asg = <<>>], <<>>)

\* console commands
H_CmdPost(s, k, br) ==
  Out(s, << Msg(Coord, [t |-> "POST", nym |-> s.k[k].nym, br |-> br, sig |-> "ok"]) >>)
H_CmdGet(s, k, ind) == LET v == s.k[k] IN
  IF (On("honFirst") /\ ~v.hon) \/ ind > v.rep THEN Out(s, <<>>)
  ELSE IF ~v.par THEN Out([s EXCEPT !.g.bad = @ \cup {k}], <<>>)
  ELSE LET consistent == v.pc.x = v.rep /\ v.pc.r = v.R /\ v.pc.b >= 0
           s1 == IF ~consistent /\ s.c.status = "message" /\ v.nym \in DOMAIN s.c.et
                 THEN [s EXCEPT !.g.incons = @ \cup {k}] ELSE s
       IN Out([s1 EXCEPT !.g.blind = @ \/ ~v.hon],
              << Msg(Coord, [t |-> "REQ", nym |-> v.nym, ind |-> ind, sig |-> "ok",
                             pf |-> IF consistent THEN "ok" ELSE "badEq"]) >>)
H_CmdVote(s, k, j, fb) == LET v == s.k[k]
                             f == IF fb > 0 THEN 1 ELSE -1 IN
  Out(s, << Msg(Coord, [t |-> "VOTE", nym |-> v.nym, asg |-> v.asg[j].a, fb |-> f,
                        certs |-> IF v.asg[j].full THEN "ok" ELSE "bad", sig |-> "ok"]) >>)

-----------------------------------------------------------------------------
(* One step.  ev is a record with a field `a`:                              *)
(*  srv i / cli k        a process starts and sends its registration        *)
(*  enter / main         ENTER on the console / the main loop's next section*)
(*  dlv f t              deliver the head of the channel f -> t             *)
(*  cmd k c ...          a console command of a client                      *)
(*  inj as m (to)        the adversary sends m to the coordinator (or to    *)
(*                       `to`), claiming to be `as`                         *)
(*  replay n             a copy of an earlier message to C is sent again    *)
(*  gone k               a client leaves without a word                     *)
(* pick resolves the choice of bridges.                                     *)

H_Coord(s, from, m, pick) ==
  CASE m.t = "SREG" -> H_ServerRegister(s, from)
    [] m.t = "UPH"  -> H_UpdateH(s, m.ht)
    [] m.t = "CREG" -> H_ClientRegister(s, m.pk, from)
    [] m.t = "CRS"  -> H_CRSBack(s, m)
    [] m.t = "CHAL" -> H_Challenge(s, from)
    [] m.t = "ANN"  -> H_AnnBack(s, m)
    [] m.t = "RE"   -> H_REBack(s, m)
    [] m.t = "POST" -> H_Post(s, m)
    [] m.t = "REQ"  -> H_Request(s, from, m, pick)
    [] m.t = "GOT"  -> H_Got(s, from, m)
    [] m.t = "VOTE" -> H_Vote(s, m)
    [] OTHER        -> Out(s, <<>>)     \* malformed or unknown: no effect

H_Server(s, i, m) ==
  CASE m.t = "SREP" -> H_SrvReply(s, i, m)
    [] m.t = "NEXT" -> Out([s EXCEPT !.sv[i].next = m.next], <<>>)
    [] m.t = "BCH"  -> Out(s, <<>>)
    [] m.t = "ANN"  -> H_SrvAnn(s, i, m)
    [] m.t = "FIN"  -> H_SrvFin(s, i, m)
    [] m.t = "CRS"  -> H_SrvCRS(s, i, m)
    [] m.t = "RE"   -> H_SrvRE(s, i, m)
    [] m.t = "SIGN" -> H_SrvSign(s, i, m)

H_Client(s, k, m) ==
  CASE m.t = "INITR" -> H_CliInitR(s, k, m)
    [] m.t = "CONF"  -> H_CliConf(s, k)
    [] m.t = "ANSW"  -> H_CliAnsw(s, k)
    [] m.t = "FIN"   -> H_CliFin(s, k, m)
    [] m.t = "GOTC"  -> H_CliGotc(s, k, m)
    [] m.t = "RDIFF" -> H_CliRdiff(s, k, m)
    [] m.t = "REC"   -> H_CliRec(s, k, m)
    [] OTHER         -> Out(s, <<>>)    \* VSTART

Join(s, k) == [s EXCEPT !.k = Put(@, k, NewClient), !.g.ledger = Put(@, k, Credit)]

\* returns [s, o, from]: the messages o are not yet in the channels of s
Step(s, ev, pick) ==
  CASE ev.a = "srv" -> [s |-> [s EXCEPT !.sv = Put(@, ev.i, NewServer)],
                        o |-> << Msg(Coord, [t |-> "SREG"]) >>, from |-> ev.i]
    [] ev.a = "cli" -> [s |-> Join(s, ev.k),
                        o |-> << Msg(Coord, [t |-> "CREG", pk |-> ev.k]) >>, from |-> ev.k]
    [] ev.a = "enter" -> H_Enter(s) @@ [from |-> Coord]
    [] ev.a = "main"  -> H_Main(s) @@ [from |-> Coord]
    [] ev.a = "dlv" ->
         LET m == Head(Chan(s, ev.f, ev.t))
             s1 == Pop(s, ev.f, ev.t)
         IN (IF ev.t = Coord THEN H_Coord(s1, ev.f, m, pick)
             ELSE IF ev.t \in DOMAIN s.sv THEN H_Server(s1, ev.t, m)
             ELSE H_Client(s1, ev.t, m)) @@ [from |-> ev.t]
    [] ev.a = "post" -> H_CmdPost(s, ev.k, ev.b) @@ [from |-> ev.k]
    [] ev.a = "get"  -> H_CmdGet(s, ev.k, ev.n) @@ [from |-> ev.k]
    [] ev.a = "vote" -> H_CmdVote(s, ev.k, ev.j, ev.v) @@ [from |-> ev.k]
    [] ev.a = "inj"  -> [s |-> s, o |-> << Msg(IF "to" \in DOMAIN ev THEN ev.to ELSE Coord, ev.m) >>, from |-> ev.as]
    [] ev.a = "replay" ->
         LET p == [m |-> s.g.sent[ev.n].m] IN
         [s |-> s, o |-> << Msg(Coord, p.m) >>, from |-> s.g.sent[ev.n].f]
    [] ev.a = "gone" -> [s |-> [s EXCEPT !.gone = @ \cup {ev.k},
                                 !.net = Del(@, {ch \in DOMAIN @ : ch[2] = ev.k})],
                         o |-> <<>>, from |-> ev.k]

\* messages whose copies an eavesdropper can send again
Replayable == {"CREG", "CHAL", "POST", "REQ", "VOTE", "GOT"}
Log(s, from, o) ==
  [s EXCEPT !.g.sent = @ \o [i \in 1..Len(SelectSeq(o, LAMBDA e : e.to = Coord /\ e.m.t \in Replayable)) |->
       [f |-> from, m |-> SelectSeq(o, LAMBDA e : e.to = Coord /\ e.m.t \in Replayable)[i].m]]]

\* the state after a step r of the event ev
\* an injected message may overtake what is under way
Ahead(s, from, e) == [s EXCEPT !.net = Put(@, <<from, e.to>>, <<e.m>> \o Get(@, <<from, e.to>>, <<>>))]
Commit(r, ev) == IF ev.a = "inj" /\ "front" \in DOMAIN ev THEN Ahead(r.s, r.from, Head(r.o)) ELSE
                 Emit(IF ev.a \in {"inj", "replay"} THEN r.s ELSE Log(r.s, r.from, r.o), r.from, r.o)
Apply(s, ev, pick) == Commit(Step(s, ev, pick), ev)

\* the bridge choices a step leaves open
StepPicks(s, ev) ==
  IF ev.a = "dlv" /\ ev.t = Coord /\ Head(Chan(s, ev.f, ev.t)).t = "REQ"
     /\ ReqOk(s, Head(Chan(s, ev.f, ev.t)))
  THEN Picks(s.c, Head(Chan(s, ev.f, ev.t)).ind)
  ELSE {{}}

RECURSIVE Fold(_, _)
Fold(s, q) == IF q = <<>> THEN s
              ELSE LET p == StepPicks(s, Head(q))
                   IN Fold(Apply(s, Head(q), CHOOSE x \in p : TRUE), Tail(q))
=============================================================================
