------------------------------ MODULE ZRepTrace ------------------------------
(***************************************************************************)
(* Trace validation.  A trace is what the driver recorded while the real   *)
(* coordinator, servers and clients ran: for every step the event and the  *)
(* messages that the nodes sent because of it, as seen on the wire and     *)
(* reduced to the fields below by independent cryptography.  Every step is *)
(* taken by the specification's Step; the messages it says are sent must   *)
(* be the messages that were sent, field by field and in order per         *)
(* channel.  The first step that differs is reported with a label per      *)
(* difference.                                                             *)
(***************************************************************************)
EXTENDS ZRep, Json, TLCExt, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES ti, l, s, gs, lost, ctx, bad
vars == <<ti, l, s, gs, lost, ctx, bad>>

SetFields == {"ht", "tab", "own", "asgs", "diffs"}
Obs(m) == [f \in DOMAIN m |-> IF f \in SetFields THEN RangeOf(m[f]) ELSE m[f]]

-----------------------------------------------------------------------------
(* events as recorded -> events of the specification *)
NymIn(j) == Nym(j.o, RangeOf(j.kx))
AsgIn(j) == [br |-> j.br, req |-> NymIn(j.req), prov |-> NymIn(j.prov)]
MsgIn(m) == [f \in DOMAIN m |->
  CASE f = "nym" -> NymIn(m[f])
    [] f = "asg" -> AsgIn(m[f])
    [] f = "asgs" -> {AsgIn(x) : x \in RangeOf(m[f])}
    [] OTHER -> m[f]]
EvIn(e) == IF e.a = "inj" THEN [e EXCEPT !.m = MsgIn(@)] ELSE e

Legal(t, e) ==
  CASE e.a = "dlv"   -> <<e.f, e.t>> \in DOMAIN t.net
    [] e.a = "enter" -> EnterEnabled(t)
    [] e.a = "main"  -> MainEnabled(t)
    [] e.a \in {"post", "get"} -> e.k \in DOMAIN t.k
    [] e.a = "vote"  -> e.k \in DOMAIN t.k /\ e.j \in 1..Len(t.k[e.k].asg)
    [] e.a = "replay" -> e.n \in 1..Len(t.g.sent)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* messages of the specification -> what is seen of them on the wire *)
\* which published generator a pseudonym belongs to; 0 is the public key itself
GIdx(G, kx) == IF kx = {} THEN 0
               ELSE IF \E i \in 1..Len(G) : G[i] = kx THEN CHOOSE i \in 1..Len(G) : G[i] = kx ELSE -1
NV(G, n) == [o |-> n.o, g |-> GIdx(G, n.kx)]
AV(G, a) == [br |-> a.br, req |-> NV(G, a.req), prov |-> NV(G, a.prov)]
\* entries that open under the base b, with their values
\* (the blinding value of a member that could not be told it is in nobody's hands)
TabV(t, b, L) == {[o |-> n.o, x |-> ToString(t[n].x)] : n \in {n \in DOMAIN t : t[n].b = b /\ n.o \notin L}}
NF(t, b, L) == Fakes + Cardinality({n \in DOMAIN t : t[n].b # b \/ n.o \in L})

View(from, to, m, G, L) ==
  CASE m.t = "SREG"  -> [t |-> "SREG", pk |-> "ok"]
    [] m.t = "SREP"  -> [t |-> "SREP", prev |-> m.prev, ht |-> m.ht, fo |-> "cur"]
    [] m.t = "UPH"   -> [t |-> "UPH", ht |-> m.ht]
    [] m.t = "NEXT"  -> [t |-> "NEXT", next |-> m.next]
    [] m.t = "BCH"   -> [t |-> "BCH", ht |-> m.ht]
    [] m.t = "ANN"   -> [t |-> "ANN", tab |-> TabV(m.tab, m.b, L), nf |-> NF(m.tab, m.b, L), dup |-> 0,
                         prm |-> IF from = Coord THEN "cur" ELSE "fresh",
                         g |-> IF from = Coord THEN "none" ELSE "fresh",
                         pf |-> IF from = Coord THEN "none" ELSE "ok", nym |-> "ok", cm |-> "fresh"]
    [] m.t = "FIN"   -> [t |-> "FIN", tab |-> TabV(m.tab, m.b, L), nf |-> NF(m.tab, m.b, L), dup |-> 0,
                         prm |-> "cur", g |-> "cur", nym |-> "ok", same |-> "ok"]
    [] m.t = "CREG"  -> [t |-> "CREG", pk |-> "ok"]
    [] m.t = "CRS"   -> [t |-> "CRS", o |-> m.nym.o, addr |-> m.addr, x |-> IF m.nym.o \in L THEN "?" ELSE ToString(m.cm.x), nym |-> "ok"]
    [] m.t = "INITR" -> [t |-> "INITR", g |-> "cur", r |-> "fresh"]
    [] m.t = "CONF"  -> [t |-> "CONF", prm |-> "cur", hp |-> "fresh", cpk |-> "ok"]
    [] m.t = "CHAL"  -> [t |-> "CHAL", ch |-> "ok"]
    [] m.t = "ANSW"  -> [t |-> "ANSW", v |-> "ok"]
    [] m.t = "POST"  -> [t |-> "POST", nym |-> NV(G, m.nym), br |-> m.br, sig |-> "ok"]
    [] m.t = "REQ"   -> [t |-> "REQ", nym |-> NV(G, m.nym), ind |-> m.ind, sig |-> "ok",
                         pf |-> IF m.pf = "ok" THEN "ok" ELSE "bad"]
    [] m.t = "SIGN"  -> [t |-> "SIGN", nym |-> NV(G, m.nym), ind |-> m.ind, pf |-> "ok",
                         asgs |-> {AV(G, a) : a \in m.asgs}]
    [] m.t = "GOT"   -> IF m.ok THEN [t |-> "GOT", ok |-> TRUE, asgs |-> {AV(G, a) : a \in m.asgs}, sv |-> m.sv]
                        ELSE [t |-> "GOT", ok |-> FALSE]
    [] m.t = "GOTC"  -> [t |-> "GOTC", asg |-> AV(G, m.asg), full |-> "ok", sig |-> "ok"]
    [] m.t = "VSTART" -> [t |-> "VSTART"]
    [] m.t = "VOTE"  -> [t |-> "VOTE", nym |-> NV(G, m.nym), asg |-> AV(G, m.asg), fb |-> m.fb,
                         certs |-> m.certs, sig |-> "ok"]
    [] m.t = "RE"    -> [t |-> "RE", tab |-> TabV(m.tab, m.b, L), nf |-> NF(m.tab, m.b, L), dup |-> 0,
                         prm |-> IF m.st THEN "cur" ELSE "fresh", pf |-> IF m.st THEN "none" ELSE "ok",
                         nym |-> "ok", cm |-> "fresh"]
    [] m.t = "RDIFF" -> [t |-> "RDIFF", own |-> {n.o : n \in m.keys} \ L, n |-> Cardinality(m.keys) + Fakes]
    [] m.t = "REC"   -> [t |-> "REC", diffs |-> {[nym |-> [o |-> x.o, g |-> GIdx(G, x.kx)], d |-> x.d] :
                                                   x \in {y \in m.diffs : y.d # 0}}]

-----------------------------------------------------------------------------
(* comparison *)
ToOf(o, x) == SelectSeq(o, LAMBDA e : e.to = x)
RECURSIVE TypeCount(_, _)
TypeCount(q, t) == IF q = <<>> THEN 0 ELSE (IF Head(q).m.t = t THEN 1 ELSE 0) + TypeCount(Tail(q), t)
\* labels of the differences between the expected and the observed messages to one node
Diff1(ex, ob) ==
  LET ts == {e.m.t : e \in RangeOf(ex) \cup RangeOf(ob)}
      cnt == UNION {IF TypeCount(ex, t) > TypeCount(ob, t) THEN {"missing." \o t}
                    ELSE IF TypeCount(ex, t) < TypeCount(ob, t) THEN {"extra." \o t} ELSE {} : t \in ts}
      seq(q, t) == SelectSeq(q, LAMBDA e : e.m.t = t)
      fields == UNION {UNION {LET a == seq(ex, t)[i].m
                                  z == seq(ob, t)[i].m IN
                 {t \o "." \o f : f \in {f \in DOMAIN a : f # "t" /\ (f \notin DOMAIN z \/ z[f] # a[f])}} :
                   i \in 1..MinOf(TypeCount(ex, t), TypeCount(ob, t))} : t \in ts}
      order == IF cnt = {} /\ [i \in 1..Len(ex) |-> ex[i].m.t] # [i \in 1..Len(ob) |-> ob[i].m.t]
               THEN {"order." \o ex[1].m.t} ELSE {}
  IN cnt \cup fields \cup order
Diffs(ex, ob) == UNION {Diff1(ToOf(ex, x), ToOf(ob, x)) : x \in {e.to : e \in RangeOf(ex) \cup RangeOf(ob)}}

\* the bridges that were chosen, taken from the request for signatures
SeenPick(outs) == LET q == SelectSeq(outs, LAMBDA e : e.m.t = "SIGN")
                  IN IF q = <<>> THEN {} ELSE {x.br : x \in RangeOf(q[1].m.asgs)}

\* certificates that one message completes may be sent in any order: take the one seen
Certs(q, k) == SelectSeq(q, LAMBDA e : e.to = k /\ e.m.t = "GOTC")
Reorder(o, ob) ==
  [i \in 1..Len(o) |->
     IF o[i].m.t # "GOTC" THEN o[i]
     ELSE LET k == o[i].to
              mine == Certs(o, k)
              seen == Certs(ob, k)
              pos == Cardinality({j \in 1..i : o[j].to = k /\ o[j].m.t = "GOTC"})
          IN IF Len(mine) = Len(seen) /\ {e.m.asg.br : e \in RangeOf(mine)} = {e.m.asg.br : e \in RangeOf(seen)}
             THEN CHOOSE e \in RangeOf(mine) : e.m.asg.br = seen[pos].m.asg.br
             ELSE o[i]]

-----------------------------------------------------------------------------
(* what happened so far that was not plain sailing; tells what a difference  *)
(* is a consequence of                                                       *)
If(cond, x) == IF cond THEN {x} ELSE {}
Tags(t, e) ==
  IF e.a = "gone" THEN {"gone"}
  ELSE IF e.a = "dlv" /\ e.t \in DOMAIN t.sv /\ Head(Chan(t, e.f, e.t)).t = "SIGN"
  THEN LET m == Head(Chan(t, e.f, e.t)) IN If(m.pf # "ok", "bad.SIGN." \o m.pf)
  ELSE IF e.a = "dlv" /\ e.t \in DOMAIN t.k /\ Head(Chan(t, e.f, e.t)).t = "GOTC"
  THEN LET m == Head(Chan(t, e.f, e.t)) IN If(m.sig # "ok", "bad.GOTC") \cup If(m.asg.req # t.k[e.t].nym, "alien.GOTC")
  ELSE IF e.a # "dlv" \/ e.t # Coord THEN {}
  ELSE LET m == Head(Chan(t, e.f, e.t))
           c == t.c
           late(x) == If(c.status # "message", "late." \o x)
           alien(x) == If(m.nym \notin DOMAIN c.et, "alien." \o x)
           sg(x) == If(m.sig # "ok", "bad." \o x \o "." \o m.sig)
       IN CASE m.t = "POST" -> late("POST") \cup alien("POST") \cup sg("POST")
                               \cup If(m.br \in DOMAIN c.br, "dup.POST")
            [] m.t = "REQ"  -> late("REQ") \cup alien("REQ") \cup sg("REQ")
                               \cup If(m.pf # "ok", "bad.REQ." \o m.pf)
            [] m.t = "GOT"  -> late("GOT") \cup If(m.ok /\ m.sv # e.f, "bad.GOT")
                               \cup If(\E a \in m.asgs : a.br \notin DOMAIN c.asg, "alien.GOT")
                               \cup If(\E a \in m.asgs : a.br \in DOMAIN c.asg /\ e.f \in c.asg[a.br].sigs, "dup.GOT")
            [] m.t = "VOTE" -> late("VOTE") \cup alien("VOTE") \cup sg("VOTE")
                               \cup If(m.certs # "ok", "bad.VOTE.certs") \cup If(m.asg.req # m.nym, "bad.VOTE.req")
                               \cup If(m.fb \notin {1, -1}, "bad.VOTE.fb")
                               \cup If(m.asg.br \in c.voted, "dup.VOTE")
                               \cup If(m.asg.prov \notin DOMAIN c.et, "late.VOTE")
            [] m.t = "CREG" -> late("CREG") \cup If(m.pk = "badkey", "bad.CREG") \cup If(m.pk \in c.keys, "dup.CREG")
            [] m.t = "SREG" -> If(c.status # "config", "late.SREG") \cup If(c.upd, "queue.SREG")
            [] m.t = "CHAL" -> If(e.f \notin c.prf, "dup.CHAL")
            [] m.t = "BAD"  -> {"junk"}
            [] OTHER -> {}
At(t, e) == IF e.a = "dlv" /\ <<e.f, e.t>> \in DOMAIN t.net THEN "dlv." \o Head(Chan(t, e.f, e.t)).t
            ELSE IF e.a = "dlv" THEN "dlv.?" ELSE e.a

Done(labels, tags, at) ==
  /\ PrintT("TRC " \o ToJson([id |-> Traces[ti].id, len |-> l, n |-> Len(Traces[ti].ev), labels |-> labels,
                               ctx |-> tags, at |-> at]))
  /\ bad' = TRUE /\ UNCHANGED <<ti, l, s, gs, lost, ctx>>

TraceInit == ti \in 1..Len(Traces) /\ l = 1 /\ s = InitState /\ gs = <<>> /\ lost = {} /\ ctx = {} /\ bad = FALSE

TraceNext ==
  /\ ~bad
  /\ IF l > Len(Traces[ti].ev) THEN Done({}, ctx, "end")
     ELSE LET r == Traces[ti].ev[l]
              e == EvIn(r.ev)
              crash == {"crash." \o x : x \in RangeOf(r.crash)}
          IN IF ~Legal(s, e) THEN Done(crash \cup {"step." \o e.a}, ctx, At(s, e))
             ELSE
             LET ctx1 == ctx \cup Tags(s, e)
                 ps == StepPicks(s, e)
                 sp == SeenPick(r.outs)
                 pk == IF sp \in ps THEN sp ELSE CHOOSE x \in ps : TRUE
                 ob == [i \in 1..Len(r.outs) |-> [from |-> r.outs[i].f, to |-> r.outs[i].t, m |-> Obs(r.outs[i].m)]]
                 st0 == Step(s, e, pk)
                 st == [st0 EXCEPT !.o = Reorder(@, ob)]
                 s1 == Commit(st, e)
                 gs1 == IF s1.c.G # s.c.G THEN Append(gs, s1.c.G) ELSE gs
                 lost1 == lost \cup {x.to : x \in {y \in RangeOf(st.o) : y.m.t = "INITR" /\ y.to \in s.gone}}
                 exo == IF e.a \in {"inj", "replay"} THEN <<>>
                        ELSE SelectSeq(st.o, LAMBDA x : x.to \notin s.gone)
                 ex == [i \in 1..Len(exo) |->
                          [from |-> st.from, to |-> exo[i].to, m |-> View(st.from, exo[i].to, exo[i].m, gs1, lost1)]]
                 alien == {"extra." \o ob[i].m.t : i \in {j \in 1..Len(ob) : ob[j].from # st.from}}
                 lab == crash \cup alien \cup Diffs(ex, ob)
                        \cup (IF sp \notin ps /\ sp # {} THEN {"pick"} ELSE {})
                        \cup (IF r.rep # <<>> /\ (e.t \notin DOMAIN s1.k \/ s1.k[e.t].rep # r.rep[1]) THEN {"own.rep"} ELSE {})
             IN IF lab # {} THEN Done(lab, ctx1, At(s, e))
                ELSE /\ s' = s1 /\ l' = l + 1 /\ gs' = gs1 /\ lost' = lost1 /\ ctx' = ctx1 /\ UNCHANGED <<ti, bad>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
