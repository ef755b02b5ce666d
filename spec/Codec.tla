------------------------------- MODULE Codec -------------------------------
(* What a node puts into a message and what the receiver takes out of it.    *)
(* A value is a sequence of numbers with signs; each number is written in    *)
(* digits, with a fixed width or with its length in front.  The bytes of a   *)
(* message reach the receiver in pieces of any size, and messages follow     *)
(* one another; the receiver decodes what one connection brought, and works  *)
(* in place on what it has decoded.                                          *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxLen,    \* how many numbers a value has at most
          MaxMsgs,   \* how many messages follow one another
          G          \* the guards of the implementation

Guards == {"pad", "length", "sign", "order", "keepzero", "whole", "reset", "own"}
Full == Guards
W == 3
Fmts == {"fixed", "counted", "signed"}

RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))
RECURSIVE Strip(_)
Strip(d) == IF d = <<>> \/ Head(d) # 0 THEN d ELSE Strip(Tail(d))
RECURSIVE Fill(_)
Fill(d) == IF Len(d) >= W THEN d ELSE Fill(<<0>> \o d)

Digits  == [1..W -> {0, 1}]
Numbers(f) == IF f = "signed" THEN {x \in [s : {0, 1}, d : Digits] : x.s = 1 => x.d # <<0, 0, 0>>}
              ELSE [s : {0}, d : Digits]
Values(f) == UNION {[1..n -> Numbers(f)] : n \in 0..MaxLen}
Msgs == UNION {[f : {f}, v : Values(f)] : f \in Fmts}

Written(d) == Strip(d)
\* a count is written as a digit of its own (2 + n), a sign as 8 or 9
Elem(f, x) ==
  CASE f = "fixed"   -> IF "pad" \in G THEN x.d ELSE Written(x.d)
    [] f = "counted" -> (IF "length" \in G THEN <<2 + Len(Written(x.d))>> ELSE <<>>) \o Written(x.d)
    [] OTHER         -> <<2 + Len(Written(x.d))>> \o (IF "sign" \in G THEN <<8 + x.s>> ELSE <<8>>) \o Written(x.d)
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
Kept(v) == IF "keepzero" \in G THEN v ELSE SelectSeq(v, LAMBDA x : x.d # <<0, 0, 0>>)
Enc(m) == Flat([i \in 1..Len(Kept(m.v)) |-> Elem(m.f, Kept(m.v)[i])])

RECURSIVE DecFixed(_)
DecFixed(b) == IF b = <<>> THEN <<>>
               ELSE LET n == IF Len(b) < W THEN Len(b) ELSE W IN
                    <<[s |-> 0, d |-> Fill(SubSeq(b, 1, n))]>> \o DecFixed(SubSeq(b, n + 1, Len(b)))
\* without counts the reader can only take what it finds as one number per digit
RECURSIVE DecCounted(_)
DecCounted(b) ==
  IF b = <<>> THEN <<>>
  ELSE IF Head(b) < 2 THEN <<[s |-> 0, d |-> Fill(<<Head(b)>>)]>> \o DecCounted(Tail(b))
  ELSE LET k == Head(b) - 2
           n == IF k > Len(b) - 1 THEN Len(b) - 1 ELSE k IN
       <<[s |-> 0, d |-> Fill(SubSeq(b, 2, n + 1))]>> \o DecCounted(SubSeq(b, n + 2, Len(b)))
RECURSIVE DecSigned(_)
DecSigned(b) ==
  IF Len(b) < 2 THEN <<>>
  ELSE LET k == IF Head(b) < 2 THEN 0 ELSE Head(b) - 2
           n == IF k > Len(b) - 2 THEN Len(b) - 2 ELSE k IN
       <<[s |-> IF b[2] = 9 THEN 1 ELSE 0, d |-> Fill(SubSeq(b, 3, n + 2))]>> \o DecSigned(SubSeq(b, n + 3, Len(b)))
Dec(f, b) == LET l == CASE f = "fixed" -> DecFixed(b) [] f = "counted" -> DecCounted(b) [] OTHER -> DecSigned(b) IN
             IF "order" \in G THEN l ELSE Rev(l)

Faithful == \A m \in Msgs : Dec(m.f, Enc(m)) = m.v

---------------------------------------------------------------------------
(* messages on their way: each on a connection of its own; a connection is   *)
(* a sequence of bytes that is cut into pieces, and ends                     *)
VARIABLES sent,   \* the messages that were sent
          net,    \* per connection: bytes not read yet
          cut,    \* per connection: the sizes of the pieces it was written in
          cur,    \* the connection being read
          buf,    \* what was read of it
          got,    \* what was decoded: where the values are
          raw,    \* the bytes that they were decoded from
          objs,   \* the values
          done    \* those that the receiver has changed
vars == <<sent, net, cut, cur, buf, got, raw, objs, done>>

Small == {[f |-> "fixed", v |-> <<>>], [f |-> "fixed", v |-> <<[s |-> 0, d |-> <<0, 1, 1>>]>>],
          [f |-> "counted", v |-> <<[s |-> 0, d |-> <<0, 0, 1>>], [s |-> 0, d |-> <<0, 0, 0>>]>>]}
\* the header says what follows
Bytes(m) == <<CASE m.f = "fixed" -> 10 [] m.f = "counted" -> 11 [] OTHER -> 12>> \o Enc(m)
FmtOf(b) == IF b = <<>> THEN "none" ELSE CASE b[1] = 10 -> "fixed" [] b[1] = 11 -> "counted" [] b[1] = 12 -> "signed" [] OTHER -> "none"
Read(b) == IF FmtOf(b) = "none" THEN [f |-> "none", v |-> <<>>] ELSE [f |-> FmtOf(b), v |-> Dec(FmtOf(b), Tail(b))]

RECURSIVE Cuts(_)
Cuts(n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<k>> \o c : c \in Cuts(n - k)} : k \in 1..n}

Init == /\ sent = <<>> /\ net = <<>> /\ cut = <<>> /\ cur = 1 /\ buf = <<>> /\ got = <<>> /\ raw = <<>> /\ objs = <<>> /\ done = {}
Send(m) == /\ Len(sent) < MaxMsgs
           /\ sent' = Append(sent, m)
           /\ \E c \in Cuts(Len(Bytes(m))) :
                /\ cut' = Append(cut, c)
                /\ net' = Append(net, [i \in 1..Len(c) |->
                      LET a == Len(Flat([j \in 1..(i - 1) |-> [x \in 1..c[j] |-> 0]])) IN SubSeq(Bytes(m), a + 1, a + c[i])])
           /\ UNCHANGED <<cur, buf, got, raw, objs, done>>
Piece == /\ cur <= Len(net) /\ net[cur] # <<>>
         /\ buf' = buf \o Head(net[cur])
         /\ net' = [net EXCEPT ![cur] = Tail(@)]
         /\ UNCHANGED <<sent, cut, cur, got, raw, objs, done>>
End == /\ cur <= Len(net)
       /\ "whole" \in G => net[cur] = <<>>
       /\ buf # <<>>
       /\ LET old == {j \in 1..Len(got) : raw[j] = buf} IN
            IF "own" \in G \/ old = {}
            THEN objs' = Append(objs, Read(buf)) /\ got' = Append(got, Len(objs) + 1)
            ELSE objs' = objs /\ got' = Append(got, got[CHOOSE j \in old : TRUE])
       /\ raw' = Append(raw, buf)
       /\ buf' = IF "reset" \in G THEN <<>> ELSE buf
       /\ cur' = cur + 1
       /\ UNCHANGED <<sent, net, cut, done>>
Work(i) == /\ i \notin done
           /\ done' = done \cup {i}
           /\ objs' = [objs EXCEPT ![got[i]] = [f |-> "changed", v |-> <<>>]]
           /\ UNCHANGED <<sent, net, cut, cur, buf, got, raw>>
Next == (\E m \in Small : Send(m)) \/ Piece \/ End \/ \E i \in 1..Len(got) : Work(i)
Spec == Init /\ [][Next]_vars

Read1 == sent = <<>> => Faithful
Arrives == \A i \in 1..Len(got) : i \notin done => objs[got[i]] = sent[i]
Done == Len(sent) = MaxMsgs /\ Len(got) = MaxMsgs
Show == Done => PrintT("CUT " \o ToJson([i \in 1..MaxMsgs |-> cut[i]]))
ASSUME \A m \in Msgs : PrintT("VAL " \o ToJson(m))
============================================================================
