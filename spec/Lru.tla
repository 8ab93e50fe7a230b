-------------------------------- MODULE Lru --------------------------------
(***************************************************************************)
(* The usage list of a HashCache bucket of N slots (32 in the code).       *)
(*                                                                         *)
(* The code threads a circular doubly linked list through an array of      *)
(* <<next older.., ..>> pairs: link[s][1] leads from the newest slot to    *)
(* the oldest one and then from older to newer, link[s][2] back; `tail` is *)
(* the newest slot plus one, or 0 if the list is empty.  <<0, 0>> also     *)
(* stands for `not in the list', which is ambiguous for slot 0.            *)
(*                                                                         *)
(* `order` is what it is meant to represent: the slots that carry usage    *)
(* information, least recently used first.  Invariant Refines says that    *)
(* the array always represents it; Victim says that the least recently     *)
(* used slot is evicted.                                                   *)
(*                                                                         *)
(* Each transition of this specification is turned into a test of the code *)
(* by tools/models.py.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N, Moves    \* number of slots; entries may arrive without usage information

VARIABLES link, tail, occ, order
vars == <<link, tail, occ, order>>

Slots == 0..N - 1
None == <<0, 0>>

Init == /\ link = [s \in Slots |-> None]
        /\ tail = 0
        /\ occ = {}
        /\ order = <<>>

Lowest(S) == CHOOSE s \in S : \A x \in S : s <= x
Minus(q, s) == SelectSeq(q, LAMBDA x : x # s)

\* update_lru_tail, given the list.
Promoted(l, t, s) ==
    IF t = s + 1 THEN [l |-> l, t |-> t]
    ELSE IF t = 0 THEN [l |-> [l EXCEPT ![s] = <<s, s>>], t |-> s + 1]
    ELSE LET in == l[s] # None \/ (l[0] = <<s, s>> /\ t = 1)
             a == IF ~in THEN l
                  ELSE LET p == l[s][1]
                           n == l[s][2]
                           b == [l EXCEPT ![p] = <<@[1], n>>]
                       IN [b EXCEPT ![n] = <<p, @[2]>>]
             old == a[t - 1][1]
             c == [a EXCEPT ![old] = <<@[1], s>>]
             d == [c EXCEPT ![s] = <<old, @[2]>>]
             e == [d EXCEPT ![t - 1] = <<s, @[2]>>]
         IN [l |-> [e EXCEPT ![s] = <<@[1], t - 1>>], t |-> s + 1]

\* remove_from_lru_list
Removed(l, t, s) ==
    IF t = 0 \/ (l[s] = None /\ (l[0] # <<s, s>> \/ (t # 1 /\ t # s + 1)))
    THEN [l |-> l, t |-> t]
    ELSE IF l[s][1] = s THEN [l |-> [l EXCEPT ![s] = None], t |-> 0]
    ELSE LET p == l[s][1]
             n == l[s][2]
             a == [l EXCEPT ![p] = <<@[1], n>>]
             b == [a EXCEPT ![n] = <<p, @[2]>>]
         IN [l |-> [b EXCEPT ![s] = None], t |-> IF t = s + 1 THEN n + 1 ELSE t]

\* evict_lru_head: the slot, and the list afterwards.
Evicted(l, t) ==
    IF t = 0 THEN [l |-> l, t |-> t, s |-> 0]
    ELSE LET s == l[t - 1][1]
         IN IF s = t - 1 THEN [l |-> [l EXCEPT ![s] = None], t |-> 0, s |-> s]
            ELSE LET n == l[s][1]
                     a == [l EXCEPT ![n] = <<@[1], t - 1>>]
                     b == [a EXCEPT ![t - 1] = <<n, @[2]>>]
                 IN [l |-> [b EXCEPT ![s] = None], t |-> t, s |-> s]

Full == Cardinality(occ) = N

\* An entry is inserted into the lowest free slot; a full bucket evicts one before.
Put ==
    LET ev == Evicted(link, tail)
        s == IF Full THEN ev.s ELSE Lowest(Slots \ occ)
        l0 == IF Full THEN ev.l ELSE link
        t0 == IF Full THEN ev.t ELSE tail
        x == Promoted(l0, t0, s)
    IN /\ occ' = occ \cup {s}
       /\ link' = x.l /\ tail' = x.t
       /\ order' = Append(Minus(order, s), s)

\* An entry is moved here from the old table.
Move ==
    /\ Moves /\ ~Full
    /\ occ' = occ \cup {Lowest(Slots \ occ)}
    /\ UNCHANGED <<link, tail, order>>

Get(s) ==
    /\ s \in occ
    /\ LET x == Promoted(link, tail, s) IN link' = x.l /\ tail' = x.t
    /\ order' = Append(Minus(order, s), s)
    /\ UNCHANGED occ

Remove(s) ==
    /\ s \in occ
    /\ LET x == Removed(link, tail, s) IN link' = x.l /\ tail' = x.t
    /\ order' = Minus(order, s)
    /\ occ' = occ \ {s}

Next == Put \/ Move \/ \E s \in Slots : Get(s) \/ Remove(s)
Spec == Init /\ [][Next]_vars

\* The slots in the list, from the oldest to the newest.
RECURSIVE Walk(_, _, _)
Walk(s, n, q) == IF n = 0 THEN q ELSE IF s = tail - 1 THEN Append(q, s) ELSE Walk(link[s][1], n - 1, Append(q, s))
RECURSIVE Back(_, _, _)
Back(s, n, q) == IF n = 0 THEN q ELSE IF s = link[tail - 1][1] THEN Append(q, s) ELSE Back(link[s][2], n - 1, Append(q, s))
Reverse(q) == [x \in 1..Len(q) |-> q[Len(q) + 1 - x]]

TypeOK == /\ link \in [Slots -> Slots \X Slots]
          /\ tail \in 0..N
          /\ occ \subseteq Slots
Refines == /\ tail = 0 <=> order = <<>>
           /\ tail # 0 => /\ Walk(link[tail - 1][1], N, <<>>) = order
                          /\ Back(tail - 1, N, <<>>) = Reverse(order)
Sound == /\ {order[x] : x \in 1..Len(order)} \subseteq occ
         /\ \A x, y \in 1..Len(order) : order[x] = order[y] => x = y
         /\ ~Moves => Cardinality(occ) = Len(order)
Victim == Full /\ order # <<>> => Evicted(link, tail).s = Head(order)
=============================================================================
