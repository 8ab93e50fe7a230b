---------------------------- MODULE ContainerSem ----------------------------
(***************************************************************************)
(* What one operation on one scc container means, sequentially.            *)
(*                                                                         *)
(* The contents `m` of a container map each present key to a cell <<i, v>>:*)
(* the key object `i` that is stored (its identity; equal keys may be      *)
(* different objects) and the value `v` (0 in a HashSet).                  *)
(*                                                                         *)
(* An operation `op` is a record with                                      *)
(*   o  the name         k  the key          i  the key object passed in   *)
(*   v  the value        p  a parameter                                    *)
(* `Outcomes(kind, m, op, c, r)` is the set of its possible outcomes       *)
(* [m |-> contents afterwards, r |-> returned sequence of integers].  `c`  *)
(* tells if the returned sequence is known to be `r`; HashCache needs it   *)
(* to know which entry was evicted, as the choice of the victim is the     *)
(* subject of another specification (Lru.tla).                             *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC

Has(m, k)    == k \in DOMAIN m
With(m, k, c) == (k :> c) @@ m
Without(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]

Odd(v) == v % 2

\* Operations on a single key.
KeyOps == {"insert", "upsert", "update", "read", "contains", "remove", "remove_if",
           "remove_ifm", "replace", "replace_ins", "rmw", "rmw2", "get", "get_rem", "get_remv",
           "or_ins", "and_mod", "ent_ins", "ent_def", "ent_rem", "ent_rmw", "ent_upd",
           "sreplace", "bremove", "bremove_if", "peek", "peek_entry"}

\* Insertion of a cell for an absent key: returned sequence `b`, followed by the evicted entry in
\* the case of a HashCache.
Added(kind, m, k, cell, b, c, r) ==
    LET plain == [m |-> With(m, k, cell), r |-> b]
        evict(e) == [m |-> With(Without(m, e), k, cell), r |-> b \o <<e, m[e][1], m[e][2]>>]
    IN IF kind # "cache" THEN {plain}
       ELSE IF c = 0 THEN {plain} \cup {evict(e) : e \in DOMAIN m}
       ELSE IF Len(r) = Len(b) + 3 /\ Has(m, r[Len(b) + 1]) THEN {evict(r[Len(b) + 1])}
       ELSE {plain}

Outcomes(kind, m, op, c, r) ==
    LET k == op.k
        P == Has(m, k)
        I == m[k][1]
        V == m[k][2]
        same(x) == {[m |-> m, r |-> x]}
        put(cell, x) == {[m |-> With(m, k, cell), r |-> x]}
        del(x) == {[m |-> Without(m, k), r |-> x]}
        add(cell, x) == Added(kind, m, k, cell, x, c, r)
    IN CASE op.o = "insert" ->
              IF P THEN same(<<0, op.i, op.v>>) ELSE add(<<op.i, op.v>>, <<1>>)
         [] op.o = "upsert" ->
              \* The key object that is already there stays.
              IF P THEN put(<<I, op.v>>, <<1, V>>) ELSE add(<<op.i, op.v>>, <<0>>)
         [] op.o \in {"update", "rmw", "rmw2"} ->
              IF P THEN put(<<I, op.v>>, <<1, I, V>>) ELSE same(<<0>>)
         [] op.o \in {"ent_rmw", "ent_upd"} ->
              IF P THEN put(<<I, op.v>>, <<1, I, V>>) ELSE same(<<0, op.i>>)
         [] op.o \in {"read", "get", "peek_entry"} ->
              IF P THEN same(<<1, I, V>>) ELSE same(<<0>>)
         [] op.o = "peek" ->
              IF P THEN same(<<1, V>>) ELSE same(<<0>>)
         [] op.o = "contains" ->
              same(<<IF P THEN 1 ELSE 0>>)
         [] op.o \in {"remove", "get_rem", "get_remv"} ->
              IF P THEN del(<<1, I, V>>) ELSE same(<<0>>)
         [] op.o = "bremove" ->
              IF P THEN del(<<1>>) ELSE same(<<0>>)
         [] op.o = "ent_rem" ->
              IF P THEN del(<<1, I, V>>) ELSE same(<<0, op.i>>)
         [] op.o = "remove_if" ->
              IF P /\ Odd(V) = op.p THEN del(<<1, I, V>>) ELSE same(<<0>>)
         [] op.o = "bremove_if" ->
              IF P /\ Odd(V) = op.p THEN del(<<1>>) ELSE same(<<0>>)
         [] op.o = "remove_ifm" ->
              \* The condition changes the value to V + 2 whatever it decides.
              IF ~P THEN same(<<0>>)
              ELSE IF Odd(V) = op.p THEN del(<<1, I, V + 2>>)
              ELSE put(<<I, V + 2>>, <<0>>)
         [] op.o = "replace" ->
              \* The value stays, the key object is replaced and handed back.
              IF P THEN put(<<op.i, V>>, <<1, I, V>>) ELSE same(<<0, op.i>>)
         [] op.o = "replace_ins" ->
              IF P THEN put(<<op.i, op.v>>, <<1, I, V>>) ELSE add(<<op.i, op.v>>, <<0, op.i>>)
         [] op.o = "sreplace" ->
              IF P THEN put(<<op.i, 0>>, <<1, I>>) ELSE add(<<op.i, 0>>, <<0>>)
         [] op.o = "or_ins" ->
              IF P THEN same(<<I, V>>) ELSE add(<<op.i, op.v>>, <<op.i, op.v>>)
         [] op.o = "ent_def" ->
              IF P THEN same(<<I, V>>) ELSE add(<<op.i, -7>>, <<op.i, -7>>)
         [] op.o = "and_mod" ->
              IF P THEN put(<<I, V + op.p>>, <<I, V + op.p>>)
              ELSE add(<<op.i, op.v>>, <<op.i, op.v>>)
         [] op.o = "ent_ins" ->
              IF P THEN put(<<I, op.v>>, <<I, op.v>>) ELSE add(<<op.i, op.v>>, <<op.i, op.v>>)

\* Key k is inside the bounds <<lo, hi>> of kind p: p % 3 and (p \div 3) % 3 are 0 for unbounded,
\* 1 for included, 2 for excluded.
InRange(k, lo, hi, p) ==
    /\ CASE p % 3 = 0 -> TRUE [] p % 3 = 1 -> k >= lo [] OTHER -> k > lo
    /\ CASE (p \div 3) % 3 = 0 -> TRUE [] (p \div 3) % 3 = 1 -> k <= hi [] OTHER -> k < hi
=============================================================================
