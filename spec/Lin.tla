-------------------------------- MODULE Lin --------------------------------
(***************************************************************************)
(* Which histories of concurrent operations on one scc container are       *)
(* allowed.  The recorded histories of the real containers are checked     *)
(* against it; each is one sequence of events in `Hist[h].ev`:             *)
(*                                                                         *)
(*   call    a task calls an operation                                     *)
(*   ret     the operation returns                                         *)
(*   vis     a closure or iterator is handed an entry                      *)
(*   cancel  the future of the operation is dropped                        *)
(*   panic   the operation panicked (inj = 1: in the closure, on purpose)  *)
(*   quiet   no operation is running; the contents are listed              *)
(*   gone    the container has been dropped                                *)
(*   stuck   the operations did not complete                               *)
(*                                                                         *)
(* Operations on a single key take effect in one silent step (Take)        *)
(* between call and return.  Scans are not atomic: they hand out entries   *)
(* one by one, and owe a visit (`must`) to each entry that stays.  clear   *)
(* and remove_range remove the entries one by one in silent steps (Sweep). *)
(***************************************************************************)
EXTENDS ContainerSem, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Hist == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    h,      \* the history
    n,      \* number of events consumed
    m,      \* contents
    pend,   \* task -> operation in progress
    zom,    \* keys that an abandoned clear or remove_range may have removed
    use,    \* keys of a HashCache, least recently used first, if all are in the same bucket
    aux     \* bookkeeping: [rsv reserved capacity, flo capacity to be kept, ins insertions]

vars == <<h, n, m, pend, zom, use, aux>>

Kind  == Hist[h].kind
Tree  == Kind = "tree"
LockFree == Kind \in {"index", "tree"}
More  == n < Len(Hist[h].ev)
Ev    == Hist[h].ev[n + 1]
Is(e) == More /\ Ev.e = e

Scans   == {"iter", "iter_mut", "retain", "any", "walk", "liter", "titer", "range"}
Sweeps  == IF Tree THEN {"remove_range"} ELSE {"clear"}
Counts  == {"len", "is_empty"}
Neutral == {"reserve", "unreserve", "cap", "depth"}
Whole   == {"clone", "eq", "fmt", "serde", "fromiter", "live", "bidx"}

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
B(b) == IF b THEN 1 ELSE 0

Contents(s) == [k \in {s[x][1] : x \in 1..Len(s)} |->
                  LET x == CHOOSE y \in 1..Len(s) : s[y][1] = k IN <<s[x][2], s[x][3]>>]

Init == /\ h \in 1..Len(Hist)
        /\ n = 0
        /\ m = Contents(Hist[h].init)
        /\ pend = <<>>
        /\ zom = {}
        /\ use = IF Hist[h].lru = 1 THEN [x \in 1..Len(Hist[h].init) |-> Hist[h].init[x][1]] ELSE <<>>
        /\ aux = [rsv |-> Hist[h].rsv, flo |-> 0, ins |-> Hist[h].ins]
        /\ TLCSet(h, 0)

Concerns(op, k) ==
    op.o \notin {"range", "remove_range"} \/ InRange(k, op.k, op.v, op.p)

\* Bookkeeping of the other operations when the contents become m2.
\*   must  entries that have been there since the call and have not been visited
\*   done  entries that have been visited and have stayed since
\*   chgd  keys whose entry has changed since the call
\*   ever  cells that have been there at some moment since the call
Note(pd, m2) ==
    LET gone == DOMAIN m \ DOMAIN m2
        chg  == {k \in DOMAIN m2 : ~Has(m, k) \/ m[k] # m2[k]}
        cell == {<<k, m2[k][1], m2[k][2]>> : k \in chg}
    IN IF gone = {} /\ chg = {} THEN pd
       ELSE [t \in DOMAIN pd |->
               IF pd[t].o \in KeyOps THEN pd[t]
               ELSE [pd[t] EXCEPT !.must = @ \ (gone \cup (IF pd[t].lf THEN chg ELSE {})),
                                  !.done = @ \ (gone \cup (IF pd[t].lf THEN chg ELSE {})),
                                  !.chgd = IF pd[t].lf THEN @ \cup gone \cup chg ELSE @,
                                  !.ever = IF pd[t].lf THEN @ \cup cell ELSE @]]

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o Listed(S \ {x})

\* Entries that are removed leave the usage order, new ones are the most recently used.
Order(m2) ==
    IF Hist[h].lru = 0 THEN use
    ELSE SelectSeq(use, LAMBDA k : Has(m2, k)) \o Listed(DOMAIN m2 \ {use[x] : x \in 1..Len(use)})
Touch(q, k) == Append(SelectSeq(q, LAMBDA x : x # k), k)
\* put and get are what makes an entry recently used.
Fetches == {"get", "rmw", "get_rem", "get_remv"}

SetU(m2, pd, u) ==
    /\ m' = m2
    /\ pend' = Note(pd, m2)
    /\ zom' = zom \cap {k \in DOMAIN m : Has(m2, k) /\ m[k] = m2[k]}
    /\ use' = u
Set(m2, pd) == SetU(m2, pd, Order(m2))

Ways == 32
\* An entry is evicted for key k when there is no room in the bucket, and only then; it is the one that has
\* not been used for the longest time.
Evicts(k, m2) ==
    LET out == DOMAIN m \ (DOMAIN m2 \cup {k})
    IN IF Has(m, k) \/ ~Has(m2, k) THEN TRUE
       ELSE IF Hist[h].lru = 0 THEN out # {} => Cardinality(DOMAIN m) >= Ways
       ELSE IF Cardinality(DOMAIN m) < Ways THEN out = {}
       ELSE out = {Head(use)}

\* A lock-free iterator over a HashIndex may still find what an operation that has not returned yet
\* has already hidden from lookups: they give up on a bucket as soon as its length is zero.
Ghosts == UNION {pend[t].was : t \in DOMAIN pend}
\* Likewise, it may already find what such an operation is about to insert into an empty bucket.
Coming(k) ==
    IF Kind # "index" \/ Has(m, k) THEN {}
    ELSE UNION {{<<k, o.m[k][1], o.m[k][2]>> : o \in {x \in Outcomes(Kind, m, pend[t], pend[t].c, pend[t].r) : Has(x.m, k)}} :
                t \in {x \in DOMAIN pend : pend[x].o \in KeyOps /\ ~pend[x].taken /\ pend[x].k = k}}

----------------------------------------------------------------------------
\* Events

Call ==
    /\ Is("call")
    /\ Ev.t \notin DOMAIN pend
    /\ LET others == DOMAIN pend # {}
           lf == Ev.o \in {"liter", "titer", "range"}
           bulk == Ev.o \in Scans \cup Sweeps \cup Counts
           op == [o |-> Ev.o, k |-> Ev.k, i |-> Ev.i, v |-> Ev.v, p |-> Ev.p, c |-> Ev.c, r |-> Ev.r,
                  taken |-> FALSE, mid |-> FALSE, was |-> {}, solo |-> ~others, lf |-> lf, stop |-> FALSE, last |-> <<>>, todo |-> {},
                  must |-> IF bulk THEN {k \in DOMAIN m : Concerns(Ev, k)} ELSE {},
                  done |-> {}, chgd |-> IF lf THEN {g[1] : g \in Ghosts} ELSE {},
                  ever |-> IF lf THEN {<<k, m[k][1], m[k][2]>> : k \in DOMAIN m} \cup Ghosts ELSE {}]
       IN pend' = (Ev.t :> op) @@ [t \in DOMAIN pend |-> [pend[t] EXCEPT !.solo = FALSE]]
    /\ aux' = CASE Ev.o \in KeyOps -> [aux EXCEPT !.ins = @ + 1]
                [] Ev.o = "unreserve" /\ Ev.c = 1 ->
                     [aux EXCEPT !.rsv = @ - Ev.r[2], !.flo = Min(@, Hist[h].min0 + aux.rsv - Ev.r[2])]
                [] OTHER -> aux
    /\ n' = n + 1
    /\ UNCHANGED <<h, m, zom, use>>

Drop(pd, t) == [x \in DOMAIN pd \ {t} |-> pd[x]]

\* A scan visits an entry.
Vis ==
    /\ Is("vis")
    /\ LET t == Ev.t
           k == Ev.k
           op == pend[t]
           d == Ev.d
           rem == d % 2 = 1
           stp == (d \div 2) % 2 = 1
           mut == (d \div 4) % 2 = 1
           op2 == [op EXCEPT !.must = @ \ {k},
                             !.done = @ \cup (IF rem \/ k \in op.chgd THEN {} ELSE {k}),
                             !.stop = stp,
                             !.last = <<k, Ev.i, Ev.v>>,
                             !.todo = IF rem /\ LockFree THEN @ \cup {k} ELSE @]
           pd == [pend EXCEPT ![t] = op2]
       IN /\ t \in DOMAIN pend
          /\ op.o \in Scans
          /\ op.lf = (d = 16)
          /\ ~op.stop
          /\ op.todo = {}
          /\ Concerns(op, k)
          /\ Tree /\ op.last # <<>> => op.last[1] < k
          \* No second visit of an entry that has stayed, unless the table was resized.
          /\ k \in op.done => Hist[h].rz = 1
          /\ IF op.lf
             THEN /\ <<k, Ev.i, Ev.v>> \in op.ever \cup Coming(k)
                  /\ pend' = pd
                  /\ UNCHANGED <<m, zom, use>>
             ELSE \* The entry is locked: the closure sees its current state.
                  /\ Has(m, k)
                  /\ m[k] = <<Ev.i, Ev.v>>
                  /\ LET m1 == IF mut THEN With(m, k, <<Ev.i, Ev.w>>) ELSE m
                         m2 == IF rem /\ ~LockFree THEN Without(m1, k) ELSE m1
                     IN Set(m2, pd)
    /\ n' = n + 1
    /\ UNCHANGED <<h, aux>>

\* What the event to come is about.  Silent removals matter only to these keys.
Relevant ==
    IF ~More THEN {}
    ELSE {pend[t].k : t \in {x \in DOMAIN pend : pend[x].o \in KeyOps /\ ~pend[x].taken}}

\* Entries that a clear or remove_range may have removed already.
Fading == zom \cup {k \in DOMAIN m : \E t \in DOMAIN pend : pend[t].o \in Sweeps /\ Concerns(pend[t], k)}
\* Entries that a scan must not have missed.
Owed(op) == op.must \ Fading
Observed == More /\ Ev.e \in {"ret", "vis", "quiet", "cancel", "panic"}

\* What operation t hides when the contents become m2.
Hidden(m2) == IF Kind = "index" THEN {<<k, m[k][1], m[k][2]>> : k \in {x \in DOMAIN m : ~Has(m2, x) \/ m2[x] # m[x]}} ELSE {}

\* A single-key operation takes effect.
Take(t) ==
    /\ Observed
    /\ pend[t].o \in KeyOps
    /\ ~pend[t].taken
    /\ pend[t].o = "rmw2" => (pend[t].mid \/ ~Has(m, pend[t].k))
    /\ LET op == pend[t]
           blocked == op.c = 1 /\ op.r = <<2>> /\ ~op.solo
           outs == IF blocked THEN {[m |-> m, r |-> <<2>>]}
                   ELSE IF op.mid THEN {[m |-> With(m, op.k, <<m[op.k][1], op.v>>), r |-> op.r]}
                   ELSE Outcomes(Kind, m, op, op.c, op.r)
       IN /\ op.mid => Has(m, op.k)
          /\ \E o \in outs :
            /\ op.c = 1 => o.r = op.r
            /\ Kind = "cache" => Evicts(op.k, o.m)
            /\ SetU(o.m, [pend EXCEPT ![t].taken = TRUE, ![t].was = @ \cup Hidden(o.m)],
                    IF Hist[h].lru = 1 /\ op.o \in Fetches /\ Has(o.m, op.k) THEN Touch(Order(o.m), op.k) ELSE Order(o.m))
    /\ UNCHANGED <<h, n, aux>>

\* rmw2 updates an entry twice; lock-free readers may notice.
Mid(t) ==
    /\ Observed
    /\ pend[t].o = "rmw2" /\ ~pend[t].mid /\ Has(m, pend[t].k)
    /\ LET op == pend[t]
           m2 == With(m, op.k, <<m[op.k][1], op.v + 1>>)
       IN /\ op.c = 1 => op.r = <<1, m[op.k][1], m[op.k][2]>>
          /\ Set(m2, [pend EXCEPT ![t].mid = TRUE, ![t].was = @ \cup Hidden(m2)])
    /\ UNCHANGED <<h, n, aux>>

\* clear, or remove_range, removes an entry.
Sweep(t) ==
    /\ Observed
    /\ pend[t].o \in Sweeps
    /\ \E k \in Relevant \cap DOMAIN m :
         /\ Concerns(pend[t], k)
         /\ Set(Without(m, k), [pend EXCEPT ![t].was = @ \cup Hidden(Without(m, k))])
    /\ UNCHANGED <<h, n, aux>>

\* An abandoned clear, or remove_range, had removed an entry.
Zombie ==
    /\ Observed
    /\ \E k \in Relevant \cap zom : Set(Without(m, k), pend)
    /\ UNCHANGED <<h, n, aux>>

\* TreeIndex::clear is a single step.
Clear(t) ==
    /\ Observed
    /\ Tree /\ pend[t].o = "clear" /\ ~pend[t].taken
    /\ Set(<<>>, [pend EXCEPT ![t].taken = TRUE])
    /\ UNCHANGED <<h, n, aux>>

\* A scan of a HashIndex makes its removals visible to lock-free readers after the closure returned.
Todo(t) ==
    /\ Observed
    /\ pend[t].todo # {}
    /\ LET k == CHOOSE x \in pend[t].todo : TRUE
       IN Set(Without(m, k), [pend EXCEPT ![t].todo = @ \ {k}, ![t].was = @ \cup Hidden(Without(m, k))])
    /\ UNCHANGED <<h, n, aux>>

\* The contents, listed as <<k1, i1, v1, k2, ...>>.
Cells(r) == [x \in 1..Len(r) \div 3 |-> <<r[3 * x - 2], r[3 * x - 1], r[3 * x]>>]
Pairs(r) == [x \in 1..Len(r) \div 2 |-> <<r[2 * x - 1], 0, r[2 * x]>>]
Increasing(c) == \A x \in 1..Len(c) - 1 : c[x][1] < c[x + 1][1]
Lists(c, mm) == Increasing(c) /\ Len(c) = Cardinality(DOMAIN mm) /\ Contents(c) = mm
\* Some of the contents, where a HashCache may have evicted the rest.
Part(c, mm, dup) ==
               /\ Increasing(c)
               /\ \A x \in 1..Len(c) :
                     /\ Has(mm, c[x][1])
                     /\ LET y == mm[c[x][1]]
                        IN <<c[x][2], c[x][3]>> \in {y} \cup (IF dup THEN {<<y[1] + 1, y[2] + 2>>} ELSE {})
               /\ Cardinality(DOMAIN mm) <= 32 => Len(c) = Cardinality(DOMAIN mm)

\* Operations on the whole container while nothing else is running.
WholeOk(op, r) ==
    LET none == m = <<>>
        \* A second value for each key: the last one wins in a HashMap, the first one elsewhere.
        last == [k \in DOMAIN m |-> IF Kind = "map" /\ op.p % 2 = 1 THEN <<m[k][1], m[k][2] + 2>> ELSE m[k]]
    IN CASE op.o = "clone" -> Lists(Cells(r), m)
         [] op.o \in {"fromiter", "serde"} ->
              IF Kind = "cache" THEN Part(Cells(r), m, op.p % 2 = 1) ELSE Lists(Cells(r), last)
         [] op.o = "fmt" -> Lists(Pairs(r), [k \in DOMAIN m |-> <<0, m[k][2]>>])
         [] op.o = "eq" ->
              r[1] = CASE op.p \in {0, 4} -> 1
                       [] op.p = 2 -> 0
                       [] op.p \in {3, 7} /\ Kind = "set" -> 1
                       [] OTHER -> B(none)
         [] op.o = "live" ->
              IF LockFree
              THEN /\ r[1] >= Cardinality(DOMAIN m) /\ r[2] >= Cardinality(DOMAIN m)
                   /\ op.p > 0 => r[1] <= Cardinality(DOMAIN m) + op.p /\ r[2] <= Cardinality(DOMAIN m) + op.p
              ELSE r[1] = Cardinality(DOMAIN m) /\ r[2] = IF Kind = "set" THEN 0 ELSE Cardinality(DOMAIN m)
         [] op.o = "bidx" -> r[1] >= 0 /\ (r[1] = 0 \/ r[1] * 32 < r[2])

\* <<capacity, lower bound, upper bound>> of a hash table; `exact` if nothing else is running.
CapOk(r, exact, mm) ==
    LET low == Hist[h].min0 + aux.rsv
    IN /\ Hist[h].min0 >= Hist[h].cap
       /\ r[2] >= Hist[h].min0
       /\ exact => r[2] = low
       /\ r[1] <= r[3]
       /\ r[1] = 0 => Hist[h].min0 = 0 /\ Min(aux.flo, low) = 0
       /\ r[1] # 0 => r[1] >= Max(64, Max(Hist[h].min0, Min(aux.flo, low)))
       /\ Kind = "cache" => /\ r[3] >= Max(64, Max(Hist[h].max, Hist[h].min0))
                            /\ r[3] < 2 * Max(64, Max(Hist[h].max, Hist[h].min0))
       /\ exact /\ r[1] = 0 => mm = <<>>

\* What the capacity must not fall short of from now on.
Floor(r) == LET low == Hist[h].min0 + aux.rsv IN IF r[1] >= low THEN low ELSE Min(aux.flo, low)

RECURSIVE Pow(_, _)
Pow(b, e) == IF e <= 0 THEN 1 ELSE b * Pow(b, e - 1)

\* The tree is empty if its depth is 0, and shallow otherwise.
DepthOk(d, mm) ==
    /\ d = 0 => mm = <<>>
    /\ d > 2 => Pow(4, d - 2) <= aux.ins

\* The operation returns.
Ret ==
    /\ Is("ret")
    /\ LET t == Ev.t
           op == pend[t]
           r == Ev.r
           pd == Drop(pend, t)
           keep == pend' = pd /\ UNCHANGED <<m, zom, use>>
       IN /\ t \in DOMAIN pend
          /\ CASE op.o \in KeyOps -> op.taken /\ keep
               [] op.o = "clear" /\ Tree -> op.taken /\ keep
               [] op.o \in Sweeps ->
                    \* What has been there since the call must be gone.
                    LET new == {k \in DOMAIN m : Concerns(op, k)} \ op.must
                    IN \E x \in SUBSET new :
                          Set([k \in DOMAIN m \ (op.must \cup x) |-> m[k]], pd)
               [] op.o \in {"liter", "titer", "range"} ->
                    /\ r[2] = 0
                    /\ r[1] = 1 => Owed(op) = {}
                    /\ keep
               [] op.o \in {"iter", "iter_mut", "walk"} ->
                    /\ op.todo = {}
                    /\ r = <<B(~op.stop)>>
                    /\ ~op.stop => Owed(op) = {}
                    /\ keep
               [] op.o = "retain" -> op.todo = {} /\ Owed(op) = {} /\ keep
               [] op.o = "any" ->
                    /\ op.todo = {}
                    /\ r = IF op.stop THEN <<1>> \o op.last ELSE <<0>>
                    /\ ~op.stop => Owed(op) = {}
                    /\ keep
               [] op.o = "len" ->
                    /\ r[1] >= Cardinality(Owed(op))
                    /\ op.solo => r[1] \in Cardinality(DOMAIN m \ Fading)..Cardinality(DOMAIN m)
                    /\ keep
               [] op.o = "is_empty" ->
                    /\ r[1] = 1 => Owed(op) = {}
                    /\ op.solo => r[1] \in {B(m = <<>>), B(DOMAIN m \subseteq Fading)}
                    /\ keep
               [] op.o \in Whole -> (op.solo /\ zom = {} => WholeOk(op, r)) /\ keep
               [] op.o = "reserve" -> r[1] \in {0, op.p} /\ keep
               [] op.o = "cap" -> CapOk(r, op.solo /\ zom = {}, m) /\ keep
               [] op.o = "depth" -> (op.solo /\ zom = {} => DepthOk(r[1], m)) /\ keep
               [] op.o \in Neutral -> keep
          /\ aux' = CASE op.o = "reserve" -> [aux EXCEPT !.rsv = @ + r[1]]
                      [] op.o = "cap" /\ op.solo -> [aux EXCEPT !.flo = Floor(r)]
                      [] OTHER -> aux
    /\ n' = n + 1
    /\ UNCHANGED h

\* The operation is abandoned: by dropping its future, or by a panic in user code.
Abandon ==
    /\ Is("cancel") \/ (Is("panic") /\ Ev.inj = 1)
    /\ LET t == Ev.t
           op == pend[t]
           pd == Drop(pend, t)
       IN /\ t \in DOMAIN pend
          /\ op.todo = {}
          /\ IF op.o \in Sweeps
             THEN /\ zom' = zom \cup {k \in DOMAIN m : Concerns(op, k)}
                  /\ pend' = pd
                  /\ UNCHANGED <<m, use>>
             ELSE pend' = pd /\ UNCHANGED <<m, zom, use>>
    /\ n' = n + 1
    /\ UNCHANGED <<h, aux>>

\* Nothing is running: the contents are exactly as specified, and so are the objects left alive.
Quiet ==
    /\ Is("quiet")
    /\ DOMAIN pend = {}
    \* What an abandoned clear or remove_range may have removed can be missing.
    /\ m' = [k \in DOMAIN m \ (zom \ {Ev.c[x][1] : x \in 1..Len(Ev.c)}) |-> m[k]]
    /\ Len(Ev.c) = Cardinality(DOMAIN m')
    /\ Contents(Ev.c) = m'
    /\ Increasing(Ev.c)
    /\ Ev.len = Len(Ev.c)
    /\ Ev.emp = B(Len(Ev.c) = 0)
    /\ Ev.bad = 0
    /\ IF Tree THEN DepthOk(Ev.cap[1], m') ELSE CapOk(Ev.cap, TRUE, m')
    /\ IF LockFree
       THEN Ev.lk >= Len(Ev.c) /\ Ev.lv >= Len(Ev.c)
       ELSE Ev.lk = Len(Ev.c) /\ Ev.lv = IF Kind = "set" THEN 0 ELSE Len(Ev.c)
    /\ n' = n + 1
    /\ zom' = {}
    /\ use' = Order(m')
    /\ UNCHANGED <<h, pend, aux>>

\* The container is gone, and so are all objects.
Gone ==
    /\ Is("gone")
    /\ Ev.lk = 0 /\ Ev.lv = 0 /\ Ev.bad = 0
    /\ n' = n + 1
    /\ UNCHANGED <<h, m, pend, zom, use, aux>>

Obs ==
    /\ Is("obs")
    /\ Ev.o # "dangle"   \* a dropped future accesses freed memory
    /\ n' = n + 1
    /\ UNCHANGED <<h, m, pend, zom, use, aux>>

Next == \/ Call \/ Vis \/ Ret \/ Abandon \/ Quiet \/ Gone \/ Obs
        \/ \E t \in DOMAIN pend : Take(t) \/ Mid(t) \/ Sweep(t) \/ Clear(t) \/ Todo(t)
        \/ Zombie

Spec == Init /\ [][Next]_vars

\* Remembers how far each history got.
Mark == IF n > TLCGet(h) THEN TLCSet(h, n) ELSE TRUE

TypeOK == n \in 0..Len(Hist[h].ev)

Rejected == {x \in 1..Len(Hist) : TLCGet(x) < Len(Hist[x].ev)}
Accepted ==
    /\ PrintT(<<"HISTORIES", Len(Hist)>>)
    /\ \A x \in Rejected : PrintT(<<"REJECTED", x, TLCGet(x)>>)
    /\ Rejected = {}
=============================================================================
