------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* How a hash table of scc is resized while it is used.                    *)
(*                                                                         *)
(* A table is a chain of at most two arrays of buckets: `cur` and the one  *)
(* it is linked to, whose entries are still to be moved.  An operation     *)
(* moves a chunk of old buckets, then those its own key may be in, and     *)
(* then locks the bucket in the current array.  A bucket that has been     *)
(* emptied for good is `dead'; who wants to lock it starts over.           *)
(*                                                                         *)
(* Threads in Try give up when they cannot lock an old bucket (try_entry,  *)
(* lock-free lookups); those in Async lose their guard when they wait, so  *)
(* that arrays they refer to may be freed and allocated anew (`Ids` are    *)
(* addresses), and may be cancelled while they wait.                       *)
(*                                                                         *)
(* S is the abstract set of keys.  The assertions say that an operation    *)
(* that takes effect under the lock of a bucket finds its key there if and *)
(* only if it is in S (which makes them linearizable), that a lookup       *)
(* without locks finds a key that has always been there, and no other, and *)
(* that keys that stay are visited by a scan and counted by len().         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys,       \* number of keys, a power of 2; also the largest array
          Locking, Peeking, Try, Async, Counting, Scanning,  \* threads
          MaxOps,     \* operations of each thread; one of those that only look
          Chunk,      \* buckets moved at a time
          Ids, Sizes, \* addresses of arrays, numbers of buckets
          Starts      \* contents at the beginning

AllStarts == SUBSET (0..Keys - 1)
Threads == Locking \cup Peeking \cup Try \cup Async \cup Counting \cup Scanning
Max(x, y) == IF x > y THEN x ELSE y
Min1 == CHOOSE n \in Sizes : \A m \in Sizes : n <= m
Min(x, y) == IF x < y THEN x ELSE y
\* The bucket of key k in an array of n buckets, and the buckets of an array of m that share keys with it.
Idx(k, n) == (k * n) \div Keys
Lo(n, m, i) == (i * m) \div n
Hi(n, m, i) == IF n < m THEN Lo(n, m, i) + m \div n - 1 ELSE Lo(n, m, i)

\* The bucket an operation concerns: that of its key, or the next one of a scan.
Bkt(what, k, x, n) == IF what = "scan" THEN x ELSE Idx(k, n)

NoArray == [n |-> 0, link |-> 0, next |-> 0, refs |-> 0, lock |-> <<>>, dead |-> <<>>, has |-> <<>>, wait |-> {}]
New(size, link) == [n |-> size, link |-> link, next |-> 0, refs |-> 0,
                    lock |-> [i \in 0..size - 1 |-> 0], dead |-> [i \in 0..size - 1 |-> FALSE],
                    has |-> [i \in 0..size - 1 |-> {}], wait |-> {}]

\* The table when nothing is running: it may be anywhere in the middle of being resized.
Single(s, n) == [New(n, 0) EXCEPT !.has = [i \in 0..n - 1 |-> {k \in s : Idx(k, n) = i}]]
Pairs(s, n, m) ==
  {[x \in Ids |-> IF x = 1 THEN [New(n, 2) EXCEPT !.has = [i \in 0..n - 1 |-> {k \in s : Idx(k, n) = i /\ Idx(k, m) \in d}]]
                  ELSE IF x = 2 THEN [New(m, 0) EXCEPT !.has = [i \in 0..m - 1 |-> {k \in s : Idx(k, m) = i /\ i \notin d}],
                                                      !.dead = [i \in 0..m - 1 |-> i \in d], !.next = c * Chunk]
                  ELSE NoArray] :
   <<c, d>> \in {<<c, d>> \in (0..m \div Chunk) \X SUBSET (0..m - 1) : c * Chunk < m /\ 0..(c * Chunk - 1) \subseteq d}}
Tables(s, c) ==
  IF c = 0 THEN {[x \in Ids |-> NoArray]}
  ELSE {[x \in Ids |-> IF x = 1 THEN Single(s, n) ELSE NoArray] : n \in Sizes}
       \cup UNION {Pairs(s, p[1], p[2]) : p \in {q \in Sizes \X Sizes : q[1] # q[2]}}

(* --algorithm table
variables
  S \in Starts,
  cur \in IF S = {} THEN {0, 1} ELSE {1},
  \* wait: the threads whose guards keep a retired array
  arr \in Tables(S, cur),
  gone = {},         \* retired arrays
  resizing = FALSE,
  guard = [t \in Threads |-> FALSE],
  queue = [t \in Threads |-> <<0, 0>>],   \* the bucket a task is waiting for
  told = [t \in Threads |-> ""],          \* and what it finds when it is woken
  want = [t \in Threads |-> -1],
  kept = [t \in Threads |-> {}],  \* the keys in S since the operation started
  saw = [t \in Threads |-> {}];   \* whether the key of a lookup has been in S since it started

define
  \* The buckets that hold an entry: two only while it is being copied, under the locks of both.
  Reach == IF cur = 0 THEN {} ELSE {cur} \cup (IF arr[cur].link = 0 THEN {} ELSE {arr[cur].link})
  Places(k) == {<<x, i>> \in UNION {{x} \X (0..arr[x].n - 1) : x \in Reach} : k \in arr[x].has[i]}
  Heirs(y, i) == {t \in Threads : queue[t] = <<y, i>>}
  Heir(y, i) == IF Heirs(y, i) = {} THEN 0 ELSE CHOOSE t \in Heirs(y, i) : \A u \in Heirs(y, i) : t <= u
  Mine(y, t) == {i \in 0..arr[y].n - 1 : arr[y].lock[i] = t}
  NoneLost == \A k \in 0..Keys - 1 : (k \in S) <=> (Places(k) # {})
  Once == \A k \in S : Cardinality(Places(k)) > 1 =>
             \A p \in Places(k) : arr[p[1]].lock[p[2]] # 0 /\ (p[1] = cur => p[2] = Idx(k, arr[cur].n))
  Shape == /\ \A x \in Reach : arr[x].n > 0 /\ x \notin gone
           /\ \A x \in Reach : \A i \in 0..arr[x].n - 1 : arr[x].dead[i] => arr[x].has[i] = {}
           /\ cur # 0 => \A i \in 0..arr[cur].n - 1 : ~arr[cur].dead[i]
           /\ \A x \in Ids : arr[x].refs >= 0
end define;

macro Guard() begin guard[self] := TRUE; end macro;
\* The guard is released: it keeps no retired array from being freed.
macro Unguard() begin
  guard[self] := FALSE;
  arr := [x \in Ids |-> IF x \in gone /\ arr[x].wait \subseteq {self} THEN NoArray ELSE [arr[x] EXCEPT !.wait = @ \ {self}]];
  gone := {x \in gone : ~(arr[x].wait \subseteq {self})};
end macro;

\* The locks are released, or handed over.
macro Release(y, I) begin
  arr[y].lock := [i \in 0..arr[y].n - 1 |-> IF i \in I THEN Heir(y, i) ELSE arr[y].lock[i]];
  told := [t \in Threads |-> IF queue[t][1] = y /\ queue[t][2] \in I /\ Heir(y, queue[t][2]) = t THEN "got" ELSE told[t]];
  queue := [t \in Threads |-> IF queue[t][1] = y /\ queue[t][2] \in I /\ Heir(y, queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]];
end macro;
\* The bucket will not be used any more.
macro Kill(y, k) begin
  arr[y].lock[k] := 0 || arr[y].dead[k] := TRUE;
  told := [t \in Threads |-> IF queue[t] = <<y, k>> THEN "dead" ELSE told[t]];
  queue := [t \in Threads |-> IF queue[t] = <<y, k>> THEN <<0, 0>> ELSE queue[t]];
end macro;
macro Wait(y, k) begin queue[self] := <<y, k>>; end macro;

process thread \in Threads
variables op = "", key = 0, a = 0, o = 0, base = 0, b = 0, hi = 0, j = 0, phase = "", ops = 0, e = 0, done = FALSE,
          pos = 0, plen = 0, seen = {}, sum = 0;
begin
Start:
  while ops < IF self \in Peeking \cup Counting \cup Scanning THEN 1 ELSE MaxOps do
    with kind \in IF self \in Peeking THEN {"peek"} ELSE IF self \in Counting THEN {"count"}
                   ELSE IF self \in Scanning THEN {"scan"} ELSE {"insert", "remove", "read"}, k \in IF self \in Counting \cup Scanning THEN {0} ELSE 0..Keys - 1 do
      op := kind; key := k;
      saw[self] := {k \in S};
      kept[self] := IF self \in Counting \cup Scanning THEN S ELSE {};
      want[self] := k;
    end with;
    ops := ops + 1;
    Guard();
    if self \in Peeking then goto Peek; elsif self \in Counting then goto Count; end if;
Load:
    Guard();
    if cur # 0 then
      a := cur;
      \* A scan goes on in the middle.
      if op = "scan" then
        if plen # 0 then pos := Lo(plen, arr[cur].n, pos); end if;
        plen := arr[cur].n;
      end if;
    elsif op = "insert" then
      with id \in {y \in Ids : arr[y].n = 0} do
        arr[id] := New(Min1, 0); cur := id; a := id;
      end with;
    else
      assert op = "scan" \/ key \notin S;
      assert op = "scan" => kept[self] \subseteq seen;
      goto Done1;
    end if;
Link:
    o := arr[a].link;
    phase := "";
    if o = 0 then goto Lock; end if;
Claim:
    if arr[o].next >= arr[o].n then
      goto Dedup;
    else
      base := arr[o].next; b := base; hi := Min(base + Chunk, arr[o].n) - 1;
      arr[o].next := base + Chunk || arr[o].refs := arr[o].refs + 1;
      phase := "chunk";
    end if;
Move:
    while b <= hi do
Old:
      either
        await ~arr[o].dead[b] /\ arr[o].lock[b] = 0;
        arr[o].lock[b] := self;
        j := Lo(arr[o].n, arr[a].n, b);
        goto Targets;
      or
        await arr[o].dead[b];
        b := b + 1;
        goto Move;
      or
        await ~arr[o].dead[b] /\ arr[o].lock[b] # 0 /\ self \in Async;
        Wait(o, b);
      or
        await ~arr[o].dead[b] /\ arr[o].lock[b] # 0 /\ self \in Try;
        goto Abort;
      end either;
OldWait:
      Unguard();
OldWoken:
      either
        await told[self] = "got";
        told[self] := "";
        j := Lo(arr[o].n, arr[a].n, b);
      or
        await told[self] = "dead";
        told[self] := "";
        if phase = "dedup" then goto Load; else b := b + 1; goto Move; end if;
      or
        \* Cancelled.
        if told[self] = "got" then Release(o, {b}); else told[self] := "" || queue[self] := <<0, 0>>; end if;
        goto Abort;
      end either;
Targets:
      while arr[o].has[b] # {} /\ j <= Hi(arr[o].n, arr[a].n, b) do
        either
          await arr[a].lock[j] = 0;
          assert ~arr[a].dead[j];
          arr[a].lock[j] := self;
          j := j + 1;
          goto Targets;
        or
          await arr[a].lock[j] # 0 /\ self \in Async;
          Wait(a, j);
        or
          await arr[a].lock[j] # 0 /\ self \in Try;
          Release(a, Mine(a, self));
          goto LetOld;
        end either;
TargetWait:
        \* The code would not release the targets it has locked so far if it were cancelled here.
        assert Lo(arr[o].n, arr[a].n, b) = Hi(arr[o].n, arr[a].n, b);
        Unguard();
TargetWoken:
        either
          await told[self] # "";
          assert told[self] = "got";
          told[self] := "";
          j := j + 1;
        or
          \* Cancelled.
          if told[self] = "" then queue[self] := <<0, 0>>; end if;
          goto LetTargets;
        end either;
      end while;
Copy:
      while arr[o].has[b] # {} do
        e := CHOOSE y \in arr[o].has[b] : TRUE;
        arr[a].has[Idx(e, arr[a].n)] := arr[a].has[Idx(e, arr[a].n)] \cup {e};
Erase:
        arr[o].has[b] := arr[o].has[b] \ {e};
      end while;
      Release(a, Mine(a, self));
      Guard();
Killed:
      Kill(o, b);
      b := b + 1;
    end while;
    if phase = "dedup" then goto Lock; end if;
EndChunk:
    if arr[o].refs = 1 /\ arr[o].next >= arr[o].n then
      arr := [arr EXCEPT ![o].refs = 0];
      goto Unlink;
    else
      arr[o].refs := arr[o].refs - 1;
      goto Dedup;
    end if;
Unlink:
    if arr[a].link # 0 then
      assert arr[a].link = o;
      arr[a].link := 0 || arr[o].wait := {t \in Threads : guard[t]};
      gone := gone \cup {o};
      Guard();
    end if;
Dedup:
    if self \in Async then
      Guard();
      if cur # a then goto Load; else o := arr[a].link; if arr[a].link = 0 then goto Lock; end if; end if;
    end if;
Range:
    phase := "dedup";
    b := Lo(arr[a].n, arr[o].n, Bkt(op, key, pos, arr[a].n));
    hi := Hi(arr[a].n, arr[o].n, Bkt(op, key, pos, arr[a].n));
    goto Move;
LetTargets:
    Release(a, Mine(a, self));
LetOld:
    Release(o, {b});
Abort:
    told[self] := "";
    \* Not all of the chunk has been moved: someone else has to.
    if phase = "chunk" then
      arr[o].refs := arr[o].refs - 1 || arr[o].next := Min(arr[o].next, base);
      if self \in Try then goto Dedup; end if;
    end if;
Given:
    \* A cancelled operation has no effect, try_entry returns None.
    told[self] := "";
    goto Done1;
Lock:
    either
      await ~arr[a].dead[Bkt(op, key, pos, arr[a].n)] /\ arr[a].lock[Bkt(op, key, pos, arr[a].n)] = 0;
      arr[a].lock[Bkt(op, key, pos, arr[a].n)] := self;
      goto Apply;
    or
      await arr[a].dead[Bkt(op, key, pos, arr[a].n)];
      goto Load;
    or
      await ~arr[a].dead[Bkt(op, key, pos, arr[a].n)] /\ arr[a].lock[Bkt(op, key, pos, arr[a].n)] # 0 /\ self \in Async;
      Wait(a, Bkt(op, key, pos, arr[a].n));
    or
      await ~arr[a].dead[Bkt(op, key, pos, arr[a].n)] /\ arr[a].lock[Bkt(op, key, pos, arr[a].n)] # 0 /\ self \in Try;
      goto Done1;
    end either;
LockWait:
    Unguard();
LockWoken:
    either
      await told[self] = "got";
      told[self] := "";
    or
      await told[self] = "dead";
      told[self] := "";
      goto Load;
    or
      if told[self] = "got" then Release(a, {Bkt(op, key, pos, arr[a].n)}); else queue[self] := <<0, 0>>; end if;
      goto Given;
    end either;
Apply:
    if op = "scan" /\ self \in Async then
      if cur # a then Release(a, {pos}); goto Load; else Guard(); goto Take; end if;
    end if;
Take:
    with i = Bkt(op, key, pos, arr[a].n) do
      if op = "scan" then
        assert arr[a].has[i] = {k \in S : Idx(k, arr[a].n) = i};
        seen := seen \cup arr[a].has[i];
      else
        assert (key \in arr[a].has[i]) <=> (key \in S);
      end if;
      if op = "insert" then
        arr[a].has[i] := arr[a].has[i] \cup {key}; S := S \cup {key};
        saw := [t \in Threads |-> IF want[t] = key THEN saw[t] \cup {TRUE} ELSE saw[t]];
      elsif op = "remove" then
        arr[a].has[i] := arr[a].has[i] \ {key}; S := S \ {key};
        kept := [t \in Threads |-> kept[t] \ {key}];
        saw := [t \in Threads |-> IF want[t] = key THEN saw[t] \cup {FALSE} ELSE saw[t]];
      end if;
    end with;
Unlock:
    Release(a, {Bkt(op, key, pos, arr[a].n)});
    if op = "scan" then
      pos := pos + 1;
      if pos < arr[a].n then
        Guard();
        goto Link;
      else
        assert kept[self] \subseteq seen;
        goto Done1;
      end if;
    else
      either goto Done1; or Guard(); end either;
    end if;
Resize:
    if cur # a \/ arr[a].link # 0 \/ resizing then goto Done1; else resizing := TRUE; end if;
Again:
    if cur # a then resizing := FALSE; goto Done1; end if;
Decide:
    either
      with id \in {y \in Ids : arr[y].n = 0}, n \in Sizes \ {arr[a].n} do
        arr[id] := New(n, a); cur := id;
      end with;
      goto Finish;
    or
      j := 0;
    end either;
Drop:
    while j < arr[a].n do
      if arr[a].lock[j] = 0 /\ ~arr[a].dead[j] /\ arr[a].has[j] = {} then
        arr[a].lock[j] := self; j := j + 1;
      else
        goto Undo;
      end if;
    end while;
    cur := 0;
    done := TRUE;
Undo:
    while j > 0 do
      j := j - 1;
      if done then Kill(a, j); else Release(a, {j}); end if;
    end while;
    if done then
      arr[a].wait := {t \in Threads : guard[t]};
      gone := gone \cup {a};
      done := FALSE;
    end if;
Finish:
    resizing := FALSE;
    goto Done1;

Peek:
    a := cur;
    if cur = 0 then assert FALSE \in saw[self]; goto Done1; end if;
PLink:
    o := arr[a].link;
    if o = 0 then goto PNew; end if;
POld:
    if key \in arr[o].has[Idx(key, arr[o].n)] then assert TRUE \in saw[self]; goto Done1; end if;
PNew:
    if key \in arr[a].has[Idx(key, arr[a].n)] then assert TRUE \in saw[self]; goto Done1; end if;
PAgain:
    if cur # a then goto Peek; else assert FALSE \in saw[self]; goto Done1; end if;

Count:
    a := cur;
    if cur = 0 then assert kept[self] = {}; goto Done1; end if;
CountLink:
    o := arr[a].link;
    j := 0;
    sum := 0;
    if o = 0 then goto CountNew; end if;
CountOld:
    while j < arr[o].n do
      sum := sum + Cardinality(arr[o].has[j]);
      j := j + 1;
    end while;
    j := 0;
CountNew:
    while j < arr[a].n do
      sum := sum + Cardinality(arr[a].has[j]);
      j := j + 1;
    end while;
CountAgain:
    if cur # a then goto Count;
    else
      assert sum >= Cardinality(kept[self]);
      \* Nothing else has been there: no more than all keys, once for each array.
      assert sum <= 2 * Keys;
      if sum = 0 then goto Resize; end if;
    end if;
Done1:
    Unguard();
    a := 0 || o := 0 || base := 0 || b := 0 || hi := 0 || j := 0 || phase := "" || e := 0 || op := "" || key := 0 || pos := 0 || plen := 0 || seen := {} || sum := 0;
    saw[self] := {};
    want[self] := -1;
    kept[self] := {};
  end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "dcc48eb" /\ chksum(tla) = "9fdaf88c")
VARIABLES pc, S, cur, arr, gone, resizing, guard, queue, told, want, kept, 
          saw

(* define statement *)
Reach == IF cur = 0 THEN {} ELSE {cur} \cup (IF arr[cur].link = 0 THEN {} ELSE {arr[cur].link})
Places(k) == {<<x, i>> \in UNION {{x} \X (0..arr[x].n - 1) : x \in Reach} : k \in arr[x].has[i]}
Heirs(y, i) == {t \in Threads : queue[t] = <<y, i>>}
Heir(y, i) == IF Heirs(y, i) = {} THEN 0 ELSE CHOOSE t \in Heirs(y, i) : \A u \in Heirs(y, i) : t <= u
Mine(y, t) == {i \in 0..arr[y].n - 1 : arr[y].lock[i] = t}
NoneLost == \A k \in 0..Keys - 1 : (k \in S) <=> (Places(k) # {})
Once == \A k \in S : Cardinality(Places(k)) > 1 =>
           \A p \in Places(k) : arr[p[1]].lock[p[2]] # 0 /\ (p[1] = cur => p[2] = Idx(k, arr[cur].n))
Shape == /\ \A x \in Reach : arr[x].n > 0 /\ x \notin gone
         /\ \A x \in Reach : \A i \in 0..arr[x].n - 1 : arr[x].dead[i] => arr[x].has[i] = {}
         /\ cur # 0 => \A i \in 0..arr[cur].n - 1 : ~arr[cur].dead[i]
         /\ \A x \in Ids : arr[x].refs >= 0

VARIABLES op, key, a, o, base, b, hi, j, phase, ops, e, done, pos, plen, seen, 
          sum

vars == << pc, S, cur, arr, gone, resizing, guard, queue, told, want, kept, 
           saw, op, key, a, o, base, b, hi, j, phase, ops, e, done, pos, plen, 
           seen, sum >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ S \in Starts
        /\ cur \in (IF S = {} THEN {0, 1} ELSE {1})
        /\ arr \in Tables(S, cur)
        /\ gone = {}
        /\ resizing = FALSE
        /\ guard = [t \in Threads |-> FALSE]
        /\ queue = [t \in Threads |-> <<0, 0>>]
        /\ told = [t \in Threads |-> ""]
        /\ want = [t \in Threads |-> -1]
        /\ kept = [t \in Threads |-> {}]
        /\ saw = [t \in Threads |-> {}]
        (* Process thread *)
        /\ op = [self \in Threads |-> ""]
        /\ key = [self \in Threads |-> 0]
        /\ a = [self \in Threads |-> 0]
        /\ o = [self \in Threads |-> 0]
        /\ base = [self \in Threads |-> 0]
        /\ b = [self \in Threads |-> 0]
        /\ hi = [self \in Threads |-> 0]
        /\ j = [self \in Threads |-> 0]
        /\ phase = [self \in Threads |-> ""]
        /\ ops = [self \in Threads |-> 0]
        /\ e = [self \in Threads |-> 0]
        /\ done = [self \in Threads |-> FALSE]
        /\ pos = [self \in Threads |-> 0]
        /\ plen = [self \in Threads |-> 0]
        /\ seen = [self \in Threads |-> {}]
        /\ sum = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "Start"]

Start(self) == /\ pc[self] = "Start"
               /\ IF ops[self] < IF self \in Peeking \cup Counting \cup Scanning THEN 1 ELSE MaxOps
                     THEN /\ \E kind \in IF self \in Peeking THEN {"peek"} ELSE IF self \in Counting THEN {"count"}
                                          ELSE IF self \in Scanning THEN {"scan"} ELSE {"insert", "remove", "read"}:
                               \E k \in IF self \in Counting \cup Scanning THEN {0} ELSE 0..Keys - 1:
                                 /\ op' = [op EXCEPT ![self] = kind]
                                 /\ key' = [key EXCEPT ![self] = k]
                                 /\ saw' = [saw EXCEPT ![self] = {k \in S}]
                                 /\ kept' = [kept EXCEPT ![self] = IF self \in Counting \cup Scanning THEN S ELSE {}]
                                 /\ want' = [want EXCEPT ![self] = k]
                          /\ ops' = [ops EXCEPT ![self] = ops[self] + 1]
                          /\ guard' = [guard EXCEPT ![self] = TRUE]
                          /\ IF self \in Peeking
                                THEN /\ pc' = [pc EXCEPT ![self] = "Peek"]
                                ELSE /\ IF self \in Counting
                                           THEN /\ pc' = [pc EXCEPT ![self] = "Count"]
                                           ELSE /\ pc' = [pc EXCEPT ![self] = "Load"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                          /\ UNCHANGED << guard, want, kept, saw, op, key, ops >>
               /\ UNCHANGED << S, cur, arr, gone, resizing, queue, told, a, o, 
                               base, b, hi, j, phase, e, done, pos, plen, seen, 
                               sum >>

Load(self) == /\ pc[self] = "Load"
              /\ guard' = [guard EXCEPT ![self] = TRUE]
              /\ IF cur # 0
                    THEN /\ a' = [a EXCEPT ![self] = cur]
                         /\ IF op[self] = "scan"
                               THEN /\ IF plen[self] # 0
                                          THEN /\ pos' = [pos EXCEPT ![self] = Lo(plen[self], arr[cur].n, pos[self])]
                                          ELSE /\ TRUE
                                               /\ pos' = pos
                                    /\ plen' = [plen EXCEPT ![self] = arr[cur].n]
                               ELSE /\ TRUE
                                    /\ UNCHANGED << pos, plen >>
                         /\ pc' = [pc EXCEPT ![self] = "Link"]
                         /\ UNCHANGED << cur, arr >>
                    ELSE /\ IF op[self] = "insert"
                               THEN /\ \E id \in {y \in Ids : arr[y].n = 0}:
                                         /\ arr' = [arr EXCEPT ![id] = New(Min1, 0)]
                                         /\ cur' = id
                                         /\ a' = [a EXCEPT ![self] = id]
                                    /\ pc' = [pc EXCEPT ![self] = "Link"]
                               ELSE /\ Assert(op[self] = "scan" \/ key[self] \notin S, 
                                              "Failure of assertion at line 144, column 7.")
                                    /\ Assert(op[self] = "scan" => kept[self] \subseteq seen[self], 
                                              "Failure of assertion at line 145, column 7.")
                                    /\ pc' = [pc EXCEPT ![self] = "Done1"]
                                    /\ UNCHANGED << cur, arr, a >>
                         /\ UNCHANGED << pos, plen >>
              /\ UNCHANGED << S, gone, resizing, queue, told, want, kept, saw, 
                              op, key, o, base, b, hi, j, phase, ops, e, done, 
                              seen, sum >>

Link(self) == /\ pc[self] = "Link"
              /\ o' = [o EXCEPT ![self] = arr[a[self]].link]
              /\ phase' = [phase EXCEPT ![self] = ""]
              /\ IF o'[self] = 0
                    THEN /\ pc' = [pc EXCEPT ![self] = "Lock"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Claim"]
              /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, told, 
                              want, kept, saw, op, key, a, base, b, hi, j, ops, 
                              e, done, pos, plen, seen, sum >>

Claim(self) == /\ pc[self] = "Claim"
               /\ IF arr[o[self]].next >= arr[o[self]].n
                     THEN /\ pc' = [pc EXCEPT ![self] = "Dedup"]
                          /\ UNCHANGED << arr, base, b, hi, phase >>
                     ELSE /\ base' = [base EXCEPT ![self] = arr[o[self]].next]
                          /\ b' = [b EXCEPT ![self] = base'[self]]
                          /\ hi' = [hi EXCEPT ![self] = Min(base'[self] + Chunk, arr[o[self]].n) - 1]
                          /\ arr' = [arr EXCEPT ![o[self]].next = base'[self] + Chunk,
                                                ![o[self]].refs = arr[o[self]].refs + 1]
                          /\ phase' = [phase EXCEPT ![self] = "chunk"]
                          /\ pc' = [pc EXCEPT ![self] = "Move"]
               /\ UNCHANGED << S, cur, gone, resizing, guard, queue, told, 
                               want, kept, saw, op, key, a, o, j, ops, e, done, 
                               pos, plen, seen, sum >>

Move(self) == /\ pc[self] = "Move"
              /\ IF b[self] <= hi[self]
                    THEN /\ pc' = [pc EXCEPT ![self] = "Old"]
                    ELSE /\ IF phase[self] = "dedup"
                               THEN /\ pc' = [pc EXCEPT ![self] = "Lock"]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "EndChunk"]
              /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, told, 
                              want, kept, saw, op, key, a, o, base, b, hi, j, 
                              phase, ops, e, done, pos, plen, seen, sum >>

Old(self) == /\ pc[self] = "Old"
             /\ \/ /\ ~arr[o[self]].dead[b[self]] /\ arr[o[self]].lock[b[self]] = 0
                   /\ arr' = [arr EXCEPT ![o[self]].lock[b[self]] = self]
                   /\ j' = [j EXCEPT ![self] = Lo(arr'[o[self]].n, arr'[a[self]].n, b[self])]
                   /\ pc' = [pc EXCEPT ![self] = "Targets"]
                   /\ UNCHANGED <<queue, b>>
                \/ /\ arr[o[self]].dead[b[self]]
                   /\ b' = [b EXCEPT ![self] = b[self] + 1]
                   /\ pc' = [pc EXCEPT ![self] = "Move"]
                   /\ UNCHANGED <<arr, queue, j>>
                \/ /\ ~arr[o[self]].dead[b[self]] /\ arr[o[self]].lock[b[self]] # 0 /\ self \in Async
                   /\ queue' = [queue EXCEPT ![self] = <<o[self], b[self]>>]
                   /\ pc' = [pc EXCEPT ![self] = "OldWait"]
                   /\ UNCHANGED <<arr, b, j>>
                \/ /\ ~arr[o[self]].dead[b[self]] /\ arr[o[self]].lock[b[self]] # 0 /\ self \in Try
                   /\ pc' = [pc EXCEPT ![self] = "Abort"]
                   /\ UNCHANGED <<arr, queue, b, j>>
             /\ UNCHANGED << S, cur, gone, resizing, guard, told, want, kept, 
                             saw, op, key, a, o, base, hi, phase, ops, e, done, 
                             pos, plen, seen, sum >>

OldWait(self) == /\ pc[self] = "OldWait"
                 /\ guard' = [guard EXCEPT ![self] = FALSE]
                 /\ arr' = [x \in Ids |-> IF x \in gone /\ arr[x].wait \subseteq {self} THEN NoArray ELSE [arr[x] EXCEPT !.wait = @ \ {self}]]
                 /\ gone' = {x \in gone : ~(arr'[x].wait \subseteq {self})}
                 /\ pc' = [pc EXCEPT ![self] = "OldWoken"]
                 /\ UNCHANGED << S, cur, resizing, queue, told, want, kept, 
                                 saw, op, key, a, o, base, b, hi, j, phase, 
                                 ops, e, done, pos, plen, seen, sum >>

OldWoken(self) == /\ pc[self] = "OldWoken"
                  /\ \/ /\ told[self] = "got"
                        /\ told' = [told EXCEPT ![self] = ""]
                        /\ j' = [j EXCEPT ![self] = Lo(arr[o[self]].n, arr[a[self]].n, b[self])]
                        /\ pc' = [pc EXCEPT ![self] = "Targets"]
                        /\ UNCHANGED <<arr, queue, b>>
                     \/ /\ told[self] = "dead"
                        /\ told' = [told EXCEPT ![self] = ""]
                        /\ IF phase[self] = "dedup"
                              THEN /\ pc' = [pc EXCEPT ![self] = "Load"]
                                   /\ b' = b
                              ELSE /\ b' = [b EXCEPT ![self] = b[self] + 1]
                                   /\ pc' = [pc EXCEPT ![self] = "Move"]
                        /\ UNCHANGED <<arr, queue, j>>
                     \/ /\ IF told[self] = "got"
                              THEN /\ arr' = [arr EXCEPT ![o[self]].lock = [i \in 0..arr[o[self]].n - 1 |-> IF i \in ({b[self]}) THEN Heir(o[self], i) ELSE arr[o[self]].lock[i]]]
                                   /\ told' = [t \in Threads |-> IF queue[t][1] = o[self] /\ queue[t][2] \in ({b[self]}) /\ Heir(o[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                                   /\ queue' = [t \in Threads |-> IF queue[t][1] = o[self] /\ queue[t][2] \in ({b[self]}) /\ Heir(o[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                              ELSE /\ /\ queue' = [queue EXCEPT ![self] = <<0, 0>>]
                                      /\ told' = [told EXCEPT ![self] = ""]
                                   /\ arr' = arr
                        /\ pc' = [pc EXCEPT ![self] = "Abort"]
                        /\ UNCHANGED <<b, j>>
                  /\ UNCHANGED << S, cur, gone, resizing, guard, want, kept, 
                                  saw, op, key, a, o, base, hi, phase, ops, e, 
                                  done, pos, plen, seen, sum >>

Targets(self) == /\ pc[self] = "Targets"
                 /\ IF arr[o[self]].has[b[self]] # {} /\ j[self] <= Hi(arr[o[self]].n, arr[a[self]].n, b[self])
                       THEN /\ \/ /\ arr[a[self]].lock[j[self]] = 0
                                  /\ Assert(~arr[a[self]].dead[j[self]], 
                                            "Failure of assertion at line 199, column 11.")
                                  /\ arr' = [arr EXCEPT ![a[self]].lock[j[self]] = self]
                                  /\ j' = [j EXCEPT ![self] = j[self] + 1]
                                  /\ pc' = [pc EXCEPT ![self] = "Targets"]
                                  /\ UNCHANGED <<queue, told>>
                               \/ /\ arr[a[self]].lock[j[self]] # 0 /\ self \in Async
                                  /\ queue' = [queue EXCEPT ![self] = <<a[self], j[self]>>]
                                  /\ pc' = [pc EXCEPT ![self] = "TargetWait"]
                                  /\ UNCHANGED <<arr, told, j>>
                               \/ /\ arr[a[self]].lock[j[self]] # 0 /\ self \in Try
                                  /\ arr' = [arr EXCEPT ![a[self]].lock = [i \in 0..arr[a[self]].n - 1 |-> IF i \in (Mine(a[self], self)) THEN Heir(a[self], i) ELSE arr[a[self]].lock[i]]]
                                  /\ told' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in (Mine(a[self], self)) /\ Heir(a[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                                  /\ queue' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in (Mine(a[self], self)) /\ Heir(a[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                                  /\ pc' = [pc EXCEPT ![self] = "LetOld"]
                                  /\ j' = j
                       ELSE /\ pc' = [pc EXCEPT ![self] = "Copy"]
                            /\ UNCHANGED << arr, queue, told, j >>
                 /\ UNCHANGED << S, cur, gone, resizing, guard, want, kept, 
                                 saw, op, key, a, o, base, b, hi, phase, ops, 
                                 e, done, pos, plen, seen, sum >>

TargetWait(self) == /\ pc[self] = "TargetWait"
                    /\ Assert(Lo(arr[o[self]].n, arr[a[self]].n, b[self]) = Hi(arr[o[self]].n, arr[a[self]].n, b[self]), 
                              "Failure of assertion at line 213, column 9.")
                    /\ guard' = [guard EXCEPT ![self] = FALSE]
                    /\ arr' = [x \in Ids |-> IF x \in gone /\ arr[x].wait \subseteq {self} THEN NoArray ELSE [arr[x] EXCEPT !.wait = @ \ {self}]]
                    /\ gone' = {x \in gone : ~(arr'[x].wait \subseteq {self})}
                    /\ pc' = [pc EXCEPT ![self] = "TargetWoken"]
                    /\ UNCHANGED << S, cur, resizing, queue, told, want, kept, 
                                    saw, op, key, a, o, base, b, hi, j, phase, 
                                    ops, e, done, pos, plen, seen, sum >>

TargetWoken(self) == /\ pc[self] = "TargetWoken"
                     /\ \/ /\ told[self] # ""
                           /\ Assert(told[self] = "got", 
                                     "Failure of assertion at line 218, column 11.")
                           /\ told' = [told EXCEPT ![self] = ""]
                           /\ j' = [j EXCEPT ![self] = j[self] + 1]
                           /\ pc' = [pc EXCEPT ![self] = "Targets"]
                           /\ queue' = queue
                        \/ /\ IF told[self] = ""
                                 THEN /\ queue' = [queue EXCEPT ![self] = <<0, 0>>]
                                 ELSE /\ TRUE
                                      /\ queue' = queue
                           /\ pc' = [pc EXCEPT ![self] = "LetTargets"]
                           /\ UNCHANGED <<told, j>>
                     /\ UNCHANGED << S, cur, arr, gone, resizing, guard, want, 
                                     kept, saw, op, key, a, o, base, b, hi, 
                                     phase, ops, e, done, pos, plen, seen, sum >>

Copy(self) == /\ pc[self] = "Copy"
              /\ IF arr[o[self]].has[b[self]] # {}
                    THEN /\ e' = [e EXCEPT ![self] = CHOOSE y \in arr[o[self]].has[b[self]] : TRUE]
                         /\ arr' = [arr EXCEPT ![a[self]].has[Idx(e'[self], arr[a[self]].n)] = arr[a[self]].has[Idx(e'[self], arr[a[self]].n)] \cup {e'[self]}]
                         /\ pc' = [pc EXCEPT ![self] = "Erase"]
                         /\ UNCHANGED << guard, queue, told >>
                    ELSE /\ arr' = [arr EXCEPT ![a[self]].lock = [i \in 0..arr[a[self]].n - 1 |-> IF i \in (Mine(a[self], self)) THEN Heir(a[self], i) ELSE arr[a[self]].lock[i]]]
                         /\ told' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in (Mine(a[self], self)) /\ Heir(a[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                         /\ queue' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in (Mine(a[self], self)) /\ Heir(a[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                         /\ guard' = [guard EXCEPT ![self] = TRUE]
                         /\ pc' = [pc EXCEPT ![self] = "Killed"]
                         /\ e' = e
              /\ UNCHANGED << S, cur, gone, resizing, want, kept, saw, op, key, 
                              a, o, base, b, hi, j, phase, ops, done, pos, 
                              plen, seen, sum >>

Erase(self) == /\ pc[self] = "Erase"
               /\ arr' = [arr EXCEPT ![o[self]].has[b[self]] = arr[o[self]].has[b[self]] \ {e[self]}]
               /\ pc' = [pc EXCEPT ![self] = "Copy"]
               /\ UNCHANGED << S, cur, gone, resizing, guard, queue, told, 
                               want, kept, saw, op, key, a, o, base, b, hi, j, 
                               phase, ops, e, done, pos, plen, seen, sum >>

Killed(self) == /\ pc[self] = "Killed"
                /\ arr' = [arr EXCEPT ![o[self]].lock[b[self]] = 0,
                                      ![o[self]].dead[b[self]] = TRUE]
                /\ told' = [t \in Threads |-> IF queue[t] = <<o[self], b[self]>> THEN "dead" ELSE told[t]]
                /\ queue' = [t \in Threads |-> IF queue[t] = <<o[self], b[self]>> THEN <<0, 0>> ELSE queue[t]]
                /\ b' = [b EXCEPT ![self] = b[self] + 1]
                /\ pc' = [pc EXCEPT ![self] = "Move"]
                /\ UNCHANGED << S, cur, gone, resizing, guard, want, kept, saw, 
                                op, key, a, o, base, hi, j, phase, ops, e, 
                                done, pos, plen, seen, sum >>

EndChunk(self) == /\ pc[self] = "EndChunk"
                  /\ IF arr[o[self]].refs = 1 /\ arr[o[self]].next >= arr[o[self]].n
                        THEN /\ arr' = [arr EXCEPT ![o[self]].refs = 0]
                             /\ pc' = [pc EXCEPT ![self] = "Unlink"]
                        ELSE /\ arr' = [arr EXCEPT ![o[self]].refs = arr[o[self]].refs - 1]
                             /\ pc' = [pc EXCEPT ![self] = "Dedup"]
                  /\ UNCHANGED << S, cur, gone, resizing, guard, queue, told, 
                                  want, kept, saw, op, key, a, o, base, b, hi, 
                                  j, phase, ops, e, done, pos, plen, seen, sum >>

Unlink(self) == /\ pc[self] = "Unlink"
                /\ IF arr[a[self]].link # 0
                      THEN /\ Assert(arr[a[self]].link = o[self], 
                                     "Failure of assertion at line 251, column 7.")
                           /\ arr' = [arr EXCEPT ![a[self]].link = 0,
                                                 ![o[self]].wait = {t \in Threads : guard[t]}]
                           /\ gone' = (gone \cup {o[self]})
                           /\ guard' = [guard EXCEPT ![self] = TRUE]
                      ELSE /\ TRUE
                           /\ UNCHANGED << arr, gone, guard >>
                /\ pc' = [pc EXCEPT ![self] = "Dedup"]
                /\ UNCHANGED << S, cur, resizing, queue, told, want, kept, saw, 
                                op, key, a, o, base, b, hi, j, phase, ops, e, 
                                done, pos, plen, seen, sum >>

Dedup(self) == /\ pc[self] = "Dedup"
               /\ IF self \in Async
                     THEN /\ guard' = [guard EXCEPT ![self] = TRUE]
                          /\ IF cur # a[self]
                                THEN /\ pc' = [pc EXCEPT ![self] = "Load"]
                                     /\ o' = o
                                ELSE /\ o' = [o EXCEPT ![self] = arr[a[self]].link]
                                     /\ IF arr[a[self]].link = 0
                                           THEN /\ pc' = [pc EXCEPT ![self] = "Lock"]
                                           ELSE /\ pc' = [pc EXCEPT ![self] = "Range"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Range"]
                          /\ UNCHANGED << guard, o >>
               /\ UNCHANGED << S, cur, arr, gone, resizing, queue, told, want, 
                               kept, saw, op, key, a, base, b, hi, j, phase, 
                               ops, e, done, pos, plen, seen, sum >>

Range(self) == /\ pc[self] = "Range"
               /\ phase' = [phase EXCEPT ![self] = "dedup"]
               /\ b' = [b EXCEPT ![self] = Lo(arr[a[self]].n, arr[o[self]].n, Bkt(op[self], key[self], pos[self], arr[a[self]].n))]
               /\ hi' = [hi EXCEPT ![self] = Hi(arr[a[self]].n, arr[o[self]].n, Bkt(op[self], key[self], pos[self], arr[a[self]].n))]
               /\ pc' = [pc EXCEPT ![self] = "Move"]
               /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, told, 
                               want, kept, saw, op, key, a, o, base, j, ops, e, 
                               done, pos, plen, seen, sum >>

LetTargets(self) == /\ pc[self] = "LetTargets"
                    /\ arr' = [arr EXCEPT ![a[self]].lock = [i \in 0..arr[a[self]].n - 1 |-> IF i \in (Mine(a[self], self)) THEN Heir(a[self], i) ELSE arr[a[self]].lock[i]]]
                    /\ told' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in (Mine(a[self], self)) /\ Heir(a[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                    /\ queue' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in (Mine(a[self], self)) /\ Heir(a[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                    /\ pc' = [pc EXCEPT ![self] = "LetOld"]
                    /\ UNCHANGED << S, cur, gone, resizing, guard, want, kept, 
                                    saw, op, key, a, o, base, b, hi, j, phase, 
                                    ops, e, done, pos, plen, seen, sum >>

LetOld(self) == /\ pc[self] = "LetOld"
                /\ arr' = [arr EXCEPT ![o[self]].lock = [i \in 0..arr[o[self]].n - 1 |-> IF i \in ({b[self]}) THEN Heir(o[self], i) ELSE arr[o[self]].lock[i]]]
                /\ told' = [t \in Threads |-> IF queue[t][1] = o[self] /\ queue[t][2] \in ({b[self]}) /\ Heir(o[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                /\ queue' = [t \in Threads |-> IF queue[t][1] = o[self] /\ queue[t][2] \in ({b[self]}) /\ Heir(o[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                /\ pc' = [pc EXCEPT ![self] = "Abort"]
                /\ UNCHANGED << S, cur, gone, resizing, guard, want, kept, saw, 
                                op, key, a, o, base, b, hi, j, phase, ops, e, 
                                done, pos, plen, seen, sum >>

Abort(self) == /\ pc[self] = "Abort"
               /\ told' = [told EXCEPT ![self] = ""]
               /\ IF phase[self] = "chunk"
                     THEN /\ arr' = [arr EXCEPT ![o[self]].refs = arr[o[self]].refs - 1,
                                                ![o[self]].next = Min(arr[o[self]].next, base[self])]
                          /\ IF self \in Try
                                THEN /\ pc' = [pc EXCEPT ![self] = "Dedup"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "Given"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Given"]
                          /\ arr' = arr
               /\ UNCHANGED << S, cur, gone, resizing, guard, queue, want, 
                               kept, saw, op, key, a, o, base, b, hi, j, phase, 
                               ops, e, done, pos, plen, seen, sum >>

Given(self) == /\ pc[self] = "Given"
               /\ told' = [told EXCEPT ![self] = ""]
               /\ pc' = [pc EXCEPT ![self] = "Done1"]
               /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, want, 
                               kept, saw, op, key, a, o, base, b, hi, j, phase, 
                               ops, e, done, pos, plen, seen, sum >>

Lock(self) == /\ pc[self] = "Lock"
              /\ \/ /\ ~arr[a[self]].dead[Bkt(op[self], key[self], pos[self], arr[a[self]].n)] /\ arr[a[self]].lock[Bkt(op[self], key[self], pos[self], arr[a[self]].n)] = 0
                    /\ arr' = [arr EXCEPT ![a[self]].lock[Bkt(op[self], key[self], pos[self], arr[a[self]].n)] = self]
                    /\ pc' = [pc EXCEPT ![self] = "Apply"]
                    /\ queue' = queue
                 \/ /\ arr[a[self]].dead[Bkt(op[self], key[self], pos[self], arr[a[self]].n)]
                    /\ pc' = [pc EXCEPT ![self] = "Load"]
                    /\ UNCHANGED <<arr, queue>>
                 \/ /\ ~arr[a[self]].dead[Bkt(op[self], key[self], pos[self], arr[a[self]].n)] /\ arr[a[self]].lock[Bkt(op[self], key[self], pos[self], arr[a[self]].n)] # 0 /\ self \in Async
                    /\ queue' = [queue EXCEPT ![self] = <<a[self], (Bkt(op[self], key[self], pos[self], arr[a[self]].n))>>]
                    /\ pc' = [pc EXCEPT ![self] = "LockWait"]
                    /\ arr' = arr
                 \/ /\ ~arr[a[self]].dead[Bkt(op[self], key[self], pos[self], arr[a[self]].n)] /\ arr[a[self]].lock[Bkt(op[self], key[self], pos[self], arr[a[self]].n)] # 0 /\ self \in Try
                    /\ pc' = [pc EXCEPT ![self] = "Done1"]
                    /\ UNCHANGED <<arr, queue>>
              /\ UNCHANGED << S, cur, gone, resizing, guard, told, want, kept, 
                              saw, op, key, a, o, base, b, hi, j, phase, ops, 
                              e, done, pos, plen, seen, sum >>

LockWait(self) == /\ pc[self] = "LockWait"
                  /\ guard' = [guard EXCEPT ![self] = FALSE]
                  /\ arr' = [x \in Ids |-> IF x \in gone /\ arr[x].wait \subseteq {self} THEN NoArray ELSE [arr[x] EXCEPT !.wait = @ \ {self}]]
                  /\ gone' = {x \in gone : ~(arr'[x].wait \subseteq {self})}
                  /\ pc' = [pc EXCEPT ![self] = "LockWoken"]
                  /\ UNCHANGED << S, cur, resizing, queue, told, want, kept, 
                                  saw, op, key, a, o, base, b, hi, j, phase, 
                                  ops, e, done, pos, plen, seen, sum >>

LockWoken(self) == /\ pc[self] = "LockWoken"
                   /\ \/ /\ told[self] = "got"
                         /\ told' = [told EXCEPT ![self] = ""]
                         /\ pc' = [pc EXCEPT ![self] = "Apply"]
                         /\ UNCHANGED <<arr, queue>>
                      \/ /\ told[self] = "dead"
                         /\ told' = [told EXCEPT ![self] = ""]
                         /\ pc' = [pc EXCEPT ![self] = "Load"]
                         /\ UNCHANGED <<arr, queue>>
                      \/ /\ IF told[self] = "got"
                               THEN /\ arr' = [arr EXCEPT ![a[self]].lock = [i \in 0..arr[a[self]].n - 1 |-> IF i \in ({Bkt(op[self], key[self], pos[self], arr[a[self]].n)}) THEN Heir(a[self], i) ELSE arr[a[self]].lock[i]]]
                                    /\ told' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in ({Bkt(op[self], key[self], pos[self], arr'[a[self]].n)}) /\ Heir(a[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                                    /\ queue' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in ({Bkt(op[self], key[self], pos[self], arr'[a[self]].n)}) /\ Heir(a[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                               ELSE /\ queue' = [queue EXCEPT ![self] = <<0, 0>>]
                                    /\ UNCHANGED << arr, told >>
                         /\ pc' = [pc EXCEPT ![self] = "Given"]
                   /\ UNCHANGED << S, cur, gone, resizing, guard, want, kept, 
                                   saw, op, key, a, o, base, b, hi, j, phase, 
                                   ops, e, done, pos, plen, seen, sum >>

Apply(self) == /\ pc[self] = "Apply"
               /\ IF op[self] = "scan" /\ self \in Async
                     THEN /\ IF cur # a[self]
                                THEN /\ arr' = [arr EXCEPT ![a[self]].lock = [i \in 0..arr[a[self]].n - 1 |-> IF i \in ({pos[self]}) THEN Heir(a[self], i) ELSE arr[a[self]].lock[i]]]
                                     /\ told' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in ({pos[self]}) /\ Heir(a[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                                     /\ queue' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in ({pos[self]}) /\ Heir(a[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                                     /\ pc' = [pc EXCEPT ![self] = "Load"]
                                     /\ guard' = guard
                                ELSE /\ guard' = [guard EXCEPT ![self] = TRUE]
                                     /\ pc' = [pc EXCEPT ![self] = "Take"]
                                     /\ UNCHANGED << arr, queue, told >>
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Take"]
                          /\ UNCHANGED << arr, guard, queue, told >>
               /\ UNCHANGED << S, cur, gone, resizing, want, kept, saw, op, 
                               key, a, o, base, b, hi, j, phase, ops, e, done, 
                               pos, plen, seen, sum >>

Take(self) == /\ pc[self] = "Take"
              /\ LET i == Bkt(op[self], key[self], pos[self], arr[a[self]].n) IN
                   /\ IF op[self] = "scan"
                         THEN /\ Assert(arr[a[self]].has[i] = {k \in S : Idx(k, arr[a[self]].n) = i}, 
                                        "Failure of assertion at line 317, column 9.")
                              /\ seen' = [seen EXCEPT ![self] = seen[self] \cup arr[a[self]].has[i]]
                         ELSE /\ Assert((key[self] \in arr[a[self]].has[i]) <=> (key[self] \in S), 
                                        "Failure of assertion at line 320, column 9.")
                              /\ seen' = seen
                   /\ IF op[self] = "insert"
                         THEN /\ arr' = [arr EXCEPT ![a[self]].has[i] = arr[a[self]].has[i] \cup {key[self]}]
                              /\ S' = (S \cup {key[self]})
                              /\ saw' = [t \in Threads |-> IF want[t] = key[self] THEN saw[t] \cup {TRUE} ELSE saw[t]]
                              /\ kept' = kept
                         ELSE /\ IF op[self] = "remove"
                                    THEN /\ arr' = [arr EXCEPT ![a[self]].has[i] = arr[a[self]].has[i] \ {key[self]}]
                                         /\ S' = S \ {key[self]}
                                         /\ kept' = [t \in Threads |-> kept[t] \ {key[self]}]
                                         /\ saw' = [t \in Threads |-> IF want[t] = key[self] THEN saw[t] \cup {FALSE} ELSE saw[t]]
                                    ELSE /\ TRUE
                                         /\ UNCHANGED << S, arr, kept, saw >>
              /\ pc' = [pc EXCEPT ![self] = "Unlock"]
              /\ UNCHANGED << cur, gone, resizing, guard, queue, told, want, 
                              op, key, a, o, base, b, hi, j, phase, ops, e, 
                              done, pos, plen, sum >>

Unlock(self) == /\ pc[self] = "Unlock"
                /\ arr' = [arr EXCEPT ![a[self]].lock = [i \in 0..arr[a[self]].n - 1 |-> IF i \in ({Bkt(op[self], key[self], pos[self], arr[a[self]].n)}) THEN Heir(a[self], i) ELSE arr[a[self]].lock[i]]]
                /\ told' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in ({Bkt(op[self], key[self], pos[self], arr'[a[self]].n)}) /\ Heir(a[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                /\ queue' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in ({Bkt(op[self], key[self], pos[self], arr'[a[self]].n)}) /\ Heir(a[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                /\ IF op[self] = "scan"
                      THEN /\ pos' = [pos EXCEPT ![self] = pos[self] + 1]
                           /\ IF pos'[self] < arr'[a[self]].n
                                 THEN /\ guard' = [guard EXCEPT ![self] = TRUE]
                                      /\ pc' = [pc EXCEPT ![self] = "Link"]
                                 ELSE /\ Assert(kept[self] \subseteq seen[self], 
                                                "Failure of assertion at line 339, column 9.")
                                      /\ pc' = [pc EXCEPT ![self] = "Done1"]
                                      /\ guard' = guard
                      ELSE /\ \/ /\ pc' = [pc EXCEPT ![self] = "Done1"]
                                 /\ guard' = guard
                              \/ /\ guard' = [guard EXCEPT ![self] = TRUE]
                                 /\ pc' = [pc EXCEPT ![self] = "Resize"]
                           /\ pos' = pos
                /\ UNCHANGED << S, cur, gone, resizing, want, kept, saw, op, 
                                key, a, o, base, b, hi, j, phase, ops, e, done, 
                                plen, seen, sum >>

Resize(self) == /\ pc[self] = "Resize"
                /\ IF cur # a[self] \/ arr[a[self]].link # 0 \/ resizing
                      THEN /\ pc' = [pc EXCEPT ![self] = "Done1"]
                           /\ UNCHANGED resizing
                      ELSE /\ resizing' = TRUE
                           /\ pc' = [pc EXCEPT ![self] = "Again"]
                /\ UNCHANGED << S, cur, arr, gone, guard, queue, told, want, 
                                kept, saw, op, key, a, o, base, b, hi, j, 
                                phase, ops, e, done, pos, plen, seen, sum >>

Again(self) == /\ pc[self] = "Again"
               /\ IF cur # a[self]
                     THEN /\ resizing' = FALSE
                          /\ pc' = [pc EXCEPT ![self] = "Done1"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Decide"]
                          /\ UNCHANGED resizing
               /\ UNCHANGED << S, cur, arr, gone, guard, queue, told, want, 
                               kept, saw, op, key, a, o, base, b, hi, j, phase, 
                               ops, e, done, pos, plen, seen, sum >>

Decide(self) == /\ pc[self] = "Decide"
                /\ \/ /\ \E id \in {y \in Ids : arr[y].n = 0}:
                           \E n \in Sizes \ {arr[a[self]].n}:
                             /\ arr' = [arr EXCEPT ![id] = New(n, a[self])]
                             /\ cur' = id
                      /\ pc' = [pc EXCEPT ![self] = "Finish"]
                      /\ j' = j
                   \/ /\ j' = [j EXCEPT ![self] = 0]
                      /\ pc' = [pc EXCEPT ![self] = "Drop"]
                      /\ UNCHANGED <<cur, arr>>
                /\ UNCHANGED << S, gone, resizing, guard, queue, told, want, 
                                kept, saw, op, key, a, o, base, b, hi, phase, 
                                ops, e, done, pos, plen, seen, sum >>

Drop(self) == /\ pc[self] = "Drop"
              /\ IF j[self] < arr[a[self]].n
                    THEN /\ IF arr[a[self]].lock[j[self]] = 0 /\ ~arr[a[self]].dead[j[self]] /\ arr[a[self]].has[j[self]] = {}
                               THEN /\ arr' = [arr EXCEPT ![a[self]].lock[j[self]] = self]
                                    /\ j' = [j EXCEPT ![self] = j[self] + 1]
                                    /\ pc' = [pc EXCEPT ![self] = "Drop"]
                               ELSE /\ pc' = [pc EXCEPT ![self] = "Undo"]
                                    /\ UNCHANGED << arr, j >>
                         /\ UNCHANGED << cur, done >>
                    ELSE /\ cur' = 0
                         /\ done' = [done EXCEPT ![self] = TRUE]
                         /\ pc' = [pc EXCEPT ![self] = "Undo"]
                         /\ UNCHANGED << arr, j >>
              /\ UNCHANGED << S, gone, resizing, guard, queue, told, want, 
                              kept, saw, op, key, a, o, base, b, hi, phase, 
                              ops, e, pos, plen, seen, sum >>

Undo(self) == /\ pc[self] = "Undo"
              /\ IF j[self] > 0
                    THEN /\ j' = [j EXCEPT ![self] = j[self] - 1]
                         /\ IF done[self]
                               THEN /\ arr' = [arr EXCEPT ![a[self]].lock[j'[self]] = 0,
                                                          ![a[self]].dead[j'[self]] = TRUE]
                                    /\ told' = [t \in Threads |-> IF queue[t] = <<a[self], j'[self]>> THEN "dead" ELSE told[t]]
                                    /\ queue' = [t \in Threads |-> IF queue[t] = <<a[self], j'[self]>> THEN <<0, 0>> ELSE queue[t]]
                               ELSE /\ arr' = [arr EXCEPT ![a[self]].lock = [i \in 0..arr[a[self]].n - 1 |-> IF i \in ({j'[self]}) THEN Heir(a[self], i) ELSE arr[a[self]].lock[i]]]
                                    /\ told' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in ({j'[self]}) /\ Heir(a[self], queue[t][2]) = t THEN "got" ELSE told[t]]
                                    /\ queue' = [t \in Threads |-> IF queue[t][1] = a[self] /\ queue[t][2] \in ({j'[self]}) /\ Heir(a[self], queue[t][2]) = t THEN <<0, 0>> ELSE queue[t]]
                         /\ pc' = [pc EXCEPT ![self] = "Undo"]
                         /\ UNCHANGED << gone, done >>
                    ELSE /\ IF done[self]
                               THEN /\ arr' = [arr EXCEPT ![a[self]].wait = {t \in Threads : guard[t]}]
                                    /\ gone' = (gone \cup {a[self]})
                                    /\ done' = [done EXCEPT ![self] = FALSE]
                               ELSE /\ TRUE
                                    /\ UNCHANGED << arr, gone, done >>
                         /\ pc' = [pc EXCEPT ![self] = "Finish"]
                         /\ UNCHANGED << queue, told, j >>
              /\ UNCHANGED << S, cur, resizing, guard, want, kept, saw, op, 
                              key, a, o, base, b, hi, phase, ops, e, pos, plen, 
                              seen, sum >>

Finish(self) == /\ pc[self] = "Finish"
                /\ resizing' = FALSE
                /\ pc' = [pc EXCEPT ![self] = "Done1"]
                /\ UNCHANGED << S, cur, arr, gone, guard, queue, told, want, 
                                kept, saw, op, key, a, o, base, b, hi, j, 
                                phase, ops, e, done, pos, plen, seen, sum >>

Peek(self) == /\ pc[self] = "Peek"
              /\ a' = [a EXCEPT ![self] = cur]
              /\ IF cur = 0
                    THEN /\ Assert(FALSE \in saw[self], 
                                   "Failure of assertion at line 384, column 21.")
                         /\ pc' = [pc EXCEPT ![self] = "Done1"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "PLink"]
              /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, told, 
                              want, kept, saw, op, key, o, base, b, hi, j, 
                              phase, ops, e, done, pos, plen, seen, sum >>

PLink(self) == /\ pc[self] = "PLink"
               /\ o' = [o EXCEPT ![self] = arr[a[self]].link]
               /\ IF o'[self] = 0
                     THEN /\ pc' = [pc EXCEPT ![self] = "PNew"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "POld"]
               /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, told, 
                               want, kept, saw, op, key, a, base, b, hi, j, 
                               phase, ops, e, done, pos, plen, seen, sum >>

POld(self) == /\ pc[self] = "POld"
              /\ IF key[self] \in arr[o[self]].has[Idx(key[self], arr[o[self]].n)]
                    THEN /\ Assert(TRUE \in saw[self], 
                                   "Failure of assertion at line 389, column 52.")
                         /\ pc' = [pc EXCEPT ![self] = "Done1"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "PNew"]
              /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, told, 
                              want, kept, saw, op, key, a, o, base, b, hi, j, 
                              phase, ops, e, done, pos, plen, seen, sum >>

PNew(self) == /\ pc[self] = "PNew"
              /\ IF key[self] \in arr[a[self]].has[Idx(key[self], arr[a[self]].n)]
                    THEN /\ Assert(TRUE \in saw[self], 
                                   "Failure of assertion at line 391, column 52.")
                         /\ pc' = [pc EXCEPT ![self] = "Done1"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "PAgain"]
              /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, told, 
                              want, kept, saw, op, key, a, o, base, b, hi, j, 
                              phase, ops, e, done, pos, plen, seen, sum >>

PAgain(self) == /\ pc[self] = "PAgain"
                /\ IF cur # a[self]
                      THEN /\ pc' = [pc EXCEPT ![self] = "Peek"]
                      ELSE /\ Assert(FALSE \in saw[self], 
                                     "Failure of assertion at line 393, column 37.")
                           /\ pc' = [pc EXCEPT ![self] = "Done1"]
                /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, 
                                told, want, kept, saw, op, key, a, o, base, b, 
                                hi, j, phase, ops, e, done, pos, plen, seen, 
                                sum >>

Count(self) == /\ pc[self] = "Count"
               /\ a' = [a EXCEPT ![self] = cur]
               /\ IF cur = 0
                     THEN /\ Assert(kept[self] = {}, 
                                    "Failure of assertion at line 397, column 21.")
                          /\ pc' = [pc EXCEPT ![self] = "Done1"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "CountLink"]
               /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, told, 
                               want, kept, saw, op, key, o, base, b, hi, j, 
                               phase, ops, e, done, pos, plen, seen, sum >>

CountLink(self) == /\ pc[self] = "CountLink"
                   /\ o' = [o EXCEPT ![self] = arr[a[self]].link]
                   /\ j' = [j EXCEPT ![self] = 0]
                   /\ sum' = [sum EXCEPT ![self] = 0]
                   /\ IF o'[self] = 0
                         THEN /\ pc' = [pc EXCEPT ![self] = "CountNew"]
                         ELSE /\ pc' = [pc EXCEPT ![self] = "CountOld"]
                   /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, 
                                   told, want, kept, saw, op, key, a, base, b, 
                                   hi, phase, ops, e, done, pos, plen, seen >>

CountOld(self) == /\ pc[self] = "CountOld"
                  /\ IF j[self] < arr[o[self]].n
                        THEN /\ sum' = [sum EXCEPT ![self] = sum[self] + Cardinality(arr[o[self]].has[j[self]])]
                             /\ j' = [j EXCEPT ![self] = j[self] + 1]
                             /\ pc' = [pc EXCEPT ![self] = "CountOld"]
                        ELSE /\ j' = [j EXCEPT ![self] = 0]
                             /\ pc' = [pc EXCEPT ![self] = "CountNew"]
                             /\ sum' = sum
                  /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, 
                                  told, want, kept, saw, op, key, a, o, base, 
                                  b, hi, phase, ops, e, done, pos, plen, seen >>

CountNew(self) == /\ pc[self] = "CountNew"
                  /\ IF j[self] < arr[a[self]].n
                        THEN /\ sum' = [sum EXCEPT ![self] = sum[self] + Cardinality(arr[a[self]].has[j[self]])]
                             /\ j' = [j EXCEPT ![self] = j[self] + 1]
                             /\ pc' = [pc EXCEPT ![self] = "CountNew"]
                        ELSE /\ pc' = [pc EXCEPT ![self] = "CountAgain"]
                             /\ UNCHANGED << j, sum >>
                  /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, 
                                  told, want, kept, saw, op, key, a, o, base, 
                                  b, hi, phase, ops, e, done, pos, plen, seen >>

CountAgain(self) == /\ pc[self] = "CountAgain"
                    /\ IF cur # a[self]
                          THEN /\ pc' = [pc EXCEPT ![self] = "Count"]
                          ELSE /\ Assert(sum[self] >= Cardinality(kept[self]), 
                                         "Failure of assertion at line 417, column 7.")
                               /\ Assert(sum[self] <= 2 * Keys, 
                                         "Failure of assertion at line 419, column 7.")
                               /\ IF sum[self] = 0
                                     THEN /\ pc' = [pc EXCEPT ![self] = "Resize"]
                                     ELSE /\ pc' = [pc EXCEPT ![self] = "Done1"]
                    /\ UNCHANGED << S, cur, arr, gone, resizing, guard, queue, 
                                    told, want, kept, saw, op, key, a, o, base, 
                                    b, hi, j, phase, ops, e, done, pos, plen, 
                                    seen, sum >>

Done1(self) == /\ pc[self] = "Done1"
               /\ guard' = [guard EXCEPT ![self] = FALSE]
               /\ arr' = [x \in Ids |-> IF x \in gone /\ arr[x].wait \subseteq {self} THEN NoArray ELSE [arr[x] EXCEPT !.wait = @ \ {self}]]
               /\ gone' = {x \in gone : ~(arr'[x].wait \subseteq {self})}
               /\ /\ a' = [a EXCEPT ![self] = 0]
                  /\ b' = [b EXCEPT ![self] = 0]
                  /\ base' = [base EXCEPT ![self] = 0]
                  /\ e' = [e EXCEPT ![self] = 0]
                  /\ hi' = [hi EXCEPT ![self] = 0]
                  /\ j' = [j EXCEPT ![self] = 0]
                  /\ key' = [key EXCEPT ![self] = 0]
                  /\ o' = [o EXCEPT ![self] = 0]
                  /\ op' = [op EXCEPT ![self] = ""]
                  /\ phase' = [phase EXCEPT ![self] = ""]
                  /\ plen' = [plen EXCEPT ![self] = 0]
                  /\ pos' = [pos EXCEPT ![self] = 0]
                  /\ seen' = [seen EXCEPT ![self] = {}]
                  /\ sum' = [sum EXCEPT ![self] = 0]
               /\ saw' = [saw EXCEPT ![self] = {}]
               /\ want' = [want EXCEPT ![self] = -1]
               /\ kept' = [kept EXCEPT ![self] = {}]
               /\ pc' = [pc EXCEPT ![self] = "Start"]
               /\ UNCHANGED << S, cur, resizing, queue, told, ops, done >>

thread(self) == Start(self) \/ Load(self) \/ Link(self) \/ Claim(self)
                   \/ Move(self) \/ Old(self) \/ OldWait(self)
                   \/ OldWoken(self) \/ Targets(self) \/ TargetWait(self)
                   \/ TargetWoken(self) \/ Copy(self) \/ Erase(self)
                   \/ Killed(self) \/ EndChunk(self) \/ Unlink(self)
                   \/ Dedup(self) \/ Range(self) \/ LetTargets(self)
                   \/ LetOld(self) \/ Abort(self) \/ Given(self)
                   \/ Lock(self) \/ LockWait(self) \/ LockWoken(self)
                   \/ Apply(self) \/ Take(self) \/ Unlock(self)
                   \/ Resize(self) \/ Again(self) \/ Decide(self)
                   \/ Drop(self) \/ Undo(self) \/ Finish(self)
                   \/ Peek(self) \/ PLink(self) \/ POld(self) \/ PNew(self)
                   \/ PAgain(self) \/ Count(self) \/ CountLink(self)
                   \/ CountOld(self) \/ CountNew(self) \/ CountAgain(self)
                   \/ Done1(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: thread(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
=============================================================================
