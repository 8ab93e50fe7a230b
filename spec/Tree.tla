-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* How a TreeIndex of scc is changed while it is read without locks: a     *)
(* root that is one leaf node, or nothing, with its leaves, which are      *)
(* split, emptied, unlinked, and linked for iterators.                     *)
(*                                                                         *)
(* A leaf has Cap slots: an insertion takes one, writes to it, and then    *)
(* publishes it; a removal leaves a tombstone.  A leaf without free slots  *)
(* is frozen, and its entries are copied to one or two new ones, which are *)
(* linked after it and then take its place.  If there is no room for them  *)
(* (the parent would have to be split, and that failed), everything is     *)
(* undone.  A leaf that becomes empty is retired, and taken out.           *)
(*                                                                         *)
(* S is the abstract set of keys.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys, Cap, Room, Leaves, Nodes,   \* sizes; Room: leaves in a node besides the unbounded one
          Inserting, Removing, Looking, Iterating,    \* threads
          MaxOps,
          Starts      \* contents of the leaves at the beginning: a sequence of sets of keys, and whether they are used up

Mutating == Inserting \cup Removing
Threads == Mutating \cup Looking \cup Iterating
KEYS == 1..Keys
Maxi(s) == CHOOSE x \in s : \A y \in s : y <= x
Mini(s) == CHOOSE x \in s : \A y \in s : x <= y
Sorted(s) == [i \in 1..Cardinality(s) |-> CHOOSE x \in s : Cardinality({y \in s : y < x}) = i - 1]

\* used: slots that are not free any more.  tag: "clear", "marked" (smaller keys may follow), "deleted".
NoLeaf == [used |-> 0, live |-> {}, frozen |-> FALSE, retired |-> FALSE, next |-> 0, tag |-> "clear"]
\* kids: separators and leaves; the pointer of a slot may change, or vanish.  A slot is not used again.
NoNode == [kids |-> {}, ptr |-> <<>>, unb |-> 0, retired |-> FALSE, lock |-> 0, slots |-> 0]

\* s is a sequence of <<live keys, used slots>>, those of the leaves of the root.
Sep(s, i) == Maxi(UNION {s[j][1] : j \in 1..i})
FirstLeaves(s) == [x \in Leaves |-> IF x <= Len(s) THEN [NoLeaf EXCEPT !.live = s[x][1], !.used = s[x][2], !.next = IF x < Len(s) THEN x + 1 ELSE 0] ELSE NoLeaf]
FirstNodes(s) == [x \in Nodes |-> IF x = 1 THEN [NoNode EXCEPT !.kids = {<<Sep(s, i), i>> : i \in 1..Len(s) - 1}, !.ptr = [i \in 1..Len(s) - 1 |-> i],
                                                              !.unb = Len(s), !.slots = Len(s) - 1] ELSE NoNode]

Start1 == {<< <<a, u>> >> : a \in SUBSET KEYS, u \in 1..Cap}
Start2 == {<< <<a, u>>, <<b, v>> >> : a \in SUBSET KEYS, b \in SUBSET KEYS, u \in 1..Cap, v \in 1..Cap}
Good(s) == /\ \A i \in 1..Len(s) : Cardinality(s[i][1]) <= s[i][2] /\ s[i][1] # {}
           /\ \A i \in 1..Len(s) - 1 : Maxi(s[i][1]) < Mini(s[i + 1][1])
           /\ Len(s) <= Room + 1
One == {s \in Start1 : Good(s)}
Two == {s \in Start2 : Good(s)}
Small == One \cup Two
\* One full leaf.
Brim == {s \in One : s[1][2] = Cap}
Middle == {s \in Brim : s[1][1] = {1, 3}}
Full == {s \in Brim : Cardinality(s[1][1]) = Cap}
\* One entry in each leaf.
Last == {s \in One \cup Two : \A i \in 1..Len(s) : Cardinality(s[i][1]) = 1}
\* Two leaves, of which one is used up.
Edge == {s \in Two : \E i \in 1..2 : s[i][2] = Cap}

(* --algorithm tree
variables
  first \in Starts,
  S = UNION {first[i][1] : i \in 1..Len(first)},
  leaf = FirstLeaves(first),
  node = FirstNodes(first),
  root = 1,
  nl = Len(first), nn = 1,      \* leaves and nodes allocated so far
  want = [t \in Threads |-> 0],
  saw = [t \in Threads |-> {}],     \* whether the key of an operation has been in S since it started
  kept = [t \in Threads |-> {}],    \* the keys in S since an iterator was made
  ever = [t \in Threads |-> {}];    \* the keys that have been in S since then

define
  Current(n) == {node[n].ptr[c[2]] : c \in node[n].kids} \cup (IF node[n].unb = 0 THEN {} ELSE {node[n].unb})
  \* Where a lookup would look for a key.
  Kid(n, k) == IF \E c \in node[n].kids : c[1] >= k
               THEN (CHOOSE c \in node[n].kids : c[1] >= k /\ \A d \in node[n].kids : d[1] >= k => d[1] >= c[1])[2] ELSE 0
  At(n, k) == IF Kid(n, k) = 0 THEN node[n].unb ELSE node[n].ptr[Kid(n, k)]
  Found(q) == root # 0 /\ At(root, q) # 0 /\ q \in leaf[At(root, q)].live
  Consistent == \A q \in KEYS : (root = 0 \/ At(root, q) # 0) => (Found(q) <=> q \in S)
  RECURSIVE Follow(_)
  Follow(x) == IF x = 0 THEN <<>> ELSE (IF leaf[x].tag = "deleted" THEN <<>> ELSE <<x>>) \o Follow(leaf[x].next)
  Quiet == \A t \in Threads : pc[t] \in {"Done", "Begin"}
  \* When nothing is going on the list of leaves is that of the node, in order.
  Linked == Quiet /\ root # 0 /\ Current(root) # {} =>
              LET l == [i \in 1..Cardinality(node[root].kids) |-> node[root].ptr[(CHOOSE c \in node[root].kids : Cardinality({d \in node[root].kids : d[1] < c[1]}) = i - 1)[2]]]
                       \o (IF node[root].unb = 0 THEN <<>> ELSE <<node[root].unb>>)
              IN l = <<>> \/ Follow(l[1]) = l
  Thawed == Quiet /\ root # 0 => \A x \in Current(root) : ~leaf[x].frozen /\ leaf[x].tag = "clear"
  Unlocked == Quiet => \A n \in Nodes : node[n].lock = 0
end define;

macro Add(k) begin
  S := S \cup {k};
  saw := [t \in Threads |-> IF want[t] = k THEN saw[t] \cup {TRUE} ELSE saw[t]];
  ever := [t \in Threads |-> IF want[t] = -1 THEN ever[t] \cup {k} ELSE {}];
end macro;
macro Del(k) begin
  S := S \ {k};
  saw := [t \in Threads |-> IF want[t] = k THEN saw[t] \cup {FALSE} ELSE saw[t]];
  kept := [t \in Threads |-> kept[t] \ {k}];
end macro;

\* The child that may have the key; without a root there is none.
macro Choose(nd) begin
  n := nd;
  if nd # 0 then
    meta := node[nd].kids;
    if op = "iter" then
      slot := IF node[nd].kids = {} THEN 0 ELSE (CHOOSE d \in node[nd].kids : \A e \in node[nd].kids : d[1] <= e[1])[2];
    else
      slot := Kid(nd, k);
    end if;
  end if;
end macro;

process thread \in Threads
variables op = "", ops = 0, k = 0, n = 0, slot = 0, meta = {}, x = 0, lo = 0, hi = 0, part = {},
          rest = <<>>, last = 0, seen = {}, y = 0, z = 0, tag = "", c = <<>>, todo = {}, prev = 0;
begin
Begin:
  while ops < IF self \in Mutating THEN MaxOps ELSE 1 do
    with what \in IF self \in Looking THEN {"look"} ELSE IF self \in Iterating THEN {"iter"}
                  ELSE (IF self \in Inserting THEN {"insert"} ELSE {}) \cup (IF self \in Removing THEN {"remove"} ELSE {}),
         key \in IF self \in Iterating THEN {0} ELSE KEYS do
      op := what; k := key;
      want[self] := IF what = "insert" THEN 0 ELSE IF what = "iter" THEN -1 ELSE key;
      saw[self] := IF what \in {"insert", "iter"} THEN {} ELSE {key \in S};
      kept[self] := IF what = "iter" THEN S ELSE {};
      ever[self] := IF what = "iter" THEN S ELSE {};
    end with;
    ops := ops + 1;
Root:
    x := 0; lo := 0; hi := 0; part := {}; todo := {}; c := <<>>; prev := 0; y := 0; z := 0; tag := "";
    Choose(root);
    if root = 0 then
      if op = "insert" then goto Plant;
      elsif op = "iter" then assert kept[self] = {}; goto Out;
      else assert FALSE \in saw[self]; goto Out;
      end if;
    end if;
Child:
    x := IF slot = 0 THEN node[n].unb ELSE node[n].ptr[slot];
    if x = 0 then
      if slot # 0 then Choose(n); goto Child;
      elsif op = "insert" then goto CleanRoot;
      elsif op = "iter" then assert kept[self] = {}; goto Out;
      else assert FALSE \in saw[self]; goto Out;
      end if;
    end if;
Valid:
    if node[n].kids # meta then
      Choose(n); goto Child;
    else
      meta := {};
      if op = "look" then goto Look;
      elsif op = "remove" then goto Remove;
      elsif op = "iter" then goto Scan;
      end if;
    end if;
Reserve:
    if leaf[x].retired then goto Split;
    elsif leaf[x].frozen then goto Root;
    elsif leaf[x].used = Cap then
      if k \in leaf[x].live then assert k \in S; goto Out; else goto Split; end if;
    else
      leaf[x].used := leaf[x].used + 1;
    end if;
Publish:
    if leaf[x].retired \/ leaf[x].frozen \/ k \in leaf[x].live then
      leaf[x].used := leaf[x].used - 1;
      if leaf[x].retired then goto Split;
      elsif leaf[x].frozen then goto Root;
      else assert k \in S; goto Out;
      end if;
    else
      assert k \notin S;
      leaf[x].live := leaf[x].live \cup {k};
      Add(k);
      goto Out;
    end if;
Look:
    assert (k \in leaf[x].live) \in saw[self];
    goto Out;
Remove:
    if leaf[x].frozen then goto Root;
    elsif k \notin leaf[x].live then assert FALSE \in saw[self]; goto Out;
    else
      assert k \in S;
      Del(k);
      if leaf[x].live = {k} then
        leaf[x].live := {} || leaf[x].retired := TRUE;
      else
        leaf[x].live := leaf[x].live \ {k};
        goto Out;
      end if;
    end if;
\* Takes retired leaves out.
Coalesce:
    if node[n].lock # 0 then goto Coalesced;
    else node[n].lock := self; todo := node[n].kids; prev := 0;
    end if;
Sweep:
    while todo # {} do
      c := CHOOSE d \in todo : \A e \in todo : d[1] <= e[1];
      todo := todo \ {c};
      x := node[n].ptr[c[2]];
      if ~leaf[x].retired then prev := x; goto Sweep; end if;
SweepDelete:
      assert leaf[x].tag = "clear";
      leaf[x].tag := "deleted";
SweepOut:
      node[n].kids := node[n].kids \ {c};
SweepGone:
      node[n].ptr[c[2]] := 0;
    end while;
SweepLast:
    if prev = 0 then
      x := node[n].unb;
      if x # 0 /\ leaf[x].retired then
        leaf[x].tag := "deleted";
      elsif x # 0 then
        goto SweepUnlock;
      else
        node[n].lock := 0; goto CleanRoot;
      end if;
    else
      goto SweepUnlock;
    end if;
SweepUnbounded:
    node[n].unb := 0 || node[n].retired := TRUE || node[n].lock := 0;
    goto CleanRoot;
SweepUnlock:
    node[n].lock := 0;
SweepAgain:
    if \E d \in node[n].kids : node[n].ptr[d[2]] # 0 /\ leaf[node[n].ptr[d[2]]].retired then goto Coalesce;
    elsif (\A d \in node[n].kids : node[n].ptr[d[2]] = 0) /\ node[n].unb # 0 /\ leaf[node[n].unb].retired then goto Coalesce;
    end if;
Coalesced:
    goto Out;
CleanRoot:
    \* The root is replaced if it has no leaves.
    if root = n /\ node[n].retired then root := 0; end if;
    if op = "insert" then goto Root; else goto Out; end if;
Plant:
    await nn + 1 \in Nodes /\ nl + 1 \in Leaves;
    if root = 0 then
      nn := nn + 1 || nl := nl + 1;
      root := nn;
      node[nn] := [NoNode EXCEPT !.unb = nl];
    end if;
    goto Root;

\* The entries of leaf x are copied to new leaves.
Split:
    if node[n].lock # 0 then goto Root;
    elsif node[n].retired then goto CleanRoot;
    elsif (IF slot = 0 THEN node[n].unb ELSE node[n].ptr[slot]) # x then goto Root;
    else node[n].lock := self;
    end if;
Freeze:
    assert ~leaf[x].frozen;
    with b \in IF leaf[x].live = {} THEN {0} ELSE 1..Cardinality(leaf[x].live) do
      part := {e \in leaf[x].live : Cardinality({f \in leaf[x].live : f <= e}) <= b};
    end with;
    leaf[x].frozen := TRUE;
Copy:
    await nl + 2 \in Leaves;
    lo := nl + 1;
    hi := IF part = leaf[x].live THEN 0 ELSE nl + 2;
    nl := IF part = leaf[x].live THEN nl + 1 ELSE nl + 2;
PushHigh:
    if hi # 0 then
      assert leaf[x].tag = "clear";
      leaf[hi] := [NoLeaf EXCEPT !.live = leaf[x].live \ part, !.used = Cardinality(leaf[x].live \ part), !.next = leaf[x].next]
      || leaf[x].next := hi || leaf[x].tag := "marked";
    end if;
PushLow:
    leaf[lo] := [NoLeaf EXCEPT !.live = part, !.used = Cardinality(part), !.next = leaf[x].next, !.frozen = hi # 0]
    || leaf[x].next := lo || leaf[x].tag := "marked";
    if hi = 0 then goto Replace; end if;
Insert:
    if Cardinality(node[n].kids) = Room then
      leaf[hi].frozen := TRUE;
      goto UndoHigh;
    else
      assert \A d \in node[n].kids : d[1] # Maxi(part);
      node[n].kids := node[n].kids \cup {<<Maxi(part), node[n].slots + 1>>}
      || node[n].ptr := Append(node[n].ptr, lo) || node[n].slots := node[n].slots + 1;
    end if;
Replace:
    leaf[x].tag := "deleted";
    if hi = 0 then goto Swap; end if;
Thaw:
    leaf[lo].frozen := FALSE;
Swap:
    if slot = 0 then node[n].unb := IF hi = 0 THEN lo ELSE hi;
    else node[n].ptr[slot] := IF hi = 0 THEN lo ELSE hi;
    end if;
Unlock:
    node[n].lock := 0;
    x := 0; lo := 0; hi := 0; part := {};
    Choose(n); goto Child;
UndoHigh:
    leaf[hi].tag := "deleted";
UndoLow:
    leaf[lo].tag := "deleted";
UndoThaw:
    leaf[x].frozen := FALSE;
UndoMark:
    if leaf[x].tag = "marked" then leaf[x].tag := "clear"; end if;
UndoUnlock:
    node[n].lock := 0;
    \* The parent has no room: what is next is not part of the model.
    goto Out;

\* An iterator reads the leaf as it is now, and goes on to those linked to it.
Scan:
    rest := Sorted(leaf[x].live);
Yield:
    while rest # <<>> do
      assert rest[1] > last;
      assert rest[1] \in ever[self];
      assert \A e \in kept[self] : e > last /\ e < rest[1] => FALSE;
      last := rest[1];
      rest := Tail(rest);
    end while;
    \* The next leaf that has not been deleted; those in between are unlinked.
    prev := x;
Jump:
    y := leaf[prev].next; z := leaf[prev].next; tag := leaf[prev].tag;
Skip:
    while z # 0 /\ leaf[z].tag = "deleted" do
      z := leaf[z].next;
    end while;
Unlink:
    if z # y then
      if leaf[prev].next = y /\ leaf[prev].tag = tag then leaf[prev].next := z; else goto Jump; end if;
    end if;
Land:
    if z = 0 then
      assert \A e \in kept[self] : e <= last;
      goto Out;
    else
      part := leaf[z].live;
    end if;
Enter:
    \* x is where the last key was found.
    if last # 0 /\ (leaf[x].tag # "clear" \/ leaf[z].tag = "deleted") then part := {e \in part : e > last}; end if;
    prev := z;
    if part = {} then goto Jump; end if;
Entered:
    x := prev;
    rest := Sorted(part);
    goto Yield;
Out:
    want[self] := 0; saw[self] := {}; kept[self] := {}; ever[self] := {};
    op := ""; k := 0; n := 0; slot := 0; x := 0; lo := 0; hi := 0; part := {}; meta := {}; todo := {}; c := <<>>; prev := 0; y := 0; z := 0; tag := ""; rest := <<>>; last := 0;
  end while;
end process;
end algorithm; *)
\* BEGIN TRANSLATION (chksum(pcal) = "de5339ca" /\ chksum(tla) = "9e227100")
VARIABLES pc, first, S, leaf, node, root, nl, nn, want, saw, kept, ever

(* define statement *)
Current(n) == {node[n].ptr[c[2]] : c \in node[n].kids} \cup (IF node[n].unb = 0 THEN {} ELSE {node[n].unb})

Kid(n, k) == IF \E c \in node[n].kids : c[1] >= k
             THEN (CHOOSE c \in node[n].kids : c[1] >= k /\ \A d \in node[n].kids : d[1] >= k => d[1] >= c[1])[2] ELSE 0
At(n, k) == IF Kid(n, k) = 0 THEN node[n].unb ELSE node[n].ptr[Kid(n, k)]
Found(q) == root # 0 /\ At(root, q) # 0 /\ q \in leaf[At(root, q)].live
Consistent == \A q \in KEYS : (root = 0 \/ At(root, q) # 0) => (Found(q) <=> q \in S)
RECURSIVE Follow(_)
Follow(x) == IF x = 0 THEN <<>> ELSE (IF leaf[x].tag = "deleted" THEN <<>> ELSE <<x>>) \o Follow(leaf[x].next)
Quiet == \A t \in Threads : pc[t] \in {"Done", "Begin"}

Linked == Quiet /\ root # 0 /\ Current(root) # {} =>
            LET l == [i \in 1..Cardinality(node[root].kids) |-> node[root].ptr[(CHOOSE c \in node[root].kids : Cardinality({d \in node[root].kids : d[1] < c[1]}) = i - 1)[2]]]
                     \o (IF node[root].unb = 0 THEN <<>> ELSE <<node[root].unb>>)
            IN l = <<>> \/ Follow(l[1]) = l
Thawed == Quiet /\ root # 0 => \A x \in Current(root) : ~leaf[x].frozen /\ leaf[x].tag = "clear"
Unlocked == Quiet => \A n \in Nodes : node[n].lock = 0

VARIABLES op, ops, k, n, slot, meta, x, lo, hi, part, rest, last, seen, y, z, 
          tag, c, todo, prev

vars == << pc, first, S, leaf, node, root, nl, nn, want, saw, kept, ever, op, 
           ops, k, n, slot, meta, x, lo, hi, part, rest, last, seen, y, z, 
           tag, c, todo, prev >>

ProcSet == (Threads)

Init == (* Global variables *)
        /\ first \in Starts
        /\ S = UNION {first[i][1] : i \in 1..Len(first)}
        /\ leaf = FirstLeaves(first)
        /\ node = FirstNodes(first)
        /\ root = 1
        /\ nl = Len(first)
        /\ nn = 1
        /\ want = [t \in Threads |-> 0]
        /\ saw = [t \in Threads |-> {}]
        /\ kept = [t \in Threads |-> {}]
        /\ ever = [t \in Threads |-> {}]
        (* Process thread *)
        /\ op = [self \in Threads |-> ""]
        /\ ops = [self \in Threads |-> 0]
        /\ k = [self \in Threads |-> 0]
        /\ n = [self \in Threads |-> 0]
        /\ slot = [self \in Threads |-> 0]
        /\ meta = [self \in Threads |-> {}]
        /\ x = [self \in Threads |-> 0]
        /\ lo = [self \in Threads |-> 0]
        /\ hi = [self \in Threads |-> 0]
        /\ part = [self \in Threads |-> {}]
        /\ rest = [self \in Threads |-> <<>>]
        /\ last = [self \in Threads |-> 0]
        /\ seen = [self \in Threads |-> {}]
        /\ y = [self \in Threads |-> 0]
        /\ z = [self \in Threads |-> 0]
        /\ tag = [self \in Threads |-> ""]
        /\ c = [self \in Threads |-> <<>>]
        /\ todo = [self \in Threads |-> {}]
        /\ prev = [self \in Threads |-> 0]
        /\ pc = [self \in ProcSet |-> "Begin"]

Begin(self) == /\ pc[self] = "Begin"
               /\ IF ops[self] < IF self \in Mutating THEN MaxOps ELSE 1
                     THEN /\ \E what \in IF self \in Looking THEN {"look"} ELSE IF self \in Iterating THEN {"iter"}
                                         ELSE (IF self \in Inserting THEN {"insert"} ELSE {}) \cup (IF self \in Removing THEN {"remove"} ELSE {}):
                               \E key \in IF self \in Iterating THEN {0} ELSE KEYS:
                                 /\ op' = [op EXCEPT ![self] = what]
                                 /\ k' = [k EXCEPT ![self] = key]
                                 /\ want' = [want EXCEPT ![self] = IF what = "insert" THEN 0 ELSE IF what = "iter" THEN -1 ELSE key]
                                 /\ saw' = [saw EXCEPT ![self] = IF what \in {"insert", "iter"} THEN {} ELSE {key \in S}]
                                 /\ kept' = [kept EXCEPT ![self] = IF what = "iter" THEN S ELSE {}]
                                 /\ ever' = [ever EXCEPT ![self] = IF what = "iter" THEN S ELSE {}]
                          /\ ops' = [ops EXCEPT ![self] = ops[self] + 1]
                          /\ pc' = [pc EXCEPT ![self] = "Root"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Done"]
                          /\ UNCHANGED << want, saw, kept, ever, op, ops, k >>
               /\ UNCHANGED << first, S, leaf, node, root, nl, nn, n, slot, 
                               meta, x, lo, hi, part, rest, last, seen, y, z, 
                               tag, c, todo, prev >>

Root(self) == /\ pc[self] = "Root"
              /\ x' = [x EXCEPT ![self] = 0]
              /\ lo' = [lo EXCEPT ![self] = 0]
              /\ hi' = [hi EXCEPT ![self] = 0]
              /\ part' = [part EXCEPT ![self] = {}]
              /\ todo' = [todo EXCEPT ![self] = {}]
              /\ c' = [c EXCEPT ![self] = <<>>]
              /\ prev' = [prev EXCEPT ![self] = 0]
              /\ y' = [y EXCEPT ![self] = 0]
              /\ z' = [z EXCEPT ![self] = 0]
              /\ tag' = [tag EXCEPT ![self] = ""]
              /\ n' = [n EXCEPT ![self] = root]
              /\ IF root # 0
                    THEN /\ meta' = [meta EXCEPT ![self] = node[root].kids]
                         /\ IF op[self] = "iter"
                               THEN /\ slot' = [slot EXCEPT ![self] = IF node[root].kids = {} THEN 0 ELSE (CHOOSE d \in node[root].kids : \A e \in node[root].kids : d[1] <= e[1])[2]]
                               ELSE /\ slot' = [slot EXCEPT ![self] = Kid(root, k[self])]
                    ELSE /\ TRUE
                         /\ UNCHANGED << slot, meta >>
              /\ IF root = 0
                    THEN /\ IF op[self] = "insert"
                               THEN /\ pc' = [pc EXCEPT ![self] = "Plant"]
                               ELSE /\ IF op[self] = "iter"
                                          THEN /\ Assert(kept[self] = {}, 
                                                         "Failure of assertion at line 136, column 30.")
                                               /\ pc' = [pc EXCEPT ![self] = "Out"]
                                          ELSE /\ Assert(FALSE \in saw[self], 
                                                         "Failure of assertion at line 137, column 12.")
                                               /\ pc' = [pc EXCEPT ![self] = "Out"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Child"]
              /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                              kept, ever, op, ops, k, rest, last, seen >>

Child(self) == /\ pc[self] = "Child"
               /\ x' = [x EXCEPT ![self] = IF slot[self] = 0 THEN node[n[self]].unb ELSE node[n[self]].ptr[slot[self]]]
               /\ IF x'[self] = 0
                     THEN /\ IF slot[self] # 0
                                THEN /\ n' = [n EXCEPT ![self] = n[self]]
                                     /\ IF n'[self] # 0
                                           THEN /\ meta' = [meta EXCEPT ![self] = node[n'[self]].kids]
                                                /\ IF op[self] = "iter"
                                                      THEN /\ slot' = [slot EXCEPT ![self] = IF node[n'[self]].kids = {} THEN 0 ELSE (CHOOSE d \in node[n'[self]].kids : \A e \in node[n'[self]].kids : d[1] <= e[1])[2]]
                                                      ELSE /\ slot' = [slot EXCEPT ![self] = Kid(n'[self], k[self])]
                                           ELSE /\ TRUE
                                                /\ UNCHANGED << slot, meta >>
                                     /\ pc' = [pc EXCEPT ![self] = "Child"]
                                ELSE /\ IF op[self] = "insert"
                                           THEN /\ pc' = [pc EXCEPT ![self] = "CleanRoot"]
                                           ELSE /\ IF op[self] = "iter"
                                                      THEN /\ Assert(kept[self] = {}, 
                                                                     "Failure of assertion at line 145, column 30.")
                                                           /\ pc' = [pc EXCEPT ![self] = "Out"]
                                                      ELSE /\ Assert(FALSE \in saw[self], 
                                                                     "Failure of assertion at line 146, column 12.")
                                                           /\ pc' = [pc EXCEPT ![self] = "Out"]
                                     /\ UNCHANGED << n, slot, meta >>
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Valid"]
                          /\ UNCHANGED << n, slot, meta >>
               /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                               kept, ever, op, ops, k, lo, hi, part, rest, 
                               last, seen, y, z, tag, c, todo, prev >>

Valid(self) == /\ pc[self] = "Valid"
               /\ IF node[n[self]].kids # meta[self]
                     THEN /\ n' = [n EXCEPT ![self] = n[self]]
                          /\ IF n'[self] # 0
                                THEN /\ meta' = [meta EXCEPT ![self] = node[n'[self]].kids]
                                     /\ IF op[self] = "iter"
                                           THEN /\ slot' = [slot EXCEPT ![self] = IF node[n'[self]].kids = {} THEN 0 ELSE (CHOOSE d \in node[n'[self]].kids : \A e \in node[n'[self]].kids : d[1] <= e[1])[2]]
                                           ELSE /\ slot' = [slot EXCEPT ![self] = Kid(n'[self], k[self])]
                                ELSE /\ TRUE
                                     /\ UNCHANGED << slot, meta >>
                          /\ pc' = [pc EXCEPT ![self] = "Child"]
                     ELSE /\ meta' = [meta EXCEPT ![self] = {}]
                          /\ IF op[self] = "look"
                                THEN /\ pc' = [pc EXCEPT ![self] = "Look"]
                                ELSE /\ IF op[self] = "remove"
                                           THEN /\ pc' = [pc EXCEPT ![self] = "Remove"]
                                           ELSE /\ IF op[self] = "iter"
                                                      THEN /\ pc' = [pc EXCEPT ![self] = "Scan"]
                                                      ELSE /\ pc' = [pc EXCEPT ![self] = "Reserve"]
                          /\ UNCHANGED << n, slot >>
               /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                               kept, ever, op, ops, k, x, lo, hi, part, rest, 
                               last, seen, y, z, tag, c, todo, prev >>

Reserve(self) == /\ pc[self] = "Reserve"
                 /\ IF leaf[x[self]].retired
                       THEN /\ pc' = [pc EXCEPT ![self] = "Split"]
                            /\ leaf' = leaf
                       ELSE /\ IF leaf[x[self]].frozen
                                  THEN /\ pc' = [pc EXCEPT ![self] = "Root"]
                                       /\ leaf' = leaf
                                  ELSE /\ IF leaf[x[self]].used = Cap
                                             THEN /\ IF k[self] \in leaf[x[self]].live
                                                        THEN /\ Assert(k[self] \in S, 
                                                                       "Failure of assertion at line 163, column 34.")
                                                             /\ pc' = [pc EXCEPT ![self] = "Out"]
                                                        ELSE /\ pc' = [pc EXCEPT ![self] = "Split"]
                                                  /\ leaf' = leaf
                                             ELSE /\ leaf' = [leaf EXCEPT ![x[self]].used = leaf[x[self]].used + 1]
                                                  /\ pc' = [pc EXCEPT ![self] = "Publish"]
                 /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, kept, 
                                 ever, op, ops, k, n, slot, meta, x, lo, hi, 
                                 part, rest, last, seen, y, z, tag, c, todo, 
                                 prev >>

Publish(self) == /\ pc[self] = "Publish"
                 /\ IF leaf[x[self]].retired \/ leaf[x[self]].frozen \/ k[self] \in leaf[x[self]].live
                       THEN /\ leaf' = [leaf EXCEPT ![x[self]].used = leaf[x[self]].used - 1]
                            /\ IF leaf'[x[self]].retired
                                  THEN /\ pc' = [pc EXCEPT ![self] = "Split"]
                                  ELSE /\ IF leaf'[x[self]].frozen
                                             THEN /\ pc' = [pc EXCEPT ![self] = "Root"]
                                             ELSE /\ Assert(k[self] \in S, 
                                                            "Failure of assertion at line 172, column 12.")
                                                  /\ pc' = [pc EXCEPT ![self] = "Out"]
                            /\ UNCHANGED << S, saw, ever >>
                       ELSE /\ Assert(k[self] \notin S, 
                                      "Failure of assertion at line 175, column 7.")
                            /\ leaf' = [leaf EXCEPT ![x[self]].live = leaf[x[self]].live \cup {k[self]}]
                            /\ S' = (S \cup {k[self]})
                            /\ saw' = [t \in Threads |-> IF want[t] = k[self] THEN saw[t] \cup {TRUE} ELSE saw[t]]
                            /\ ever' = [t \in Threads |-> IF want[t] = -1 THEN ever[t] \cup {k[self]} ELSE {}]
                            /\ pc' = [pc EXCEPT ![self] = "Out"]
                 /\ UNCHANGED << first, node, root, nl, nn, want, kept, op, 
                                 ops, k, n, slot, meta, x, lo, hi, part, rest, 
                                 last, seen, y, z, tag, c, todo, prev >>

Look(self) == /\ pc[self] = "Look"
              /\ Assert((k[self] \in leaf[x[self]].live) \in saw[self], 
                        "Failure of assertion at line 181, column 5.")
              /\ pc' = [pc EXCEPT ![self] = "Out"]
              /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                              kept, ever, op, ops, k, n, slot, meta, x, lo, hi, 
                              part, rest, last, seen, y, z, tag, c, todo, prev >>

Remove(self) == /\ pc[self] = "Remove"
                /\ IF leaf[x[self]].frozen
                      THEN /\ pc' = [pc EXCEPT ![self] = "Root"]
                           /\ UNCHANGED << S, leaf, saw, kept >>
                      ELSE /\ IF k[self] \notin leaf[x[self]].live
                                 THEN /\ Assert(FALSE \in saw[self], 
                                                "Failure of assertion at line 185, column 38.")
                                      /\ pc' = [pc EXCEPT ![self] = "Out"]
                                      /\ UNCHANGED << S, leaf, saw, kept >>
                                 ELSE /\ Assert(k[self] \in S, 
                                                "Failure of assertion at line 187, column 7.")
                                      /\ S' = S \ {k[self]}
                                      /\ saw' = [t \in Threads |-> IF want[t] = k[self] THEN saw[t] \cup {FALSE} ELSE saw[t]]
                                      /\ kept' = [t \in Threads |-> kept[t] \ {k[self]}]
                                      /\ IF leaf[x[self]].live = {k[self]}
                                            THEN /\ leaf' = [leaf EXCEPT ![x[self]].live = {},
                                                                         ![x[self]].retired = TRUE]
                                                 /\ pc' = [pc EXCEPT ![self] = "Coalesce"]
                                            ELSE /\ leaf' = [leaf EXCEPT ![x[self]].live = leaf[x[self]].live \ {k[self]}]
                                                 /\ pc' = [pc EXCEPT ![self] = "Out"]
                /\ UNCHANGED << first, node, root, nl, nn, want, ever, op, ops, 
                                k, n, slot, meta, x, lo, hi, part, rest, last, 
                                seen, y, z, tag, c, todo, prev >>

Coalesce(self) == /\ pc[self] = "Coalesce"
                  /\ IF node[n[self]].lock # 0
                        THEN /\ pc' = [pc EXCEPT ![self] = "Coalesced"]
                             /\ UNCHANGED << node, todo, prev >>
                        ELSE /\ node' = [node EXCEPT ![n[self]].lock = self]
                             /\ todo' = [todo EXCEPT ![self] = node'[n[self]].kids]
                             /\ prev' = [prev EXCEPT ![self] = 0]
                             /\ pc' = [pc EXCEPT ![self] = "Sweep"]
                  /\ UNCHANGED << first, S, leaf, root, nl, nn, want, saw, 
                                  kept, ever, op, ops, k, n, slot, meta, x, lo, 
                                  hi, part, rest, last, seen, y, z, tag, c >>

Sweep(self) == /\ pc[self] = "Sweep"
               /\ IF todo[self] # {}
                     THEN /\ c' = [c EXCEPT ![self] = CHOOSE d \in todo[self] : \A e \in todo[self] : d[1] <= e[1]]
                          /\ todo' = [todo EXCEPT ![self] = todo[self] \ {c'[self]}]
                          /\ x' = [x EXCEPT ![self] = node[n[self]].ptr[c'[self][2]]]
                          /\ IF ~leaf[x'[self]].retired
                                THEN /\ prev' = [prev EXCEPT ![self] = x'[self]]
                                     /\ pc' = [pc EXCEPT ![self] = "Sweep"]
                                ELSE /\ pc' = [pc EXCEPT ![self] = "SweepDelete"]
                                     /\ prev' = prev
                     ELSE /\ pc' = [pc EXCEPT ![self] = "SweepLast"]
                          /\ UNCHANGED << x, c, todo, prev >>
               /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                               kept, ever, op, ops, k, n, slot, meta, lo, hi, 
                               part, rest, last, seen, y, z, tag >>

SweepDelete(self) == /\ pc[self] = "SweepDelete"
                     /\ Assert(leaf[x[self]].tag = "clear", 
                               "Failure of assertion at line 208, column 7.")
                     /\ leaf' = [leaf EXCEPT ![x[self]].tag = "deleted"]
                     /\ pc' = [pc EXCEPT ![self] = "SweepOut"]
                     /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, 
                                     kept, ever, op, ops, k, n, slot, meta, x, 
                                     lo, hi, part, rest, last, seen, y, z, tag, 
                                     c, todo, prev >>

SweepOut(self) == /\ pc[self] = "SweepOut"
                  /\ node' = [node EXCEPT ![n[self]].kids = node[n[self]].kids \ {c[self]}]
                  /\ pc' = [pc EXCEPT ![self] = "SweepGone"]
                  /\ UNCHANGED << first, S, leaf, root, nl, nn, want, saw, 
                                  kept, ever, op, ops, k, n, slot, meta, x, lo, 
                                  hi, part, rest, last, seen, y, z, tag, c, 
                                  todo, prev >>

SweepGone(self) == /\ pc[self] = "SweepGone"
                   /\ node' = [node EXCEPT ![n[self]].ptr[c[self][2]] = 0]
                   /\ pc' = [pc EXCEPT ![self] = "Sweep"]
                   /\ UNCHANGED << first, S, leaf, root, nl, nn, want, saw, 
                                   kept, ever, op, ops, k, n, slot, meta, x, 
                                   lo, hi, part, rest, last, seen, y, z, tag, 
                                   c, todo, prev >>

SweepLast(self) == /\ pc[self] = "SweepLast"
                   /\ IF prev[self] = 0
                         THEN /\ x' = [x EXCEPT ![self] = node[n[self]].unb]
                              /\ IF x'[self] # 0 /\ leaf[x'[self]].retired
                                    THEN /\ leaf' = [leaf EXCEPT ![x'[self]].tag = "deleted"]
                                         /\ pc' = [pc EXCEPT ![self] = "SweepUnbounded"]
                                         /\ node' = node
                                    ELSE /\ IF x'[self] # 0
                                               THEN /\ pc' = [pc EXCEPT ![self] = "SweepUnlock"]
                                                    /\ node' = node
                                               ELSE /\ node' = [node EXCEPT ![n[self]].lock = 0]
                                                    /\ pc' = [pc EXCEPT ![self] = "CleanRoot"]
                                         /\ leaf' = leaf
                         ELSE /\ pc' = [pc EXCEPT ![self] = "SweepUnlock"]
                              /\ UNCHANGED << leaf, node, x >>
                   /\ UNCHANGED << first, S, root, nl, nn, want, saw, kept, 
                                   ever, op, ops, k, n, slot, meta, lo, hi, 
                                   part, rest, last, seen, y, z, tag, c, todo, 
                                   prev >>

SweepUnbounded(self) == /\ pc[self] = "SweepUnbounded"
                        /\ node' = [node EXCEPT ![n[self]].unb = 0,
                                                ![n[self]].retired = TRUE,
                                                ![n[self]].lock = 0]
                        /\ pc' = [pc EXCEPT ![self] = "CleanRoot"]
                        /\ UNCHANGED << first, S, leaf, root, nl, nn, want, 
                                        saw, kept, ever, op, ops, k, n, slot, 
                                        meta, x, lo, hi, part, rest, last, 
                                        seen, y, z, tag, c, todo, prev >>

SweepUnlock(self) == /\ pc[self] = "SweepUnlock"
                     /\ node' = [node EXCEPT ![n[self]].lock = 0]
                     /\ pc' = [pc EXCEPT ![self] = "SweepAgain"]
                     /\ UNCHANGED << first, S, leaf, root, nl, nn, want, saw, 
                                     kept, ever, op, ops, k, n, slot, meta, x, 
                                     lo, hi, part, rest, last, seen, y, z, tag, 
                                     c, todo, prev >>

SweepAgain(self) == /\ pc[self] = "SweepAgain"
                    /\ IF \E d \in node[n[self]].kids : node[n[self]].ptr[d[2]] # 0 /\ leaf[node[n[self]].ptr[d[2]]].retired
                          THEN /\ pc' = [pc EXCEPT ![self] = "Coalesce"]
                          ELSE /\ IF (\A d \in node[n[self]].kids : node[n[self]].ptr[d[2]] = 0) /\ node[n[self]].unb # 0 /\ leaf[node[n[self]].unb].retired
                                     THEN /\ pc' = [pc EXCEPT ![self] = "Coalesce"]
                                     ELSE /\ pc' = [pc EXCEPT ![self] = "Coalesced"]
                    /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, 
                                    saw, kept, ever, op, ops, k, n, slot, meta, 
                                    x, lo, hi, part, rest, last, seen, y, z, 
                                    tag, c, todo, prev >>

Coalesced(self) == /\ pc[self] = "Coalesced"
                   /\ pc' = [pc EXCEPT ![self] = "Out"]
                   /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, 
                                   saw, kept, ever, op, ops, k, n, slot, meta, 
                                   x, lo, hi, part, rest, last, seen, y, z, 
                                   tag, c, todo, prev >>

CleanRoot(self) == /\ pc[self] = "CleanRoot"
                   /\ IF root = n[self] /\ node[n[self]].retired
                         THEN /\ root' = 0
                         ELSE /\ TRUE
                              /\ root' = root
                   /\ IF op[self] = "insert"
                         THEN /\ pc' = [pc EXCEPT ![self] = "Root"]
                         ELSE /\ pc' = [pc EXCEPT ![self] = "Out"]
                   /\ UNCHANGED << first, S, leaf, node, nl, nn, want, saw, 
                                   kept, ever, op, ops, k, n, slot, meta, x, 
                                   lo, hi, part, rest, last, seen, y, z, tag, 
                                   c, todo, prev >>

Plant(self) == /\ pc[self] = "Plant"
               /\ nn + 1 \in Nodes /\ nl + 1 \in Leaves
               /\ IF root = 0
                     THEN /\ /\ nl' = nl + 1
                             /\ nn' = nn + 1
                          /\ root' = nn'
                          /\ node' = [node EXCEPT ![nn'] = [NoNode EXCEPT !.unb = nl']]
                     ELSE /\ TRUE
                          /\ UNCHANGED << node, root, nl, nn >>
               /\ pc' = [pc EXCEPT ![self] = "Root"]
               /\ UNCHANGED << first, S, leaf, want, saw, kept, ever, op, ops, 
                               k, n, slot, meta, x, lo, hi, part, rest, last, 
                               seen, y, z, tag, c, todo, prev >>

Split(self) == /\ pc[self] = "Split"
               /\ IF node[n[self]].lock # 0
                     THEN /\ pc' = [pc EXCEPT ![self] = "Root"]
                          /\ node' = node
                     ELSE /\ IF node[n[self]].retired
                                THEN /\ pc' = [pc EXCEPT ![self] = "CleanRoot"]
                                     /\ node' = node
                                ELSE /\ IF (IF slot[self] = 0 THEN node[n[self]].unb ELSE node[n[self]].ptr[slot[self]]) # x[self]
                                           THEN /\ pc' = [pc EXCEPT ![self] = "Root"]
                                                /\ node' = node
                                           ELSE /\ node' = [node EXCEPT ![n[self]].lock = self]
                                                /\ pc' = [pc EXCEPT ![self] = "Freeze"]
               /\ UNCHANGED << first, S, leaf, root, nl, nn, want, saw, kept, 
                               ever, op, ops, k, n, slot, meta, x, lo, hi, 
                               part, rest, last, seen, y, z, tag, c, todo, 
                               prev >>

Freeze(self) == /\ pc[self] = "Freeze"
                /\ Assert(~leaf[x[self]].frozen, 
                          "Failure of assertion at line 260, column 5.")
                /\ \E b \in IF leaf[x[self]].live = {} THEN {0} ELSE 1..Cardinality(leaf[x[self]].live):
                     part' = [part EXCEPT ![self] = {e \in leaf[x[self]].live : Cardinality({f \in leaf[x[self]].live : f <= e}) <= b}]
                /\ leaf' = [leaf EXCEPT ![x[self]].frozen = TRUE]
                /\ pc' = [pc EXCEPT ![self] = "Copy"]
                /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, kept, 
                                ever, op, ops, k, n, slot, meta, x, lo, hi, 
                                rest, last, seen, y, z, tag, c, todo, prev >>

Copy(self) == /\ pc[self] = "Copy"
              /\ nl + 2 \in Leaves
              /\ lo' = [lo EXCEPT ![self] = nl + 1]
              /\ hi' = [hi EXCEPT ![self] = IF part[self] = leaf[x[self]].live THEN 0 ELSE nl + 2]
              /\ nl' = (IF part[self] = leaf[x[self]].live THEN nl + 1 ELSE nl + 2)
              /\ pc' = [pc EXCEPT ![self] = "PushHigh"]
              /\ UNCHANGED << first, S, leaf, node, root, nn, want, saw, kept, 
                              ever, op, ops, k, n, slot, meta, x, part, rest, 
                              last, seen, y, z, tag, c, todo, prev >>

PushHigh(self) == /\ pc[self] = "PushHigh"
                  /\ IF hi[self] # 0
                        THEN /\ Assert(leaf[x[self]].tag = "clear", 
                                       "Failure of assertion at line 272, column 7.")
                             /\ leaf' = [leaf EXCEPT ![hi[self]] = [NoLeaf EXCEPT !.live = leaf[x[self]].live \ part[self], !.used = Cardinality(leaf[x[self]].live \ part[self]), !.next = leaf[x[self]].next],
                                                     ![x[self]].next = hi[self],
                                                     ![x[self]].tag = "marked"]
                        ELSE /\ TRUE
                             /\ leaf' = leaf
                  /\ pc' = [pc EXCEPT ![self] = "PushLow"]
                  /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, 
                                  kept, ever, op, ops, k, n, slot, meta, x, lo, 
                                  hi, part, rest, last, seen, y, z, tag, c, 
                                  todo, prev >>

PushLow(self) == /\ pc[self] = "PushLow"
                 /\ leaf' = [leaf EXCEPT ![lo[self]] = [NoLeaf EXCEPT !.live = part[self], !.used = Cardinality(part[self]), !.next = leaf[x[self]].next, !.frozen = hi[self] # 0],
                                         ![x[self]].next = lo[self],
                                         ![x[self]].tag = "marked"]
                 /\ IF hi[self] = 0
                       THEN /\ pc' = [pc EXCEPT ![self] = "Replace"]
                       ELSE /\ pc' = [pc EXCEPT ![self] = "Insert"]
                 /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, kept, 
                                 ever, op, ops, k, n, slot, meta, x, lo, hi, 
                                 part, rest, last, seen, y, z, tag, c, todo, 
                                 prev >>

Insert(self) == /\ pc[self] = "Insert"
                /\ IF Cardinality(node[n[self]].kids) = Room
                      THEN /\ leaf' = [leaf EXCEPT ![hi[self]].frozen = TRUE]
                           /\ pc' = [pc EXCEPT ![self] = "UndoHigh"]
                           /\ node' = node
                      ELSE /\ Assert(\A d \in node[n[self]].kids : d[1] # Maxi(part[self]), 
                                     "Failure of assertion at line 285, column 7.")
                           /\ node' = [node EXCEPT ![n[self]].kids = node[n[self]].kids \cup {<<Maxi(part[self]), node[n[self]].slots + 1>>},
                                                   ![n[self]].ptr = Append(node[n[self]].ptr, lo[self]),
                                                   ![n[self]].slots = node[n[self]].slots + 1]
                           /\ pc' = [pc EXCEPT ![self] = "Replace"]
                           /\ leaf' = leaf
                /\ UNCHANGED << first, S, root, nl, nn, want, saw, kept, ever, 
                                op, ops, k, n, slot, meta, x, lo, hi, part, 
                                rest, last, seen, y, z, tag, c, todo, prev >>

Replace(self) == /\ pc[self] = "Replace"
                 /\ leaf' = [leaf EXCEPT ![x[self]].tag = "deleted"]
                 /\ IF hi[self] = 0
                       THEN /\ pc' = [pc EXCEPT ![self] = "Swap"]
                       ELSE /\ pc' = [pc EXCEPT ![self] = "Thaw"]
                 /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, kept, 
                                 ever, op, ops, k, n, slot, meta, x, lo, hi, 
                                 part, rest, last, seen, y, z, tag, c, todo, 
                                 prev >>

Thaw(self) == /\ pc[self] = "Thaw"
              /\ leaf' = [leaf EXCEPT ![lo[self]].frozen = FALSE]
              /\ pc' = [pc EXCEPT ![self] = "Swap"]
              /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, kept, 
                              ever, op, ops, k, n, slot, meta, x, lo, hi, part, 
                              rest, last, seen, y, z, tag, c, todo, prev >>

Swap(self) == /\ pc[self] = "Swap"
              /\ IF slot[self] = 0
                    THEN /\ node' = [node EXCEPT ![n[self]].unb = IF hi[self] = 0 THEN lo[self] ELSE hi[self]]
                    ELSE /\ node' = [node EXCEPT ![n[self]].ptr[slot[self]] = IF hi[self] = 0 THEN lo[self] ELSE hi[self]]
              /\ pc' = [pc EXCEPT ![self] = "Unlock"]
              /\ UNCHANGED << first, S, leaf, root, nl, nn, want, saw, kept, 
                              ever, op, ops, k, n, slot, meta, x, lo, hi, part, 
                              rest, last, seen, y, z, tag, c, todo, prev >>

Unlock(self) == /\ pc[self] = "Unlock"
                /\ node' = [node EXCEPT ![n[self]].lock = 0]
                /\ x' = [x EXCEPT ![self] = 0]
                /\ lo' = [lo EXCEPT ![self] = 0]
                /\ hi' = [hi EXCEPT ![self] = 0]
                /\ part' = [part EXCEPT ![self] = {}]
                /\ n' = [n EXCEPT ![self] = n[self]]
                /\ IF n'[self] # 0
                      THEN /\ meta' = [meta EXCEPT ![self] = node'[n'[self]].kids]
                           /\ IF op[self] = "iter"
                                 THEN /\ slot' = [slot EXCEPT ![self] = IF node'[n'[self]].kids = {} THEN 0 ELSE (CHOOSE d \in node'[n'[self]].kids : \A e \in node'[n'[self]].kids : d[1] <= e[1])[2]]
                                 ELSE /\ slot' = [slot EXCEPT ![self] = Kid(n'[self], k[self])]
                      ELSE /\ TRUE
                           /\ UNCHANGED << slot, meta >>
                /\ pc' = [pc EXCEPT ![self] = "Child"]
                /\ UNCHANGED << first, S, leaf, root, nl, nn, want, saw, kept, 
                                ever, op, ops, k, rest, last, seen, y, z, tag, 
                                c, todo, prev >>

UndoHigh(self) == /\ pc[self] = "UndoHigh"
                  /\ leaf' = [leaf EXCEPT ![hi[self]].tag = "deleted"]
                  /\ pc' = [pc EXCEPT ![self] = "UndoLow"]
                  /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, 
                                  kept, ever, op, ops, k, n, slot, meta, x, lo, 
                                  hi, part, rest, last, seen, y, z, tag, c, 
                                  todo, prev >>

UndoLow(self) == /\ pc[self] = "UndoLow"
                 /\ leaf' = [leaf EXCEPT ![lo[self]].tag = "deleted"]
                 /\ pc' = [pc EXCEPT ![self] = "UndoThaw"]
                 /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, kept, 
                                 ever, op, ops, k, n, slot, meta, x, lo, hi, 
                                 part, rest, last, seen, y, z, tag, c, todo, 
                                 prev >>

UndoThaw(self) == /\ pc[self] = "UndoThaw"
                  /\ leaf' = [leaf EXCEPT ![x[self]].frozen = FALSE]
                  /\ pc' = [pc EXCEPT ![self] = "UndoMark"]
                  /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, 
                                  kept, ever, op, ops, k, n, slot, meta, x, lo, 
                                  hi, part, rest, last, seen, y, z, tag, c, 
                                  todo, prev >>

UndoMark(self) == /\ pc[self] = "UndoMark"
                  /\ IF leaf[x[self]].tag = "marked"
                        THEN /\ leaf' = [leaf EXCEPT ![x[self]].tag = "clear"]
                        ELSE /\ TRUE
                             /\ leaf' = leaf
                  /\ pc' = [pc EXCEPT ![self] = "UndoUnlock"]
                  /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, 
                                  kept, ever, op, ops, k, n, slot, meta, x, lo, 
                                  hi, part, rest, last, seen, y, z, tag, c, 
                                  todo, prev >>

UndoUnlock(self) == /\ pc[self] = "UndoUnlock"
                    /\ node' = [node EXCEPT ![n[self]].lock = 0]
                    /\ pc' = [pc EXCEPT ![self] = "Out"]
                    /\ UNCHANGED << first, S, leaf, root, nl, nn, want, saw, 
                                    kept, ever, op, ops, k, n, slot, meta, x, 
                                    lo, hi, part, rest, last, seen, y, z, tag, 
                                    c, todo, prev >>

Scan(self) == /\ pc[self] = "Scan"
              /\ rest' = [rest EXCEPT ![self] = Sorted(leaf[x[self]].live)]
              /\ pc' = [pc EXCEPT ![self] = "Yield"]
              /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                              kept, ever, op, ops, k, n, slot, meta, x, lo, hi, 
                              part, last, seen, y, z, tag, c, todo, prev >>

Yield(self) == /\ pc[self] = "Yield"
               /\ IF rest[self] # <<>>
                     THEN /\ Assert(rest[self][1] > last[self], 
                                    "Failure of assertion at line 320, column 7.")
                          /\ Assert(rest[self][1] \in ever[self], 
                                    "Failure of assertion at line 321, column 7.")
                          /\ Assert(\A e \in kept[self] : e > last[self] /\ e < rest[self][1] => FALSE, 
                                    "Failure of assertion at line 322, column 7.")
                          /\ last' = [last EXCEPT ![self] = rest[self][1]]
                          /\ rest' = [rest EXCEPT ![self] = Tail(rest[self])]
                          /\ pc' = [pc EXCEPT ![self] = "Yield"]
                          /\ prev' = prev
                     ELSE /\ prev' = [prev EXCEPT ![self] = x[self]]
                          /\ pc' = [pc EXCEPT ![self] = "Jump"]
                          /\ UNCHANGED << rest, last >>
               /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                               kept, ever, op, ops, k, n, slot, meta, x, lo, 
                               hi, part, seen, y, z, tag, c, todo >>

Jump(self) == /\ pc[self] = "Jump"
              /\ y' = [y EXCEPT ![self] = leaf[prev[self]].next]
              /\ z' = [z EXCEPT ![self] = leaf[prev[self]].next]
              /\ tag' = [tag EXCEPT ![self] = leaf[prev[self]].tag]
              /\ pc' = [pc EXCEPT ![self] = "Skip"]
              /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                              kept, ever, op, ops, k, n, slot, meta, x, lo, hi, 
                              part, rest, last, seen, c, todo, prev >>

Skip(self) == /\ pc[self] = "Skip"
              /\ IF z[self] # 0 /\ leaf[z[self]].tag = "deleted"
                    THEN /\ z' = [z EXCEPT ![self] = leaf[z[self]].next]
                         /\ pc' = [pc EXCEPT ![self] = "Skip"]
                    ELSE /\ pc' = [pc EXCEPT ![self] = "Unlink"]
                         /\ z' = z
              /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                              kept, ever, op, ops, k, n, slot, meta, x, lo, hi, 
                              part, rest, last, seen, y, tag, c, todo, prev >>

Unlink(self) == /\ pc[self] = "Unlink"
                /\ IF z[self] # y[self]
                      THEN /\ IF leaf[prev[self]].next = y[self] /\ leaf[prev[self]].tag = tag[self]
                                 THEN /\ leaf' = [leaf EXCEPT ![prev[self]].next = z[self]]
                                      /\ pc' = [pc EXCEPT ![self] = "Land"]
                                 ELSE /\ pc' = [pc EXCEPT ![self] = "Jump"]
                                      /\ leaf' = leaf
                      ELSE /\ pc' = [pc EXCEPT ![self] = "Land"]
                           /\ leaf' = leaf
                /\ UNCHANGED << first, S, node, root, nl, nn, want, saw, kept, 
                                ever, op, ops, k, n, slot, meta, x, lo, hi, 
                                part, rest, last, seen, y, z, tag, c, todo, 
                                prev >>

Land(self) == /\ pc[self] = "Land"
              /\ IF z[self] = 0
                    THEN /\ Assert(\A e \in kept[self] : e <= last[self], 
                                   "Failure of assertion at line 340, column 7.")
                         /\ pc' = [pc EXCEPT ![self] = "Out"]
                         /\ part' = part
                    ELSE /\ part' = [part EXCEPT ![self] = leaf[z[self]].live]
                         /\ pc' = [pc EXCEPT ![self] = "Enter"]
              /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                              kept, ever, op, ops, k, n, slot, meta, x, lo, hi, 
                              rest, last, seen, y, z, tag, c, todo, prev >>

Enter(self) == /\ pc[self] = "Enter"
               /\ IF last[self] # 0 /\ (leaf[x[self]].tag # "clear" \/ leaf[z[self]].tag = "deleted")
                     THEN /\ part' = [part EXCEPT ![self] = {e \in part[self] : e > last[self]}]
                     ELSE /\ TRUE
                          /\ part' = part
               /\ prev' = [prev EXCEPT ![self] = z[self]]
               /\ IF part'[self] = {}
                     THEN /\ pc' = [pc EXCEPT ![self] = "Jump"]
                     ELSE /\ pc' = [pc EXCEPT ![self] = "Entered"]
               /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                               kept, ever, op, ops, k, n, slot, meta, x, lo, 
                               hi, rest, last, seen, y, z, tag, c, todo >>

Entered(self) == /\ pc[self] = "Entered"
                 /\ x' = [x EXCEPT ![self] = prev[self]]
                 /\ rest' = [rest EXCEPT ![self] = Sorted(part[self])]
                 /\ pc' = [pc EXCEPT ![self] = "Yield"]
                 /\ UNCHANGED << first, S, leaf, node, root, nl, nn, want, saw, 
                                 kept, ever, op, ops, k, n, slot, meta, lo, hi, 
                                 part, last, seen, y, z, tag, c, todo, prev >>

Out(self) == /\ pc[self] = "Out"
             /\ want' = [want EXCEPT ![self] = 0]
             /\ saw' = [saw EXCEPT ![self] = {}]
             /\ kept' = [kept EXCEPT ![self] = {}]
             /\ ever' = [ever EXCEPT ![self] = {}]
             /\ op' = [op EXCEPT ![self] = ""]
             /\ k' = [k EXCEPT ![self] = 0]
             /\ n' = [n EXCEPT ![self] = 0]
             /\ slot' = [slot EXCEPT ![self] = 0]
             /\ x' = [x EXCEPT ![self] = 0]
             /\ lo' = [lo EXCEPT ![self] = 0]
             /\ hi' = [hi EXCEPT ![self] = 0]
             /\ part' = [part EXCEPT ![self] = {}]
             /\ meta' = [meta EXCEPT ![self] = {}]
             /\ todo' = [todo EXCEPT ![self] = {}]
             /\ c' = [c EXCEPT ![self] = <<>>]
             /\ prev' = [prev EXCEPT ![self] = 0]
             /\ y' = [y EXCEPT ![self] = 0]
             /\ z' = [z EXCEPT ![self] = 0]
             /\ tag' = [tag EXCEPT ![self] = ""]
             /\ rest' = [rest EXCEPT ![self] = <<>>]
             /\ last' = [last EXCEPT ![self] = 0]
             /\ pc' = [pc EXCEPT ![self] = "Begin"]
             /\ UNCHANGED << first, S, leaf, node, root, nl, nn, ops, seen >>

thread(self) == Begin(self) \/ Root(self) \/ Child(self) \/ Valid(self)
                   \/ Reserve(self) \/ Publish(self) \/ Look(self)
                   \/ Remove(self) \/ Coalesce(self) \/ Sweep(self)
                   \/ SweepDelete(self) \/ SweepOut(self)
                   \/ SweepGone(self) \/ SweepLast(self)
                   \/ SweepUnbounded(self) \/ SweepUnlock(self)
                   \/ SweepAgain(self) \/ Coalesced(self)
                   \/ CleanRoot(self) \/ Plant(self) \/ Split(self)
                   \/ Freeze(self) \/ Copy(self) \/ PushHigh(self)
                   \/ PushLow(self) \/ Insert(self) \/ Replace(self)
                   \/ Thaw(self) \/ Swap(self) \/ Unlock(self)
                   \/ UndoHigh(self) \/ UndoLow(self) \/ UndoThaw(self)
                   \/ UndoMark(self) \/ UndoUnlock(self) \/ Scan(self)
                   \/ Yield(self) \/ Jump(self) \/ Skip(self)
                   \/ Unlink(self) \/ Land(self) \/ Enter(self)
                   \/ Entered(self) \/ Out(self)

(* Allow infinite stuttering to prevent deadlock on termination. *)
Terminating == /\ \A self \in ProcSet: pc[self] = "Done"
               /\ UNCHANGED vars

Next == (\E self \in Threads: thread(self))
           \/ Terminating

Spec == Init /\ [][Next]_vars

Termination == <>(\A self \in ProcSet: pc[self] = "Done")

\* END TRANSLATION 
=============================================================================
