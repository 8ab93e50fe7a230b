SPECIFICATION Spec
CONSTANTS
 Keys = 2
 Locking = {1}
 Peeking = {}
 Try = {}
 Async = {}
 Counting = {2}
 Scanning = {}
 MaxOps = 2
 Chunk = 1
 Ids = {1, 2, 3}
 Sizes = {1, 2}
 Starts = {{0}}
INVARIANTS NoneLost Once Shape
