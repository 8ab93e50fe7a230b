SPECIFICATION Spec
CONSTANTS
 Keys = 2
 Locking = {1}
 Peeking = {}
 Try = {}
 Async = {2}
 Counting = {}
 Scanning = {2}
 MaxOps = 1
 Chunk = 1
 Ids = {1, 2, 3}
 Sizes = {1, 2}
 Starts <- AllStarts
INVARIANTS NoneLost Once Shape
