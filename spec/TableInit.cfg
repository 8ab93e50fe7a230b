SPECIFICATION Spec
CONSTANTS
 Keys = 4
 Locking = {1}
 Peeking = {}
 Try = {}
 Async = {}
 Counting = {}
 Scanning = {}
 MaxOps = 0
 Chunk = 1
 Ids = {1, 2}
 Sizes = {1, 2, 4}
 Starts <- AllStarts
INVARIANTS NoneLost Once Shape
