SPECIFICATION Spec
CONSTANTS Keys = 3  Cap = 2  Room = 2  Leaves = {1,2,3,4,5,6,7,8}  Nodes = {1,2,3}
Inserting = {}  Removing = {1,2}  Looking = {}  Iterating = {3}
MaxOps = 1
Starts <- Two
INVARIANTS Consistent Linked Thawed Unlocked
CHECK_DEADLOCK FALSE
