SPECIFICATION Spec
CONSTANTS Keys = 3  Cap = 2  Room = 1  Leaves = {1,2,3,4,5,6,7,8}  Nodes = {1,2,3}
Inserting = {1,2}  Removing = {}  Looking = {3}  Iterating = {}
MaxOps = 1
Starts <- Middle
INVARIANTS Consistent Linked Thawed Unlocked
CHECK_DEADLOCK FALSE
