SPECIFICATION Spec
CONSTANTS Keys = 3  Cap = 2  Room = 1  Leaves = {1,2,3,4,5,6,7,8}  Nodes = {1,2,3}
Inserting = {1}  Removing = {}  Looking = {}  Iterating = {3}
MaxOps = 2
Starts <- Small
INVARIANTS Consistent Linked Thawed Unlocked
CHECK_DEADLOCK FALSE
