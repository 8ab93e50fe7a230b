SPECIFICATION Spec
CONSTANTS Keys = 3  Cap = 2  Room = 2  Leaves = {1,2,3,4,5,6,7,8}  Nodes = {1,2,3}
Inserting = {}  Removing = {1}  Looking = {}  Iterating = {3}
MaxOps = 2
Starts <- Small
INVARIANTS Consistent Linked Thawed Unlocked
CHECK_DEADLOCK FALSE
