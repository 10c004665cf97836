SPECIFICATION Spec
CONSTANTS Mode = "one" Workers = 3 Outside = FALSE Requests = 2 ColsC = 4 RowsC = 1 HC = 1 TC = 5 Design = {}
INVARIANTS SameResponses SameCells NoPanic Exclusion Quiet
