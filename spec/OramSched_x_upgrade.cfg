SPECIFICATION Spec
CONSTANTS Mode = "one" Workers = 2 Outside = FALSE Requests = 2 ColsC = 2 RowsC = 1 HC = 1 TC = 5 Design = {"upgrade"}
INVARIANTS SameResponses SameCells NoPanic Exclusion Quiet
