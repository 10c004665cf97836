SPECIFICATION Spec
CONSTANTS Mode = "batch" Workers = 2 Outside = FALSE Requests = 2 ColsC = 2 RowsC = 2 HC = 2 TC = 5 Design = {}
INVARIANTS SameResponses SameCells NoPanic Exclusion Quiet
PROPERTIES Terminates
