SPECIFICATION Spec
CONSTANTS Mode = "multi" Workers = 2 Outside = TRUE Requests = 1 ColsC = 2 RowsC = 1 HC = 1 TC = 5 Design = {}
INVARIANTS SameResponses SameCells NoPanic Exclusion Quiet
PROPERTIES Terminates
