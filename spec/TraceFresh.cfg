INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Enough AuthShape AuthFresh BulkFresh AuthVaries IdsAsked IdsVary SetIdOnly SaltsDrawn SaltsOfGroupVary AuthsOfGroupVary IdsOfGroupVary IdsOfSecretVary AuthsOfSecretVary
