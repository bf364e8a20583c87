CONSTANTS Depth = 4 Leak = TRUE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TextsAgree ErrorsAgree SecretsKept
