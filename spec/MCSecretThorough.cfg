CONSTANTS Depth = 5 Leak = FALSE
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS TextsAgree ErrorsAgree SecretsKept
