CONSTANTS Depth = 3 Kinds = {"string", "user_password", "concat", "tagged_integer", "fixed", "tunnel_password", "tagged_string", "vsa", "ipv6prefix"}
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Accessors OverTheWire
PROPERTIES OthersKept
