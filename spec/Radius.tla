------------------------------- MODULE Radius -------------------------------
(* Wire and Values with the real constants of RADIUS.                       *)
EXTENDS Integers, Sequences, RadiusPrims

INSTANCE Wire WITH
  ByteBase <- 256, AuthLen <- 16, MaxPacket <- 4096, MaxValue <- 253,
  PlainRequest <- {1, 12}, SealedRequest <- {4, 40, 43},
  Response <- {2, 3, 5, 11, 41, 42, 44, 45}, OtherKnown <- {13, 255},
  InvalidCode <- 0, Digest <- MD5

INSTANCE Values WITH
  BlockLen <- 16, MaxUserPw <- 128, MaxTunnelPw <- 240, MaxTunnelRaw <- 243,
  SaltTop <- 128, TagMax <- 31, Hash <- MD5, Xor <- XorByte

CodeName(c) == CASE c = 1 -> "Access-Request" [] c = 2 -> "Access-Accept" [] c = 3 -> "Access-Reject"
  [] c = 4 -> "Accounting-Request" [] c = 5 -> "Accounting-Response" [] c = 11 -> "Access-Challenge"
  [] c = 12 -> "Status-Server" [] c = 13 -> "Status-Client" [] c = 40 -> "Disconnect-Request"
  [] c = 41 -> "Disconnect-ACK" [] c = 42 -> "Disconnect-NAK" [] c = 43 -> "CoA-Request"
  [] c = 44 -> "CoA-ACK" [] c = 45 -> "CoA-NAK" [] c = 255 -> "Reserved" [] c = 0 -> "Invalid"
=============================================================================
