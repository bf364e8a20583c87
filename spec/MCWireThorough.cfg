CONSTANTS Base = 5 MaxLen = 10 MaxPkt = 9
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS DecodesExactly FieldsCopied PaddingIgnored ErrorsExplained RoundTrip UndefinedTypesDoNotEncode EncodeBounded ValueBounded SealedIffEncoded OtherTypesRejected PlainAccepted ShortRejected ResponseBound
