------------------------------ MODULE MCFixed -------------------------------
(* Fixed-length formats, prefixes and vendor-specific messages with the     *)
(* real constants (C09, C11).  The explored octet strings have any length   *)
(* up to MaxLen, are Base throughout but for one octet, which takes every   *)
(* value at every position (and, in the last position, Base' too).          *)
EXTENDS Radius, FiniteSets
CONSTANTS MaxLen, Bases

VARIABLES n, pos, b, base
vars == <<n, pos, b, base>>
Init == n \in 0..MaxLen /\ base \in Bases /\ pos = 0 /\ b = 0
Next == /\ pos < n /\ b = 0 /\ pos' = pos + 1 /\ b' \in {0, 1} /\ UNCHANGED <<n, base>>
        \/ /\ pos > 0 /\ b > 0 /\ b < 255 /\ b' = b + 1 /\ UNCHANGED <<n, base, pos>>
x == [i \in 1..n |-> IF i = pos THEN b ELSE base]

R(kind, raw) == Read(kind, raw, <<>>, <<>>)
W(kind, val) == Write(kind, 0, val, NoTag, <<>>, <<>>)

(* Unsigned numbers as pairs of 16-bit halves: the octets are the big-endian *)
(* representation, and reading them gives the number.                       *)
Half(s) == s[1] * 256 + s[2]
Octets2(h) == <<h \div 256, h % 256>>
BigEndian ==
  /\ n = 2 => /\ Octets2(Half(x)) = x /\ R("short", W("short", Octets2(Half(x))).raw).val = x
  /\ n = 4 => LET hi == Half(x) lo == Half(SubSeq(x, 3, 4)) IN
              Octets2(hi) \o Octets2(lo) = x /\ \A k \in {"integer", "date", "ipaddr"} : R(k, W(k, Octets2(hi) \o Octets2(lo)).raw) = Ok(x, NoTag)
FixedKinds == {"integer", "short", "ipaddr", "ipv6addr", "date"}
FixedRead ==
  \A k \in FixedKinds :
    /\ R(k, x).ok <=> n = FixedLen(k)
    /\ n = FixedLen(k) => R(k, x).val = x /\ W(k, x).raw = x
(* Prefixes: the value is preceded by a zero octet and its length in bits.  *)
Prefixes ==
  /\ LET w == W("ipv4prefix", x) IN
     /\ w.ok <=> n = 4
     /\ w.ok => Len(w.raw) = 6 /\ w.raw[1] = 0 /\ w.raw[2] = 32 /\ R("ipv4prefix", w.raw) = Ok(x, NoTag)
  /\ LET w == W("ipv6prefix", x) IN
     /\ w.ok <=> n <= 16
     /\ w.ok => Len(w.raw) = n + 2 /\ w.raw[1] = 0 /\ w.raw[2] = 8 * n /\ w.raw[2] <= 128 /\ R("ipv6prefix", w.raw) = Ok(x, NoTag)
  /\ R("ipv4prefix", x).ok <=> n = 6
  /\ R("ipv6prefix", x).ok <=> n >= 2
(* A vendor-specific message can be taken apart again, and its length octet *)
(* counts the vendor type, itself, the tag and the value.                   *)
VendorOf(m) == SubSeq(m, 1, 4)
ParseVsa(m, tagged) == [vendor |-> VendorOf(m), vtype |-> m[5], tag |-> IF tagged THEN m[7] ELSE NoTag, val |-> SubSeq(m, IF tagged THEN 8 ELSE 7, Len(m))]
Vendors == {<<0, 0, 0, 9>>, <<255, 255, 255, 255>>, <<1, 2, 3, 4>>}
Vsa ==
  \A vendor \in Vendors, vtype \in {0, 1, 255}, tag \in {NoTag, 0, 1, 255} :
    LET m == VsaMessage(vendor, vtype, tag, x)
    IN  /\ ParseVsa(m, tag # NoTag) = [vendor |-> vendor, vtype |-> vtype, tag |-> tag, val |-> x]
        /\ Len(m) = 4 + m[6]
        /\ \A i \in 1..Len(m) : m[i] \in 0..255
=============================================================================
