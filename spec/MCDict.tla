------------------------------- MODULE MCDict -------------------------------
(* The dictionary language explored: every line built from a small set of   *)
(* fields and separators, in files of up to MaxLines lines.                 *)
EXTENDS DictFormat, TLC
CONSTANTS MaxLines
VARIABLES lines, decls
vars == <<lines, decls>>

Name == {HexBytes("41"), HexBytes("422d43")}                              \* A, B-C
Num == {HexBytes("30"), HexBytes("323535"), HexBytes("323536"), HexBytes("3132"), <<45>>}   \* 0 255 256 12 -
Types == {T_string, T_octets, T_integer, T_octets \o <<91, 49, 54, 93>>, T_octets \o <<91, 93>>, HexBytes("64617465"), HexBytes("666f6f")}
Opts == {<<>>, O_tag, O_enc1, O_tag \o <<Comma>> \o O_enc2, O_enc2 \o <<Comma>> \o O_tag, O_concat, O_enc2, <<35>> \o O_tag}
Seps == {<<9>>, <<32, 32>>}
Tails == {<<>>, <<32, 35, 120>>}                                          \* nothing, a comment
AttrLine(n, m, t, o, s, e) == K_ATTRIBUTE \o s \o n \o s \o m \o s \o t \o (IF o = <<>> THEN <<>> ELSE s \o o) \o e
ValNum == {HexBytes("30"), HexBytes("34323934393637323935"), HexBytes("34323934393637323936"), HexBytes("3723"), HexBytes("372378")}  \* 0 2^32-1 2^32 7# 7#x
ValueLine(n, v, m, s, e) == K_VALUE \o s \o n \o s \o v \o s \o m \o e
Lines == {AttrLine(n, m, t, o, s, e) : n \in Name, m \in Num, t \in Types, o \in Opts, s \in Seps, e \in Tails}
         \cup {ValueLine(n, v, m, s, e) : n \in Name, v \in Name, m \in ValNum, s \in Seps, e \in Tails}
         \cup {<<>>, <<35>>, <<35, 32, 120>>, K_VALUE, K_ATTRIBUTE \o <<32, 65, 32, 49>>, <<88, 32, 65, 32, 49, 32>> \o T_string}
(* a second line only from these, to keep the files few *)
Lines2 == {AttrLine(HexBytes("41"), HexBytes("3132"), t, o, <<32>>, <<>>) : t \in Types, o \in Opts} \cup {<<>>, <<35>>, K_VALUE}

Init == lines = <<>> /\ decls = <<>>
Next == /\ Len(lines) < MaxLines
        /\ \E x \in (IF lines = <<>> THEN Lines ELSE Lines2) :
             /\ lines' = Append(lines, x)
             /\ decls' = Append(decls, Decl(x))

(* A file is good exactly if each line is, and declares what its lines do. *)
Compositional ==
  /\ Valid(lines) <=> \A i \in 1..Len(decls) : decls[i].d # "bad"
  /\ Len(Declared(lines, "attr")) = Cardinality({i \in 1..Len(decls) : decls[i].d = "attr"})
  /\ Len(Declared(lines, "value")) = Cardinality({i \in 1..Len(decls) : decls[i].d = "value"})
(* What a line declares depends neither on how its fields are separated nor on a comment after them. *)
Layout == Len(lines) = 1 /\ lines[1] \in Lines /\ ~Skipped(lines[1]) =>
  LET f == Fields(lines[1])
      again(s, e) == LET RECURSIVE J(_)
                         J(i) == IF i > Len(f) THEN <<>> ELSE (IF i = 1 THEN <<>> ELSE s) \o f[i] \o J(i + 1)
                     IN  J(1) \o e
  IN  \A s \in Seps, e \in Tails : Len(f) >= 4 => Decl(again(s, e)) = decls[1]
(* The order of the options does not matter. *)
OptionOrder == \A n \in Name, s \in Seps :
  Decl(AttrLine(n, <<49>>, T_string, O_tag \o <<Comma>> \o O_enc2, s, <<>>)) = Decl(AttrLine(n, <<49>>, T_string, O_enc2 \o <<Comma>> \o O_tag, s, <<>>))
Ranges == \A i \in 1..Len(decls) : /\ decls[i].d = "attr" => decls[i].num \in 0..255 /\ decls[i].len \in 0..255 /\ (decls[i].len > 0 => decls[i].kind = "fixed")
                                   /\ decls[i].d = "value" => Len(decls[i].n) = 4 /\ \A k \in 1..4 : decls[i].n[k] \in 0..255
=============================================================================
