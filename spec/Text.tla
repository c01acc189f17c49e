-------------------------------- MODULE Text --------------------------------
(* Bytes and the characters they stand for. *)
EXTENDS Integers, Sequences, TLC

(* The printable characters from the blank (32) on *)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
            31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c)]

(* The bytes of a string *)
Bytes(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]

IsDigit(b) == b \in 48..57

StartsWith(s, prefix) == Len(s) >= Len(prefix) /\ SubSeq(s, 1, Len(prefix)) = prefix

(* Position of the first occurrence of byte b in s at or after position i and before position     *)
(* `end`, or 0.                                                                                  *)
Find(s, b, i, end) ==
    LET j == IF end <= Len(s) THEN end - 1 ELSE Len(s)
        First(k) == s[k] = b /\ \A m \in i..(k - 1) : s[m] # b
    IN IF \E k \in i..j : s[k] = b THEN CHOOSE k \in i..j : First(k) ELSE 0

(* s split at every byte b *)
RECURSIVE Split(_, _)
Split(s, b) ==
    LET k == Find(s, b, 1, Len(s) + 1) IN
    IF k = 0 THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o Split(SubSeq(s, k + 1, Len(s)), b)

(* Numbers are sequences of digits without leading zeros, as they may not fit into TLC's integers *)
RECURSIVE Canonical(_)
Canonical(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Canonical(SubSeq(d, 2, Len(d))) ELSE d

Unsigned(s) == IF s # <<>> /\ s[1] = 43 THEN SubSeq(s, 2, Len(s)) ELSE s   (* a plus sign is accepted *)
IsNumber(s) ==
    LET d == Unsigned(s) IN
    /\ d # <<>>
    /\ \A i \in DOMAIN d : IsDigit(d[i])
    /\ Len(Canonical(d)) < 20           (* fits into 64 bits; numbers of 20 digits do not occur *)
Digits(s) == Canonical(Unsigned(s))

RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE 10 * Value(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)] - 48
=============================================================================
