-------------------------------- MODULE Text --------------------------------
(* The text functions: what a caller's buffer contains afterwards.           *)
EXTENDS Naturals, Sequences, TLC

\* characters used by the texts, with their codes
LOCAL Alphabet == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
LOCAL Code == [ c \in { SubSeq(Alphabet, i, i) : i \in 1..Len(Alphabet) } |->
                  31 + (CHOOSE i \in 1..Len(Alphabet) : SubSeq(Alphabet, i, i) = c) ]
Bytes(s) == [ i \in 1..Len(s) |-> Code[SubSeq(s, i, i)] ]

LicenseText == "LGPL-3.0-or-later"

IsErrorCode(c) == c \in 1000..1005
ErrorText(c) ==
  CASE c = 1000 -> "Memory allocation failed"
    [] c = 1001 -> "The level parameter is out of bounds (it must be between 0 and 1, but close to 1)"
    [] c = 1002 -> "The q parameter must between 0 and 1-level"
    [] c = 1003 -> "The excess threshold has not been initialized"
    [] c = 1004 -> "The anomaly threshold has not been initialized"
    [] c = 1005 -> "The input data is NaN"
    [] OTHER -> ""

\* the longest prefix that fits with a terminating NUL, then NUL bytes
Copied(txt, size) ==
  [ i \in 1..size |-> IF i < size /\ i <= Len(txt) THEN txt[i] ELSE 0 ]

Untouched(bytes, old) == bytes = old
=============================================================================
