-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of characters, as far as the model needs them.       *)
(* TLC evaluates these with java/Text.java.                                  *)
EXTENDS Sequences, Naturals
StrLess(a, b) == CHOOSE r \in BOOLEAN : TRUE      \* lexicographic, by code point
StrContains(a, b) == CHOOSE r \in BOOLEAN : TRUE  \* b occurs in a
StrPrefix(a, b) == CHOOSE r \in BOOLEAN : TRUE    \* a is a prefix of b
=============================================================================
