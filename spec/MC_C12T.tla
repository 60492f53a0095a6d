------------------------------ MODULE MC_C12T ------------------------------
(* All option strings over a small alphabet: tokenizing and rendering.       *)
EXTENDS C12, Json
CONSTANTS Size, MaxDepth
VARIABLES st, init, path
Alphabet == {"a", " ", "'", "\"", "\\", "%{x y}"}
Inits == {[k |-> "tok"]}
StringsOf(n) == {Cat(w) : w \in [1..n -> Alphabet]}
Events(o) == {[op |-> "tokenize", s |-> s] : s \in UNION {StringsOf(n) : n \in 0..Size}}
INSTANCE MC
=============================================================================
