------------------------------- MODULE Registry -------------------------------
(* What an activation name means.  A name is [sym, lib]: a word (lib = "") or symbol@library, where the library is one of *)
(* the ways to write a file: its path, a link to it, a relative path, a name found on the library path, a path with an   *)
(* '@' in it, a file that is missing or no library.                                                                       *)
EXTENDS Fun
Writings == [a |-> "A", alink |-> "A", arel |-> "A", apath |-> "A", b |-> "B", cat |-> "C", missing |-> "", text |-> "", dir |-> ""]
Symbols == DynSyms \cup {ManySyms[i] : i \in 0..ManyMax}
Unresolved == "(none)"
Resolve(n) == IF n.lib = "" THEN (IF n.sym \in BuiltinActs THEN n.sym ELSE Unresolved)
              ELSE IF Writings[n.lib] # "" /\ n.sym \in Symbols THEN Writings[n.lib] \o ":" \o n.sym ELSE Unresolved
Derivable(id) == id \in BuiltinActs \/ DYN[id].has
=============================================================================
