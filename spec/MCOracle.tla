------------------------------- MODULE MCOracle ------------------------------
(* Design check of the coverage claims: for every minimal hypothesis H and     *)
(* every system T with at most M states, a W-method suite (transition cover,    *)
(* all middles up to the difference in size, any separating set W) contains a   *)
(* test on which they differ whenever H is wrong and shows the right initial output. *)
EXTENDS Oracle, TLC
CONSTANTS N, M, K, O
VARIABLES H, T
vars == <<H, T>>
Raw(n) == {[mealy |-> FALSE, n |-> n, init |-> 1, k |-> K, d |-> d, o |-> o, extra |-> FALSE] :
             d \in [1..n -> [1..K -> 1..n]], o \in [1..n -> 1..O]}
Init == H \in {m \in UNION {Raw(n) : n \in 1..N} : AllReachable(m) /\ Minimal(m)}
        /\ T \in {m \in UNION {Raw(n) : n \in 1..M} : AllReachable(m)}
Next == UNCHANGED vars
(* shortest access words and a separating set *)
Access(q) == CHOOSE w \in WordsUpTo(K, N) : After(H, H.init, w) = q /\ Len(w) = Dist(H, H.init, q)
Sep(p, q) == IF \E w \in WordsUpTo(K, N) \ {<<>>} : Answer(H, p, w) # Answer(H, q, w)
             THEN CHOOSE w \in WordsUpTo(K, N) \ {<<>>} : Answer(H, p, w) # Answer(H, q, w) ELSE <<>>
W == {<<>>} \cup {Sep(p, q) : p, q \in States(H)}
Suite == {Access(q) \o <<a>> \o mid \o w : q \in States(H), a \in 1..K, mid \in WordsUpTo(K, M - H.n), w \in W}
WComplete == WrongAfterStart(H, T) => \E t \in Suite : Trace(H, H.init, t) # Trace(T, T.init, t)
(* the Wp suite: W after the states, only the identification set of the reached state elsewhere *)
Ident(q) == {<<>>} \cup {Sep(q, r) : r \in States(H) \ {q}}
WpSuite == {Access(q) \o mid \o w : q \in States(H), mid \in WordsUpTo(K, M - H.n), w \in W}
   \cup UNION {{Access(q) \o <<a>> \o mid \o w : w \in Ident(After(H, H.init, Access(q) \o <<a>> \o mid))} :
                q \in States(H), a \in 1..K, mid \in WordsUpTo(K, M - H.n)}
WpComplete == WrongAfterStart(H, T) => \E t \in WpSuite : Trace(H, H.init, t) # Trace(T, T.init, t)
=============================================================================
