----------------------------- MODULE IdPaths -----------------------------
(* How ids become paths.  A dense tree takes nine decimal digits and writes  *)
(* the number in base fan-out, padded to a fixed length.  A sparse tree takes *)
(* a hexadecimal number; if it has the advertised number of digits in base   *)
(* fan-out those are the path, otherwise the id is hashed until it has.      *)
(*                                                                           *)
(* As a state machine the dense mapping is a counter (an odometer) and the   *)
(* sparse one a walk along hashes; the machines are what is model checked    *)
(* (for a small universe and every hash function on it), the definitions     *)
(* below them are what the recorded mappings of the real code are compared   *)
(* with.                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* ---- small numbers (dense ids) ---------------------------------------------

RECURSIVE Digits(_, _)
Digits(n, f) == IF n = 0 THEN << >> ELSE << n % f >> \o Digits(n \div f, f)

Pad(d, n) == [i \in 1..n |-> IF i <= Len(d) THEN d[i] ELSE 0]

\* Smallest length that holds every number below limit
RECURSIVE LenFor(_, _)
LenFor(limit, f) == IF limit <= 1 THEN 0 ELSE 1 + LenFor((limit + f - 1) \div f, f)

Limit == 1000000000
DigitLen(f) == LenFor(Limit, f)

IsDigits(codes) == Len(codes) = 9 /\ \A i \in 1..9 : codes[i] \in 48..57
DecValue(codes) == FoldLeft(LAMBDA acc, x : acc * 10 + (x - 48), 0, codes)

DensePath(codes, f) == Pad(Digits(DecValue(codes), f), DigitLen(f))

Permitted(f) == \E k \in 2..15 : f = 2^k - 1

\* The successor of a path, least significant digit first
RECURSIVE Up(_, _)
Up(p, f) == IF p = << >> THEN << >>
            ELSE IF p[1] + 1 < f THEN << p[1] + 1 >> \o Tail(p)
            ELSE << 0 >> \o Up(Tail(p), f)

\* ---- large numbers (sparse ids): limbs of 12 bits, least significant first --

HexDigit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
IsHex(codes) == codes # << >> /\ \A i \in DOMAIN codes : codes[i] \in (48..57) \cup (97..102) \cup (65..70)

Strip(l) == LET nz == { i \in DOMAIN l : l[i] # 0 }
            IN IF nz = {} THEN << >> ELSE SubSeq(l, 1, CHOOSE i \in nz : \A j \in nz : j <= i)

HexLimbs(codes) ==
  LET n == Len(codes)
      at(i) == IF i > n THEN 0 ELSE HexDigit(codes[n + 1 - i])
  IN Strip([k \in 1..((n + 2) \div 3) |-> at(3 * k - 2) + 16 * at(3 * k - 1) + 256 * at(3 * k)])

\* << quotient, remainder >> of a limb sequence by a small number
DivSmall(l, f) ==
  LET step(acc, x) == LET c == acc[2] * 4096 + x IN << << c \div f >> \o acc[1], c % f >>
      r == FoldLeft(step, << << >>, 0 >>, Reverse(l))
  IN << Strip(r[1]), r[2] >>

RECURSIVE LimbDigits(_, _)
LimbDigits(l, f) == IF l = << >> THEN << >> ELSE LET q == DivSmall(l, f) IN << q[2] >> \o LimbDigits(q[1], f)

HexDigits(codes, f) == LimbDigits(HexLimbs(codes), f)

\* chain: the id and its successive hashes, up to the one that is used
HexPath(chain, f) == HexDigits(chain[Len(chain)], f)
ChainOk(chain, f, n) ==
  /\ \A i \in 1..(Len(chain) - 1) : Len(HexDigits(chain[i], f)) # n
  /\ Len(HexDigits(chain[Len(chain)], f)) = n

\* ---- the two machines -------------------------------------------------------

CONSTANTS Machine,       \* "counter" or "walk"
          Fan, Bound     \* a small fan-out, and the number of ids

VARIABLES id, path, hashes, n, start
mvars == << id, path, hashes, n, start >>

Small == 0..(Bound - 1)
WalkLen == LenFor(Bound, Fan)

MInit ==
  /\ n = IF Machine = "counter" THEN LenFor(Bound, Fan) ELSE WalkLen
  /\ IF Machine = "counter"
     THEN id = 0 /\ start = 0 /\ path = [i \in 1..n |-> 0] /\ hashes = << >>
     ELSE /\ hashes \in [Small -> Small]
          /\ start \in Small /\ id = start /\ path = << >>

Count == /\ Machine = "counter" /\ id + 1 < Bound
         /\ id' = id + 1 /\ path' = Up(path, Fan)
         /\ UNCHANGED << hashes, n, start >>

Walk == /\ Machine = "walk" /\ path = << >>
        /\ IF Len(Digits(id, Fan)) = n
           THEN path' = Digits(id, Fan) /\ UNCHANGED id
           ELSE id' = hashes[id] /\ UNCHANGED path
        /\ UNCHANGED << hashes, n, start >>

MNext == Count \/ Walk
MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

\* The counter shows the padded digits of the id, all in range, never twice
CounterShows == Machine = "counter" =>
  /\ path = Pad(Digits(id, Fan), n)
  /\ \A i \in 1..n : path[i] < Fan
  /\ \A j \in Small : j # id => Pad(Digits(j, Fan), n) # path

\* The walk ends in a path of full length, the digits of the id if they are enough
RECURSIVE Value(_)
Value(p) == IF p = << >> THEN 0 ELSE p[1] + Fan * Value(Tail(p))
Full(j) == Len(Digits(j, Fan)) = n
WalkShows == (Machine = "walk" /\ path # << >>) =>
  /\ Len(path) = n /\ \A i \in 1..n : path[i] < Fan
  /\ Value(path) = id
  /\ Full(start) => id = start
  /\ \A j \in Small : (Full(j) /\ Full(start) /\ j # start) => Digits(j, Fan) # path
Reaches(h, a) == LET RECURSIVE R(_, _)
                     R(x, k) == Full(x) \/ (k > 0 /\ R(h[x], k - 1))
                 IN R(a, Bound)
WalkEnds == (Machine = "walk" /\ Reaches(hashes, start)) ~> (path # << >>)
CounterEnds == Machine = "counter" => <>(id = Bound - 1)

=============================================================================
