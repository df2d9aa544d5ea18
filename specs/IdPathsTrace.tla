--------------------------- MODULE IdPathsTrace ---------------------------
(* Accepts the recorded mappings of ids to paths that satisfy C16 and C17.   *)
(* The digit order is not prescribed, but it must be the same for all ids of *)
(* a sparse tree.  Dense paths are judged by what the property says: fixed   *)
(* length, in range, never the same for two ids.                             *)
EXTENDS IdPaths, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cur, known, runs, order
vars == << l, cur, known, runs, order, mvars >>

Hex == { 2^k - 1 : k \in 2..14 }

InRange(p, f) == \A i \in DOMAIN p : p[i] >= 0 /\ p[i] < f
Ordered(d, o) == IF o = "lsd" THEN d ELSE Reverse(d)

\* Paths compared as numbers
RECURSIVE Below(_, _)
Below(p, q) == p # << >> /\ (p[Len(p)] < q[Len(q)] \/ (p[Len(p)] = q[Len(q)] /\ Below(Front(p), Front(q))))

DenseOk(e) ==
  IF ~IsDigits(e.codes) THEN e.refused
  ELSE /\ ~e.refused
       /\ Len(e.path) = cur.len /\ InRange(e.path, cur.fan)
       /\ LET v == DecValue(e.codes) IN
          /\ \A k \in DOMAIN known : known[k] = e.path => k = v
          /\ v \in DOMAIN known => known[v] = e.path

HexOk(e, o) ==
  IF ~IsHex(e.codes) THEN e.refused
  ELSE /\ ~e.refused
       /\ e.chain[1] = e.codes
       /\ ChainOk(e.chain, cur.fan, cur.len)
       /\ e.path = Ordered(HexPath(e.chain, cur.fan), o)

Step(e) ==
  CASE e.ev = "paths" ->
         /\ ~e.hang
         /\ IF e.type = "dense" THEN Permitted(e.fan) => e.made ELSE e.made
         /\ cur' = e /\ known' = << >>
         /\ runs' = IF DOMAIN cur # {} /\ cur.type = e.type /\ cur.fan = e.fan THEN runs ELSE {}
         /\ UNCHANGED order
    [] e.ev = "path" ->
         /\ ~e.hang
         /\ IF cur.type = "dense"
            THEN /\ DenseOk(e)
                 /\ known' = IF IsDigits(e.codes) THEN (DecValue(e.codes) :> e.path) @@ known ELSE known
                 /\ UNCHANGED order
            ELSE /\ order' \in (IF order = "" THEN {"lsd", "msd"} ELSE {order})
                 /\ HexOk(e, order')
                 /\ UNCHANGED known
         /\ UNCHANGED << cur, runs >>
    [] e.ev = "again" -> ~e.differs /\ UNCHANGED << cur, known, runs, order >>
    \* consecutive ids: a counter never shows a path twice (CounterShows)
    [] e.ev = "run" ->
         /\ e.bad = -1 /\ e.dups = 0
         /\ Len(e.first) = cur.len /\ Len(e.last) = cur.len
         /\ LET a == Ordered(e.first, IF e.order = "msd" THEN "msd" ELSE "lsd")
                b == Ordered(e.last, IF e.order = "msd" THEN "msd" ELSE "lsd") IN
            /\ e.order # "other" =>
                 /\ a = b \/ Below(a, b)
                 /\ \A r \in runs : r.order = e.order =>
                      \/ Below(r.b, a) \/ Below(b, r.a)
                      \/ r.from = e.from /\ r.a = a       \* the same ids once more
            /\ runs' = runs \cup {[from |-> e.from, a |-> a, b |-> b, order |-> e.order]}
         /\ UNCHANGED << cur, known, order >>
    [] e.ev = "fanout" ->
         /\ ~e.hang
         /\ IF e.type = "dense"
            THEN /\ Permitted(e.fan) => e.made
                 /\ e.made => /\ e.fan >= 2
                              /\ Len(e.path) = e.len /\ InRange(e.path, e.fan)
                              /\ e.len >= DigitLen(e.fan)
            ELSE /\ e.made => e.len > 0 /\ ChainOk(e.chain, e.fan, e.len)
                              /\ e.path \in { Ordered(HexPath(e.chain, e.fan), o) : o \in {"lsd", "msd"} }
                 /\ e.fan \in Hex => e.made
         /\ UNCHANGED << cur, known, runs, order >>
    [] e.ev = "fanoutsend" -> UNCHANGED << cur, known, runs, order >>
    [] OTHER -> FALSE

TInit == l = 1 /\ cur = << >> /\ known = << >> /\ runs = {} /\ order = ""
         /\ id = 0 /\ path = << >> /\ hashes = << >> /\ n = 0 /\ start = 0
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ UNCHANGED mvars
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
