--------------------------- MODULE PathTreeTrace ---------------------------
(* Accepts the recorded insertions and lookups of a path tree that are        *)
(* behaviours of PathTree.                                                    *)
EXTENDS PathTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, fan
vars == << pvars, l, fan >>

Step(e) ==
  CASE e.ev = "ptree" -> data' = << >> /\ key' = << >> /\ going' = << >> /\ calls' = << >> /\ fan' = e.fan
    [] e.ev = "insert" -> Begin(e.path, e.tok) /\ UNCHANGED fan
    [] e.ev = "call" -> Call(e.key, e.prev, e.kids, e.leaves, e.changed, e.tok, fan) /\ UNCHANGED fan
    [] e.ev = "inserted" -> ~e.panic /\ End /\ UNCHANGED fan
    [] e.ev = "lookup" -> /\ ~e.panic
                          /\ e.found <=> Found(e.path)
                          /\ e.found => e.tok = At(e.path) /\ e.above = Ancestors(e.path)
                          /\ UNCHANGED << pvars, fan >>
    \* what a lookup returned stays: the vertices, or what they were
    [] e.ev = "kept" -> e.now \in { e.then, Ancestors(e.path) } /\ UNCHANGED << pvars, fan >>
    [] e.ev = "dump" -> ~e.panic /\ e.bad = "" /\ Written(e.items) /\ UNCHANGED << pvars, fan >>
    [] OTHER -> FALSE

TInit == Init /\ l = 1 /\ fan = 2
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
