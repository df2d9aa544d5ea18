------------------------ MODULE LiabilitySetTrace -------------------------
(* Accepts exactly the event traces recorded from the real code that are     *)
(* behaviours of LiabilitySet's contract layer.  Watch selects which         *)
(* observations are judged, so that every property has its own check.        *)
EXTENDS LiabilitySet, Json, IOUtils

CONSTANT Watch     \* subset of {"reads", "store", "nonce", "root", "total", "proofs", "io"}

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
  l,        \* next event
  seen,     \* sequence of [liab, V, W]: every root shown so far in this scenario
  nonces,   \* blinding factors of all vertices of all scenarios so far
  commits   \* root commitments of earlier scenarios
tvars == << vars, l, seen, nonces, commits >>

Fn(seq) == [s \in { seq[i][1] : i \in DOMAIN seq } |-> seq[CHOOSE i \in DOMAIN seq : seq[i][1] = s][2]]

Readable(v) == "unreadable" \notin DOMAIN v
Vertex(v) ==
  LET vals == Fn(v.vals) digs == Fn(v.digs)
  IN [vals |-> vals, sum |-> v.sum, digs |-> digs, self |-> v.self, nonce |-> v.nonce,
      vc |-> IF v.vok THEN << vals, v.sum, v.nonce >> ELSE << >>,
      wc |-> IF v.wok /\ v.stray = 0 THEN digs ELSE [s \in {-1} |-> "bad"],
      V |-> v.V, W |-> v.W, h |-> v.h]

Judge(x, P) == x \in Watch => P

TNew(e) ==
  /\ cfg' = [fan |-> e.fan, depth |-> e.depth]
  /\ liab' = EmptyFn /\ mem' = EmptyFn /\ store' = EmptyFn /\ built' = {}
  /\ memo' = << >> /\ cur' = NoUpdate /\ dirty' = EmptyFn /\ nonce' = 0
  /\ commits' = commits \cup { seen[i].V : i \in DOMAIN seen }
  /\ seen' = << >> /\ UNCHANGED nonces

TSet(e) == BeginSet(e.path, e.amount) /\ UNCHANGED << seen, nonces, commits >>

TPut(e) ==
  /\ e.keyok
  /\ Readable(e.v)
  /\ Judge("io", e.v.rt)
  /\ LET v == Vertex(e.v) IN
     /\ PutVertex(e.key, v, e.mode)
     /\ Judge("nonce",                                                     \* C20
          /\ v.nonce \notin nonces \/ (e.key \in DOMAIN store /\ store[e.key].nonce = v.nonce)
                                   \/ (e.key = << >> /\ memo # << >> /\ memo[1].nonce = v.nonce)
          /\ ~e.v.bare
          /\ v.V \notin commits)
     /\ nonces' = nonces \cup {v.nonce}
  /\ UNCHANGED << cfg, liab, mem, built, cur, dirty, nonce, seen, commits >>

\* Without the writes, an acknowledged update is just the new liability
EndSetBlind ==
  /\ cur # NoUpdate
  /\ liab' = Put1(liab, cur.path, cur.amount)
  /\ dirty' = Drop1(dirty, cur.path)
  /\ cur' = NoUpdate
  /\ UNCHANGED << cfg, mem, store, memo >>

TSetEnd(e) ==
  /\ IF "store" \in Watch THEN EndSet ELSE EndSetBlind
  /\ UNCHANGED << built, nonce, seen, nonces, commits >>

TAbort(e) == AbortSet /\ UNCHANGED << built, nonce, seen, nonces, commits >>

TNeg(e) == e.refused /\ RefuseSet /\ UNCHANGED << seen, nonces, commits >>

TGet(e) ==
  /\ Judge("reads", IF e.panic THEN e.path \in DOMAIN dirty
                    ELSE LookupOk(e.path, [ok |-> e.ok, amount |-> e.amount]))
  /\ UNCHANGED << vars, seen, nonces, commits >>

\* The totals below each slot of the root
RootVals ==
  LET s == { p[1] : p \in { q \in DOMAIN liab : liab[q] # Zero } }
      below(i) == [p \in { q \in DOMAIN liab : q[1] = i } |-> liab[p]]
  IN [i \in s |-> SumOver(below(i))]

NonZero(f) == [p \in { q \in DOMAIN f : f[q] # Zero } |-> f[p]]

TRoot(e) ==                                                                \* C03
  /\ Judge("root", dirty = EmptyFn =>
       /\ ~e.panic
       /\ e.none <=> DOMAIN store = {}
       /\ ~e.none =>
            LET v == store[<< >>] IN
            /\ v.V = e.V /\ v.W = e.W
            /\ v.vals = RootVals /\ v.sum = Total /\ WellFormed(v)
       /\ \A i \in DOMAIN seen : \/ NonZero(seen[i].liab) = NonZero(liab)
                                 \/ << seen[i].V, seen[i].W >> # << e.V, e.W >>
       /\ (seen # << >> /\ seen[Len(seen)].liab = liab)
            => seen[Len(seen)].V = e.V /\ seen[Len(seen)].W = e.W)
  /\ seen' = IF e.none \/ dirty # EmptyFn THEN seen
             ELSE Append(seen, [liab |-> liab, V |-> e.V, W |-> e.W])
  /\ UNCHANGED << vars, nonces, commits >>

TTot(e) ==                                                                 \* C04
  /\ Judge("total",
       dirty = EmptyFn => IF DOMAIN liab = {} THEN TRUE
                          ELSE ~e.panic /\ e.sum = Total)
  /\ UNCHANGED << vars, seen, nonces, commits >>

\* A total proof convinces of the total it was made for and the root it was made for
TVTot(e) ==
  /\ Judge("total", /\ e.ok <=> (e.V = e.madeV /\ ~e.neg /\ e.claim = e.made)
                    /\ e.ok => ~e.panic)
  /\ UNCHANGED << vars, seen, nonces, commits >>

\* Nobody convinces of a total that is not the total of the root
TForgedTot(e) ==
  /\ Judge("total", (e.ok /\ dirty = EmptyFn) => (~e.neg /\ e.claim = Total))
  /\ UNCHANGED << vars, seen, nonces, commits >>

TProve(e) ==                                                               \* C05
  /\ Judge("proofs",
       dirty = EmptyFn => /\ ~e.panic
                          /\ e.ok <=> e.path \in DOMAIN liab
                          /\ e.ok => e.amount = liab[e.path] /\ e.claimed = e.amount)
  /\ UNCHANGED << vars, seen, nonces, commits >>

\* A liability proof convinces of its own statement only
TVerify(e) ==                                                              \* C05, C06
  /\ Judge("proofs",
       dirty = EmptyFn =>
         /\ ~e.panic
         /\ e.ok <=> (e.path = e.made /\ e.V = e.madeV /\ e.W = e.madeW))
  /\ UNCHANGED << vars, seen, nonces, commits >>

SameVertex(o, v) == o.vals = v.vals /\ o.sum = v.sum /\ o.digs = v.digs /\ o.self = v.self
                    /\ o.nonce = v.nonce /\ o.V = v.V /\ o.W = v.W /\ o.vc = v.vc /\ o.wc = v.wc

TVertices(e) ==                                                            \* C18, C22
  /\ Judge("io",
       dirty = EmptyFn =>
         /\ ~e.panic
         /\ e.ok <=> e.path \in DOMAIN liab
         /\ e.ok => /\ e.amount = liab[e.path]
                    /\ Len(e.vs) = Depth
                    /\ \A i \in 1..Depth : /\ Prefix(e.path, i - 1) \in DOMAIN store
                                           /\ SameVertex(Vertex(e.vs[i]), store[Prefix(e.path, i - 1)]))
  /\ UNCHANGED << vars, seen, nonces, commits >>

TDump(e) ==                                                                \* C18
  /\ Judge("io",
       dirty = EmptyFn =>
         /\ ~e.panic /\ e.bad = ""
         /\ { e.items[i][1] : i \in DOMAIN e.items } = DOMAIN store \cup DOMAIN liab
         /\ Len(e.items) = Cardinality(DOMAIN store \cup DOMAIN liab)
         /\ \A i \in DOMAIN e.items : LET k == e.items[i][1] IN
              /\ k \in DOMAIN store => e.items[i][2] = store[k].h
              /\ k # << >> => \E j \in 1..(i - 1) : e.items[j][1] = Prefix(k, Len(k) - 1))
  /\ UNCHANGED << vars, seen, nonces, commits >>

TWalk(e) ==                                                                \* C02
  /\ Judge("store",
       /\ { e.items[i][1] : i \in DOMAIN e.items } = DOMAIN store
       /\ Len(e.items) = Cardinality(DOMAIN store)
       /\ \A i \in DOMAIN e.items : e.items[i][2] = store[e.items[i][1]].h
       /\ dirty = EmptyFn => Consistent(store, liab))
  /\ UNCHANGED << vars, seen, nonces, commits >>

Step(e) ==
  CASE e.ev = "new"      -> TNew(e)
    [] e.ev = "set"      -> TSet(e)
    [] e.ev = "put"      -> TPut(e)
    [] e.ev = "setend"   -> TSetEnd(e)
    [] e.ev = "setabort" -> TAbort(e)
    [] e.ev = "neg"      -> TNeg(e)
    [] e.ev = "get"      -> TGet(e)
    [] e.ev = "root"     -> TRoot(e)
    [] e.ev = "tot"      -> TTot(e)
    [] e.ev = "vtot"     -> TVTot(e)
    [] e.ev = "ftot"     -> TForgedTot(e)
    [] e.ev = "prove"    -> TProve(e)
    [] e.ev = "verify"   -> TVerify(e)
    [] e.ev = "vertices" -> TVertices(e)
    [] e.ev = "dump"     -> TDump(e)
    [] e.ev = "walk"     -> TWalk(e)
    [] OTHER             -> FALSE     \* setpanic, swallowed, crash

TInit == InitWith(2, 2) /\ l = 1 /\ seen = << >> /\ nonces = {} /\ commits = {}
TNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_tvars

Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN TRUE
            ELSE PrintT(<< "REJECTED", d >>) /\ FALSE
=============================================================================
