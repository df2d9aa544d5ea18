--------------------------- MODULE LiabilitySet ---------------------------
(* The liability set of pol/pol.go on top of verkle/tree.go, sparse/tree.go  *)
(* and a key/value database.                                                 *)
(*                                                                           *)
(* The actions have two layers.  The *contract* layer (BeginSet, PutVertex,  *)
(* EndSet, AbortSet, reads) says what any correct implementation may do; the *)
(* traces recorded from the real code are checked against it.  The *design*  *)
(* layer (WriteNext and Spec) is the algorithm of the code: bottom-up,       *)
(* create on first use, otherwise update one slot incrementally, with the    *)
(* database failing at any write.  TLC checks that the design keeps the      *)
(* invariants and only takes steps the contract allows.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Amounts

VARIABLES
  cfg,      \* [fan, depth] of the tree
  liab,     \* path -> amount : liabilities whose update was acknowledged
  mem,      \* path -> amount : leaves of the in-memory path tree
  store,    \* key  -> vertex : the database
  built,    \* keys whose in-memory node refers to a stored vertex
  memo,     \* the memorised root vertex, << >> if there is none
  cur,      \* the update in progress
  dirty,    \* path -> amounts attempted by interrupted, not yet repeated updates
  nonce     \* number of blinding factors drawn so far

vars == << cfg, liab, mem, store, built, memo, cur, dirty, nonce >>

FanOut == cfg.fan
Depth  == cfg.depth
Slots == 0..(FanOut - 1)
Prefix(p, n) == SubSeq(p, 1, n)
PrefixesOf(p) == { Prefix(p, n) : n \in 0..(Depth - 1) }

NoUpdate == [path |-> << >>, amount |-> << -1 >>, todo |-> 0]
EmptyFn  == [x \in {} |-> Zero]

(* A vertex: vals/digs are the non-zero slots; vc and wc are what the two    *)
(* published commitments open to; self is the vertex digest.                 *)
Put1(f, x, y)  == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop1(f, x)    == [z \in DOMAIN f \ {x} |-> f[z]]
PutAmount(f, x, a) == IF a = Zero THEN Drop1(f, x) ELSE Put1(f, x, a)
At(f, x, d)    == IF x \in DOMAIN f THEN f[x] ELSE d

ContentOf(v) == << v.vals, v.sum, v.nonce >>

WellFormed(v) ==                       \* C02, within one vertex
  /\ v.sum = SumOver(v.vals)
  /\ v.vc = ContentOf(v)
  /\ v.wc = v.digs

IsLeafLayer(k) == Len(k) = Depth - 1
Child(k, s)    == Append(k, s)

LinkedSlot(k, s, st, lb) ==            \* C02, one slot against what is below it
  IF IsLeafLayer(k)
  THEN /\ At(st[k].vals, s, Zero) = At(lb, Child(k, s), Zero)
       /\ s \notin DOMAIN st[k].digs
  ELSE IF Child(k, s) \in DOMAIN st
  THEN /\ At(st[k].vals, s, Zero) = st[Child(k, s)].sum
       /\ s \in DOMAIN st[k].digs
       /\ st[k].digs[s] = st[Child(k, s)].self
  ELSE /\ s \notin DOMAIN st[k].vals
       /\ s \notin DOMAIN st[k].digs

\* slots of k that can hold anything: the ones with content and the ones with a child
Touched(k, st, lb) ==
  DOMAIN st[k].vals \cup DOMAIN st[k].digs
  \cup IF IsLeafLayer(k) THEN { p[Depth] : p \in { q \in DOMAIN lb : Prefix(q, Depth - 1) = k } }
       ELSE { q[Len(k) + 1] : q \in { r \in DOMAIN st : Len(r) = Len(k) + 1 /\ Prefix(r, Len(k)) = k } }

Linked(k, st, lb) == \A s \in Touched(k, st, lb) : LinkedSlot(k, s, st, lb)

Consistent(st, lb) ==                  \* C02 for the whole tree
  /\ DOMAIN st = UNION { PrefixesOf(p) : p \in DOMAIN lb }
  /\ \A k \in DOMAIN st : WellFormed(st[k]) /\ Linked(k, st, lb)

----------------------------------------------------------------------------
(* Contract layer *)

InitWith(f, d) ==
  /\ cfg = [fan |-> f, depth |-> d]
  /\ liab = EmptyFn /\ mem = EmptyFn /\ store = EmptyFn /\ built = {}
  /\ memo = << >> /\ cur = NoUpdate /\ dirty = EmptyFn /\ nonce = 0

BeginSet(p, a) ==
  /\ cur = NoUpdate
  /\ InRange63(a)
  /\ cur' = [path |-> p, amount |-> a, todo |-> Depth]
  /\ mem' = Put1(mem, p, a)
  /\ UNCHANGED << cfg, liab, store, built, memo, dirty, nonce >>

\* One database write.  mode "before": the database fails and keeps the old
\* value; "after": it fails although the value was written.
PutVertex(k, v, mode) ==
  /\ cur # NoUpdate
  /\ k \in PrefixesOf(cur.path)
  /\ store' = IF mode = "before" THEN store ELSE Put1(store, k, v)
  /\ memo'  = IF k = << >> THEN << v >> ELSE memo

CleanAfter(p) == DOMAIN dirty \subseteq {p}

EndSet ==
  /\ cur # NoUpdate
  /\ liab' = Put1(liab, cur.path, cur.amount)
  /\ dirty' = Drop1(dirty, cur.path)
  /\ \A k \in PrefixesOf(cur.path) : k \in DOMAIN store
  /\ IF CleanAfter(cur.path)
     THEN \/ dirty = EmptyFn /\ \A k \in PrefixesOf(cur.path) : WellFormed(store[k]) /\ Linked(k, store, liab')
          \/ dirty # EmptyFn /\ Consistent(store, liab')
     ELSE \A n \in 0..(Depth - 1) : LinkedSlot(Prefix(cur.path, n), cur.path[n + 1], store, liab')
  /\ memo = << >> \/ memo[1] = store[<< >>]
  /\ cur' = NoUpdate
  /\ UNCHANGED << cfg, mem, store, memo >>

AbortSet ==                            \* the database failed; the caller got a panic
  /\ cur # NoUpdate
  /\ dirty' = Put1(dirty, cur.path, At(dirty, cur.path, {}) \cup {cur.amount})
  /\ cur' = NoUpdate
  /\ UNCHANGED << cfg, liab, mem, store, memo >>

RefuseSet ==                           \* a negative amount: nothing happens (C01)
  /\ cur = NoUpdate /\ UNCHANGED vars

\* What a lookup may answer (C01; for interrupted updates either value, C21)
Answers(p) ==
  { [ok |-> p \in DOMAIN liab, amount |-> At(liab, p, Zero)] }
  \cup { [ok |-> TRUE, amount |-> a] : a \in At(dirty, p, {}) }
LookupOk(p, ans) == IF p \in DOMAIN dirty THEN ans \in Answers(p)
                    ELSE ans = [ok |-> p \in DOMAIN liab, amount |-> At(liab, p, Zero)]

Total == SumOver(liab)                 \* C04

----------------------------------------------------------------------------
(* Design layer: what the code does *)

Fetch(k) == IF k = << >> /\ memo # << >> THEN memo[1] ELSE store[k]
Index    == cur.path[cur.todo]                     \* slot that changed
Key      == Prefix(cur.path, cur.todo - 1)         \* vertex to recompute

Hash(k, vals, sum, digs, n) == << "H", k, vals, sum, digs, n >>

MkVertex(k, vals, sum, digs, vc, wc, n) ==
  [vals |-> vals, sum |-> sum, digs |-> digs, vc |-> vc, wc |-> wc, nonce |-> n,
   self |-> Hash(k, vals, sum, digs, n)]

CreateLeafLayer(k) ==
  LET ls == { p \in DOMAIN mem : Prefix(p, Depth - 1) = k /\ mem[p] # Zero }
      vals == [s \in { p[Depth] : p \in ls } |-> mem[Child(k, s)]]
  IN MkVertex(k, vals, SumOver(vals), EmptyFn, << vals, SumOver(vals), nonce >>, EmptyFn, nonce)

CreateInner(k) ==
  LET cs == { s \in Slots : Child(k, s) \in built }
      digs == [s \in cs |-> Fetch(Child(k, s)).self]
      vals == [s \in { c \in cs : Fetch(Child(k, c)).sum # Zero } |-> Fetch(Child(k, s)).sum]
  IN MkVertex(k, vals, SumOver(vals), digs, << vals, SumOver(vals), nonce >>, digs, nonce)

UpdateLeafLayer(k, i) ==               \* commitment updated in place, slot by slot
  LET o == Fetch(k)
      new == mem[Child(k, i)]
      vals == PutAmount(o.vals, i, new)
      sum == Sub(Add(o.sum, new), At(o.vals, i, Zero))
      vc1 == << PutAmount(o.vc[1], i, new), o.vc[2], o.vc[3] >>
      vc2 == << vc1[1], sum, vc1[3] >>
  IN MkVertex(k, vals, sum, o.digs, vc2, o.wc, o.nonce)

UpdateInner(k, i) ==                   \* commitments recomputed
  LET o == Fetch(k)
      ch == Fetch(Child(k, i))
      vals == PutAmount(o.vals, i, ch.sum)
      sum == Sub(Add(o.sum, ch.sum), At(o.vals, i, Zero))
      digs == Put1(o.digs, i, ch.self)
  IN MkVertex(k, vals, sum, digs, << vals, sum, o.nonce >>, digs, o.nonce)

Computed ==
  IF Key \in built
  THEN IF IsLeafLayer(Key) THEN UpdateLeafLayer(Key, Index) ELSE UpdateInner(Key, Index)
  ELSE IF IsLeafLayer(Key) THEN CreateLeafLayer(Key) ELSE CreateInner(Key)

WriteNext(mode) ==
  /\ cur # NoUpdate /\ cur.todo > 0
  /\ nonce' = IF Key \in built THEN nonce ELSE nonce + 1
  /\ IF mode = "ok"
     THEN /\ PutVertex(Key, Computed, mode)
          /\ cur' = [cur EXCEPT !.todo = @ - 1]
          /\ built' = built \cup {Key}
          /\ UNCHANGED << cfg, liab, mem, dirty >>
     ELSE /\ PutVertex(Key, Computed, mode)
          /\ dirty' = Put1(dirty, cur.path, At(dirty, cur.path, {}) \cup {cur.amount})
          /\ cur' = NoUpdate
          /\ UNCHANGED << cfg, liab, mem, built >>

Finish == cur # NoUpdate /\ cur.todo = 0 /\ EndSet /\ UNCHANGED << built, nonce >>

----------------------------------------------------------------------------
(* Properties *)

Idle  == cur = NoUpdate
Clean == Idle /\ dirty = EmptyFn

InvWellFormed  == \A k \in DOMAIN store : WellFormed(store[k])                    \* C02
InvConsistent  == Clean => Consistent(store, liab)                                \* C02, C21
InvTotal       == Clean /\ << >> \in DOMAIN store => store[<< >>].sum = Total     \* C04
InvRootCurrent == Clean /\ memo # << >> => memo[1] = store[<< >>]                 \* C03
InvLookup      == Idle => \A p \in DOMAIN mem \cup DOMAIN liab :                  \* C01, C21
                     LookupOk(p, [ok |-> p \in DOMAIN mem, amount |-> At(mem, p, Zero)])
InvNonces      == \A j, k \in DOMAIN store : store[j].nonce = store[k].nonce => j = k   \* C20
\* The design never gets stuck: every write the code makes is one the contract allows
InvEnabled     == cur # NoUpdate =>
                     IF cur.todo > 0
                     THEN WellFormed(Computed) /\ (Key \in built => Key \in DOMAIN store)
                     ELSE /\ \A n \in 0..(Depth - 1) :
                              LinkedSlot(Prefix(cur.path, n), cur.path[n + 1], store,
                                         Put1(liab, cur.path, cur.amount))
                          /\ memo[1] = store[<< >>]
                          /\ (CleanAfter(cur.path) => Consistent(store, Put1(liab, cur.path, cur.amount)))
=============================================================================
