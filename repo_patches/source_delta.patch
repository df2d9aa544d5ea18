From d5603fbd8f4331f2c02a81b1166e3573a2d9f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 01/17] fix: keep the vertex commitment consistent when a
 liability is set in an existing vertex

The update of the layer above the leaves wrote the new sum at the index
len(values), instead of the index of the sum, and did not remove the old sum,
so proofs failed after an id was set twice, or two ids shared that vertex.
---
 verkle/tree.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 6af97ec..1c03365 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -401,9 +401,7 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 	new := descendants[index].(int64)
 	newVal := c.NewZrFromInt(new)
 
-	v.sum = updateSum(v.sum, oldVal, newVal)
-
-	// Update index with new value
+	// The values committed so far
 	m := make(common.Vec, t.PP.N)
 	for i := 0; i < len(m); i++ {
 		if val, exists := v.values[uint16(i)]; exists {
@@ -413,15 +411,18 @@ func (t *Tree) updateLayerAboveLeaves(key string, node interface{}, descendants
 		}
 	}
 
-	// Artificially append the sum
-	m = append(m, v.sum)
+	// The sum is committed next to the last entry, before the blinding factor
+	sumIndex := len(m) - 2
+	m[sumIndex] = v.sum
+
+	v.sum = updateSum(v.sum, oldVal, newVal)
 
 	// Update index with new value
 	pp.Update(t.PP, v.V, m, newVal, index)
 	v.values[uint16(index)] = newVal
 
-	// Update last entry with sum
-	pp.Update(t.PP, v.V, m, v.sum, len(v.values))
+	// Update the entry of the sum
+	pp.Update(t.PP, v.V, m, v.sum, sumIndex)
 
 	return key
 }
-- 
2.43.0


From 378f32b919d43bf46e159aa691e79ebc23bab20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 02/17] fix: let updates of the tree go through the root cache

The tree wrote to the underlying DB directly, so Root() kept returning the
root it had memorized at its first call, no matter what was set afterwards.
---
 pol/pol.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pol/pol.go b/pol/pol.go
index 159748e..85d68b6 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -51,11 +51,12 @@ func (pp *PublicParams) Size() int {
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
 // Only a fan-out of the form 2^k - 1 for some natural k is permitted.
 func NewLiabilitySet(pp *PublicParams, db verkle.DB, id2Path func(string) []uint16) *LiabilitySet {
-	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, db)
+	rootCachingDB := &DBMemorizeRoot{DB: db}
+	tree := verkle.NewVerkleTree(uint16(pp.Fanout), id2Path, rootCachingDB)
 	tree.PP = pp.PPPP
 
 	return &LiabilitySet{
-		DB:   &DBMemorizeRoot{DB: db},
+		DB:   rootCachingDB,
 		pp:   pp,
 		tree: tree,
 	}
-- 
2.43.0


From 1001de64da99795086e5d5ce32a075cd18eebc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 03/17] fix: pad the paths of small nine digit ids to the full
 length

Only a single zero was appended, so ids with leading zeros had shorter paths
and their leaves took the place of inner vertices. Also refuse signed numbers,
which shared the paths of other ids.
---
 sparse/tree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index bf984f7..1119454 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -134,7 +134,7 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 	}
 
 	return func(s string) []uint16 {
-		if len(s) != 9 {
+		if len(s) != 9 || s[0] == '+' || s[0] == '-' {
 			panic(fmt.Sprintf("%s is not a 9 digit decimal number", s))
 		}
 		num, err := strconv.ParseInt(s, 10, 32)
@@ -150,7 +150,7 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 		}
 
 		pathLen := DigitPathLen(fanout)
-		if len(res) != pathLen {
+		for len(res) < pathLen {
 			res = append(res, 0)
 		}
 
-- 
2.43.0


From 424ea848afbba0b6b1b056835a2cbde9f79029f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 04/17] fix: bind the digests of a liability proof to its
 aggregated opening

Verify checked the digests only against the vertices in the proof, and the
aggregated opening only against the sum in the proof, but never one against
the other, so a prover could replace everything below the root.
---
 pol/pol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index 85d68b6..c6e3b2f 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -193,6 +193,15 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 		}
 	}
 
+	// Check that the digests that link the vertices are the ones that are opened by the aggregated proof.
+	var t common.Vec
+	for i := range lp.W {
+		t = append(t, pp.RO(publicParams.PPPP, lp.W, i))
+	}
+	if !lp.Digests[:len(t)].InnerProd(t).Equals(lp.PointProofΣ) {
+		return nil, fmt.Errorf("digests do not match the hash chain aggregation proof")
+	}
+
 	if err := pp.VerifyAggregation(publicParams.PPPP, uint16VecToIntVec(path)[:len(path)-1], lp.W, lp.PointProofπ, lp.PointProofΣ, pp.RO); err != nil {
 		return nil, fmt.Errorf("hash chain aggregation proof invalid: %v", err)
 	}
-- 
2.43.0


From 07f02cca38a37792f4c1d558b8c04dc73475f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 05/17] fix: reject liability proofs with missing or additional
 vertices

The liability was opened in the last vertex of the proof, which was not part
of the verified chain if the proof had more vertices than the path, so any
liability could be claimed. Missing vertices or range proofs caused a panic.
---
 pol/pol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pol/pol.go b/pol/pol.go
index c6e3b2f..09164cc 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -128,6 +128,9 @@ func (lp LiabilityProof) Verify(publicParams *PublicParams, id string, V, W *mat
 	if len(lp.W) != expectedDigestNum-1 || len(lp.Digests) != expectedDigestNum {
 		return nil, fmt.Errorf("expected digest proofs of size %d but got %d", expectedDigestNum, len(lp.W))
 	}
+	if len(lp.V) != len(path) || len(lp.RangeProofs) != len(path) {
+		return nil, fmt.Errorf("expected %d vertices and range proofs but got %d and %d", len(path), len(lp.V), len(lp.RangeProofs))
+	}
 
 	// Check that the root is what is advertised.
 	if !lp.V[0].Equals(V) {
-- 
2.43.0


From a43071dabec4a4334449e09ae8985ad6a600ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 06/17] fix: do not accept the negation of a committed value

Exponentiation in Gt ignores the sign of the exponent, so openings (and
through them total and liability proofs) verified for a claimed value of -x
where x was committed, and failed where -x was committed.
---
 pp/pointproofs.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 71658dd..896086d 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -116,7 +116,7 @@ func Open(pp *PP, i int, m common.Vec) (mi *math.Zr, π *math.G1) {
 func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	left := common.G1v{C}.InnerProd(common.G2v{pp.G2s[pp.N-i-1]})
 	right := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right.Mul(pp.Gt.Exp(mi))
+	right.Mul(pp.Gt.Exp(reduce(mi)))
 
 	if left.Equals(right) {
 		return nil
@@ -124,6 +124,14 @@ func Verify(pp *PP, mi *math.Zr, π *math.G1, C *math.G1, i int) error {
 	return fmt.Errorf("%v is not an element in index %d in %v", mi, i, C)
 }
 
+// reduce returns x modulo the group order.
+// The exponentiation in Gt ignores the sign of its exponent.
+func reduce(x *math.Zr) *math.Zr {
+	x = x.Copy()
+	x.Mod(GroupOrder)
+	return x
+}
+
 func Update(pp *PP, C *math.G1, m common.Vec, mi *math.Zr, i int) {
 	prevG := pp.G1s[i].Mul(m[i])
 	nextG := pp.G1s[i].Mul(mi)
@@ -157,7 +165,7 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 	left := commitments.InnerProd(g2s.Mulv(exponents))
 
 	πg2 := common.G1v{π}.InnerProd(common.G2v{c.GenG2})
-	right := pp.Gt.Exp(Σ)
+	right := pp.Gt.Exp(reduce(Σ))
 	right.Mul(πg2)
 
 	if right.Equals(left) {
-- 
2.43.0


From aba6a2bc2afba2f69c121ca9d8694ec7bc555bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 07/17] fix: derive the challenge of the inner product argument
 from its statement

The challenge depended only on the public parameters, as P was dropped from
the hash, so a proof for (P, c) was also accepted for (P - d*x*U, c + d).
---
 bp/innerprod.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a0b44a1..a8baf92 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -104,7 +104,8 @@ func computeInstanceSpecificParams(pp *PP, P *math.G1, c *math.Zr) (*PP, *math.G
 	newPP = *pp
 	var hashPreImage []byte
 	hashPreImage = append(hashPreImage, P.Bytes()...)
-	hashPreImage = append(pp.Digest)
+	hashPreImage = append(hashPreImage, c.Bytes()...)
+	hashPreImage = append(hashPreImage, pp.Digest...)
 
 	x := common.FieldElementFromBytes(common.SHA256Digest(string(hashPreImage)))
 
-- 
2.43.0


From e823e6cb7baa79eac79ded90891bbcb44d54f288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 08/17] fix: do not modify proofs when verifying them

Verifiers stored the commitment they derived in the proof and then verified
it, so concurrent verifications of the same proof could affect each other.
---
 bp/range.go | 7 ++++---
 poe/poe.go  | 7 ++++---
 sum/sa.go   | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/bp/range.go b/bp/range.go
index 7e0f9a9..26905fb 100644
--- a/bp/range.go
+++ b/bp/range.go
@@ -133,9 +133,10 @@ func VerifyRange(pp *RangeProofPublicParams, rp *RangeProof, V *math.G1) error {
 	ipaPP.H = Fprime
 	ipaPP.RecomputeDigest()
 
-	rp.Π.C = rp.c
-	rp.Π.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
-	if err := rp.Π.Verify(ipaPP); err != nil {
+	ipp := *rp.Π
+	ipp.C = rp.c
+	ipp.P = computeP(pp, rp.ρ, rp.Q, rp.R, z, y1v, n, m, Fprime, d, y1)
+	if err := ipp.Verify(ipaPP); err != nil {
 		return fmt.Errorf("inner product proof invalid: %v", err)
 	}
 
diff --git a/poe/poe.go b/poe/poe.go
index 86f151e..a5cdc3a 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -119,10 +119,11 @@ func (e *Equalities) Verify(proof *AggregatedProof) error {
 
 	bpPP.RecomputeDigest()
 
-	proof.IPP.C = proof.c
-	proof.IPP.P = P
+	ipp := *proof.IPP
+	ipp.C = proof.c
+	ipp.P = P
 
-	return proof.IPP.Verify(bpPP)
+	return ipp.Verify(bpPP)
 
 }
 
diff --git a/sum/sa.go b/sum/sa.go
index a341649..b00650d 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -198,9 +198,10 @@ func (proof *Proof) Verify(pp *PP, a *Argument) error {
 
 	ipaPP.RecomputeDigest()
 
-	proof.π.C = proof.c.Mul(x)
-	proof.π.P = P
-	return proof.π.Verify(ipaPP)
+	π := *proof.π
+	π.C = proof.c.Mul(x)
+	π.P = P
+	return π.Verify(ipaPP)
 }
 
 func negZr(x *math.Zr) *math.Zr {
-- 
2.43.0


From 658166d29f1665bf6dfdd60b4bfbc7dbda300208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:22 +0000
Subject: [PATCH 09/17] fix: write the vertices when serializing a verkle tree

Inner vertices hold the key of the vertex in the DB, and not the vertex
itself, so all vertices were serialized as empty.
---
 verkle/tree.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/verkle/tree.go b/verkle/tree.go
index 1c03365..a5bb53e 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -189,11 +189,11 @@ func NewVerkleTree(fanOut uint16, id2Path func(string) []uint16, db DB) *Tree {
 
 func (t *Tree) Serialize(out io.Writer) {
 	t.Tree.Root.Serialize(out, "", func(data interface{}) []byte {
-		_, isVertex := data.(*Vertex)
-		if !isVertex {
+		key, isInnerVertex := data.(string)
+		if !isInnerVertex {
 			return nil
 		}
-		return data.(*Vertex).Bytes()
+		return t.DB.Get([]byte(key))
 	})
 }
 
-- 
2.43.0


From c3ca655fa2b6113468e63ccb2f8c589b6315e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 10/17] fix: refuse signed hexadecimal ids

Repeated division of a negative number never reaches zero, so looking up or
setting an id with a minus sign never returned, and an id with a plus sign
shared the path of the id without it.
---
 sparse/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparse/tree.go b/sparse/tree.go
index 1119454..bfd5ec5 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -222,7 +222,7 @@ func hash(s string) string {
 
 func convertPathWithFanout(s string, fanOut uint16) []uint16 {
 	n, ok := big.NewInt(0).SetString(s, 16)
-	if !ok {
+	if !ok || s[0] == '-' || s[0] == '+' {
 		panic(fmt.Sprintf("failed parsing %s as a hexadecimal number", s))
 	}
 
-- 
2.43.0


From 9d458865e61fb8ee11c035efe0055aadd796ea32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 11/17] fix: refuse unsupported fan-outs instead of looping
 forever

A fan-out of 65535 overflows to zero when incremented, for which the search
for a power of two never ended, and numbers have no representation in base 1.
---
 common/math.go | 2 +-
 sparse/tree.go | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/math.go b/common/math.go
index f1c29e8..13f3724 100644
--- a/common/math.go
+++ b/common/math.go
@@ -496,7 +496,7 @@ func feFrom256Bits(bytes []byte) *fr.Element {
 }
 
 func IsPowerOfTwo(n uint16) bool {
-	if n == 1 {
+	if n <= 1 {
 		return false
 	}
 
diff --git a/sparse/tree.go b/sparse/tree.go
index bfd5ec5..d1b1219 100644
--- a/sparse/tree.go
+++ b/sparse/tree.go
@@ -132,6 +132,9 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 	if !common.IsPowerOfTwo(fanout + 1) {
 		panic(fmt.Sprintf("fanout %d+1 is not a power of two", fanout))
 	}
+	if fanout < 2 {
+		panic(fmt.Sprintf("a fanout of %d is not supported!", fanout))
+	}
 
 	return func(s string) []uint16 {
 		if len(s) != 9 || s[0] == '+' || s[0] == '-' {
@@ -159,6 +162,10 @@ func DigitPath(fanout uint16) func(string) []uint16 {
 }
 
 func DigitPathLen(fanout uint16) int {
+	if fanout < 2 {
+		panic(fmt.Sprintf("a fanout of %d is not supported!", fanout))
+	}
+
 	fo := big.NewInt(0).SetInt64(int64(fanout))
 
 	space := big.NewInt(0).Exp(big.NewInt(10), big.NewInt(9), nil)
-- 
2.43.0


From d92f8b23f1c2af58f638be242d327c43dcf2790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 12/17] fix: serialize a verkle tree that has no vertices yet

---
 verkle/tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/verkle/tree.go b/verkle/tree.go
index a5bb53e..455b22b 100644
--- a/verkle/tree.go
+++ b/verkle/tree.go
@@ -188,6 +188,9 @@ func NewVerkleTree(fanOut uint16, id2Path func(string) []uint16, db DB) *Tree {
 }
 
 func (t *Tree) Serialize(out io.Writer) {
+	if t.Tree.Root == nil {
+		return
+	}
 	t.Tree.Root.Serialize(out, "", func(data interface{}) []byte {
 		key, isInnerVertex := data.(string)
 		if !isInnerVertex {
-- 
2.43.0


From 16f697812967b7830fd2870e14752ee34fc69c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 13/17] fix: give every opening of an aggregate its own weight

The index was hashed as a single byte, so commitments 256 positions apart
shared their weight and the values opened for them could be exchanged.
---
 pp/pointproofs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pp/pointproofs.go b/pp/pointproofs.go
index 896086d..010aca4 100644
--- a/pp/pointproofs.go
+++ b/pp/pointproofs.go
@@ -3,6 +3,7 @@ package pp
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"encoding/binary"
 	"fmt"
 	"pol/common"
 
@@ -178,7 +179,9 @@ func VerifyAggregation(pp *PP, indices []int, commitments common.G1v, π *math.G
 func RO(pp *PP, cs []*math.G1, i int) *math.Zr {
 	h := sha256.New()
 	h.Write(pp.Digest)
-	h.Write([]byte{byte(i)})
+	index := make([]byte, 4)
+	binary.BigEndian.PutUint32(index, uint32(i))
+	h.Write(index)
 	for j := 0; j < len(cs); j++ {
 		h.Write(cs[j].Bytes())
 	}
-- 
2.43.0


From bac88af4dfa14c31d04de56ac6a0c5e65dea879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 14/17] fix: count the inner product proof in the size of a sum
 argument

---
 sum/sa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sum/sa.go b/sum/sa.go
index b00650d..7be46c7 100644
--- a/sum/sa.go
+++ b/sum/sa.go
@@ -103,7 +103,7 @@ func createHVZKChallenge(V common.G1v, m int) common.Vec {
 }
 
 func (proof *Proof) Size() int {
-	return len(proof.c.Bytes()) + len(proof.W.Bytes()) + len(proof.ρ.Bytes())
+	return len(proof.c.Bytes()) + len(proof.W.Bytes()) + len(proof.ρ.Bytes()) + proof.π.Size()
 }
 
 func (proof *Proof) VerifyAggregated(pp *PP, V common.G1v) error {
-- 
2.43.0


From e1884302effbc57f15fefda408a9bc7ff357a9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 15/17] fix: count the opening of the liability in the size of
 a proof

---
 pol/pol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pol/pol.go b/pol/pol.go
index 09164cc..87df93f 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -114,7 +114,7 @@ type LiabilityProof struct {
 }
 
 func (lp LiabilityProof) Size() int {
-	size := len(lp.PointProofΣ.Bytes()) + len(lp.PointProofπ.Bytes()) + lp.SumArgumentProof.Size() + len(lp.V.Bytes()) + len(lp.W.Bytes()) + lp.Digests.Size()
+	size := len(lp.PointProofΣ.Bytes()) + len(lp.PointProofπ.Bytes()) + lp.SumArgumentProof.Size() + len(lp.V.Bytes()) + len(lp.W.Bytes()) + lp.Digests.Size() + len(lp.LiabilityProof.LiabilityProof.Bytes())
 	for _, rp := range lp.RangeProofs {
 		size += rp.Size()
 	}
-- 
2.43.0


From 1732bd4cd56d21df458e1ca2c80cdfe97e2f1757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 16/17] fix: count the shared vector commitment parameters
 once, not never

---
 pol/pol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pol/pol.go b/pol/pol.go
index 87df93f..afebfaf 100644
--- a/pol/pol.go
+++ b/pol/pol.go
@@ -45,7 +45,7 @@ type PublicParams struct {
 }
 
 func (pp *PublicParams) Size() int {
-	return pp.RPPP.Size() + pp.POEPP.Size() + pp.SAPP.Size() - len(pp.SAPP.Gs.Bytes()) - len(pp.SAPP.F.Bytes()) - len(pp.RPPP.Gs.Bytes()) - len(pp.RPPP.F.Bytes()) - pp.PPPP.Size()
+	return pp.RPPP.Size() + pp.POEPP.Size() + pp.SAPP.Size() - len(pp.SAPP.Gs.Bytes()) - len(pp.SAPP.F.Bytes()) - len(pp.RPPP.Gs.Bytes()) - len(pp.RPPP.F.Bytes())
 }
 
 // NewLiabilitySet creates a liability set with the given fanout and tree type.
-- 
2.43.0


From f64ea7910c943acb60bae6afb3f8dbcb545aac93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 17/17] fix: refuse proofs whose lists are too short or too
 long

Short lists made the verifiers of inner products and reductions read beyond
the end; in parallel mode that panic ended the process. Entries beyond what
the rounds consume were ignored, as were commitments beyond those of the
equality argument.
---
 bp/innerprod.go | 8 ++++++++
 bp/ir.go        | 5 +++++
 poe/poe.go      | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/bp/innerprod.go b/bp/innerprod.go
index a8baf92..c706a7a 100644
--- a/bp/innerprod.go
+++ b/bp/innerprod.go
@@ -140,6 +140,10 @@ func (ipp *InnerProductProof) Verify(pp *PP) error {
 // verify implements the verifier's side in protocol 2.
 func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *math.Zr) error {
 	if len(g) == 1 {
+		if len(LRs) != 0 {
+			return fmt.Errorf("%d cross terms are left after the last round", len(LRs))
+		}
+
 		expectedP := pp.U.Mul(a.Mul(b))
 		expectedP.Add(g[0].Mul(a))
 		expectedP.Add(h[0].Mul(b))
@@ -150,6 +154,10 @@ func verify(pp *PP, P *math.G1, g, h common.G1v, LRs []*math.G1, a *math.Zr, b *
 		return nil
 	}
 
+	if len(LRs) < 2 {
+		return fmt.Errorf("expected two cross terms per round but only %d are left", len(LRs))
+	}
+
 	L := LRs[0]
 	R := LRs[1]
 	LRs = LRs[2:]
diff --git a/bp/ir.go b/bp/ir.go
index fa956cb..95aa183 100644
--- a/bp/ir.go
+++ b/bp/ir.go
@@ -3,6 +3,7 @@ package bp
 import (
 	"crypto/sha256"
 	"fmt"
+	"math/bits"
 	"pol/common"
 
 	math "github.com/IBM/mathlib"
@@ -22,6 +23,10 @@ func IterativeVerify(pp *PP, prevV *math.G1, Δ [][3]*math.G1, vFinal *math.Zr)
 
 	var finalV *math.G1
 
+	if len(Δ) != bits.Len(uint(n)) {
+		return nil, nil, fmt.Errorf("expected %d reduction rounds but got %d", bits.Len(uint(n)), len(Δ))
+	}
+
 	for n > 0 {
 		A, B, V := Δ[0][0], Δ[0][1], Δ[0][2]
 		x := common.FieldElementFromBytes(appendVToChallenge(randomOracle(A, B, pp.Digest), prevV))
diff --git a/poe/poe.go b/poe/poe.go
index a5cdc3a..7a0b6ca 100644
--- a/poe/poe.go
+++ b/poe/poe.go
@@ -69,6 +69,10 @@ func (ap *AggregatedProof) Size() int {
 }
 
 func (e *Equalities) Verify(proof *AggregatedProof) error {
+	if len(proof.Vaggr) != len(e.V) || len(proof.Waggr) != len(e.W) {
+		return fmt.Errorf("expected %d and %d aggregated commitments but got %d and %d", len(e.V), len(e.W), len(proof.Vaggr), len(proof.Waggr))
+	}
+
 	var groupElements common.G1v
 	groupElements = append(groupElements, proof.Vaggr...)
 	groupElements = append(groupElements, proof.Waggr...)
-- 
2.43.0

