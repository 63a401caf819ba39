From 82a844e3f778db79e421201f91a640aeee2d4214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 01/38] fix: ecc: majority decoding must replace the candidate
 when its votes are exhausted

---
 lib/ecc/ecc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/ecc/ecc.go b/lib/ecc/ecc.go
index 40c2e8f..782cc7b 100644
--- a/lib/ecc/ecc.go
+++ b/lib/ecc/ecc.go
@@ -22,9 +22,13 @@ func (e *ECC) Encode(in uint32) []uint32 {
 
 // Boyer-Moore Majority Vote algorithm
 func (e *ECC) Decode(in []uint32) (uint32, error) {
-	decoded := in[0]
-	votes := 1
-	for i := 1; i < len(in); i++ {
+	var decoded uint32
+	votes := 0
+	for i := range in {
+		if votes == 0 {
+			// no candidate left, the current symbol is the new one
+			decoded = in[i]
+		}
 		if in[i] == decoded {
 			votes++
 		} else {
-- 
2.43.0


From ec2a15b07d8eb8271877afc15befd59a525ef6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 02/38] fix: client: refuse point queries to a single server or
 outside of the database

---
 lib/client/client.go    | 8 +++++---
 lib/client/fss.go       | 3 +++
 lib/client/pir_point.go | 9 ++++++++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index bf4c9cc..88c51d6 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -86,9 +86,11 @@ func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state)
 	return sum, nil
 }
 
-// return true if the query inputs are invalid for IT schemes
-func invalidQueryInputsIT(index, numServers int) bool {
-	return index < 0 && numServers < 2
+// return true if the query inputs are invalid for IT schemes, i.e., if the
+// index does not belong to the database or if there are not enough servers to
+// hide it
+func invalidQueryInputsIT(index, numServers int, dbInfo *database.Info) bool {
+	return index < 0 || index >= dbInfo.NumRows*dbInfo.NumColumns || numServers < 2
 }
 
 func invalidQueryInputsFSS(numServers int) bool {
diff --git a/lib/client/fss.go b/lib/client/fss.go
index 1a8fa45..9d5dbe1 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -27,6 +27,9 @@ func (c *clientFSS) queryBytes(in []byte, numServers int) ([][]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if invalidQueryInputsFSS(numServers) {
+		return nil, errors.New("invalid query inputs")
+	}
 
 	queries := c.query(inQuery, numServers)
 
diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index 1be9dc8..b010f94 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math/bits"
@@ -36,7 +37,13 @@ func NewPIR(rnd io.Reader, info *database.Info) *PIR {
 
 // QueryBytes is wrapper around Query to implement the Client interface
 func (c *PIR) QueryBytes(in []byte, numServers int) ([][]byte, error) {
+	if len(in) < 4 {
+		return nil, errors.New("invalid query index encoding")
+	}
 	index := int(binary.BigEndian.Uint32(in))
+	if invalidQueryInputsIT(index, numServers, c.dbInfo) {
+		return nil, errors.New("invalid query inputs")
+	}
 	return c.Query(index, numServers), nil
 }
 
@@ -44,7 +51,7 @@ func (c *PIR) QueryBytes(in []byte, numServers int) ([][]byte, error) {
 // servers. This function performs both vector and rebalanced query depending
 // on the database representation
 func (c *PIR) Query(index int, numServers int) [][]byte {
-	if invalidQueryInputsIT(index, numServers) {
+	if invalidQueryInputsIT(index, numServers, c.dbInfo) {
 		log.Fatal("invalid query inputs")
 	}
 	// set the client state. The entries specific to VPIR are not used
-- 
2.43.0


From 16b408e96a465ea4bfedfb362d6c698d2cf90e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 03/38] fix: merkle: proofs for identical pieces of data are
 bound to their position

---
 lib/database/merkle.go   |  8 ++++--
 lib/merkle/merkletree.go | 59 +++++++++++++++++++++++-----------------
 2 files changed, 39 insertions(+), 28 deletions(-)

diff --git a/lib/database/merkle.go b/lib/database/merkle.go
index 6ff9493..f386121 100644
--- a/lib/database/merkle.go
+++ b/lib/database/merkle.go
@@ -78,7 +78,7 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 		}
 		replyTo := make(chan []byte, 1)
 		replies[i] = replyTo
-		generateMerkleProofs(blocks[begin:end], tree, blockLen, replyTo)
+		generateMerkleProofs(blocks[begin:end], begin, tree, blockLen, replyTo)
 	}
 
 	for j, reply := range replies {
@@ -90,10 +90,12 @@ func makeMerkleEntries(blocks [][]byte, tree *merkle.MerkleTree, nRows, nColumns
 	return output
 }
 
-func generateMerkleProofs(data [][]byte, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
+// generateMerkleProofs appends to every block its proof; first is the position
+// in the tree of the first block
+func generateMerkleProofs(data [][]byte, first int, t *merkle.MerkleTree, blockLen int, reply chan<- []byte) {
 	result := make([]byte, 0, blockLen*len(data))
 	for b := 0; b < len(data); b++ {
-		p, err := t.GenerateProof(data[b])
+		p, err := t.GenerateProofAt(uint32(first + b))
 		if err != nil {
 			log.Fatalf("error while generating proof for block %v: %v", b, err)
 		}
diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2939a4b..2db25f8 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -17,8 +17,10 @@ package merkle
 import (
 	"encoding/binary"
 	"errors"
-	"hash/fnv"
 	"math"
+	"math/bits"
+
+	"lukechampine.com/blake3"
 )
 
 // MerkleTree is the structure for the Merkle tree.
@@ -26,28 +28,29 @@ type MerkleTree struct {
 	// hash is a pointer to the hashing struct
 	hash HashType
 	// data is the data from which the Merkle tree is created
-	// data are stored as a map from the actual data encoded to string to
+	// data are stored as a map from the digest of the actual data to
 	// the index of the data in the tree
-	data map[uint64]uint32
+	data map[[32]byte]uint32
+	// dataLen is the number of pieces of data, which can be larger than the
+	// number of entries in data when some of them are identical
+	dataLen int
 	// nodes are the leaf and branch nodes of the Merkle tree
 	nodes [][]byte
 }
 
-func hashFNV1a64(data []byte) uint64 {
-	h := fnv.New64a()
-	if _, err := h.Write(data); err != nil {
-		panic(err)
-	}
-	return h.Sum64()
-}
-
 func (t *MerkleTree) indexOf(input []byte) (uint32, error) {
-	if i, ok := t.data[hashFNV1a64(input)]; ok {
+	if i, ok := t.data[blake3.Sum256(input)]; ok {
 		return i, nil
 	}
 	return 0, errors.New("data not found")
 }
 
+// depth returns the number of hashes in a proof, i.e., the number of levels
+// between the leaves (padded to a power of two) and the root
+func (t *MerkleTree) depth() int {
+	return bits.Len(uint(len(t.nodes)/2)) - 1
+}
+
 // GenerateProof generates the proof for a piece of data.
 // If the data is not present in the tree this will return an error.
 // If the data is present in the tree this will return the hashes for each level in the tree and the index of the value in the tree
@@ -58,8 +61,18 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 		return nil, err
 	}
 
-	proofLen := int(math.Ceil(math.Log2(float64(len(t.data)))))
-	hashes := make([][]byte, proofLen)
+	return t.GenerateProofAt(index)
+}
+
+// GenerateProofAt generates the proof for the piece of data at the given
+// position. In contrast to GenerateProof, it distinguishes between the
+// positions of identical pieces of data.
+func (t *MerkleTree) GenerateProofAt(index uint32) (*Proof, error) {
+	if int(index) >= t.dataLen {
+		return nil, errors.New("index out of range")
+	}
+
+	hashes := make([][]byte, t.depth())
 
 	cur := 0
 	minI := uint32(math.Pow(2, float64(1))) - 1
@@ -74,7 +87,7 @@ func (t *MerkleTree) GenerateProof(data []byte) (*Proof, error) {
 // 4 bytes are for how many hashes are in the path, 8 bytes for embedding the index
 // in the tree (see proof.go for details).
 func (t *MerkleTree) EncodedProofLength() int {
-	return int(math.Ceil(math.Log2(float64(len(t.data)))))*t.hash.HashLength() + numHashesByteSize + indexByteSize
+	return t.depth()*t.hash.HashLength() + numHashesByteSize + indexByteSize
 }
 
 // New creates a new Merkle tree using the provided raw data and default hash type.
@@ -93,19 +106,14 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 	branchesLen := int(math.Exp2(math.Ceil(math.Log2(float64(len(data))))))
 
 	// map with the original data to easily loop up the index
-	md := make(map[uint64]uint32, len(data))
-	hashForNodes := fnv.New64a()
+	md := make(map[[32]byte]uint32, len(data))
 	// We pad our data length up to the power of 2
 	nodes := make([][]byte, branchesLen+len(data)+(branchesLen-len(data)))
 	// Leaves
 	for i := range data {
 		ib := indexToBytes(i)
 		nodes[i+branchesLen] = hash.Hash(data[i], ib)
-		if _, err := hashForNodes.Write(data[i]); err != nil {
-			return nil, err
-		}
-		md[hashForNodes.Sum64()] = uint32(i)
-		hashForNodes.Reset()
+		md[blake3.Sum256(data[i])] = uint32(i)
 	}
 	for i := len(data) + branchesLen; i < len(nodes); i++ {
 		nodes[i] = make([]byte, hash.HashLength())
@@ -117,9 +125,10 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 	}
 
 	tree := &MerkleTree{
-		hash:  hash,
-		nodes: nodes,
-		data:  md,
+		hash:    hash,
+		nodes:   nodes,
+		data:    md,
+		dataLen: len(data),
 	}
 
 	return tree, nil
-- 
2.43.0


From a67b0ccc3915501e61aa87ee4640bc1b04e67194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 04/38] fix: database: removing the padding of an empty block
 must not panic

---
 lib/database/pgp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index afa975c..01214a9 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -171,11 +171,16 @@ func PadWithSignalByte(block []byte) []byte {
 	return append(block, byte(0x80))
 }
 
+// UnPadBlock removes the padding from the block. The result is empty if the
+// block is not padded, e.g., if there is no data in it.
 func UnPadBlock(block []byte) []byte {
 	// remove zeros
 	block = bytes.TrimRightFunc(block, func(b rune) bool {
 		return b == 0
 	})
+	if len(block) == 0 || block[len(block)-1] != 0x80 {
+		return nil
+	}
 	// remove 0x80 preceding zeros
 	return block[:len(block)-1]
 }
-- 
2.43.0


From 9fb0a695cee0498245a3ef53d0640e117505505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 05/38] fix: merkle: reject malformed proofs and indices
 outside of the tree

---
 lib/merkle/proof.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 49159ad..3ac5cda 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -53,6 +53,11 @@ func VerifyProof(data []byte, proof *Proof, root []byte) (bool, error) {
 //
 // This returns true if the proof is verified, otherwise false.
 func VerifyProofUsing(data []byte, proof *Proof, root []byte, hashType HashType) (bool, error) {
+	// the index must belong to a tree with as many levels as there are hashes,
+	// otherwise a branch node can be presented as a leaf
+	if proof == nil || uint64(proof.Index)>>uint(len(proof.Hashes)) != 0 {
+		return false, nil
+	}
 	proofHash := generateProofHash(data, proof, hashType)
 	if bytes.Equal(root, proofHash) {
 		return true, nil
@@ -77,12 +82,21 @@ func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	return proofHash
 }
 
+// DecodeProof decodes a proof encoded by EncodeProof. It returns nil if the
+// input is not the encoding of a proof.
 func DecodeProof(p []byte) *Proof {
+	hashLength := uint32(32) // blake3
+	if len(p) < numHashesByteSize+indexByteSize {
+		return nil
+	}
+
 	// number of hashes
 	numHashes := binary.LittleEndian.Uint32(p[:numHashesByteSize])
+	if uint64(len(p)) != numHashesByteSize+uint64(numHashes)*uint64(hashLength)+indexByteSize {
+		return nil
+	}
 
 	// hashes
-	hashLength := uint32(32) // blake3
 	hashes := make([][]byte, numHashes)
 	for i := uint32(0); i < numHashes; i++ {
 		hashes[i] = p[4+hashLength*i : 4+hashLength*(i+1)]
-- 
2.43.0


From 976752a18f4f33eda97a8585ba2450d358d8b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:00 +0000
Subject: [PATCH 06/38] fix: client: accept authenticated records only for the
 queried index and reject malformed answers

---
 lib/client/client.go    | 28 ++++++++++++++++++++++------
 lib/client/pir_point.go |  5 +++--
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 88c51d6..5a4a4a1 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -2,7 +2,6 @@ package client
 
 import (
 	"errors"
-	"log"
 
 	"github.com/cloudflare/circl/group"
 	"github.com/lukechampine/fastxor"
@@ -20,8 +19,9 @@ type Client interface {
 // state of the client, used for all the schemes.
 type state struct {
 	// only used for Merkle tree-based approach and classic PIR
-	ix int
-	iy int
+	ix         int
+	iy         int
+	numServers int
 
 	// for multi-server
 	alphas []uint32 // four alphas to meet desired soundness
@@ -56,14 +56,20 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 			return block, err
 		}
 		block = database.UnPadBlock(block)
+		if len(block) < dbInfo.ProofLen {
+			return nil, errors.New("REJECT!")
+		}
 		data := block[:len(block)-dbInfo.ProofLen]
 
-		// check Merkle proof
+		// check Merkle proof, which must be the one for the queried index
 		encodedProof := block[len(block)-dbInfo.ProofLen:]
 		proof := merkle.DecodeProof(encodedProof)
+		if proof == nil || uint64(proof.Index) != uint64(state.ix*dbInfo.NumColumns+state.iy) {
+			return nil, errors.New("REJECT!")
+		}
 		verified, err := merkle.VerifyProof(data, proof, dbInfo.Root)
 		if err != nil {
-			log.Fatalf("impossible to verify proof: %v", err)
+			return nil, err
 		}
 		if !verified {
 			return nil, errors.New("REJECT!")
@@ -71,15 +77,25 @@ func reconstructPIR(answers [][]byte, dbInfo *database.Info, state *state) ([]by
 
 		return data, nil
 	default:
-		panic("unknown PIRType")
+		return nil, errors.New("unknown PIRType")
 	}
 }
 
 func reconstructValuePIR(answers [][]byte, dbInfo *database.Info, state *state) ([]byte, error) {
 	// sum answers as vectors in GF(2)
+	if state == nil {
+		return nil, errors.New("no query to reconstruct the answers for")
+	}
+	if len(answers) != state.numServers {
+		return nil, errors.New("invalid number of answers")
+	}
+
 	bs := dbInfo.BlockSize
 	sum := make([]byte, bs)
 	for k := range answers {
+		if len(answers[k]) != dbInfo.NumRows*bs {
+			return nil, errors.New("invalid answer length")
+		}
 		fastxor.Bytes(sum, sum, answers[k][state.ix*bs:bs*(state.ix+1)])
 	}
 
diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index b010f94..eafd3ad 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -57,8 +57,9 @@ func (c *PIR) Query(index int, numServers int) [][]byte {
 	// set the client state. The entries specific to VPIR are not used
 	ix, iy := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	c.state = &state{
-		ix: ix,
-		iy: iy,
+		ix:         ix,
+		iy:         iy,
+		numServers: numServers,
 	}
 
 	if numServers == 2 {
-- 
2.43.0


From 1517b589c13715b5ee0999f129e0ad350e92939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 07/38] fix: field: the conversion of bytes to an element must
 be deterministic and canonical

---
 lib/field/field.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/lib/field/field.go b/lib/field/field.go
index a26387e..498c5ce 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -19,29 +19,23 @@ const (
 
 func NegateVector(in []uint32) []uint32 {
 	for i := range in {
-		in[i] = ModP - in[i]
+		in[i] = (ModP - in[i]) % ModP
 	}
 
 	return in
 }
 
 // Element converts input bytes into a field toElement.
-// It sources a new random byte string in the rare case
-// when the input bytes convert to ModP
+// The conversion must be deterministic, since different parties expand the same
+// bytes, and thus in the rare case when the input bytes convert to ModP
+// they are reduced to 0.
 func toElement(in []byte) uint32 {
-	// Clearing the top most bit of uint32
-	in[0] &= Mask
-	// Take the first Bytes bytes
+	// Take the first Bytes bytes, clearing the top most bit of uint32
 	//out := *(*uint32)(unsafe.Pointer(&in))
-	out := binary.BigEndian.Uint32(in[:Bytes])
+	out := binary.BigEndian.Uint32(in[:Bytes]) & ModP
 	// Make sure that toElement is not equal 2^31 - 1
-	for out == ModP {
-		var buf [Bytes]byte
-		_, err := utils.RandomPRG().Read(buf[:])
-		if err != nil {
-			panic("error in randomness")
-		}
-		out = binary.BigEndian.Uint32(buf[:])
+	if out == ModP {
+		out = 0
 	}
 	return out
 }
-- 
2.43.0


From ed7e7903ba44be5a6d9c7cc5875e342f3cd136a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 08/38] fix: fss: mask every output element

convertBlock expanded only len(out)/4 AES blocks and left the remaining
elements at zero (or at the content of a previous call), so the last MAC key
was sent in the clear to both servers in the final correction word.
---
 lib/fss/client.go |  1 -
 lib/fss/common.go | 21 +++++++++++++++++----
 lib/fss/server.go |  1 -
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/fss/client.go b/lib/fss/client.go
index 9d2ebbf..9b11932 100644
--- a/lib/fss/client.go
+++ b/lib/fss/client.go
@@ -30,7 +30,6 @@ func ClientInitialize(blockLength int) *Fss {
 	f.N = 256 // maximum number of bits supported by FSS
 	f.Temp = make([]byte, aes.BlockSize)
 	f.Out = make([]byte, aes.BlockSize*initPRFLen)
-	f.OutConvertBlock = make([]byte, blockLength*field.Bytes)
 
 	return f
 }
diff --git a/lib/fss/common.go b/lib/fss/common.go
index 0cb95eb..8ff8961 100644
--- a/lib/fss/common.go
+++ b/lib/fss/common.go
@@ -19,8 +19,7 @@ type Fss struct {
 	Temp        []byte // temporary slices so that we only need to allocate memory at the beginning
 	Out         []byte
 
-	BlockLength     int    // block length in number of elements
-	OutConvertBlock []byte // to gather random bytes in convertBlock, allocate once for performance
+	BlockLength int // block length in number of elements
 }
 
 // Structs for keys
@@ -67,6 +66,20 @@ func prf(x []byte, aesBlocks []cipher.Block, numBlocks uint, temp, out []byte) {
 
 func convertBlock(f Fss, x []byte, out []uint32) {
 	// we can generate four uint32 numbers with a 16-bytes AES block
-	prf(x, f.FixedBlocks, uint(len(out)/4), f.Temp, f.OutConvertBlock)
-	field.BytesToElements(out, f.OutConvertBlock)
+	elements := aes.BlockSize / field.Bytes
+	in := make([]byte, aes.BlockSize)
+	copy(in, x)
+	for i := 0; i*elements < len(out); i++ {
+		key := i % len(f.FixedBlocks)
+		if i > 0 && key == 0 {
+			// all the keys are already used, change the input
+			in[0]++
+		}
+		prf(in, f.FixedBlocks[key:], 1, f.Temp, f.Out)
+		end := (i + 1) * elements
+		if end > len(out) {
+			end = len(out)
+		}
+		field.BytesToElements(out[i*elements:end], f.Out)
+	}
 }
diff --git a/lib/fss/server.go b/lib/fss/server.go
index ea404c2..49fdf4a 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -26,7 +26,6 @@ func ServerInitialize(blockLength int) *Fss {
 	f.N = 256 // maximum number of bits supported by FSS
 	f.Temp = make([]byte, aes.BlockSize)
 	f.Out = make([]byte, aes.BlockSize*len(PrfKeys))
-	f.OutConvertBlock = make([]byte, blockLength*field.Bytes)
 
 	return f
 }
-- 
2.43.0


From 247e09cb3d28a09449d27ad8086400b26bc92ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 09/38] fix: fss: concurrent evaluations must not share the
 temporary slices

---
 lib/fss/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/fss/server.go b/lib/fss/server.go
index 49fdf4a..d33caf4 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -33,6 +33,10 @@ func ServerInitialize(blockLength int) *Fss {
 func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 	// reinitialize f.NumBits because we have different input lengths
 	f.NumBits = uint(len(x))
+	// every evaluation has its own temporary slices: the servers answer
+	// multiple queries concurrently with the same Fss
+	f.Temp = make([]byte, len(f.Temp))
+	f.Out = make([]byte, len(f.Out))
 
 	sCurr := make([]byte, aes.BlockSize)
 	copy(sCurr, k.SInit)
-- 
2.43.0


From ab55bab82061e76db2910b50c8b42545e9d96f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 10/38] fix: client: the shape of the predicate answers is
 given by the query

The client deduced from the length of the first answer whether the query was
an average, so a server could truncate its answer to have the count accepted as
the average; missing or short answers and averages over no entry panicked.
---
 lib/client/client.go |  5 +++++
 lib/client/fss.go    | 29 +++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/lib/client/client.go b/lib/client/client.go
index 5a4a4a1..b268252 100644
--- a/lib/client/client.go
+++ b/lib/client/client.go
@@ -6,6 +6,7 @@ import (
 	"github.com/cloudflare/circl/group"
 	"github.com/lukechampine/fastxor"
 	"github.com/si-co/vpir-code/lib/database"
+	"github.com/si-co/vpir-code/lib/field"
 	"github.com/si-co/vpir-code/lib/merkle"
 	"github.com/si-co/vpir-code/lib/utils"
 )
@@ -26,6 +27,7 @@ type state struct {
 	// for multi-server
 	alphas []uint32 // four alphas to meet desired soundness
 	a      []uint32 // cointains [1, alpha_i], i = 0, .., 3
+	avg    bool     // whether the answers contain both the count and the sum
 
 	// for single-server (DH)
 	r  group.Scalar
@@ -38,6 +40,9 @@ func decodeAnswer(in [][]byte) ([][]uint32, error) {
 	// decode all the answers one by one
 	answer := make([][]uint32, len(in))
 	for i, a := range in {
+		if len(a)%field.Bytes != 0 {
+			return nil, errors.New("invalid answer length")
+		}
 		answer[i] = utils.ByteSliceToUint32Slice(a)
 	}
 
diff --git a/lib/client/fss.go b/lib/client/fss.go
index 9d5dbe1..538824f 100644
--- a/lib/client/fss.go
+++ b/lib/client/fss.go
@@ -27,6 +27,9 @@ func (c *clientFSS) queryBytes(in []byte, numServers int) ([][]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if inQuery.Info == nil {
+		return nil, errors.New("query without info")
+	}
 	if invalidQueryInputsFSS(numServers) {
 		return nil, errors.New("invalid query inputs")
 	}
@@ -53,7 +56,7 @@ func (c *clientFSS) query(q *query.ClientFSS, numServers int) []*query.FSS {
 	}
 
 	// set client state
-	c.state = &state{}
+	c.state = &state{avg: q.Avg}
 	c.state.alphas = make([]uint32, c.executions)
 	c.state.a = make([]uint32, c.executions)
 	c.state.a[0] = 1 // to retrieve data
@@ -84,8 +87,26 @@ func (c *clientFSS) reconstructBytes(answers [][]byte) (interface{}, error) {
 }
 
 func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
+	if c.state == nil {
+		return 0, errors.New("no query to reconstruct the answers for")
+	}
+	if len(answers) != 2 {
+		return 0, errors.New("invalid number of answers")
+	}
+	// the length of the answers depends only on the query: it must not be
+	// chosen by the servers
+	answerLen := c.executions
+	if c.state.avg {
+		answerLen = 2 * c.executions
+	}
+	for _, answer := range answers {
+		if len(answer) != answerLen {
+			return 0, errors.New("invalid answer length")
+		}
+	}
+
 	// AVG case
-	if len(answers[0]) == 2*c.executions {
+	if c.state.avg {
 		countFirst := answers[0][:c.executions]
 		countSecond := answers[1][:c.executions]
 		sumFirst := answers[0][c.executions:]
@@ -114,6 +135,10 @@ func (c *clientFSS) reconstruct(answers [][]uint32) (uint32, error) {
 			}
 		}
 
+		if dataCount == 0 {
+			return 0, errors.New("average over zero entries")
+		}
+
 		return sumCount / dataCount, nil
 
 	} else {
-- 
2.43.0


From 636acbf88ddac262fd4f7b17654aa467f0032a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 11/38] fix: server: reject predicate queries that cannot be
 evaluated

Malformed FSS keys, unsupported predicates and invalid substrings panicked in
the server.
---
 lib/server/fss.go | 55 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 55 insertions(+)

diff --git a/lib/server/fss.go b/lib/server/fss.go
index dd2a920..330fd2f 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -2,7 +2,9 @@ package server
 
 import (
 	"bytes"
+	"crypto/aes"
 	"encoding/gob"
+	"errors"
 	"time"
 
 	"github.com/si-co/vpir-code/lib/database"
@@ -33,12 +35,65 @@ func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
 		return nil, err
 	}
 
+	if err := checkQueryFSS(query, len(out)); err != nil {
+		return nil, err
+	}
+
 	// get answer
 	a := s.answer(query, out, tmp)
 
 	return utils.Uint32SliceToByteSlice(a), nil
 }
 
+// checkQueryFSS verifies that a query received from the network can be
+// evaluated, i.e. that the predicate is supported and that the FSS key covers
+// the whole input of the predicate and all the values of the output.
+func checkQueryFSS(q *query.FSS, numValues int) error {
+	if q == nil || q.Info == nil {
+		return errors.New("query without info")
+	}
+	if q.FromStart < 0 || q.FromEnd < 0 {
+		return errors.New("invalid query substring")
+	}
+	if q.Sum || (q.Avg && !q.And) {
+		return errors.New("query not recognized")
+	}
+
+	// length of the input in bytes
+	length := 16
+	if q.FromStart != 0 {
+		length = q.FromStart
+	} else if q.FromEnd != 0 {
+		length = q.FromEnd
+	}
+	if q.And && !q.Avg {
+		length += 4 // year
+	} else if !q.And {
+		switch q.Target {
+		case query.UserId:
+		case query.PubKeyAlgo:
+			length = 1
+		case query.CreationTime:
+			length = 15
+		default:
+			return errors.New("target not recognized")
+		}
+	}
+
+	key := q.FssKey
+	if len(key.SInit) != aes.BlockSize || len(key.FinalCW) != numValues ||
+		len(key.CW)%8 != 0 || len(key.CW)/8 != length {
+		return errors.New("invalid FSS key")
+	}
+	for i := range key.CW {
+		if len(key.CW[i]) != aes.BlockSize+2 {
+			return errors.New("invalid FSS key")
+		}
+	}
+
+	return nil
+}
+
 func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 	numIdentifiers := s.db.NumColumns
 
-- 
2.43.0


From 88bc72dc461a673fcae5c69bb53eeb806edc6786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 12/38] fix: query: the year and the creation time must not
 depend on the time zone

The client, the servers and the key may carry different locations: the same
instant was encoded (or counted) differently by each of them.
---
 lib/query/query.go | 5 +++--
 lib/server/fss.go  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/query/query.go b/lib/query/query.go
index e150f60..6760773 100644
--- a/lib/query/query.go
+++ b/lib/query/query.go
@@ -191,7 +191,8 @@ func (i *Info) IdForPubKeyAlgo(pka packet.PublicKeyAlgorithm) []bool {
 }
 
 func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
-	binaryMatch, err := t.MarshalBinary()
+	// the encoding must not depend on the location of the parties
+	binaryMatch, err := t.UTC().MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
@@ -199,7 +200,7 @@ func (i *Info) IdForCreationTime(t time.Time) ([]bool, error) {
 }
 
 func (i *Info) IdForYearCreationTime(t time.Time) ([]bool, error) {
-	y := uint32(t.Year())
+	y := uint32(t.UTC().Year())
 	b := make([]byte, 4)
 	binary.BigEndian.PutUint32(b, y)
 	return utils.ByteToBits(b), nil
diff --git a/lib/server/fss.go b/lib/server/fss.go
index 330fd2f..43f4bba 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -171,7 +171,7 @@ func (s *serverFSS) answer(q *query.FSS, out, tmp []uint32) []uint32 {
 			s.fss.EvaluatePF(s.serverNum, q.FssKey, in, tmp)
 
 			// compute difference in years between now and creation time
-			diffYears := time.Now().Year() - s.db.KeysInfo[i].CreationTime.Year()
+			diffYears := time.Now().UTC().Year() - s.db.KeysInfo[i].CreationTime.UTC().Year()
 			if diffYears < 0 {
 				// some keys are malformed (creation time 2040, 2106, 2031), remove them
 				continue
-- 
2.43.0


From 11f3e0f9753f3649f4ef8eb73fcc74dec9303ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 13/38] fix: dh: encode the identity with the same length as
 the other elements

The digest of (and the answer for) a row without any bit set is the identity,
which P-256 encodes in one byte: all the following rows were misread. Creating
a database with less rows than routines also panicked.
---
 lib/client/dh.go         | 10 +++++-----
 lib/database/elliptic.go | 32 ++++++++++++++++++++++++++------
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 07983bf..4c6afb9 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -79,14 +79,14 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 		return nil, err
 	}
 	m := g.Identity()
+	digests, err := database.UnmarshalGroupElements(c.dbInfo.SubDigests, c.dbInfo.Group, digSize)
+	if err != nil {
+		return nil, err
+	}
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
 		// get the row digest and raise it to a power r
-		d := g.NewElement()
-		err = d.UnmarshalBinary(c.dbInfo.SubDigests[i*digSize : (i+1)*digSize])
-		if err != nil {
-			return nil, err
-		}
+		d := digests[i]
 		d.Mul(d, rneg)
 		m.Add(d, answer[i])
 		if !m.IsIdentity() && !m.IsEqual(c.state.ht) {
diff --git a/lib/database/elliptic.go b/lib/database/elliptic.go
index ccdd2d2..6878dc0 100644
--- a/lib/database/elliptic.go
+++ b/lib/database/elliptic.go
@@ -1,8 +1,10 @@
 package database
 
 import (
+	"bytes"
 	"crypto"
 	"encoding/binary"
+	"errors"
 	"io"
 	"log"
 	"math"
@@ -38,6 +40,10 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 	var begin, end int
 	for i := 0; i < NGoRoutines; i++ {
 		begin, end = i*rowsPerRoutine, (i+1)*rowsPerRoutine
+		// with few rows, the last routines have nothing to process
+		if begin > numRows {
+			begin = numRows
+		}
 		// make the last routine take all the left-over (from division) rows
 		if end > numRows {
 			end = numRows
@@ -73,7 +79,8 @@ func CreateRandomEllipticWithDigest(rnd io.Reader, dbLen int, g group.Group, reb
 }
 
 func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h crypto.Hash, replyTo chan<- []byte) {
-	digs := make([]byte, 0, (end-begin)*h.Size())
+	elemSize := getGroupElementSize(g)
+	digs := make([]byte, 0, (end-begin)*elemSize)
 	for i := begin; i < end; i++ {
 		d := g.Identity()
 		for j := 0; j < rowLen; j++ {
@@ -81,7 +88,7 @@ func computeDigests(begin, end int, data []byte, rowLen int, g group.Group, h cr
 				d.Add(d, HashIndexToGroup(uint64(j), g))
 			}
 		}
-		tmp, err := d.MarshalBinaryCompress()
+		tmp, err := MarshalGroupElements([]group.Element{d}, elemSize)
 		if err != nil {
 			log.Fatal(err)
 		}
@@ -105,7 +112,9 @@ func CommitScalarToIndex(x group.Scalar, j uint64, g group.Group) group.Element
 	return g.NewElement().Mul(H, x)
 }
 
-// Marshal a slice of group elements
+// Marshal a slice of group elements. All the elements are encoded with the same
+// length: the identity, whose encoding is shorter in some of the groups, is
+// padded with zeros.
 func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error) {
 	encoded := make([]byte, 0, marshalledLen*len(q))
 	for _, el := range q {
@@ -114,6 +123,9 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 			return nil, err
 		}
 		encoded = append(encoded, tmp...)
+		if len(tmp) < marshalledLen {
+			encoded = append(encoded, make([]byte, marshalledLen-len(tmp))...)
+		}
 	}
 	return encoded, nil
 }
@@ -121,12 +133,20 @@ func MarshalGroupElements(q []group.Element, marshalledLen int) ([]byte, error)
 // Unmarshal a slice of group elements
 func UnmarshalGroupElements(q []byte, g group.Group, elemSize int) ([]group.Element, error) {
 	var err error
+	if len(q)%elemSize != 0 {
+		return nil, errors.New("invalid length of the encoded group elements")
+	}
+	zeros := make([]byte, elemSize)
 	decoded := make([]group.Element, 0, len(q)/elemSize)
 	for i := 0; i < len(q); i += elemSize {
 		elem := g.NewElement()
-		err = elem.UnmarshalBinary(q[i : i+elemSize])
-		if err != nil {
-			return nil, err
+		if bytes.Equal(q[i:i+elemSize], zeros) {
+			elem = g.Identity()
+		} else {
+			err = elem.UnmarshalBinary(q[i : i+elemSize])
+			if err != nil {
+				return nil, err
+			}
 		}
 		decoded = append(decoded, elem)
 	}
-- 
2.43.0


From 1f75a4866667cfcf62cf42649527157f70cbeb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 14/38] fix: dh: reject malformed queries and answers instead
 of panicking

---
 lib/client/dh.go | 9 +++++++++
 lib/server/dh.go | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/lib/client/dh.go b/lib/client/dh.go
index 4c6afb9..3127c2a 100644
--- a/lib/client/dh.go
+++ b/lib/client/dh.go
@@ -38,6 +38,9 @@ func NewDH(rnd io.Reader, info *database.Info) *DH {
 // the query for the server encoded in bytes
 func (c *DH) QueryBytes(index int) ([]byte, error) {
 	g := c.dbInfo.Group
+	if index < 0 || index >= c.dbInfo.NumRows*c.dbInfo.NumColumns {
+		return nil, errors.New("query index out of bound")
+	}
 
 	// sample two random scalars
 	r, t := g.RandomScalar(c.rnd), g.RandomScalar(c.rnd)
@@ -70,6 +73,9 @@ func (c *DH) QueryBytes(index int) ([]byte, error) {
 }
 
 func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
+	if c.state == nil {
+		return nil, errors.New("no query to reconstruct the answer for")
+	}
 	g := c.dbInfo.Group
 	digSize := c.dbInfo.ElementSize
 	rneg := g.NewScalar().Neg(c.state.r)
@@ -83,6 +89,9 @@ func (c *DH) ReconstructBytes(a []byte) (interface{}, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(answer) != c.dbInfo.NumRows || len(digests) != c.dbInfo.NumRows {
+		return nil, errors.New("invalid number of elements in the answer")
+	}
 	var res byte
 	for i := 0; i < c.dbInfo.NumRows; i++ {
 		// get the row digest and raise it to a power r
diff --git a/lib/server/dh.go b/lib/server/dh.go
index 772c33b..5dafd99 100644
--- a/lib/server/dh.go
+++ b/lib/server/dh.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"math"
 
 	"github.com/cloudflare/circl/group"
@@ -21,6 +22,9 @@ func (s *DH) AnswerBytes(q []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(query) != s.db.NumColumns {
+		return nil, errors.New("invalid number of elements in the query")
+	}
 
 	NGoRoutines := 1
 	// make sure that we do not need up with routines processing 0 elements
-- 
2.43.0


From d8f276b13b12f11f8210207dd665d5128696d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 15/38] fix: matrix: random matrices must not extend past their
 data

The slice of a random matrix kept the length in bytes of the buffer: its encoding
and its length were four times too long and read outside of the allocated memory.
---
 lib/matrix/matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 4774d85..5004db6 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -109,7 +109,9 @@ func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 	m := New(r, c)
 
 	// ugly hack for performance
-	m.data = *(*[]uint32)(unsafe.Pointer(&b))
+	if len(m.data) > 0 {
+		m.data = unsafe.Slice((*uint32)(unsafe.Pointer(&b[0])), len(m.data))
+	}
 
 	return m
 }
-- 
2.43.0


From 7768ea99a7319049d996fc4de947121a54c1df27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 16/38] fix: lattice schemes: reject malformed queries and
 answers instead of panicking

---
 lib/client/amplify.go   |  9 ++++++++-
 lib/client/lwe.go       | 10 ++++++++++
 lib/client/lwe128.go    | 10 ++++++++++
 lib/matrix/matrix.go    | 26 ++++++++++++++++++++++++++
 lib/matrix/matrix128.go |  4 ++++
 lib/server/amplify.go   | 14 +++++++++++++-
 lib/server/lwe.go       |  9 ++++++++-
 lib/server/lwe128.go    |  9 ++++++++-
 8 files changed, 87 insertions(+), 4 deletions(-)

diff --git a/lib/client/amplify.go b/lib/client/amplify.go
index 18ac684..72f5790 100644
--- a/lib/client/amplify.go
+++ b/lib/client/amplify.go
@@ -38,7 +38,11 @@ func (a *Amplify) Query(i, j int) []*matrix.Matrix {
 }
 
 func (a *Amplify) QueryBytes(index int) ([]byte, error) {
-	i, j := utils.VectorToMatrixIndices(index, a.lwes[0].dbInfo.NumColumns)
+	dbInfo := a.lwes[0].dbInfo
+	if index < 0 || index >= dbInfo.NumRows*dbInfo.NumColumns {
+		return nil, errors.New("query index out of bound")
+	}
+	i, j := utils.VectorToMatrixIndices(index, dbInfo.NumColumns)
 	ms := a.Query(i, j)
 
 	// encode
@@ -46,6 +50,9 @@ func (a *Amplify) QueryBytes(index int) ([]byte, error) {
 }
 
 func (a *Amplify) Reconstruct(answers []*matrix.Matrix) (uint32, error) {
+	if len(answers) != a.repetitions {
+		return 0, errors.New("invalid number of answers")
+	}
 	outputs := make([]uint32, a.repetitions)
 	var err error
 	for i := range outputs {
diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index 4e03463..a7398ed 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -66,12 +66,22 @@ func (c *LWE) Query(i, j int) *matrix.Matrix {
 }
 
 func (c *LWE) QueryBytes(index int) ([]byte, error) {
+	if index < 0 || index >= c.dbInfo.NumRows*c.dbInfo.NumColumns {
+		return nil, errors.New("query index out of bound")
+	}
 	i, j := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	m := c.Query(i, j)
 	return matrix.MatrixToBytes(m), nil
 }
 
 func (c *LWE) Reconstruct(answers *matrix.Matrix) (uint32, error) {
+	if c.state == nil {
+		return 0, errors.New("no query to reconstruct the answer for")
+	}
+	if answers == nil || answers.Rows() != 1 || answers.Cols() != c.params.M {
+		return 0, errors.New("invalid answer")
+	}
+
 	s_trans_d := matrix.Mul(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 1835bdf..29b9abc 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -67,12 +67,22 @@ func (c *LWE128) Query(i, j int) *matrix.Matrix128 {
 }
 
 func (c *LWE128) QueryBytes(index int) ([]byte, error) {
+	if index < 0 || index >= c.dbInfo.NumRows*c.dbInfo.NumColumns {
+		return nil, errors.New("query index out of bound")
+	}
 	i, j := utils.VectorToMatrixIndices(index, c.dbInfo.NumColumns)
 	m := c.Query(i, j)
 	return matrix.Matrix128ToBytes(m), nil
 }
 
 func (c *LWE128) Reconstruct(answers *matrix.Matrix128) (uint32, error) {
+	if c.state == nil {
+		return 0, errors.New("no query to reconstruct the answer for")
+	}
+	if answers == nil || answers.Rows() != 1 || answers.Cols() != c.params.M {
+		return 0, errors.New("invalid answer")
+	}
+
 	s_trans_d := matrix.Mul128(c.state.secret, c.state.digest)
 	answers.Sub(s_trans_d)
 
diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 5004db6..148e654 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -47,7 +47,22 @@ func MatrixToBytes(in *Matrix) []byte {
 	return append(params, utils.Uint32SliceToByteSlice(in.data)...)
 }
 
+// validEncoding verifies that an encoding contains exactly all the elements of
+// the matrix whose dimensions it announces
+func validEncoding(in []byte, elementSize int) bool {
+	if len(in) < 8 || (len(in)-8)%elementSize != 0 {
+		return false
+	}
+	rows := uint64(binary.BigEndian.Uint32(in[:4]))
+	cols := uint64(binary.BigEndian.Uint32(in[4:8]))
+	return rows*cols == uint64((len(in)-8)/elementSize)
+}
+
+// BytesToMatrix decodes a matrix, it returns nil if the encoding is malformed
 func BytesToMatrix(in []byte) *Matrix {
+	if !validEncoding(in, 4) {
+		return nil
+	}
 	// retrieve the matrix dimensions
 	r := in[:4]
 	rows := int(binary.BigEndian.Uint32(r))
@@ -83,9 +98,17 @@ func MatricesToBytes(in []*Matrix) []byte {
 	return out
 }
 
+// BytesToMatrices decodes a list of matrices, it returns nil if the encoding is
+// malformed
 func BytesToMatrices(in []byte) []*Matrix {
+	if len(in) < 4 {
+		return nil
+	}
 	// retrieve length of single encoded matrix
 	length := int(binary.BigEndian.Uint32(in[:4]))
+	if length == 0 || (len(in)-4)%length != 0 {
+		return nil
+	}
 
 	// how many matrices?
 	n := uint32((len(in) - 4) / length)
@@ -94,6 +117,9 @@ func BytesToMatrices(in []byte) []*Matrix {
 
 	for i := range out {
 		out[i] = BytesToMatrix(in[4+i*length : 4+(i+1)*length])
+		if out[i] == nil {
+			return nil
+		}
 	}
 
 	return out
diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index a0f6ab2..4a7da85 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -43,7 +43,11 @@ func Matrix128ToBytes(in *Matrix128) []byte {
 	return append(params, out...)
 }
 
+// BytesToMatrix128 decodes a matrix, it returns nil if the encoding is malformed
 func BytesToMatrix128(in []byte) *Matrix128 {
+	if !validEncoding(in, 16) {
+		return nil
+	}
 	// retrieve the matrix dimensions
 	rows := int(binary.BigEndian.Uint32(in[:4]))
 	cols := int(binary.BigEndian.Uint32(in[4:]))
diff --git a/lib/server/amplify.go b/lib/server/amplify.go
index aaaaabb..d9f503c 100644
--- a/lib/server/amplify.go
+++ b/lib/server/amplify.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -29,7 +31,17 @@ func (a *Amplify) Answer(qq []*matrix.Matrix) []*matrix.Matrix {
 }
 
 func (a *Amplify) AnswerBytes(qq []byte) ([]byte, error) {
-	ans := a.Answer(matrix.BytesToMatrices(qq))
+	queries := matrix.BytesToMatrices(qq)
+	if len(queries) == 0 {
+		return nil, errors.New("invalid query")
+	}
+	for _, q := range queries {
+		// every query is a vector with one element for each row of the database
+		if q.Rows() != 1 || q.Cols() != a.lwe.db.NumRows {
+			return nil, errors.New("invalid query")
+		}
+	}
+	ans := a.Answer(queries)
 
 	// encode
 	return matrix.MatricesToBytes(ans), nil
diff --git a/lib/server/lwe.go b/lib/server/lwe.go
index 8cc167d..8ab1595 100644
--- a/lib/server/lwe.go
+++ b/lib/server/lwe.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -18,7 +20,12 @@ func (s *LWE) DBInfo() *database.Info {
 }
 
 func (s *LWE) AnswerBytes(q []byte) ([]byte, error) {
-	a := s.Answer(matrix.BytesToMatrix(q))
+	m := matrix.BytesToMatrix(q)
+	// the query is a vector with one element for each row of the database
+	if m == nil || m.Rows() != 1 || m.Cols() != s.db.NumRows {
+		return nil, errors.New("invalid query")
+	}
+	a := s.Answer(m)
 	return matrix.MatrixToBytes(a), nil
 }
 
diff --git a/lib/server/lwe128.go b/lib/server/lwe128.go
index caed9cb..434c22d 100644
--- a/lib/server/lwe128.go
+++ b/lib/server/lwe128.go
@@ -1,6 +1,8 @@
 package server
 
 import (
+	"errors"
+
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
 )
@@ -18,7 +20,12 @@ func (s *LWE128) DBInfo() *database.Info {
 }
 
 func (s *LWE128) AnswerBytes(q []byte) ([]byte, error) {
-	a := s.Answer(matrix.BytesToMatrix128(q))
+	m := matrix.BytesToMatrix128(q)
+	// the query is a vector with one element for each row of the database
+	if m == nil || m.Rows() != 1 || m.Cols() != s.db.NumRows {
+		return nil, errors.New("invalid query")
+	}
+	a := s.Answer(m)
 	return matrix.Matrix128ToBytes(a), nil
 }
 
-- 
2.43.0


From 60a93e946996d7dd21db221eed882c205be8193a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 17/38] fix: server: reject point queries of the wrong length

A short bit vector or DPF key panicked in the server.
---
 lib/server/point.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/server/point.go b/lib/server/point.go
index 86e0031..7dfd56e 100644
--- a/lib/server/point.go
+++ b/lib/server/point.go
@@ -1,6 +1,7 @@
 package server
 
 import (
+	"errors"
 	"math/bits"
 	"runtime"
 
@@ -48,9 +49,27 @@ func (s *PIR) DBInfo() *database.Info {
 
 // AnswerBytes computes the answer for the given query encoded in bytes
 func (s *PIR) AnswerBytes(q []byte) ([]byte, error) {
+	if len(q) != s.queryLen() {
+		return nil, errors.New("invalid query length")
+	}
 	return s.Answer(q), nil
 }
 
+// queryLen returns the length in bytes of a query, i.e. of a DPF key for two
+// servers and of a vector with one bit per column otherwise
+func (s *PIR) queryLen() int {
+	if s.numServers != 2 {
+		return s.db.NumColumns/8 + 1
+	}
+	// seed and bit of the root, one correction word for each level of the tree
+	// (the last seven levels are packed in a block) and final correction word
+	levels := bits.Len(uint(s.db.NumColumns)) - 7
+	if levels < 0 {
+		levels = 0
+	}
+	return 17 + 18*levels + 16
+}
+
 // Answer computes the answer for the given query
 func (s *PIR) Answer(q []byte) []byte {
 	nRows := s.db.NumRows
-- 
2.43.0


From 9bbd2f69ecd612310feb0e3edfe641d6d7a86a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 18/38] fix: database: the hash table has at least one block

With less than ten keys the key databases had no block at all, which panicked
when mapping the keys to the blocks.
---
 lib/database/pgp.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/database/pgp.go b/lib/database/pgp.go
index 01214a9..039db11 100644
--- a/lib/database/pgp.go
+++ b/lib/database/pgp.go
@@ -62,7 +62,7 @@ func GenerateRealKeyBytes(dataPaths []string, rebalanced bool) (*Bytes, error) {
 	sortById(keys)
 
 	// decide on the length of the hash table
-	preSquareNumBlocks := int(float32(len(keys)) * numKeysToDBLengthRatio)
+	preSquareNumBlocks := numBlocks(len(keys))
 	numRows, numColumns := CalculateNumRowsAndColumns(preSquareNumBlocks, rebalanced)
 
 	ht := makeHashTable(keys, numRows*numColumns)
@@ -101,7 +101,7 @@ func GenerateRealKeyMerkle(dataPaths []string, rebalanced bool) (*Bytes, error)
 	sortById(keys)
 
 	// decide on the length of the hash table
-	preSquareNumBlocks := int(float32(len(keys)) * numKeysToDBLengthRatio)
+	preSquareNumBlocks := numBlocks(len(keys))
 	numRows, numColumns := CalculateNumRowsAndColumns(preSquareNumBlocks, rebalanced)
 	ht := makeHashTable(keys, numRows*numColumns)
 
@@ -146,6 +146,16 @@ func GenerateRealKeyMerkle(dataPaths []string, rebalanced bool) (*Bytes, error)
 	return m, nil
 }
 
+// numBlocks returns the length of the hash table for the given number of keys,
+// which is at least one
+func numBlocks(numKeys int) int {
+	n := int(float32(numKeys) * numKeysToDBLengthRatio)
+	if n == 0 {
+		return 1
+	}
+	return n
+}
+
 func makeHashTable(keys []*pgp.Key, tableLen int) map[int][]byte {
 	// prepare db
 	db := make(map[int][]byte)
-- 
2.43.0


From 5dbd62ef04eaa4d2b395b60eb4a05b690b598150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 19/38] fix: utils: reject configurations with missing or
 negative server indices

---
 lib/utils/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/utils/config.go b/lib/utils/config.go
index 29686fe..8cf8617 100644
--- a/lib/utils/config.go
+++ b/lib/utils/config.go
@@ -35,6 +35,9 @@ func LoadConfig(configFile string) (*Config, error) {
 		if err != nil {
 			return nil, xerrors.Errorf("could not convert server index to integer: %v", err)
 		}
+		if i < 0 || i >= len(addresses) || addresses[i] != "" {
+			return nil, xerrors.Errorf("server indices must be consecutive and start from 0: %d", i)
+		}
 		addresses[i] = fmt.Sprintf("%s:%d", server.IP, server.Port)
 	}
 	c.Addresses = addresses
-- 
2.43.0


From eaee169ce70ac9f8557dbb453844e015e285705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 20/38] fix: server: use the two-server scheme when two servers
 are configured

The clients send DPF keys when there are two servers, but the server always
interpreted the point queries as bit vectors.
---
 cmd/grpc/server/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 904ca46..646c55a 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -139,10 +139,15 @@ func main() {
 	var s server.Server
 	switch *scheme {
 	case "pointPIR", "pointVPIR":
+		// the clients send DPF keys if there are exactly two servers
+		newPIR := server.NewPIR
+		if len(config.Addresses) == 2 {
+			newPIR = server.NewPIRTwo
+		}
 		if *cores != -1 && *experiment {
-			s = server.NewPIR(dbBytes, *cores)
+			s = newPIR(dbBytes, *cores)
 		} else {
-			s = server.NewPIR(dbBytes)
+			s = newPIR(dbBytes)
 		}
 	case "complexPIR":
 		if *cores != -1 && *experiment {
-- 
2.43.0


From adec65a64b08ddf972cd53d5a6651e096a5ddbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 21/38] fix: server: answer the pending queries before shutting
 down

Stopping the worker closed the channel of the queries while the queries were
still being received, which panicked; a canceled query waited for a slot.
---
 cmd/grpc/server/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/server/main.go b/cmd/grpc/server/main.go
index 646c55a..cb8463c 100644
--- a/cmd/grpc/server/main.go
+++ b/cmd/grpc/server/main.go
@@ -214,8 +214,9 @@ func main() {
 	case err := <-errCh:
 		log.Fatalf("failed to serve: %v", err)
 	case <-sigCh:
-		server.stopWorker()
+		// the worker is needed to answer the pending queries
 		rpcServer.GracefulStop()
+		server.stopWorker()
 		lis.Close()
 		log.Println("clean shutdown of server done")
 	}
@@ -264,7 +265,12 @@ func (s *vpirServer) Query(ctx context.Context, qr *proto.QueryRequest) (
 
 	answerCh := make(chan []byte, 1)
 	errorCh := make(chan error, 1)
-	s.queryChan <- queryWrapper{qr, answerCh, errorCh}
+	select {
+	case s.queryChan <- queryWrapper{qr, answerCh, errorCh}:
+	case <-ctx.Done():
+		log.Printf("Context deadline exceeded - canceled?")
+		return nil, context.DeadlineExceeded
+	}
 
 	select {
 	case answer := <-answerCh:
-- 
2.43.0


From 0d46211c4616ebf82bee1c4698576c5846907742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 22/38] fix: clients: compare the authentication information
 announced by the servers

A single server could announce another Merkle root, or no authentication at
all, and have it used by the client.
---
 cmd/grpc/client/main.go            | 6 +++++-
 cmd/grpc/client/manager/mod.go     | 6 +++++-
 simulations/multi/client/client.go | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 883a931..70ffda4 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"errors"
@@ -449,7 +450,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			//info[0].IDLength != info[i].IDLength ||
 			//info[0].KeyLength != info[i].KeyLength {
 			return false
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 3b3b09c..92b68fd 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -1,6 +1,7 @@
 package manager
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"fmt"
@@ -172,7 +173,10 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 	for i := range dbInfo {
 		if dbInfo[0].NumRows != dbInfo[i].NumRows ||
 			dbInfo[0].NumColumns != dbInfo[i].NumColumns ||
-			dbInfo[0].BlockSize != dbInfo[i].BlockSize {
+			dbInfo[0].BlockSize != dbInfo[i].BlockSize ||
+			dbInfo[0].PIRType != dbInfo[i].PIRType ||
+			dbInfo[0].ProofLen != dbInfo[i].ProofLen ||
+			!bytes.Equal(dbInfo[0].Root, dbInfo[i].Root) {
 
 			return nil, xerrors.Errorf("db not equal: %v", dbInfo)
 		}
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 2e9889d..25731c8 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"encoding/binary"
 	"flag"
@@ -335,7 +336,10 @@ func equalDBInfo(info []*database.Info) bool {
 	for i := range info {
 		if info[0].NumRows != info[i].NumRows ||
 			info[0].NumColumns != info[i].NumColumns ||
-			info[0].BlockSize != info[i].BlockSize {
+			info[0].BlockSize != info[i].BlockSize ||
+			info[0].PIRType != info[i].PIRType ||
+			info[0].ProofLen != info[i].ProofLen ||
+			!bytes.Equal(info[0].Root, info[i].Root) {
 			return false
 		}
 	}
-- 
2.43.0


From b60c55a8d6e3a85f207a1577d982fe15fbf2089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 23/38] fix: clients: send every query to the server it is
 generated for

The queries were sent in the iteration order of a map. For the predicate
schemes, exchanging the queries of the two servers negates the result, which
is accepted since the tags are negated as well.
---
 cmd/grpc/client/main.go            | 10 ++++++----
 simulations/multi/client/client.go | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index 70ffda4..d92a200 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -128,6 +128,9 @@ func (lc *localClient) connectToServers() error {
 	// connect to servers and store connections
 	lc.connections = make(map[string]*grpc.ClientConn)
 	for _, s := range lc.config.Addresses {
+		if _, ok := lc.connections[s]; ok {
+			return xerrors.Errorf("duplicate server address: %s", s)
+		}
 		conn, err := connectToServer(creds, s)
 		if err != nil {
 			return xerrors.Errorf("failed to connect: %v", err)
@@ -398,14 +401,13 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the queries are not interchangeable: the j-th one is for the j-th server
+	for j, address := range lc.config.Addresses {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[address])
 	}
 	wg.Wait()
 	close(resCh)
diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 25731c8..1409821 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -260,6 +260,9 @@ func (lc *localClient) connectToServers(numServers int) error {
 	// connect to servers and store connections
 	lc.connections = make(map[string]*grpc.ClientConn)
 	for _, s := range lc.config.Addresses[0:numServers] {
+		if _, ok := lc.connections[s]; ok {
+			return xerrors.Errorf("duplicate server address: %s", s)
+		}
 		conn, err := connectToServer(creds, s)
 		if err != nil {
 			return xerrors.Errorf("failed to connect: %v", err)
@@ -373,14 +376,13 @@ func (lc *localClient) runQueries(queries [][]byte) [][]byte {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(lc.connections))
-	j := 0
-	for _, conn := range lc.connections {
+	// the queries are not interchangeable: the j-th one is for the j-th server
+	for j, address := range lc.config.Addresses[:len(lc.connections)] {
 		wg.Add(1)
 		go func(j int, conn *grpc.ClientConn) {
 			resCh <- queryServer(subCtx, conn, lc.callOptions, queries[j])
 			wg.Done()
-		}(j, conn)
-		j++
+		}(j, lc.connections[address])
 	}
 	wg.Wait()
 	close(resCh)
-- 
2.43.0


From b7b0688247173d0f42abfe268e1fc38e0e38ece1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 24/38] fix: web: do not show a count when the query failed

---
 cmd/grpc/client/web/mod.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 519746f..f4c60e4 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -335,6 +335,7 @@ func getHandleCountAlgo(actor manager.Actor) func(w http.ResponseWriter, req *ht
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
@@ -366,6 +367,7 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 		if err != nil {
 			http.Error(w, fmt.Sprintf("failed to execute count query: %v", err),
 				http.StatusInternalServerError)
+			return
 		}
 
 		w.Write([]byte(fmt.Sprintf("count: %d", count)))
-- 
2.43.0


From 347df0277db26607efbf735a50ce18db9ab32225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 25/38] fix: web: an invalid year must not terminate the server

---
 cmd/grpc/client/web/mod.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index f4c60e4..59dda2d 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"net/http"
 	"os"
+	"strconv"
 	"strings"
 	"time"
 
@@ -356,6 +357,10 @@ func getHandleCountTimestamp(actor manager.Actor) func(w http.ResponseWriter, re
 			http.Error(w, "year argument not found", http.StatusBadRequest)
 			return
 		}
+		if _, err := strconv.Atoi(year); err != nil {
+			http.Error(w, "invalid year", http.StatusBadRequest)
+			return
+		}
 
 		info := &query.Info{
 			Target: query.CreationTime,
-- 
2.43.0


From 169e351ea40b1a71fabcb647e253cdb6b23100a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 26/38] fix: fss: evaluate all the bits of inputs longer than
 256 bits

The bit at position 256 of the input was taken as zero by the evaluation but
not by the key generation, so that predicates on more than 32 bytes of an
e-mail were never satisfied when this bit was set.
---
 lib/fss/server.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/fss/server.go b/lib/fss/server.go
index d33caf4..2871735 100644
--- a/lib/fss/server.go
+++ b/lib/fss/server.go
@@ -44,11 +44,9 @@ func (f Fss) EvaluatePF(serverNum byte, k FssKeyEq2P, x []bool, out []uint32) {
 	tmp := make([]uint32, len(out))
 	for i := uint(0); i < f.NumBits; i++ {
 		var xBit byte = 0
-		if i != f.N {
-			// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
-			if x[i] {
-				xBit = 1
-			}
+		// original: xBit = byte(getBit(x, (f.N - f.NumBits + i + 1), f.N))
+		if x[i] {
+			xBit = 1
 		}
 
 		prf(sCurr, f.FixedBlocks, 3, f.Temp, f.Out)
-- 
2.43.0


From 55b3440302c67adbca01453a499d41686c7d0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 27/38] fix: lwe128: accept only the remainders within the
 noise bound

---
 lib/client/lwe128.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/lwe128.go b/lib/client/lwe128.go
index 29b9abc..3d428d4 100644
--- a/lib/client/lwe128.go
+++ b/lib/client/lwe128.go
@@ -106,7 +106,7 @@ func (c *LWE128) ReconstructBytes(a []byte) (uint32, error) {
 }
 
 func (c *LWE128) inRange(val uint128.Uint128) bool {
-	// max is q-1, so we add + 1 to B
-	tmp := uint128.Max.Sub(uint128.From64(uint64(c.params.B + 1)))
+	// max is q-1, so we subtract 1 from B to get q-B
+	tmp := uint128.Max.Sub(uint128.From64(uint64(c.params.B - 1)))
 	return val.Cmp64(uint64(c.params.B)) == -1 || val.Cmp(tmp) == 1
 }
-- 
2.43.0


From d74704d11614b5228a6da5cb121e23a5b7f07c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:22 +0000
Subject: [PATCH 28/38] fix: server: reject predicate queries followed by other
 bytes

---
 lib/server/fss.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/server/fss.go b/lib/server/fss.go
index 43f4bba..250c72f 100644
--- a/lib/server/fss.go
+++ b/lib/server/fss.go
@@ -35,6 +35,9 @@ func (s *serverFSS) answerBytes(q []byte, out, tmp []uint32) ([]byte, error) {
 		return nil, err
 	}
 
+	if buf.Len() != 0 {
+		return nil, errors.New("invalid query length")
+	}
 	if err := checkQueryFSS(query, len(out)); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1a007ff346bc52f04f93e753a470035ac8c73a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:29 +0000
Subject: [PATCH 29/38] fix: pgp: report key files with zeroed parts as damaged

---
 data/main.go   | 9 ++++++++-
 lib/pgp/pgp.go | 8 +++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/data/main.go b/data/main.go
index 068a357..5e88529 100644
--- a/data/main.go
+++ b/data/main.go
@@ -2,6 +2,7 @@
 package main
 
 import (
+	"bufio"
 	"encoding/gob"
 	"flag"
 	"fmt"
@@ -81,7 +82,8 @@ func splitFullDumpIntoChunks(path, out string) error {
 		return xerrors.Errorf("failed to open path: %v", err)
 	}
 
-	decoder := gob.NewDecoder(f)
+	reader := bufio.NewReader(f)
+	decoder := gob.NewDecoder(reader)
 
 	var encoder *gob.Encoder
 	numWrittenBytes := 0
@@ -111,6 +113,11 @@ func splitFullDumpIntoChunks(path, out string) error {
 		// Decoding the serialized data
 		if err = decoder.Decode(key); err != nil {
 			if err == io.EOF {
+				// the decoder also stops at zeroed parts of the file
+				if _, err = reader.ReadByte(); err != io.EOF {
+					return xerrors.Errorf("damaged key file: %s", path)
+				}
+
 				break
 			}
 
diff --git a/lib/pgp/pgp.go b/lib/pgp/pgp.go
index 4c4462f..0895097 100644
--- a/lib/pgp/pgp.go
+++ b/lib/pgp/pgp.go
@@ -1,6 +1,7 @@
 package pgp
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/gob"
 	"encoding/hex"
@@ -173,12 +174,17 @@ func LoadKeysFromDisk(files []string) ([]*Key, error) {
 		if err != nil {
 			return nil, err
 		}
-		decoder := gob.NewDecoder(f)
+		reader := bufio.NewReader(f)
+		decoder := gob.NewDecoder(reader)
 		for {
 			key := new(Key)
 			// Decoding the serialized data
 			if err = decoder.Decode(key); err != nil {
 				if err == io.EOF {
+					// the decoder also stops at zeroed parts of the file
+					if _, err = reader.ReadByte(); err != io.EOF {
+						return nil, errors.New("damaged key file: " + file)
+					}
 					break
 				}
 				return nil, err
-- 
2.43.0


From 05481cd141ec101b931db2909a1669e46e967311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 30/38] fix: manager: report the failure of a server instead of
 exiting

---
 cmd/grpc/client/interactive/mod.go |  5 ++-
 cmd/grpc/client/manager/mod.go     | 71 ++++++++++++++++--------------
 cmd/grpc/client/web/mod.go         |  5 ++-
 3 files changed, 46 insertions(+), 35 deletions(-)

diff --git a/cmd/grpc/client/interactive/mod.go b/cmd/grpc/client/interactive/mod.go
index 85d20b6..abde546 100644
--- a/cmd/grpc/client/interactive/mod.go
+++ b/cmd/grpc/client/interactive/mod.go
@@ -454,7 +454,10 @@ func executeStatsQuery(clientQuery *query.ClientFSS, actor manager.Actor) (uint3
 		return 0, xerrors.Errorf("failed to query bytes: %v", err)
 	}
 
-	answers := actor.RunQueries(queries)
+	answers, err := actor.RunQueries(queries)
+	if err != nil {
+		return 0, xerrors.Errorf("failed to run queries: %v", err)
+	}
 
 	result, err := client.ReconstructBytes(answers)
 	if err != nil {
diff --git a/cmd/grpc/client/manager/mod.go b/cmd/grpc/client/manager/mod.go
index 92b68fd..0535af1 100644
--- a/cmd/grpc/client/manager/mod.go
+++ b/cmd/grpc/client/manager/mod.go
@@ -88,27 +88,9 @@ func (a *Actor) GetKey(id string, dbInfo database.Info, client *client.PIR) (str
 	log.Printf("done with queries computation")
 
 	// send queries to servers
-	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
-	defer cancel()
-
-	wg := sync.WaitGroup{}
-	resCh := make(chan []byte, len(a.servers))
-
-	for i, srv := range a.servers {
-		wg.Add(1)
-		go func(srv server, query []byte) {
-			resCh <- srv.query(ctx, query)
-			wg.Done()
-		}(srv, queries[i])
-	}
-
-	wg.Wait()
-	close(resCh)
-
-	// combinate answers of all the servers
-	answers := make([][]byte, 0)
-	for v := range resCh {
-		answers = append(answers, v)
+	answers, err := a.RunQueries(queries)
+	if err != nil {
+		return "", xerrors.Errorf("error when querying servers: %v", err)
 	}
 
 	// reconstruct block
@@ -149,19 +131,30 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan database.Info, len(a.servers))
+	errCh := make(chan error, len(a.servers))
 
 	for _, srv := range a.servers {
 		wg.Add(1)
 		go func(srv server) {
 			defer wg.Done()
 
-			info := srv.getDBInfo(ctx)
+			info, err := srv.getDBInfo(ctx)
+			if err != nil {
+				errCh <- err
+				return
+			}
 			resCh <- info
 		}(srv)
 	}
 
 	wg.Wait()
 	close(resCh)
+	close(errCh)
+
+	// a description is used only if all the servers have given it
+	if err := <-errCh; err != nil {
+		return nil, err
+	}
 
 	dbInfo := make([]database.Info, 0, len(resCh))
 
@@ -188,24 +181,36 @@ func (a *Actor) GetDBInfos() ([]database.Info, error) {
 }
 
 // RunQueries dispatch queries in parallel to all servers. It then combines the
-// answers.
-func (a *Actor) RunQueries(queries [][]byte) [][]byte {
+// answers. It fails if one of the servers does not answer.
+func (a *Actor) RunQueries(queries [][]byte) ([][]byte, error) {
 	ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
 	defer cancel()
 
 	wg := sync.WaitGroup{}
 	resCh := make(chan []byte, len(a.servers))
+	errCh := make(chan error, len(a.servers))
 
 	for i, srv := range a.servers {
 		wg.Add(1)
 		go func(srv server, query []byte) {
-			resCh <- srv.query(ctx, query)
-			wg.Done()
+			defer wg.Done()
+
+			answer, err := srv.query(ctx, query)
+			if err != nil {
+				errCh <- err
+				return
+			}
+			resCh <- answer
 		}(srv, queries[i])
 	}
 
 	wg.Wait()
 	close(resCh)
+	close(errCh)
+
+	if err := <-errCh; err != nil {
+		return nil, err
+	}
 
 	// combinate answers of all the servers
 	q := make([][]byte, 0)
@@ -213,7 +218,7 @@ func (a *Actor) RunQueries(queries [][]byte) [][]byte {
 		q = append(q, v)
 	}
 
-	return q
+	return q, nil
 }
 
 // server represents a remote server
@@ -224,30 +229,30 @@ type server struct {
 }
 
 // query performs a query on the server
-func (s server) query(ctx context.Context, query []byte) []byte {
+func (s server) query(ctx context.Context, query []byte) ([]byte, error) {
 	c := proto.NewVPIRClient(s.conn)
 	q := &proto.QueryRequest{Query: query}
 
 	answer, err := c.Query(ctx, q, s.opts...)
 	if err != nil {
-		log.Fatalf("could not query %s: %v",
+		return nil, xerrors.Errorf("could not query %s: %v",
 			s.conn.Target(), err)
 	}
 
 	log.Printf("sent query to %s", s.conn.Target())
 	log.Printf("query size in bytes %d", len(query))
 
-	return answer.GetAnswer()
+	return answer.GetAnswer(), nil
 }
 
 // getDBInfo returns DB info about the server
-func (s server) getDBInfo(ctx context.Context) database.Info {
+func (s server) getDBInfo(ctx context.Context) (database.Info, error) {
 	c := proto.NewVPIRClient(s.conn)
 	q := &proto.DatabaseInfoRequest{}
 
 	answer, err := c.DatabaseInfo(ctx, q, s.opts...)
 	if err != nil {
-		log.Fatalf("could not send database info request to %s: %v",
+		return database.Info{}, xerrors.Errorf("could not send database info request to %s: %v",
 			s.conn.Target(), err)
 	}
 
@@ -261,5 +266,5 @@ func (s server) getDBInfo(ctx context.Context) database.Info {
 		Merkle:     &database.Merkle{Root: answer.GetRoot(), ProofLen: int(answer.GetProofLen())},
 	}
 
-	return dbInfo
+	return dbInfo, nil
 }
diff --git a/cmd/grpc/client/web/mod.go b/cmd/grpc/client/web/mod.go
index 59dda2d..8d63902 100644
--- a/cmd/grpc/client/web/mod.go
+++ b/cmd/grpc/client/web/mod.go
@@ -398,7 +398,10 @@ func executeStatsQuery(clientQuery *query.ClientFSS, actor manager.Actor) (uint3
 		return 0, xerrors.Errorf("failed to query bytes: %v", err)
 	}
 
-	answers := actor.RunQueries(queries)
+	answers, err := actor.RunQueries(queries)
+	if err != nil {
+		return 0, xerrors.Errorf("failed to run queries: %v", err)
+	}
 
 	result, err := client.ReconstructBytes(answers)
 	if err != nil {
-- 
2.43.0


From c3637046f0e58b32cea4b25e4e046c71db908498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 31/38] fix: client: pointVPIR refuses servers with an
 unauthenticated database

---
 cmd/grpc/client/main.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/grpc/client/main.go b/cmd/grpc/client/main.go
index d92a200..bcbe0bb 100644
--- a/cmd/grpc/client/main.go
+++ b/cmd/grpc/client/main.go
@@ -161,6 +161,11 @@ func (lc *localClient) exec() (string, error) {
 	// start correct client, which can be either IT or DPF.
 	switch lc.flags.scheme {
 	case "pointPIR", "pointVPIR":
+		// the keys of a classical database cannot be verified
+		if lc.flags.scheme == "pointVPIR" && lc.dbInfo.PIRType != "merkle" {
+			return "", xerrors.Errorf("the servers do not run the %s scheme: %s",
+				lc.flags.scheme, lc.dbInfo.PIRType)
+		}
 		lc.vpirClient = client.NewPIR(lc.prg, lc.dbInfo)
 
 		// get id
-- 
2.43.0


From 741e72b4522ecd3f57f41ede37853b7ee53e043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 32/38] fix: read all the requested randomness

A reader may return fewer bytes than requested. The rest of the shares, of the
lattice secret or of the verification keys was then zero, e.g. a point query
showed the queried column to the last server.
---
 lib/client/pir_point.go | 2 +-
 lib/field/field.go      | 4 ++--
 lib/matrix/matrix.go    | 2 +-
 lib/matrix/matrix128.go | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/client/pir_point.go b/lib/client/pir_point.go
index eafd3ad..89db50c 100644
--- a/lib/client/pir_point.go
+++ b/lib/client/pir_point.go
@@ -99,7 +99,7 @@ func (c *PIR) secretShare(numServers int) ([][]byte, error) {
 	// Get random elements for all numServers-1 vectors.
 	// This is faster than extracting single bits
 	rand := make([]byte, (numServers-1)*vectorLen)
-	if _, err := c.rnd.Read(rand); err != nil {
+	if _, err := io.ReadFull(c.rnd, rand); err != nil {
 		return nil, err
 	}
 
diff --git a/lib/field/field.go b/lib/field/field.go
index 498c5ce..c55b743 100644
--- a/lib/field/field.go
+++ b/lib/field/field.go
@@ -45,7 +45,7 @@ func RandElementWithPRG(rnd io.Reader) uint32 {
 	var out = ModP
 	// Make sure that toElement is not equal 2^31 - 1
 	for out == ModP {
-		_, err := rnd.Read(buf[:])
+		_, err := io.ReadFull(rnd, buf[:])
 		if err != nil {
 			panic("error in randomness")
 		}
@@ -63,7 +63,7 @@ func RandElement() uint32 {
 func RandVectorWithPRG(length int, rnd io.Reader) []uint32 {
 	bytesLength := length * Bytes
 	buf := make([]byte, bytesLength)
-	_, err := rnd.Read(buf)
+	_, err := io.ReadFull(rnd, buf)
 	if err != nil {
 		panic("error in randomness")
 	}
diff --git a/lib/matrix/matrix.go b/lib/matrix/matrix.go
index 148e654..ed3e33b 100644
--- a/lib/matrix/matrix.go
+++ b/lib/matrix/matrix.go
@@ -128,7 +128,7 @@ func BytesToMatrices(in []byte) []*Matrix {
 func NewRandom(rnd io.Reader, r int, c int) *Matrix {
 	bytesMod := utils.ParamsDefault().BytesMod
 	b := make([]byte, bytesMod*r*c)
-	if _, err := rnd.Read(b); err != nil {
+	if _, err := io.ReadFull(rnd, b); err != nil {
 		panic(err)
 	}
 
diff --git a/lib/matrix/matrix128.go b/lib/matrix/matrix128.go
index 4a7da85..8a7d332 100644
--- a/lib/matrix/matrix128.go
+++ b/lib/matrix/matrix128.go
@@ -65,7 +65,7 @@ func BytesToMatrix128(in []byte) *Matrix128 {
 func NewRandom128(rnd io.Reader, r int, c int) *Matrix128 {
 	bytesMod := utils.ParamsDefault128().BytesMod
 	b := make([]byte, bytesMod*r*c)
-	if _, err := rnd.Read(b); err != nil {
+	if _, err := io.ReadFull(rnd, b); err != nil {
 		panic(err)
 	}
 
-- 
2.43.0


From 42b8b5b91a906864ce0eb8669460ed457d53ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 33/38] fix: ask again for an empty query text in the
 interactive client

An empty text was counted as if no e-mail had it: the answer was 0, although
every e-mail begins and ends with it.
---
 cmd/grpc/client/interactive/mod.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc/client/interactive/mod.go b/cmd/grpc/client/interactive/mod.go
index abde546..202400d 100644
--- a/cmd/grpc/client/interactive/mod.go
+++ b/cmd/grpc/client/interactive/mod.go
@@ -298,7 +298,7 @@ func getCountByEmailQuery() (*query.ClientFSS, string, error) {
 
 	var q string
 
-	err = survey.AskOne(prompt, &q)
+	err = survey.AskOne(prompt, &q, survey.WithValidator(survey.Required))
 	if err != nil {
 		return nil, "", xerrors.Errorf("failed to ask: %v", err)
 	}
@@ -399,7 +399,7 @@ func getAvg(actor manager.Actor) error {
 
 	var q string
 
-	err = survey.AskOne(prompt, &q)
+	err = survey.AskOne(prompt, &q, survey.WithValidator(survey.Required))
 	if err != nil {
 		return xerrors.Errorf("failed to ask: %v", err)
 	}
-- 
2.43.0


From a6e6887b74541e9f5b0ac1245c53622375c908f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 34/38] fix: let the experiment retrieve the whole database

The client panicked when the wanted bits took all the blocks, and never
retrieved the last one.
---
 simulations/multi/client/client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 1409821..1ec5273 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -208,8 +208,12 @@ func (lc *localClient) retrievePointPIR() {
 	numTotalBlocks := lc.dbInfo.NumRows * lc.dbInfo.NumColumns
 	numRetrieveBlocks := bitsToBlocks(lc.dbInfo.BlockSize, lc.flags.elemBitSize, lc.flags.bitsToRetrieve)
 
+	if numRetrieveBlocks > numTotalBlocks {
+		log.Fatalf("cannot retrieve %d blocks out of %d", numRetrieveBlocks, numTotalBlocks)
+	}
+
 	// pick a random block index to start the retrieval
-	startIndex := rand.Intn(numTotalBlocks - numRetrieveBlocks)
+	startIndex := rand.Intn(numTotalBlocks - numRetrieveBlocks + 1)
 
 	queryByte := make([]byte, 4)
 	for j := 0; j < lc.flags.repetitions; j++ {
-- 
2.43.0


From 628421b0efb6a8abd4242c0ace608ca19b594607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 35/38] fix: do not count proofs as retrieved data in the
 experiment

In the Merkle scheme the blocks have their proof after the data, so the client
retrieved fewer data bits than wanted.
---
 simulations/multi/client/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simulations/multi/client/client.go b/simulations/multi/client/client.go
index 1ec5273..bcce79e 100644
--- a/simulations/multi/client/client.go
+++ b/simulations/multi/client/client.go
@@ -206,7 +206,12 @@ func (lc *localClient) retrieveComplexPIR() {
 
 func (lc *localClient) retrievePointPIR() {
 	numTotalBlocks := lc.dbInfo.NumRows * lc.dbInfo.NumColumns
-	numRetrieveBlocks := bitsToBlocks(lc.dbInfo.BlockSize, lc.flags.elemBitSize, lc.flags.bitsToRetrieve)
+	// the proof and the padding that follows it are no data
+	blockLen := lc.dbInfo.BlockSize
+	if lc.dbInfo.PIRType == "merkle" {
+		blockLen -= lc.dbInfo.ProofLen + 1
+	}
+	numRetrieveBlocks := bitsToBlocks(blockLen, lc.flags.elemBitSize, lc.flags.bitsToRetrieve)
 
 	if numRetrieveBlocks > numTotalBlocks {
 		log.Fatalf("cannot retrieve %d blocks out of %d", numRetrieveBlocks, numTotalBlocks)
-- 
2.43.0


From 1aa3daf6fcc924bde8fb5a5e1f62852171123552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:00 +0000
Subject: [PATCH 36/38] fix: let the experiment server stop when it is asked
 more than twice

Further handlers waited for ever for somebody to take their signal, and the
shutdown for them.
---
 simulations/multi/server/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulations/multi/server/server.go b/simulations/multi/server/server.go
index ed9f8fb..65c3795 100644
--- a/simulations/multi/server/server.go
+++ b/simulations/multi/server/server.go
@@ -164,7 +164,11 @@ func main() {
 		log.Fatal("impossible to parse addr for HTTP server")
 	}
 	h := func(w http.ResponseWriter, _ *http.Request) {
-		sigCh <- os.Interrupt
+		// once is enough; the shutdown waits for the handlers
+		select {
+		case sigCh <- os.Interrupt:
+		default:
+		}
 	}
 	httpAddr := fmt.Sprintf("%s:%s", host, "8080")
 	srv := &http.Server{Addr: httpAddr}
-- 
2.43.0


From f70dbc82ccb3a9a0ed4e6bdadcd220f165ba3c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:11 +0000
Subject: [PATCH 37/38] fix: hash leaves and branches of the Merkle tree in
 different domains

The hashes of the two children of a branch, 64 bytes, were also hashed for a
leaf of 60 bytes of data at the position that the last four bytes are. Somebody
who chooses the data finds, in 2^32 trials, two lists with the same root, and a
proof for a piece of data which is not in the tree.
---
 lib/merkle/hash.go       | 15 +++++++++++++++
 lib/merkle/merkletree.go |  5 ++---
 lib/merkle/proof.go      |  7 +++----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/lib/merkle/hash.go b/lib/merkle/hash.go
index e94208f..1cafe0a 100644
--- a/lib/merkle/hash.go
+++ b/lib/merkle/hash.go
@@ -52,3 +52,18 @@ func (h *BLAKE3) Hash(a, b []byte) []byte {
 	h.hasher.Write(b)
 	return h.hasher.Sum(nil)
 }
+
+// leaves and branches are hashed in different domains: the hashes of two nodes
+// must not be taken for a piece of data followed by its index
+const (
+	leafPrefix   = 0
+	branchPrefix = 1
+)
+
+func hashLeaf(h HashType, data []byte, index int) []byte {
+	return h.Hash(append([]byte{leafPrefix}, data...), indexToBytes(index))
+}
+
+func hashBranch(h HashType, left, right []byte) []byte {
+	return h.Hash(append([]byte{branchPrefix}, left...), right)
+}
diff --git a/lib/merkle/merkletree.go b/lib/merkle/merkletree.go
index 2db25f8..1b91da9 100644
--- a/lib/merkle/merkletree.go
+++ b/lib/merkle/merkletree.go
@@ -111,8 +111,7 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 	nodes := make([][]byte, branchesLen+len(data)+(branchesLen-len(data)))
 	// Leaves
 	for i := range data {
-		ib := indexToBytes(i)
-		nodes[i+branchesLen] = hash.Hash(data[i], ib)
+		nodes[i+branchesLen] = hashLeaf(hash, data[i], i)
 		md[blake3.Sum256(data[i])] = uint32(i)
 	}
 	for i := len(data) + branchesLen; i < len(nodes); i++ {
@@ -121,7 +120,7 @@ func NewUsing(data [][]byte, hash HashType) (*MerkleTree, error) {
 
 	// Branches
 	for i := branchesLen - 1; i > 0; i-- {
-		nodes[i] = hash.Hash(nodes[i*2], nodes[i*2+1])
+		nodes[i] = hashBranch(hash, nodes[i*2], nodes[i*2+1])
 	}
 
 	tree := &MerkleTree{
diff --git a/lib/merkle/proof.go b/lib/merkle/proof.go
index 3ac5cda..331de66 100644
--- a/lib/merkle/proof.go
+++ b/lib/merkle/proof.go
@@ -67,15 +67,14 @@ func VerifyProofUsing(data []byte, proof *Proof, root []byte, hashType HashType)
 
 func generateProofHash(data []byte, proof *Proof, hashType HashType) []byte {
 	var proofHash []byte
-	ib := indexToBytes(int(proof.Index))
-	proofHash = hashType.Hash(data, ib)
+	proofHash = hashLeaf(hashType, data, int(proof.Index))
 	index := proof.Index + (1 << uint(len(proof.Hashes)))
 
 	for _, hash := range proof.Hashes {
 		if index%2 == 0 {
-			proofHash = hashType.Hash(proofHash, hash)
+			proofHash = hashBranch(hashType, proofHash, hash)
 		} else {
-			proofHash = hashType.Hash(hash, proofHash)
+			proofHash = hashBranch(hashType, hash, proofHash)
 		}
 		index = index >> 1
 	}
-- 
2.43.0


From 4824c803170851715a554b7d52f2347b32d4c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:52 +0000
Subject: [PATCH 38/38] fix: lattice client draws its scalar again when it
 cannot be told from the noise

---
 lib/client/lwe.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/client/lwe.go b/lib/client/lwe.go
index a7398ed..213171f 100644
--- a/lib/client/lwe.go
+++ b/lib/client/lwe.go
@@ -3,6 +3,7 @@ package client
 import (
 	"errors"
 	"io"
+	"math"
 
 	"github.com/si-co/vpir-code/lib/database"
 	"github.com/si-co/vpir-code/lib/matrix"
@@ -39,6 +40,9 @@ func NewLWE(rnd io.Reader, info *database.Info, params *utils.ParamsLWE) *LWE {
 func (c *LWE) Query(i, j int) *matrix.Matrix {
 	// Lazy way to sample a random scalar
 	rand := matrix.NewRandom(c.rnd, 1, 1)
+	for c.isNoise(rand.Get(0, 0)) {
+		rand = matrix.NewRandom(c.rnd, 1, 1)
+	}
 
 	// digest is already stored in the state when receiving the database info
 	c.state = &StateLWE{
@@ -107,3 +111,13 @@ func (c *LWE) ReconstructBytes(a []byte) (uint32, error) {
 func (c *LWE) inRange(val uint32) bool {
 	return (val < c.params.B) || (val > -c.params.B)
 }
+
+// isNoise returns true for the scalars that are so close to zero that, given
+// the noise, the client cannot tell the two plaintexts apart
+func (c *LWE) isNoise(t uint32) bool {
+	if c.params.B > math.MaxUint32/4 {
+		// all the scalars are
+		return false
+	}
+	return t < 2*c.params.B || -t < 2*c.params.B
+}
-- 
2.43.0

