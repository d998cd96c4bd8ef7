From d1a17603aa3fad45459fa7630b7cd28f2354b5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 01/31] verif: let a build tag pace mining

---
 internal/miner/miner.go        |  2 +-
 internal/miner/rounds.go       |  8 ++++++++
 internal/miner/rounds_verif.go | 11 +++++++++++
 3 files changed, 20 insertions(+), 1 deletion(-)
 create mode 100644 internal/miner/rounds.go
 create mode 100644 internal/miner/rounds_verif.go

diff --git a/internal/miner/miner.go b/internal/miner/miner.go
index 227be14..2e289d0 100644
--- a/internal/miner/miner.go
+++ b/internal/miner/miner.go
@@ -73,7 +73,7 @@ func (m *Miner) Loop() {
 			if m.template == nil {
 				time.Sleep(time.Millisecond * 100)
 			} else {
-				m.mine(1 << 20)
+				m.mine(miningRounds())
 			}
 		}
 	}
diff --git a/internal/miner/rounds.go b/internal/miner/rounds.go
new file mode 100644
index 0000000..3cf1fa3
--- /dev/null
+++ b/internal/miner/rounds.go
@@ -0,0 +1,8 @@
+//go:build !verif
+
+package miner
+
+// How many nonces to try between checks for new work.
+func miningRounds() uint64 {
+	return 1 << 20
+}
diff --git a/internal/miner/rounds_verif.go b/internal/miner/rounds_verif.go
new file mode 100644
index 0000000..7a77817
--- /dev/null
+++ b/internal/miner/rounds_verif.go
@@ -0,0 +1,11 @@
+//go:build verif
+
+package miner
+
+// MiningRounds lets a simulation pace mining: it is asked how many nonces to
+// try between checks for new work. Only built with the verif tag.
+var MiningRounds = func() uint64 { return 1 << 20 }
+
+func miningRounds() uint64 {
+	return MiningRounds()
+}
-- 
2.43.0


From a45166684d31e8b4bcff4b31f0c58c70568b9e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:55 +0000
Subject: [PATCH 02/31] fix: check the mined time of the last block of a period

newBlockHeight+1%period parses as newBlockHeight+(1%period), so the check
never ran and NextTarget could panic on an accepted block.
---
 pkg/core/verify.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 79cb135..afff546 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -183,7 +183,7 @@ func (v Verifier) VerifyBlock(b Block) error {
 
 	// If last block in period, verify time is ahead of first block in period
 	// This prevents panics in ExpectedTargetAdjustment
-	if newBlockHeight+1%v.params.DifficultyPeriod == 0 {
+	if (newBlockHeight+1)%v.params.DifficultyPeriod == 0 {
 		var firstBlockId HashT
 		if newBlockHeight+1 == v.params.DifficultyPeriod {
 			if !v.inv.GetBlockSpecificAncestor(b.PrevBlockId, int(v.params.DifficultyPeriod-2)).EqZero() {
-- 
2.43.0


From 175599a7b96baadb691ec585e96b1aec23d63c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 03/31] fix: undo a block's txs last to first

A block may hold a tx and another that spends it. Undoing them first to last
panicked on the already spent output, and the chain routine died.
---
 internal/chain/state.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 1975c7e..19931f2 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -85,7 +85,8 @@ func (s *State) Rewind() {
 	}
 	rBlock := s.inv.GetBlock(s.head)
 	rTxs := s.inv.GetMerkleTxs(rBlock.MerkleRoot)
-	for _, tx := range rTxs {
+	// Undo txs last to first, as later ones may spend outputs of earlier ones
+	for _, tx := range util.Reverse(rTxs) {
 		txId := tx.Hash()
 		// Return tx back to mempool
 		s.mempool.Add(txId)
-- 
2.43.0


From 130c736734889a242fd0eee3f52347ff9f737770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:55 +0000
Subject: [PATCH 04/31] fix: reject txs whose values overflow when summed

Outputs summing past 2^64 looked smaller than the inputs, so a tx could
create coin.
---
 pkg/core/verify.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index afff546..0c57d93 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -244,6 +244,14 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		}
 	}
 
+	// Verify input and output values can be summed
+	if _, ok := sumValues(tx.Inputs, func(txi TxIn) uint64 { return txi.Utxo.Value }); !ok {
+		return fmt.Errorf("tx inputs value overflows")
+	}
+	if _, ok := sumValues(tx.Outputs, func(txo TxOut) uint64 { return txo.Value }); !ok {
+		return fmt.Errorf("tx outputs value overflows")
+	}
+
 	// Verify within vSize limit
 	if tx.VSize() > v.params.MaxTxVSize {
 		return fmt.Errorf("tx vSize exceeds limit")
@@ -282,3 +290,16 @@ func (v Verifier) VerifyBlockIsolated(b Block) error {
 	}
 	return nil
 }
+
+// Sum the value of each item, return whether the sum is exact (did not overflow).
+func sumValues[K any](items []K, value func(K) uint64) (uint64, bool) {
+	total := uint64(0)
+	for _, item := range items {
+		next := total + value(item)
+		if next < total {
+			return 0, false
+		}
+		total = next
+	}
+	return total, true
+}
-- 
2.43.0


From a9de6d040e6ad7e54f7ba2f1541c21b6c6ba19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:00 +0000
Subject: [PATCH 05/31] fix: reject txs which consume the same utxo twice

Such a tx could never be included, but was accepted, counted at twice its
inputs' value and handed to miners, whose blocks were then all refused.
---
 pkg/core/verify.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/core/verify.go b/pkg/core/verify.go
index 0c57d93..1fbe30f 100644
--- a/pkg/core/verify.go
+++ b/pkg/core/verify.go
@@ -244,6 +244,15 @@ func (v Verifier) VerifyTxIsolated(tx Tx) error {
 		}
 	}
 
+	// Verify no utxo is consumed twice
+	consumed := set.NewSet[Utxo]()
+	for _, utxo := range tx.GetConsumedUtxos() {
+		if consumed.Includes(utxo) {
+			return fmt.Errorf("tx consumes utxo twice: %s[%d]", utxo.TxId, utxo.Ind)
+		}
+		consumed.Add(utxo)
+	}
+
 	// Verify input and output values can be summed
 	if _, ok := sumValues(tx.Inputs, func(txi TxIn) uint64 { return txi.Utxo.Value }); !ok {
 		return fmt.Errorf("tx inputs value overflows")
-- 
2.43.0


From 2514d183d0d7efd32f2a7cb7ee91886f25809f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 06/31] fix: insert synced txs in the order their chain
 includes them

Reversing the whole walk put a tx before one it spends when both came in the
same block, or in blocks whose trees differ in depth, so a valid chain could
not be synced.
---
 internal/peer/sync.go | 52 +++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index cd13447..ff0f351 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -150,45 +150,49 @@ func (p *Peer) handleInboundSyncChain() error {
 	newTxs := make([]core.Tx, 0)
 	idQueue := queue.NewQueue[core.HashT]()
 	receivedIds := set.NewSet[core.HashT]()
-	for _, block := range newBlocks {
+	// Oldest block first, so each entity ends up behind those it depends on
+	for _, block := range util.Reverse(newBlocks) {
+		blockMerkles := make([]core.MerkleNode, 0)
 		idQueue.Push(block.MerkleRoot)
-	}
-	for idQueue.Size() > 0 {
-		id, _ := idQueue.Pop()
-		if p.inv.HasEntity(id) || receivedIds.Includes(id) {
-			continue
-		}
-		p.conn.WriteHashT(id)
-		isTx := p.conn.ReadBool()
-		if p.conn.HasErr() {
-			return p.conn.Err()
-		} else if !isTx {
-			merkle := p.conn.ReadMerkle(id)
-			if p.conn.HasErr() {
-				return p.conn.Err()
+		for idQueue.Size() > 0 {
+			id, _ := idQueue.Pop()
+			if p.inv.HasEntity(id) || receivedIds.Includes(id) {
+				continue
 			}
-			newMerkles = append(newMerkles, merkle)
-			idQueue.Push(merkle.LChild, merkle.RChild)
-		} else {
-			tx := p.conn.ReadTx(id)
+			p.conn.WriteHashT(id)
+			isTx := p.conn.ReadBool()
 			if p.conn.HasErr() {
 				return p.conn.Err()
+			} else if !isTx {
+				merkle := p.conn.ReadMerkle(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				blockMerkles = append(blockMerkles, merkle)
+				idQueue.Push(merkle.LChild, merkle.RChild)
+			} else {
+				tx := p.conn.ReadTx(id)
+				if p.conn.HasErr() {
+					return p.conn.Err()
+				}
+				newTxs = append(newTxs, tx)
 			}
-			newTxs = append(newTxs, tx)
+			receivedIds.Add(id)
 		}
-		receivedIds.Add(id)
+		// Reversed so children are inserted before their parents
+		newMerkles = append(newMerkles, util.Reverse(blockMerkles)...)
 	}
 	p.conn.WriteHashT(core.HashT{})
 	p.conn.WriteString("complete")
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	}
-	// Send the new entities to the head (reversed so they're inserted in correct order)
+	// Send the new entities to the head (blocks reversed so they're inserted in correct order)
 	p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
 		Head:                   newHead,
 		Blocks:                 util.Reverse(newBlocks),
-		Merkles:                util.Reverse(newMerkles),
-		Txs:                    util.Reverse(newTxs),
+		Merkles:                newMerkles,
+		Txs:                    newTxs,
 		AutoAddMempoolInsecure: false,
 	})
 	return nil
-- 
2.43.0


From 71725f45870db2629519b08ee64c08482dec6a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 07/31] fix: accept txs and blocks known from before a restart

The mempool starts empty but the inventory does not, so after a restart a
synced or mined block holding a known tx was refused for good, and a known
tx submitted again was never mined or relayed.
---
 internal/chain/chain.go |  9 ++++++---
 internal/miner/miner.go | 11 ++++++-----
 internal/peer/sync.go   | 11 ++++++-----
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 781aa9b..abaf29e 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -209,9 +209,12 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 	txId := event.Tx.Hash()
 	if c.inv.HasTx(txId) {
-		return nil
-	}
-	if err := c.inv.StoreTx(event.Tx); err != nil {
+		// A known tx may be missing from mempool, as it is empty on startup
+		_, included := c.state.includedTxBlocks[txId]
+		if included || c.state.mempool.Includes(txId) {
+			return nil
+		}
+	} else if err := c.inv.StoreTx(event.Tx); err != nil {
 		return err
 	}
 	c.state.AddMempoolTx(txId)
diff --git a/internal/miner/miner.go b/internal/miner/miner.go
index 2e289d0..cac1ac2 100644
--- a/internal/miner/miner.go
+++ b/internal/miner/miner.go
@@ -142,10 +142,11 @@ func (m *Miner) mine(rounds uint64) {
 func (m *Miner) publishSolution() {
 	fmt.Println("!!! mined solution")
 	m.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
-		Head:                   m.template.Hash(),
-		Blocks:                 []core.Block{*m.template},
-		Merkles:                util.CopyList(m.outMerkles),
-		Txs:                    []core.Tx{*m.outCoinbase},
-		AutoAddMempoolInsecure: false,
+		Head:    m.template.Hash(),
+		Blocks:  []core.Block{*m.template},
+		Merkles: util.CopyList(m.outMerkles),
+		Txs:     []core.Tx{*m.outCoinbase},
+		// Our coinbase may be known yet missing from mempool, as it is empty on startup
+		AutoAddMempoolInsecure: true,
 	})
 }
diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index ff0f351..ba7d792 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -189,11 +189,12 @@ func (p *Peer) handleInboundSyncChain() error {
 	}
 	// Send the new entities to the head (blocks reversed so they're inserted in correct order)
 	p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
-		Head:                   newHead,
-		Blocks:                 util.Reverse(newBlocks),
-		Merkles:                newMerkles,
-		Txs:                    newTxs,
-		AutoAddMempoolInsecure: false,
+		Head:    newHead,
+		Blocks:  util.Reverse(newBlocks),
+		Merkles: newMerkles,
+		Txs:     newTxs,
+		// Txs we know may be missing from mempool, as it is empty on startup
+		AutoAddMempoolInsecure: true,
 	})
 	return nil
 }
-- 
2.43.0


From bf91992b7387d1e9ab413289862d59225f1fe5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:47 +0000
Subject: [PATCH 08/31] fix: replace the head file in one step

A crash while it was rewritten left it empty or cut short, and the whole
chain was forgotten.
---
 internal/chain/chain.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index abaf29e..75c994f 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -229,7 +229,12 @@ func (c *Chain) handleCandidateTx(event bus.CandidateTxEvent) error {
 }
 
 func (c *Chain) saveHeadToFile(head core.HashT) error {
-	return os.WriteFile(*c.saveDir+"/head", []byte(head.String()), 0666)
+	// Written aside then renamed, so a crash can't leave a partial head behind
+	path := *c.saveDir + "/head"
+	if err := os.WriteFile(path+".tmp", []byte(head.String()), 0666); err != nil {
+		return err
+	}
+	return os.Rename(path+".tmp", path)
 }
 
 func loadHeadFromFile(saveDir *string) (head *core.HashT, err error) {
-- 
2.43.0


From 0c7fa07834d1b7b7ed4015ae2fc7366f52d55ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:52 +0000
Subject: [PATCH 09/31] fix: write each record to disk in one step

A crash or a full disk while one was written left it cut short: it could not
be parsed, or its missing tail was not noticed.
---
 pkg/disksyncmap/disksyncmap.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 1268a8c..4516a1d 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -75,7 +75,11 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 
 // Write to the given file on disk.
 func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
-	return os.WriteFile(path, []byte(val.String()), 0666)
+	// Written aside then renamed, so a crash can't leave a partial file behind
+	if err := os.WriteFile(path+".tmp", []byte(val.String()), 0666); err != nil {
+		return err
+	}
+	return os.Rename(path+".tmp", path)
 }
 
 // Load the given file from disk and parse.
-- 
2.43.0


From 5395f80c56f1b018f3d514e510445dc6101e2a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 10/31] fix: report why a received chain was refused

The connection has no error at that point, so building the message panicked.
---
 internal/peer/sync.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index ba7d792..b95e433 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -139,7 +139,7 @@ func (p *Peer) handleInboundSyncChain() error {
 		if p.conn.HasErr() {
 			return p.conn.Err()
 		}
-		return fmt.Errorf("failed to verify received chain: %s", p.conn.Err().Error())
+		return fmt.Errorf("failed to verify received chain: %s", err.Error())
 	}
 	p.conn.WriteBool(true)
 	if p.conn.HasErr() {
-- 
2.43.0


From ea38f2ebc0c903b5db9986c5b60e1d14d8053553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 11/31] fix: adopt a peer's heavier head which is stored but
 not our chain's

Such a head, left by a crash, was taken for one being adopted, so the node
stayed behind until the next block.
---
 internal/peer/sync.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index b95e433..00bf1d5 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -25,6 +25,13 @@ func (p *Peer) handleSyncChain() error {
 	// Even if our work mismatches, we might have their head
 	// This could mean manager is currently including that head, or it failed to before.
 	if theirWork.Eq(ourWork) || (ourWork.Lt(theirWork) && p.inv.HasBlock(theirHead)) {
+		if !theirWork.Eq(ourWork) {
+			// We might have it without ever having adopted it, e.g. after a crash
+			p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
+				Head:                   theirHead,
+				AutoAddMempoolInsecure: true,
+			})
+		}
 		p.conn.WriteString("cancel")
 		p.conn.ReadString() // Just to consume their msg
 		return p.conn.Err()
-- 
2.43.0


From 332a02f6690fe42faea65c449eae06a19aa7b192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:28 +0000
Subject: [PATCH 12/31] fix: don't allocate by a length a peer merely claims

One message claiming 2^63 inputs, outputs or addresses ended the process or
kept the routine looping.
---
 internal/peer/handlers.go |  5 +++--
 pkg/prot/core.go          | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index ffce87c..961a771 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -41,8 +41,9 @@ var peerAddrsCmd = "peer-addrs"
 
 func (p *Peer) handleReadPeerAddrs() error {
 	numPeers := p.conn.ReadUint64()
-	peerAddrs := make(map[string]string, numPeers)
-	for i := 0; i < int(numPeers); i++ {
+	// Don't allocate by this, as the peer can claim any number
+	peerAddrs := make(map[string]string)
+	for i := uint64(0); i < numPeers && !p.conn.HasErr(); i++ {
 		runtimeId := p.conn.ReadString()
 		peerAddrs[runtimeId] = p.conn.ReadString()
 	}
diff --git a/pkg/prot/core.go b/pkg/prot/core.go
index 53d5cfd..3e332b2 100644
--- a/pkg/prot/core.go
+++ b/pkg/prot/core.go
@@ -101,14 +101,14 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 	tx := core.Tx{
 		IsCoinbase: c.ReadBool(),
 		MinBlock:   c.ReadUint64(),
-		Inputs:     make([]core.TxIn, c.ReadUint64()),
-		Outputs:    make([]core.TxOut, c.ReadUint64()),
-	}
-	if c.err != nil {
-		return core.Tx{}
-	}
-	for i := range tx.Inputs {
-		tx.Inputs[i] = core.TxIn{
+		Inputs:     make([]core.TxIn, 0),
+		Outputs:    make([]core.TxOut, 0),
+	}
+	// Don't allocate by these, as the peer can claim any number
+	numInputs := c.ReadUint64()
+	numOutputs := c.ReadUint64()
+	for i := uint64(0); i < numInputs && c.err == nil; i++ {
+		tx.Inputs = append(tx.Inputs, core.TxIn{
 			Utxo: core.Utxo{
 				TxId:  c.ReadHashT(),
 				Ind:   c.ReadUint64(),
@@ -116,13 +116,13 @@ func (c *Conn) ReadTx(expectId core.HashT) core.Tx {
 			},
 			PublicKey: c.Read(),
 			Signature: c.Read(),
-		}
+		})
 	}
-	for i := range tx.Outputs {
-		tx.Outputs[i] = core.TxOut{
+	for i := uint64(0); i < numOutputs && c.err == nil; i++ {
+		tx.Outputs = append(tx.Outputs, core.TxOut{
 			Value:         c.ReadUint64(),
 			PublicKeyHash: c.ReadHashT(),
-		}
+		})
 	}
 	if c.err != nil {
 		return core.Tx{}
-- 
2.43.0


From 080028bfd78657723ef0bbc8446dc0bbf4771da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:31 +0000
Subject: [PATCH 13/31] fix: close a peer's connection once its routine ends

It stayed open with nobody reading it, and the peer kept us among its own.
---
 internal/peer/peer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 3a0987d..8e6090b 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -77,6 +77,7 @@ func (p *Peer) Loop() {
 			fmt.Printf("peer %s closed\n", p.conn.PeerRuntimeId())
 		}
 		p.subs.Close()
+		p.conn.Close()
 		p.bus.PeerClosing.Pub(bus.PeerClosingEvent{
 			PeerRuntimeId: p.conn.PeerRuntimeId(),
 		})
-- 
2.43.0


From 81e9046fa1fb572cbb2c0923916c084082dfce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:59 +0000
Subject: [PATCH 14/31] fix: close a peer after a failed exchange

The rest of the exchange was read as new messages, or waited for, so the two
sides stayed out of step on an open connection.
---
 internal/peer/peer.go | 2 ++
 internal/peer/sync.go | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 8e6090b..0dbfa00 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -137,6 +137,7 @@ func (p *Peer) Loop() {
 			}
 			if err := p.handleReceivedMessage(msg); err != nil {
 				fmt.Printf("error handling '%s': %s\n", msg, err.Error())
+				p.shouldClose = true // We might be mid-message, so can't be sure what follows
 			}
 		}
 	}
@@ -184,6 +185,7 @@ func (p *Peer) issueCommandPrintErr(command string, handler func() error) {
 	err := p.issueCommand(command, handler)
 	if err != nil {
 		fmt.Printf("error issuing %s: %s\n", command, err.Error())
+		p.shouldClose = true // We might be mid-message, so can't be sure what follows
 	}
 }
 
diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 00bf1d5..775ffc7 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -83,7 +83,7 @@ func (p *Peer) handleOutboundSyncChain() error {
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	} else if len(neededBlockIds) == 0 {
-		return fmt.Errorf("peer does not need upgrade, sync should not have run")
+		return nil // Peer is already adopting our head
 	}
 	// Send blocks to peer
 	for _, blockId := range neededBlockIds {
@@ -130,7 +130,7 @@ func (p *Peer) handleInboundSyncChain() error {
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	} else if len(neededBlockIds) == 0 {
-		return fmt.Errorf("we do not actually need upgrade, sync should not have run")
+		return nil // We are already adopting their head
 	}
 	// Receive blocks from peer
 	newBlocks := make([]core.Block, len(neededBlockIds))
-- 
2.43.0


From 2e6603d29b11f6593384cca77fa5f0e692dab8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:02 +0000
Subject: [PATCH 15/31] fix: don't lose half a size when polling for a message

Polling read the two size bytes under one short timeout. If only one had
arrived it was dropped, and all that followed was misread.
---
 pkg/prot/conn.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index af67bb3..29f6001 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -144,17 +144,26 @@ func (c *Conn) writeRawTimeout(data []byte, timeout time.Duration) {
 }
 
 // Read variable-length data from the conn.
-// Uses the given timeout for the size bytes, then the default for the data bytes.
+// Uses the given timeout for the first byte, then the default for the rest.
+// Thus if this fails by timeout, nothing was read and the conn may still be used.
 func (c *Conn) ReadTimeout(timeout time.Duration) []byte {
 	if c.err != nil {
 		return nil
 	}
-	sizeB := c.readRawTimeout(2, timeout)
+	sizeB := c.readRawTimeout(1, timeout)
 	if c.err != nil {
 		return nil
 	}
-	size := binary.BigEndian.Uint16(sizeB)
-	return c.readRawTimeout(size, defaultTimeout)
+	sizeB = append(sizeB, c.readRawTimeout(1, defaultTimeout)...)
+	var data []byte
+	if c.err == nil {
+		size := binary.BigEndian.Uint16(sizeB)
+		data = c.readRawTimeout(size, defaultTimeout)
+	}
+	if os.IsTimeout(c.err) {
+		c.err = fmt.Errorf("timed out within a message: %s", c.err.Error())
+	}
+	return data
 }
 
 // Read variable-length data from the conn with the default timeout for each read.
-- 
2.43.0


From 6b1e3ad6e75f0808fd56fb5ac2d96b947ff1829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 16/31] fix: refuse to write 65536 bytes as one message

Its size does not fit in two bytes, so it was sent as 0 and the data was
read as further messages.
---
 pkg/prot/conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/prot/conn.go b/pkg/prot/conn.go
index 29f6001..1d26368 100644
--- a/pkg/prot/conn.go
+++ b/pkg/prot/conn.go
@@ -179,8 +179,8 @@ func (c *Conn) Write(data []byte) {
 	if c.err != nil {
 		return
 	}
-	if len(data) > 65536 {
-		c.err = fmt.Errorf("too many bytes to write: %d > 65536", len(data))
+	if len(data) > 65535 {
+		c.err = fmt.Errorf("too many bytes to write: %d > 65535", len(data))
 		return
 	}
 	sizeB := make([]byte, 2)
-- 
2.43.0


From 33e82947a9d809e820f317cc7d5052367b59f18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:50 +0000
Subject: [PATCH 17/31] fix: mine at a time the chain accepts

A miner whose clock was behind the last blocks' times, or had been ahead when
it started on a block, had every block refused until the chain moved on.
---
 internal/miner/miner.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/internal/miner/miner.go b/internal/miner/miner.go
index cac1ac2..65a1e0d 100644
--- a/internal/miner/miner.go
+++ b/internal/miner/miner.go
@@ -3,6 +3,7 @@ package miner
 import (
 	"fmt"
 	"runtime/debug"
+	"sort"
 	"time"
 
 	"github.com/levilutz/basiccoin/internal/bus"
@@ -116,14 +117,49 @@ func (m *Miner) updateTemplate(head core.HashT, target core.HashT, txIds []core.
 		Target:      target,
 		Noise:       core.NewHashTRand(),
 		Nonce:       0,
-		MinedTime:   uint64(time.Now().Unix()),
+		MinedTime:   0, // Set as we mine
 	}
 	m.outCoinbase = &coinbaseTx
 	m.outMerkles = outMerkles
 }
 
+// Get the current time, or the earliest time allowed for a block after head if that's later.
+// Previous blocks' times may be ahead of our clock.
+func (m *Miner) nextMinedTime(head core.HashT) uint64 {
+	minedTime := uint64(time.Now().Unix())
+	if head.EqZero() {
+		return minedTime
+	}
+	// Must be above median of previous 5
+	times := make([]uint64, 0)
+	for _, blockId := range append([]core.HashT{head}, m.inv.GetBlockAncestors(head, 4)...) {
+		if !blockId.EqZero() {
+			times = append(times, m.inv.GetBlock(blockId).MinedTime)
+		}
+	}
+	sort.Slice(times, func(i, j int) bool { return times[i] < times[j] })
+	median := (times[(len(times)-1)/2] + times[len(times)/2]) / 2
+	if minedTime <= median {
+		minedTime = median + 1
+	}
+	// If last block in period, must be above first block in period
+	period := m.inv.GetCoreParams().DifficultyPeriod
+	if newHeight := m.inv.GetBlockHeight(head) + 1; (newHeight+1)%period == 0 {
+		hops := int(period - 2)
+		if newHeight+1 == period {
+			hops-- // First period has no block at height 0
+		}
+		firstTime := m.inv.GetBlock(m.inv.GetBlockSpecificAncestor(head, hops)).MinedTime
+		if minedTime <= firstTime {
+			minedTime = firstTime + 1
+		}
+	}
+	return minedTime
+}
+
 // Try nonces for the specified number of rounds.
 func (m *Miner) mine(rounds uint64) {
+	m.template.MinedTime = m.nextMinedTime(m.template.PrevBlockId)
 	for i := uint64(0); i < rounds; i++ {
 		hash := m.template.Hash()
 		if hash.Lt(m.template.Target) {
-- 
2.43.0


From 6071d5a81c222b73159f7e871af60de281d57cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 18/31] fix: start each peer from the chain's current head

The head came from the factory's own queue, which may lag. A head validated
just before the peer subscribed was never offered to it, nor was the saved
head after a restart.
---
 internal/bus/bus.go                 | 11 ++++++++++-
 internal/chain/chain.go             |  2 ++
 internal/peer/peer.go               |  7 ++++++-
 internal/peerfactory/peerfactory.go | 10 +---------
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/internal/bus/bus.go b/internal/bus/bus.go
index 72461ae..97d26b9 100644
--- a/internal/bus/bus.go
+++ b/internal/bus/bus.go
@@ -1,6 +1,11 @@
 package bus
 
-import "github.com/levilutz/basiccoin/pkg/topic"
+import (
+	"sync/atomic"
+
+	"github.com/levilutz/basiccoin/pkg/core"
+	"github.com/levilutz/basiccoin/pkg/topic"
+)
 
 // The set of pub sub topics any component needs.
 type Bus struct {
@@ -18,6 +23,9 @@ type Bus struct {
 	ShouldRequestPeers *topic.Topic[ShouldRequestPeersEvent]
 	ValidatedHead      *topic.Topic[ValidatedHeadEvent]
 	ValidatedTx        *topic.Topic[ValidatedTxEvent]
+	// The latest validated head, updated before its event is published.
+	// A new ValidatedHead subscriber should load this to learn what it just missed.
+	CurrentHead *atomic.Pointer[core.HashT]
 	// Commands
 	Terminate *topic.Topic[TerminateCommand]
 	// Queries
@@ -45,6 +53,7 @@ func NewBus() *Bus {
 		ShouldRequestPeers: topic.NewTopic[ShouldRequestPeersEvent](),
 		ValidatedHead:      topic.NewTopic[ValidatedHeadEvent](),
 		ValidatedTx:        topic.NewTopic[ValidatedTxEvent](),
+		CurrentHead:        &atomic.Pointer[core.HashT]{},
 		// Commands
 		Terminate: topic.NewTopic[TerminateCommand](),
 		// Queries
diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 75c994f..8af316e 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -197,6 +197,8 @@ func (c *Chain) handleCandidateHead(event bus.CandidateHeadEvent) error {
 		}
 	}
 	// Publish events
+	head := c.state.head
+	c.bus.CurrentHead.Store(&head)
 	c.bus.ValidatedHead.Pub(bus.ValidatedHeadEvent{
 		Head: event.Head,
 	})
diff --git a/internal/peer/peer.go b/internal/peer/peer.go
index 0dbfa00..88c5a12 100644
--- a/internal/peer/peer.go
+++ b/internal/peer/peer.go
@@ -47,7 +47,7 @@ type Peer struct {
 }
 
 // Create a new peer given a message bus instance.
-func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.HashT) *Peer {
+func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn) *Peer {
 	subs := &subscriptions{
 		PrintUpdate:        msgBus.PrintUpdate.SubCh(),
 		SendPeers:          msgBus.SendPeers.SubCh(),
@@ -56,6 +56,11 @@ func NewPeer(msgBus *bus.Bus, inv inv.InvReader, conn *prot.Conn, curHead core.H
 		ValidatedHead:      msgBus.ValidatedHead.SubCh(),
 		ValidatedTx:        msgBus.ValidatedTx.SubCh(),
 	}
+	// Only load this once subscribed, so we can't miss a head in between
+	curHead := core.HashT{}
+	if head := msgBus.CurrentHead.Load(); head != nil {
+		curHead = *head
+	}
 	return &Peer{
 		bus:         msgBus,
 		inv:         inv,
diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 268af5e..bf2497d 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -10,7 +10,6 @@ import (
 	"github.com/levilutz/basiccoin/internal/bus"
 	"github.com/levilutz/basiccoin/internal/inv"
 	"github.com/levilutz/basiccoin/internal/peer"
-	"github.com/levilutz/basiccoin/pkg/core"
 	"github.com/levilutz/basiccoin/pkg/prot"
 	"github.com/levilutz/basiccoin/pkg/set"
 	"github.com/levilutz/basiccoin/pkg/syncqueue"
@@ -26,7 +25,6 @@ type subcriptions struct {
 	PeersReceived     *topic.SubCh[bus.PeersReceivedEvent]
 	PeersRequested    *topic.SubCh[bus.PeersRequestedEvent]
 	PrintUpdate       *topic.SubCh[bus.PrintUpdateEvent]
-	ValidatedHead     *topic.SubCh[bus.ValidatedHeadEvent]
 }
 
 // A peer factory. Does not manage the peers after creation.
@@ -43,7 +41,6 @@ type PeerFactory struct {
 	knownPeerAddrs map[string]string // Not all knownPeers appear here
 	listenStarted  atomic.Bool
 	seedAddrs      []string
-	curHead        core.HashT
 }
 
 // Create a new peer factory given a message bus instance.
@@ -54,7 +51,6 @@ func NewPeerFactory(params Params, msgBus *bus.Bus, inv inv.InvReader) *PeerFact
 		PeersReceived:     msgBus.PeersReceived.SubCh(),
 		PeersRequested:    msgBus.PeersRequested.SubCh(),
 		PrintUpdate:       msgBus.PrintUpdate.SubCh(),
-		ValidatedHead:     msgBus.ValidatedHead.SubCh(),
 	}
 	return &PeerFactory{
 		params:         params,
@@ -66,7 +62,6 @@ func NewPeerFactory(params Params, msgBus *bus.Bus, inv inv.InvReader) *PeerFact
 		knownPeers:     set.NewSet[string](),
 		knownPeerAddrs: make(map[string]string),
 		seedAddrs:      make([]string, 0),
-		curHead:        core.HashT{},
 	}
 }
 
@@ -140,9 +135,6 @@ func (pf *PeerFactory) Loop() {
 				PeerAddrs:       util.CopyMap(pf.knownPeerAddrs),
 			})
 
-		case event := <-pf.subs.ValidatedHead.C:
-			pf.curHead = event.Head
-
 		case event := <-pf.subs.PrintUpdate.C:
 			if !event.PeerFactory {
 				continue
@@ -231,7 +223,7 @@ func (pf *PeerFactory) addConn(conn *prot.Conn) {
 	if pf.knownPeers.Size() < pf.params.MaxPeers &&
 		!pf.knownPeers.Includes(runtimeId) {
 		// Upgrade to peer
-		go peer.NewPeer(pf.bus, pf.inv, conn, pf.curHead).Loop()
+		go peer.NewPeer(pf.bus, pf.inv, conn).Loop()
 		pf.knownPeers.Add(runtimeId)
 		// Set our localaddr and start listen if we only now can
 		if pf.params.Listen && pf.params.LocalAddr == "" {
-- 
2.43.0


From 541a44ae45ac6442f3da68f416f89564373ca525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:27 +0000
Subject: [PATCH 19/31] fix: restore the saved head before anything else can
 ask for it

It was queued like any other head, so on a slow start the node answered as
if its chain were empty, or let a peer's lesser chain replace it.
---
 internal/chain/chain.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/internal/chain/chain.go b/internal/chain/chain.go
index 8af316e..b43f97b 100644
--- a/internal/chain/chain.go
+++ b/internal/chain/chain.go
@@ -58,22 +58,7 @@ func NewChain(
 		TxConfirms:      msgBus.TxConfirms.SubCh(),
 		TxIncludedBlock: msgBus.TxIncludedBlock.SubCh(),
 	}
-	if saveDir != nil {
-		head, err := loadHeadFromFile(saveDir)
-		if err != nil {
-			fmt.Printf("failed to load previous head from file: %s\n", err)
-		} else {
-			msgBus.CandidateHead.Pub(bus.CandidateHeadEvent{
-				Head:    *head,
-				Blocks:  []core.Block{},
-				Merkles: []core.MerkleNode{},
-				Txs:     []core.Tx{},
-				// This is necessary, as mempool is empty on first startup
-				AutoAddMempoolInsecure: true,
-			})
-		}
-	}
-	return &Chain{
+	c := &Chain{
 		bus:           msgBus,
 		inv:           inv,
 		subs:          subs,
@@ -81,6 +66,22 @@ func NewChain(
 		supportMiners: supportMiners,
 		saveDir:       saveDir,
 	}
+	if saveDir != nil {
+		head, err := loadHeadFromFile(saveDir)
+		if err != nil {
+			fmt.Printf("failed to load previous head from file: %s\n", err)
+		} else if err := c.handleCandidateHead(bus.CandidateHeadEvent{
+			Head:    *head,
+			Blocks:  []core.Block{},
+			Merkles: []core.MerkleNode{},
+			Txs:     []core.Tx{},
+			// This is necessary, as mempool is empty on first startup
+			AutoAddMempoolInsecure: true,
+		}); err != nil {
+			fmt.Printf("failed to restore previous head: %s\n", err)
+		}
+	}
+	return c
 }
 
 // Start the chain's loop.
-- 
2.43.0


From b2d24113058dea18a5dfe265df25251efa287be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:30 +0000
Subject: [PATCH 20/31] fix: retry seed peers while there are few peers

Seeds were retried only with no peers at all, so after a network split nodes
which still had each other never rejoined the rest. MinPeers was unused.
---
 internal/peerfactory/peerfactory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index bf2497d..9d0324c 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -252,6 +252,10 @@ func (pf *PeerFactory) seekNewPeers() {
 		// Retry seed peers
 		pf.newAddrs.Push(pf.seedAddrs...)
 	} else {
+		if pf.knownPeers.Size() < pf.params.MinPeers && pf.newAddrs.Size() == 0 {
+			// Retry seed peers, as our current peers might all be cut off from them
+			pf.newAddrs.Push(pf.seedAddrs...)
+		}
 		// Pick a random current peer and ask for their peers
 		targetInd := rand.Intn(pf.knownPeers.Size())
 		targetRuntimeId := pf.knownPeers.ToList()[targetInd]
-- 
2.43.0


From 90b0aad2789902c03f4ab89c3b024df3b3de5d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:32 +0000
Subject: [PATCH 21/31] fix: handshake inbound connections side by side

A client which connected and sent nothing kept everyone else from connecting
for as long as it liked.
---
 internal/peerfactory/peerfactory.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/peerfactory/peerfactory.go b/internal/peerfactory/peerfactory.go
index 9d0324c..e6d4df0 100644
--- a/internal/peerfactory/peerfactory.go
+++ b/internal/peerfactory/peerfactory.go
@@ -203,14 +203,20 @@ func (pf *PeerFactory) listen() {
 		if err != nil {
 			continue
 		}
-		protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
-		conn := prot.NewConn(protParams, tcpConn)
-		if conn.HasErr() {
-			conn.CloseIfPossible(nil)
-			continue
-		}
-		pf.newConns <- conn
+		// Handshake aside, so one which stays silent doesn't hold up the others
+		go pf.handshakeInbound(tcpConn)
+	}
+}
+
+// Handshake a newly accepted connection.
+func (pf *PeerFactory) handshakeInbound(tcpConn *net.TCPConn) {
+	protParams := prot.NewParams(pf.params.RuntimeId, false, pf.params.DebugConns)
+	conn := prot.NewConn(protParams, tcpConn)
+	if conn.HasErr() {
+		conn.CloseIfPossible(nil)
+		return
 	}
+	pf.newConns <- conn
 }
 
 // Upgrade a connection to peer, if appropriate.
-- 
2.43.0


From b9bc22f9685cc6ebdd845fc8611882cd7296def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:35 +0000
Subject: [PATCH 22/31] fix: allow any rich list length

A length of 2^63 or more turned negative and ended the node.
---
 internal/chain/state.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/chain/state.go b/internal/chain/state.go
index 19931f2..ba5ed14 100644
--- a/internal/chain/state.go
+++ b/internal/chain/state.go
@@ -383,9 +383,9 @@ func (s *State) GetRichList(maxLen uint64) map[core.HashT]uint64 {
 		return pkhBals[pkhs[i]] > pkhBals[pkhs[j]]
 	})
 	// outLen = min(maxLen, len(pkhs))
-	outLen := int(maxLen)
-	if len(pkhs) < outLen {
-		outLen = len(pkhs)
+	outLen := len(pkhs)
+	if maxLen < uint64(outLen) {
+		outLen = int(maxLen)
 	}
 	out := make(map[core.HashT]uint64, outLen)
 	for i := 0; i < outLen; i++ {
-- 
2.43.0


From e6e693d6607c6ed58079981849d5b3902474aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:41 +0000
Subject: [PATCH 23/31] fix: don't write to the list given to Prepend

All miners get the same list of txs. Prepending in place put one miner's
coinbase in another's block, so mined blocks were refused or miners died.
---
 pkg/util/util.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 1270868..2d950e1 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -13,6 +13,7 @@ func MapKeys[K comparable, V any](in map[K]V) []K {
 
 // Prepend into slice.
 func Prepend[K any](ls []K, items ...K) []K {
+	ls = CopyList(ls) // As the given list might be shared
 	for _, item := range items {
 		if len(ls) == 0 {
 			ls = []K{item}
-- 
2.43.0


From 82d1dfd87249af7778e7577be709f1de41001c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:43 +0000
Subject: [PATCH 24/31] fix: replace the wallet file in one step

A crash or a full disk while it was rewritten lost every key in it.
---
 cmd/bcwallet/config.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/config.go b/cmd/bcwallet/config.go
index b80f79b..423ebee 100644
--- a/cmd/bcwallet/config.go
+++ b/cmd/bcwallet/config.go
@@ -202,7 +202,12 @@ func (c *Config) Save() error {
 		return fmt.Errorf("config file is a directory: %s", getConfigPath(c.Dev))
 	}
 
-	return os.WriteFile(getConfigPath(c.Dev), rawConfig, 0600)
+	// Written aside then renamed, so failing midway can't lose existing keys
+	path := getConfigPath(c.Dev)
+	if err := os.WriteFile(path+".tmp", rawConfig, 0600); err != nil {
+		return err
+	}
+	return os.Rename(path+".tmp", path)
 }
 
 func EnsureConfig(dev bool) {
-- 
2.43.0


From 87e3e4d652171c5a84b4e05bda9364d2d9b51302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:44 +0000
Subject: [PATCH 25/31] fix: pay every amount given to send

Of several amounts for the same public key hash only the last was paid.
---
 cmd/bcwallet/bcwallet.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index 8d4cc35..aef9405 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -200,7 +200,10 @@ var commands = []Command{
 				if err != nil {
 					return err
 				}
-				dests[pkh] = val
+				if dests[pkh]+val < val {
+					return fmt.Errorf("total amount too large")
+				}
+				dests[pkh] += val
 			}
 
 			// Get current head height / min block
-- 
2.43.0


From c952d77459e445f651622994581041b06eb4230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:50 +0000
Subject: [PATCH 26/31] fix: refuse payments the wallet can't afford

With no balance it panicked, amounts summing past 2^64 looked affordable,
and consolidating less than the fee claimed nearly 2^64 coins.
---
 pkg/core/txfactory.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pkg/core/txfactory.go b/pkg/core/txfactory.go
index 129d5af..b0dfee8 100644
--- a/pkg/core/txfactory.go
+++ b/pkg/core/txfactory.go
@@ -23,6 +23,10 @@ func MakeOutboundTx(
 	targetFeeRate float64,
 	minBlock uint64,
 ) (*Tx, error) {
+	if len(utxoPkhs) == 0 {
+		return nil, fmt.Errorf("insufficient balance")
+	}
+
 	// Make mapping from pkh to private keys
 	pkhPrivs, err := getPkkPrivs(privateKeys)
 	if err != nil {
@@ -38,6 +42,9 @@ func MakeOutboundTx(
 	// Get total outputs and verify <= utxos
 	totalOut := uint64(0)
 	for _, val := range dests {
+		if totalOut+val < totalOut {
+			return nil, fmt.Errorf("insufficient balance: total amount too large")
+		}
 		totalOut += val
 	}
 	if totalOut >= balance {
@@ -200,6 +207,15 @@ func MakeConsolidateTx(
 		tx.Inputs = append(tx.Inputs, txIn)
 	}
 
+	// Verify we can afford the fee
+	if totalIn <= tx.FeeFromRate(targetFeeRate) {
+		return nil, fmt.Errorf(
+			"insufficient balance to pay target fee rate - %d <= %d",
+			totalIn,
+			tx.FeeFromRate(targetFeeRate),
+		)
+	}
+
 	// Set the output amount
 	tx.Outputs[0].Value = totalIn - tx.FeeFromRate(targetFeeRate)
 
-- 
2.43.0


From 235e936f55d54ce69fb31972aa60b2e82a84efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 27/31] fix: adopt a head which got stored while negotiating
 its sync

---
 internal/peer/sync.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/peer/sync.go b/internal/peer/sync.go
index 775ffc7..dce52d2 100644
--- a/internal/peer/sync.go
+++ b/internal/peer/sync.go
@@ -130,7 +130,12 @@ func (p *Peer) handleInboundSyncChain() error {
 	if p.conn.HasErr() {
 		return p.conn.Err()
 	} else if len(neededBlockIds) == 0 {
-		return nil // We are already adopting their head
+		// We only got it since the negotiation, so might not be adopting it
+		p.bus.CandidateHead.Pub(bus.CandidateHeadEvent{
+			Head:                   newHead,
+			AutoAddMempoolInsecure: true,
+		})
+		return nil
 	}
 	// Receive blocks from peer
 	newBlocks := make([]core.Block, len(neededBlockIds))
-- 
2.43.0


From 1d7af3beaf1e5ea1bc1e3144191074285cd917f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:54 +0000
Subject: [PATCH 28/31] fix: don't let two writers of a record share its
 temporary file

---
 pkg/disksyncmap/disksyncmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/disksyncmap/disksyncmap.go b/pkg/disksyncmap/disksyncmap.go
index 4516a1d..cdfce24 100644
--- a/pkg/disksyncmap/disksyncmap.go
+++ b/pkg/disksyncmap/disksyncmap.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"os"
+	"sync"
 
 	"github.com/levilutz/basiccoin/pkg/syncmap"
 )
@@ -18,6 +19,7 @@ type DiskSyncMap[K comparableStringer, V fmt.Stringer] struct {
 	m         *syncmap.SyncMap[K, V]
 	basePath  string
 	parseFunc func(raw string) (v V, err error)
+	saveMu    sync.Mutex
 }
 
 // Create a new disk-backed sync map.
@@ -75,6 +77,8 @@ func (dsm *DiskSyncMap[K, V]) tryLoadKeyFromDisk(key K) bool {
 
 // Write to the given file on disk.
 func (dsm *DiskSyncMap[K, V]) saveFile(path string, val V) error {
+	dsm.saveMu.Lock()
+	defer dsm.saveMu.Unlock()
 	// Written aside then renamed, so a crash can't leave a partial file behind
 	if err := os.WriteFile(path+".tmp", []byte(val.String()), 0666); err != nil {
 		return err
-- 
2.43.0


From c3f816bc39bd5bc4210876c8ff42880ecc743fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 29/31] fix: show a generated address only once its key is
 saved

---
 cmd/bcwallet/bcwallet.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/bcwallet/bcwallet.go b/cmd/bcwallet/bcwallet.go
index aef9405..aa79da2 100644
--- a/cmd/bcwallet/bcwallet.go
+++ b/cmd/bcwallet/bcwallet.go
@@ -98,8 +98,12 @@ var commands = []Command{
 				kc = NewKeyConfig(priv)
 			}
 			ctx.Config.AddKeys(kc)
+			// Saved before shown, so a shown address can't be lost
+			if err := ctx.Config.Save(); err != nil {
+				return err
+			}
 			fmt.Println(kc.PublicKeyHash)
-			return ctx.Config.Save()
+			return nil
 		},
 	},
 	{
-- 
2.43.0


From b7ef5d582c1e45da86435ed5e7821d802cd5235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:37 +0000
Subject: [PATCH 30/31] fix: offer a known transaction to the chain again when
 a peer announces it

---
 internal/peer/handlers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/peer/handlers.go b/internal/peer/handlers.go
index 961a771..b61fa4d 100644
--- a/internal/peer/handlers.go
+++ b/internal/peer/handlers.go
@@ -74,7 +74,14 @@ func (p *Peer) handleReadNewTx() error {
 		return p.conn.Err()
 	} else if p.inv.HasTx(txId) {
 		p.conn.WriteBool(false)
-		return p.conn.Err()
+		if p.conn.HasErr() {
+			return p.conn.Err()
+		}
+		// A known tx may be missing from mempool, as it is empty on startup
+		p.bus.CandidateTx.Pub(bus.CandidateTxEvent{
+			Tx: p.inv.GetTx(txId),
+		})
+		return nil
 	}
 	p.conn.WriteBool(true)
 	tx := p.conn.ReadTx(txId)
-- 
2.43.0


From f3f48805f77df448994abdd576238350f96924ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:48 +0000
Subject: [PATCH 31/31] fix: subscribe to termination before its endpoint is
 served

---
 cmd/bcnode/bcnode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/bcnode/bcnode.go b/cmd/bcnode/bcnode.go
index 75ccd4d..928ad3d 100644
--- a/cmd/bcnode/bcnode.go
+++ b/cmd/bcnode/bcnode.go
@@ -65,6 +65,9 @@ func main() {
 
 	// Load the saved head and all txs if necessary
 
+	// Subscribe before the endpoint is up, so no command is missed
+	terminateSubCh := msgBus.Terminate.SubCh()
+
 	// Start app components (order matters)
 	for i := 0; i < flags.Miners; i++ {
 		go miners[i].Loop()
@@ -79,7 +82,6 @@ func main() {
 
 	// Trigger updates and watch for terminate command
 	printUpdatesTicker := time.NewTicker(printUpdateFreq)
-	terminateSubCh := msgBus.Terminate.SubCh()
 	for {
 		select {
 		case <-printUpdatesTicker.C:
-- 
2.43.0

