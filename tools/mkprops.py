#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept so that the list is edited in one place.
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        observe_at=list(obs),hook_needed=hook)))
CH="internal/chain/chain.go";ST="internal/chain/state.go";TG="internal/chain/target.go"
INV="internal/inv/inv.go";VER="pkg/core/verify.go";DIF="pkg/core/difficulty.go"
PE="internal/peer/peer.go";SY="internal/peer/sync.go";HA="internal/peer/handlers.go";PF="internal/peerfactory/peerfactory.go"
CO="pkg/prot/conn.go";PR="pkg/prot/primitives.go";PC="pkg/prot/core.go";MI="internal/miner/miner.go"
TO="pkg/topic/topic.go";SQ="pkg/syncqueue/syncqueue.go";DS="pkg/disksyncmap/disksyncmap.go";SE="internal/inv/serialize.go"
RW="internal/rest/wallet.go";RB="internal/rest/busclient.go";RS="internal/rest/server.go"
WC="cmd/bcwallet/config.go";WB="cmd/bcwallet/bcwallet.go";TF="pkg/core/txfactory.go"
NOTESTS="The 14 existing tests cover record text formats, hashing, ECDSA helpers, one small Merkle tree and one single-threaded pub/sub case; none runs a node, "

p("C01","Every reported figure equals a replay of the reported chain",
 "Whenever a node answers a wallet query, the balances, unspent outputs, rich list, confirmation counts and containing blocks it reports are exactly those obtained by replaying, from the first block, the chain ending at the head it held at that moment. This stays true after any sequence of advances, reorganisations of any depth, rejected blocks and transactions, restarts and pending transactions.",
 ["histories","schedules","fault_sequences","inputs"],
 "all block trees a node is fed (forks, deep reorganisations, transactions chained inside one block, the same transaction on both sides of a fork, duplicates, invalid blocks in the middle of a better chain), all delivery orders, restarts in between, all query times",
 NOTESTS+"so nothing exercises the incremental apply/undo bookkeeping, whose errors only show after particular histories.",
 [CH,ST,RW,RB],[("apply a block to the ledger","%s Advance"%ST),("undo a block","%s Rewind/RewindUntil"%ST),("swap in a fully advanced copy","%s handleCandidateHead"%CH)],
 [("unspent outputs","per-address and global unspent sets",ST),("included blocks","which block holds each transaction",ST)],
 ["/wallet/balance","/wallet/utxos","/wallet/richlist","/wallet/tx/confirms","/wallet/tx/block"])

p("C02","No double spend and no inflation on any adopted chain",
 "On every chain a node adopts, each output is spent at most once and only by a transaction placed after the one that created it, and the sum of all unspent outputs equals the number of blocks times the block reward. No submitted or mined transaction, whatever amounts, repeated inputs or ordering it uses, makes a node adopt a chain that violates this.",
 ["inputs","histories","schedules"],
 "all transactions and blocks offered by peers, miners or HTTP clients (repeated inputs, cross-block and in-block double spends, spends of outputs from another branch, amounts chosen to wrap 64-bit sums, over-claiming rewards), in all orders and on all forks",
 NOTESTS+"and the rule is about every offered block on every history; conservation is a global sum over a chain, not a local assertion.",
 [ST,VER,"pkg/core/transaction.go",INV],[("spent-output check","%s VerifyTxIncludable, Advance"%ST),("block input/output totals","%s VerifyBlock"%VER),("surplus rule","%s VerifyTxIsolated"%VER)],
 [],["adopted head chain via /wallet/block, /wallet/merkle, /wallet/tx","/wallet/utxos","/wallet/richlist"])

p("C03","Coins move only with the owner's key",
 "A node never adopts a chain, and never reports as known a transaction, in which some input spends an output with a public key that does not hash to the output's address, a stated value that differs from the output, or a signature that does not verify under that key for that transaction's outputs and minimum block. This holds for every transaction from any peer, miner or HTTP client, in any state of the node.",
 ["inputs","histories","schedules"],
 "all forged, re-targeted, mutated, truncated, wrong-key and wrong-value transactions, delivered by any channel, alone, inside blocks, before or after their parents, or after a valid twin",
 "The signature tests check the ECDSA helpers in isolation; no test offers a forged transaction to a node, by any channel or in any state.",
 [VER,"pkg/core/crypto.go",INV,CH],[("input checks against origin output","%s VerifyTx"%VER),("signature checks","%s VerifyTxIsolated"%VER),("only verified entities are stored","%s StoreTx"%INV)],
 [],["/wallet/tx","/wallet/tx/confirms","adopted head chain"])

p("C04","Adopted chains obey every block rule, and valid blocks are accepted",
 "Every block on a chain a node adopts has the required proof of work, a target allowed by the retarget schedule, a mined time above the median of the previous five (and, for the last block of a retarget period, above that of the period's first block) and at most one hour ahead of the node's clock, exactly one leading reward transaction carrying the block's height and claiming exactly the reward plus the fees, no transaction before its minimum block, and total sizes within limits. A block that obeys all of these rules on a known parent is never refused, and no accepted block leaves the node unable to carry on.",
 ["inputs","histories","configurations","schedules"],
 "all single-rule violations and boundary values, at every height relative to the retarget period, on the main chain and on side branches, with clock skew and clock jumps between nodes",
 NOTESTS+"and no test verifies a block at all; the rules interact with chain height, history and the local clock.",
 [VER,DIF,INV,TG],[("block verification","%s VerifyBlock"%VER),("target computation","%s NextTarget"%DIF),("subtree size rule","%s VerifyMerkle"%VER)],
 [],["adopted head chain","node process still answering"])

p("C05","The node follows the heaviest valid chain it has been given",
 "A node's head changes only to a fully valid chain with strictly more cumulative work than the current one, and once a fully valid chain with strictly more work has been delivered completely to it, the node adopts it or a heavier one. Offering an invalid, incomplete, lighter or equal chain changes none of its answers.",
 ["histories","schedules","inputs","fault_sequences"],
 "all block trees, all orders and interleavings of delivery by several peers and local miners, candidates that fail in the middle, ties, branches that were stored before they became the best, disconnects in the middle of a delivery",
 NOTESTS+"and fork choice depends on the order in which competing branches and their transactions arrive.",
 [CH,ST,INV,SY],[("work comparison and all-or-nothing switch","%s handleCandidateHead"%CH),("total work","%s StoreBlock"%INV),("pre-check of offered chain","%s quickVerifyChain"%SY)],
 [("head","identity of the adopted chain",ST)],["saved head","sync-chain opening message","/wallet/head/height"])

p("C06","Connected nodes converge after faults stop",
 "Once faults have stopped and the nodes that run are reachable from one another, as soon as further blocks are mined every node ends, within bounded simulated time, on the same head and reports the same ledger. This holds whatever losses of connections, partitions, delays, crashes, restarts and competing miners came before.",
 ["schedules","fault_sequences","histories","configurations"],
 "all topologies of two to five nodes, all fault schedules that end (partitions, resets, stalls, delay, process crash and restart with or without saved data, clock offsets), all interleavings",
 NOTESTS+"and convergence is a liveness property of several nodes under failures.",
 [SY,PE,PF,CH],[("announce a new head to every peer","%s ValidatedHead case"%PE),("chain sync","%s handleSyncChain"%SY),("peer upkeep","%s seekNewPeers"%PF)],
 [],["saved head of every node","REST answers of every node"])

p("C07","Any valid chain can be synced from a peer that holds it",
 "A node that connects to a peer holding a heavier valid chain obtains every block, Merkle node and transaction it lacks and adopts that chain within bounded simulated time, whatever the chain contains: any fork point, blocks of any allowed size and tree shape, transactions that spend outputs of the same block, of other new blocks or of blocks only on the new branch, and entities the receiver already had.",
 ["inputs","histories","schedules"],
 "all pairs of (receiver state, sender chain): fork depth, transactions per block, dependency patterns across and inside blocks, shared subtrees and transactions, receiver holding part of the data, segmentation and delay of the stream",
 NOTESTS+"so neither the entity-request order nor the insertion order is exercised for any chain.",
 [SY,PC,CH,INV],[("entity negotiation","%s handleInboundSyncChain/handleOutboundSyncChain"%SY),("ordered insertion","%s handleCandidateHead"%CH)],
 [],["saved head and ledger of the receiving node"])

p("C08","The reported chain survives crashes",
 "If a node with a save directory has saved or announced a head and its process is then killed at any instant, restarting it on that directory brings it back to that head, or to a valid chain of at least as much work, with the ledger that chain implies, and never to an earlier or empty chain. The restart itself never fails or crashes because of what the kill left behind.",
 ["crash_points","histories","schedules"],
 "kill at every file-system operation and between any two scheduler steps, with the write in progress torn at any byte, during start-up, block storing, reorganisation and head saving, repeatedly",
 NOTESTS+"and no test writes to disk or restarts anything; the order and atomicity of writes only matter at particular crash points.",
 [CH,DS,INV,SE],[("save head after storing its blocks","%s handleCandidateHead, saveHeadToFile"%CH),("reload head on start","%s NewChain"%CH),("per-record files","%s Store"%DS)],
 [("head file","identity of last adopted head",CH),("record files","one file per block, Merkle node, transaction",DS)],
 ["saved head","REST answers after restart"])

p("C09","A restarted node is a full participant again",
 "After a kill at any instant and a restart on its save directory, a node accepts every valid heavier chain it would have accepted without the restart, including chains built from blocks and transactions it already had on disk, on its own branch or another. Transactions that were known but unconfirmed before the kill can be confirmed, resubmitted and mined again.",
 ["crash_points","histories","schedules"],
 "all kill points, all sets of stored but unadopted blocks, side branches and unconfirmed transactions, all later chains that reuse them",
 NOTESTS+"so the difference between what is on disk and what is in memory after a restart is never exercised.",
 [CH,ST,DS,SY],[("known entities are skipped on insert","%s handleCandidateHead, handleCandidateTx"%CH),("includability of known transactions","%s VerifyTxIncludable"%ST),("stored-head shortcut in sync","%s handleSyncChain"%SY)],
 [],["saved head after new blocks","/wallet/tx/confirms"])

p("C10","A stored record reads back exactly or not at all",
 "Any block, Merkle node or transaction that a node reads back from its save directory equals, in every field, the one it stored under that identity, including size, height and work figures; a record that a crash or disk error left incomplete is treated as absent and can be fetched and stored again. Concurrent readers never observe a partial record.",
 ["crash_points","fault_sequences","schedules","inputs"],
 "all records, a kill with the write in progress torn at any byte, failing or short writes, reads racing with stores by other tasks, restart and refetch",
 "The record tests parse three well-formed strings; no test reads a truncated record, races a reader with a writer, or goes through the file layer.",
 [DS,SE,INV],[("write then read record file","%s Store/tryLoadKeyFromDisk"%DS),("record parsing","%s *RecordFromString"%SE)],
 [],["entities served over REST and to peers after restart","record files"])

p("C11","Peers read exactly what was written",
 "On a peer connection every message, number, identifier and entity is read exactly as the other side wrote it and in that order, however the byte stream is split, delayed or paused; if the connection fails the reader gets an error and never an altered, merged, repeated or partial value. Waiting briefly for a message and giving up loses nothing.",
 ["schedules","fault_sequences","inputs"],
 "all segmentations, pauses longer or shorter than the polling and default time limits, resets at every byte, all payload sizes up to and around the frame limit",
 "No test opens a connection; segmentation and pauses in the middle of a frame need a controlled network.",
 [CO,PR,PC],[("length-prefixed frames and deadlines","%s ReadTimeout, Write"%CO),("typed reads and writes","%s, %s"%(PR,PC))],
 [],["values returned by the typed reads on either side"])

p("C12","Two peers stay in step whatever they send each other",
 "Two correct nodes that issue commands to each other at any times, including at the same moment and while one is busy, both complete every command, in one agreed order, without misreading one command's data as another's. Their connection is dropped only because of a network fault or a crash, or because one side chooses to close it.",
 ["schedules","histories"],
 "all interleavings of head announcements, transaction announcements, address announcements, peer requests and closes from both ends, with arbitrary message delay and processing delay below the time limits",
 "No test runs two peers; the simultaneous-command path depends on message timing.",
 [PE,HA,SY],[("simultaneous command resolution by connection initiator","%s issueCommand"%PE),("one handler at a time","%s Loop"%PE)],
 [],["node logs of protocol errors","connections closed without fault","completion of each announced item at the other side"])

p("C13","A misbehaving peer cannot stop or corrupt a node",
 "Whatever bytes a remote party sends on a peer connection, and whenever it stalls or disconnects, the node keeps running, keeps serving its other peers and its HTTP clients, keeps its memory use in proportion to the bytes received, and changes its chain and ledger only to valid heavier chains. A connection whose remote party breaks the protocol ends, and nothing it sent is stored unless it is individually valid.",
 ["inputs","schedules","fault_sequences"],
 "all malformed, oversized, truncated, contradictory, out-of-order and stalled protocol streams at every stage of every command, from several remote parties at once, while honest peers are active",
 "No test sends hostile input to a node; what matters is every byte stream at every protocol stage.",
 [PE,HA,SY,CO,PC,PF],[("checks on received data","%s quickVerifyChain, %s ReadTx/ReadBlock/ReadMerkle"%(SY,PC)),("panic containment per peer","%s Loop"%PE),("time limits","%s"%CO)],
 [],["node process alive","REST answers","honest peers converge","allocation sizes"])

p("C14","Peer slots: bounded, distinct, never self, reclaimed, and refilled",
 "A node never keeps more peers than its configured maximum, never two connections to the same running node and never one to itself, and a slot whose connection ended becomes usable again within bounded time so that the same or another node can take it. A listening node becomes reachable from nodes that only know a common peer, and a node that has lost all peers reconnects once a seed is reachable.",
 ["schedules","fault_sequences","configurations","histories"],
 "all connection orders, simultaneous mutual dials, more candidates than slots, handshakes that hang, crashes and reconnects under the same or a new identity, seed outages within the retry allowance",
 "No test creates a peer manager; limits and reclaiming depend on races between dialling, accepting and closing.",
 [PF,PE,CO],[("admission and identity check","%s addConn"%PF),("slot release on close","%s PeerClosing case"%PF),("discovery","%s seekNewPeers, tryNewAddrs"%PF),("self check","%s handshake"%CO)],
 [("known peers","identities holding a slot",PF)],["established connections per node","adoption of later blocks over them"])

p("C15","Every subscriber gets every published message once, in order",
 "Each subscription to a topic receives every message published after it subscribed, exactly once, and the messages of one publisher in the order they were published, until it is closed. Slow, closing or closed subscribers never block or disturb publishers or other subscribers, and closing always completes.",
 ["schedules","histories"],
 "all interleavings of publishing, subscribing, reading (by polling or by channel), closing and periodic clean-up by many tasks",
 "The one pub/sub test is single-threaded and sequential, while every component of the node relies on it from many goroutines.",
 [TO,SQ,"pkg/queue/queue.go"],[("fan-out to per-subscription queues","%s Pub"%TO),("channel pump","%s SubCh.loop/Close"%TO),("clean-up","%s gc"%TO)],
 [],["messages popped or received per subscription"])

p("C16","HTTP answers are linearizable",
 "Concurrent HTTP queries and submissions to a node behave as if each took effect atomically at one instant between request and response: every answer is consistent with one single state of that node, later requests never observe an earlier state than requests that finished before them, and every request is answered within bounded time. A submission answered with success is known to the node at once, and one that breaks a rule is answered with an error and has no effect.",
 ["schedules","histories"],
 "all interleavings of several clients with block arrivals, reorganisations and transaction arrivals",
 "No test issues a request; the answers are produced by a task that is at the same time switching chains.",
 [RB,RW,CH],[("single-owner ledger answering queries","%s Loop"%CH),("reply channels","%s"%RB)],
 [],["request/response history of concurrent clients against the head history"])

p("C17","Miners produce valid, fully paid blocks and keep up with the head",
 "Every block a node mines extends the head it was told to extend, is accepted by the node itself and by every node with the same parent and a sound clock, pays block reward plus all fees of the included transactions to the configured address, and includes only transactions valid at that height. After any head change or new transaction mining moves on to the new work within bounded time, and while miners run the chain keeps growing under any clock offset or jump within the one hour tolerance.",
 ["schedules","histories","fault_sequences","configurations"],
 "all pending-transaction sets (conflicting, dependent, oversized in total, with future minimum blocks), all arrival times relative to mining, clock skew and jumps, restarts, several miner threads",
 NOTESTS+"and no test mines; the miner's view races with the ledger.",
 [MI,TG,ST],[("target creation","%s CreateMiningTarget"%TG),("block template","%s updateTemplate"%MI),("mining loop","%s Loop/mine"%MI)],
 [],["mined blocks on the adopted chain","node logs of refused own blocks","payout balance"],
 "the number of hashes tried between checks for new work is a constant; a build-tagged function lets the simulator lower it")

p("C18","A valid submitted transaction reaches every node and gets confirmed",
 "When a node accepts a transaction while no fault interferes, every node connected to it directly or through others comes to know it within bounded simulated time, and if it stays spendable, fits in a block, and some connected node keeps mining, it is confirmed on the common chain within a bounded number of blocks. Dependent transactions submitted in order are all confirmed.",
 ["schedules","fault_sequences","histories","configurations"],
 "all topologies, submission points, dependency chains, competing spends, delays and temporary connection losses before the submission, mining node different from the submitting node",
 NOTESTS+"and relay and inclusion involve several nodes and tasks.",
 [CH,HA,PE,TG],[("relay of new transactions","%s ValidatedTx case, %s new-tx"%(PE,HA)),("pending pool to block","%s CreateMiningTarget"%TG)],
 [],["/wallet/tx on every node","/wallet/tx/confirms on every node"])

p("C19","A pending transaction is never lost, and is tracked exactly",
 "A transaction that a node has accepted is at any time either confirmed on the adopted chain with the right confirmation count, or reported as known with zero confirmations; when a reorganisation drops its block it becomes pending again and can be confirmed on the new branch. Outputs reported as free of pending spends are exactly the unspent outputs that no pending transaction uses, and resubmitting a known transaction has no further effect.",
 ["histories","schedules","inputs"],
 "all sequences of submissions (including conflicting, duplicate and dependent ones), confirmations, and reorganisations that drop, keep or replace blocks containing them",
 NOTESTS+"and pool bookkeeping across reorganisations is pure history dependence.",
 [ST,CH],[("return to pool on undo","%s Rewind"%ST),("removal on confirm","%s Advance"%ST),("spent-in-pool filter","%s GetPkhUtxos"%ST)],
 [("pending pool","accepted but unconfirmed transactions",ST)],["/wallet/tx/confirms","/wallet/utxos?excludeMempool=true"])

p("C20","Wallet keys are never lost",
 "Once the wallet has printed a generated address or reported an import as done, the corresponding private key is in the wallet file and stays there after any later command and after a kill, write error or full disk at any instant; at every instant the wallet file on disk is a complete, loadable file with all keys it ever confirmed. Importing adds every key of the other file and removes none.",
 ["crash_points","fault_sequences","histories"],
 "kill at every file-system operation with torn writes, write errors and full disk, in every command that saves, over sequences of commands, in both networks' wallets",
 "No test touches the wallet; key loss needs a crash or error inside one particular write.",
 [WC,WB],[("save configuration","%s Save"%WC),("create on first use","%s EnsureConfig"%WC),("add keys","%s AddKeys"%WC)],
 [("wallet file","all private keys",WC)],["wallet file after every command, kill and restart"])

p("C21","A wallet payment moves exactly the stated amounts",
 "A confirmed 'send' submits one valid transaction that pays each named address exactly the stated total, spends only outputs owned by the wallet and not already used by pending transactions, returns all remaining value except a fee in proportion to its size to the wallet, and prints its identifier only if the node accepted it; 'consolidate' moves value only to the wallet itself. If anything fails or the user declines, it reports that and the wallet's funds are unchanged unless the node did accept the transaction.",
 ["inputs","fault_sequences","histories"],
 "all wallet contents (keys, outputs, pending spends), amounts and destination lists including repeats and own addresses, and HTTP faults (refused, lost request, lost response, error status) at every request",
 "No test runs the wallet or builds a transaction from it.",
 [WB,TF,"internal/rest/client/wallet.go"],[("coin selection, change, signing","%s MakeOutboundTx, MakeConsolidateTx"%TF),("fresh spendable outputs","%s send"%WB)],
 [],["node's view of the submitted transaction","wallet output","balances after confirmation"])

p("C22","Shared queues and maps behave as if each operation were atomic",
 "Operations on the shared queue, the shared map and the disk-backed map by any number of concurrent tasks have the results of some one-at-a-time order that respects their real-time order: nothing pushed or stored is lost, duplicated or reordered, a stored key is visible to every later lookup, and operations on a closed queue do nothing.",
 ["schedules","histories"],
 "all interleavings of all operations by several tasks, including closing, and disk errors under the disk-backed map",
 "No test uses these containers concurrently.",
 [SQ,"pkg/syncmap/syncmap.go",DS,"pkg/queue/queue.go"],[("mutual exclusion","%s"%SQ),("store then publish","%s Store"%DS)],
 [],["operation results of concurrent tasks, checked against a sequential model"])

p("C23","What a node knows is closed and correctly identified",
 "For every block a node knows it can produce, under the exact identity asked for, the block, its parent back to the first block, every Merkle node and every transaction below its root, and for every transaction every transaction whose outputs it spends. This holds at every instant, for every request from a peer or HTTP client, whatever was delivered, rejected, raced or interrupted by a crash before.",
 ["schedules","crash_points","histories","inputs"],
 "all delivery histories including rejected and partly failing candidates, all kill points during storing, concurrent requests while storing",
 NOTESTS+"and closure depends on the order of insertion under failures.",
 [INV,CH,DS,SY],[("verify before store","%s StoreBlock/StoreMerkle/StoreTx"%INV),("insertion order","%s handleCandidateHead"%CH)],
 [],["/wallet/block","/wallet/merkle","/wallet/tx","entity requests by peers"])

p("C24","The wallet reports what its node holds",
 "When 'balance', 'utxos', 'rich-list', 'tx-confirms', 'tx-block', 'get-tx', 'get-merkle' or 'get-block' ends in success, what it printed is, for every address or identifier asked about (or every address of the wallet), exactly what one state of the chain the node held during the command implies: every entry once, a total equal to the sum of its entries, and an explicit mark for what the node does not have. After a failed, refused, cut off or erroneous answer it reports the failure and not success.",
 ["histories","fault_sequences","schedules"],
 "all chains, reorganisations and restarts of the node while the command runs, all sets of addresses and identifiers including repeats and unknown ones, and HTTP faults (refused, lost request, lost response, error status, answer cut short) at every request",
 "No test runs the wallet or its client against a node.",
 [WB,"internal/rest/client/wallet.go","internal/rest/client/util.go"],[("reports","%s balance, utxos, tx-confirms, tx-block, rich-list, get-*"%WB),("requests","internal/rest/client/wallet.go")],
 [],["wallet output"])

p("C25","A node serves only what its flags enable, and ends only at its operator's word",
 "A node that was started with the administration endpoints ends, within bounded simulated time, once it acknowledged a termination request that carries the exact password (any, if none is set), at whatever moment after its start that request came; it keeps running, and answers the request with a refusal, for every other request: a wrong, missing, altered or shortened password, another method or path, a node without these endpoints. Endpoints that the flags do not enable are never served, enabled ones always are, whatever was asked before, in whatever order and however many at once.",
 ["inputs","schedules","histories","configurations"],
 "all combinations of the endpoint flags and passwords, all requests (methods, paths, header values including parts, repetitions, case changes and earlier passwords), any number at once and at any moment, also right after the start, before a restart with other flags, or beside wallet requests and mining",
 NOTESTS+"and whether an early or concurrent request is obeyed depends on the start-up and request schedule.",
 [RS,"internal/rest/admin.go","cmd/bcnode/bcnode.go","pkg/topic/topic.go"],[("routing and password","%s"%RS),("termination","cmd/bcnode/bcnode.go main")],
 [],["HTTP status of every request","whether the node runs"])

p("C26","What has ended leaves nothing behind in a node",
 "Once peers have left or were refused, dropped or cut off, handshakes failed, chains were adopted, rejected or given up halfway, and requests were answered, a node runs nothing more on their account: after bounded simulated time without faults, the number of tasks it runs is bounded by what it ran when fresh plus a constant for each connection it has now, and it holds no connection whose other end is closed. So its cost does not grow with its history.",
 ["histories","schedules","fault_sequences"],
 "all sequences of connects, failed or aborted handshakes, refusals for lack of slots, protocol violations, vanishing and silent peers, partitions, chain deliveries that end in the middle, and HTTP requests, on either end of a connection",
 NOTESTS+"and leaks only show as growth over many connections that end in unusual ways.",
 [PE,SY,PF,HA,TO],[("peer loop and its release","%s Loop"%PE),("connection creation","%s"%PF),("subscriptions","%s SubCh, Close"%TO)],
 [],["live goroutines and open connections of the node's process"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
