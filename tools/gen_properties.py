#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))
BT="src/blockchaintree.rs"; CH="src/chain.rs"; TL="src/tools.rs"; BL="src/block.rs"; TP="src/txpool.rs"; TR="src/transaction.rs"; SD="src/summary_db.rs"; MK="src/merkletree.rs"; SV="src/static_values.rs"
EPOCH_HOOK="cfg(bct_sim): a small BLOCKS_PER_EPOCH so that a simulated run crosses several epochs; the shipped value is unchanged"

prop("C01","A flush that reported success survives any crash",
 "Once flushing the tree has returned success, every main-chain block, stored transaction, coin balance and gas balance that had been accepted before the flush began is readable with exactly the same content after a crash or power loss at any later moment followed by reopening the same folder; flushing only the main chain promises the same for its blocks and transactions. Only later accepted operations may replace those balances.",
 ["histories","crash_points","fault_sequences"],"every history of operations and flushes, every later crash point (between or inside operations, down to single disk writes) and every legal outcome of the un-synced writes",
 "The tests flush once and look while the process is alive; none crashes or reopens a folder whose un-synced writes were lost, torn or reordered.",
 [BT,CH],[("flush of the tree and of a chain",BT+": flush; "+CH+": flush, dump_config")],
 [("Chain.config","height and difficulty of a chain",CH+": dump_config"),("BLOCKS/REF/TRANSACTIONS/SUMMARY/GASSUMMARY","the sled databases",CH+", "+BT)],
 ["reopened node: get_height, find_by_height, find_by_hash, get_transaction, get_amount, get_gas"])
prop("C02","After any crash the node reopens and keeps working",
 "After a crash or power loss at any moment, including during first start, a flush, a block emission or an epoch rollover, opening the same folder succeeds without error or panic and yields a chain that holds at least the genesis block. The reopened node answers reads, accepts the next valid block on its tip, updates balances and flushes.",
 ["histories","crash_points"],"every history, every crash point (down to single disk writes, repeated crashes during recovery included) and every legal outcome of the un-synced writes",
 "No test reopens a node after an unclean stop; each test writes one folder in one process.",
 [CH,BT],[("opening a chain from Chain.config and the databases",CH+": MainChain::new, DerivativeChain::new"),("opening the tree",BT+": BlockChainTree::new")],
 [("Chain.config","must never be left empty, torn, or ahead of the block database",CH+": dump_config")],["BlockChainTree::new, get_main_chain, emmit_new_main_block after restart"])
prop("C03","The main chain is one contiguous hash-linked append-only log",
 "At every moment, and again after every restart, heights 0 to height-1 each hold exactly one block whose recorded height is that number, each emitted block names the hash of its predecessor, and nothing is readable at or above the height. Looking a block up by its hash returns that very block and none other, a block once readable at a height never changes unless a crash removes it from the tip, and blocks that do not fit the next height are refused without effect.",
 ["histories","crash_points","fault_sequences"],"every history of emissions, accepted and refused blocks, flushes, restarts, crashes and injected disk errors",
 "The tests add a few blocks in one process; blocks left over above the tip by a crash and references that outlive their block only exist after crash and restart.",
 [CH,BT],[("height check and append under the height lock",CH+": add_block"),("look-ups",CH+": find_raw_by_height, find_raw_by_hash")],
 [("height","number of blocks",CH),("height_reference","hash to height",CH)],["find_by_height/find_by_hash/get_last_block/get_height"])
prop("C04","Derivative chains stay linked, anchored and durable",
 "Each owner's derivative chain is a contiguous hash-linked log whose first block links to an anchor block of the main chain, and its blocks stay separate from every other owner's and from the main chain. Once flushing a derivative chain has returned success, a crash at any later moment loses none of its flushed blocks and does not change its anchor, and after any crash opening that chain again succeeds and emission on it continues from its last block, or from an anchor in the main chain when it has none.",
 ["histories","crash_points"],"every history of main and derivative emissions by several owners, flushes, restarts and crash points",
 "The one derivative test adds a block and flushes in one process; it never restarts the node.",
 [CH,BT],[("DerivativeChain open/flush/add_block",CH),("emission and anchoring",BT+": get_derivative_chain, emmit_new_derivative_block")],
 [("genesis_hash","hash of the anchor block",CH)],["DerivativeChain get_height/find_by_height/find_by_hash/get_last_block/genesis_hash"])
prop("C05","Concurrent block submission is linearizable",
 "When several threads submit blocks to one chain and read it concurrently, exactly one block is accepted for each height in height order, every submission either is accepted or returns an error without effect, and the outcome equals some sequential order of the calls. Readers never see a height whose block is missing, torn, or different from what a later read at that height returns.",
 ["schedules"],"every interleaving of submitting and reading threads on main and derivative chains",
 "All tests are single threaded.",
 [CH,BT],[("height RwLock held across the append",CH+": add_block"),("readers",CH+": find_raw_by_height, get_last_raw_block")],
 [("height","guards the append",CH)],["add_new_block, DerivativeChain::add_block, get_height, get_last_block, find_by_height, find_by_hash"])
prop("C06","Transfers conserve coins and gas, also across crashes",
 "Sending coins or gas between addresses leaves the total of that ledger unchanged and crediting or debiting changes it by exactly the amount asked. After any crash each ledger equals the state it had after some prefix of the accepted operations that contains at least everything flushed: no transfer is ever half applied and no update is applied twice or out of order.",
 ["histories","crash_points","inputs"],"every history of credits, debits, transfers (self-transfers included), flushes and crashes, every legal outcome of un-synced writes",
 "The balance test checks three sums in one process; half-applied transfers appear only after a crash.",
 [BT],[("one storage transaction per update",BT+": add/sub/set/send_amount, add/sub/send_gas")],
 [("summary_db, gas_db","the two ledgers",BT)],["get_amount, get_gas before and after restart"])
prop("C07","Ledger updates are linearizable and never overdraw",
 "Concurrent credits, debits, transfers and balance reads by any number of threads behave as if executed one at a time in an order consistent with real time, separately for the coin and the gas ledger. An operation that would overdraw an account or exceed the largest representable balance returns an error and changes nothing, without panicking, and every other operation succeeds with exactly its effect.",
 ["schedules","inputs"],"every interleaving of client threads, and amounts including zero, exact balances, overdrafts by one and the largest values",
 "test_amounts runs one thread and never overdraws or overflows.",
 [BT],[("optimistic storage transactions",BT+": add_amount, sub_amount, send_amount, add_gas, sub_gas, send_gas")],
 [("summary_db, gas_db","the two ledgers",BT)],["return values and get_amount/get_gas of concurrent callers"])
prop("C08","Submitting a transaction is all-or-nothing under concurrency",
 "When threads submit transactions concurrently, each submission either returns success, having stored the transaction, moved exactly its amount from sender to receiver and charged the sender exactly the per-byte gas price for its size, or returns an error and leaves record, coins and gas as they were; it never panics. A new transaction whose sender can pay its amount, the current fee and its gas is accepted, if its receiver can hold the amount. The combined outcome equals some sequential order of the submissions, and no sender spends coins or gas it does not have.",
 ["schedules","inputs"],"every interleaving of submissions that compete for the same sender's coins and gas, amounts from zero to the largest value",
 "The only use of send_transaction is an example that is not compiled; no test calls it.",
 [BT],[("balance and gas checks, then transfer, charge and record",BT+": send_transaction"),("gas price",SV+": BYTE_GAS_PRICE"),("dump size",TR+": get_dump_size")],
 [("transactions","stored transactions by hash",CH)],["send_transaction results, transaction_exists, get_amount, get_gas"])
prop("C09","A transaction delivered more than once is applied once",
 "However often the network delivers the same transaction to a node, interleaved with other transactions, concurrently, or again after a flush and a restart or crash (of transactions flushed before it), its amount and its gas are taken at most once: the first successful submission applies it and every later one returns an error and changes nothing. Distinct transactions are never mistaken for duplicates.",
 ["fault_sequences","schedules","histories"],"every pattern of duplication, reordering and redelivery, including redelivery after flush and crash-restart",
 "No test submits a transaction, let alone twice.",
 [BT,CH],[("duplicate check on submission",BT+": send_transaction"),("transaction store",CH+": transaction_exists, add_transaction")],
 [("transactions","stored transactions by hash",CH)],["send_transaction results, get_amount, get_gas"])
prop("C10","Epoch rollover settles balances exactly once and survives faults",
 "When the block that closes an epoch is emitted, the treasury address holds exactly the per-cycle coin supply afterwards, every other coin balance and every gas balance is unchanged, and the emitted summary block commits, through its Merkle root over the (address, coins, gas) entries of all addresses in the coin ledger, to the ledgers as they were right before. The previous-epoch ledgers kept on disk then equal the ledgers as they were right before. If the rollover fails with a disk error the block is not accepted and retrying after the fault clears, on the same node or after reopening the folder, completes it with the same result; after a crash inside it the node reopens with untouched non-treasury balances and the rollover can be completed.",
 ["histories","crash_points","fault_sequences"],"every ledger content at the boundary, every disk error and every crash point inside the rollover, several epochs per run",
 "An epoch is a million blocks; no test reaches the first rollover.",
 [BT,TL],[("summary root, rotation, refill, append",BT+": emmit_new_main_block, summarize, rotate_dbs"),("the snapshot folders",BT+": rotate_dbs, copy_ledger")],
 [("old_summary_db, old_gas_db","snapshot of the closed epoch",BT)],["emitted summary block, get_amount, get_gas, on-disk snapshot folders"],EPOCH_HOOK)
prop("C11","Block emission demands proof of work and retargets soundly",
 "Emission succeeds exactly when the proof of work meets the current difficulty over the tip's hash and the block's transaction list (which is empty for the block that closes an epoch and for no other main-chain block); otherwise it returns an error and changes nothing. Whatever the node's clock says, stalled, jumping forward or running backwards, the emitted block's difficulty follows from its predecessor's: one halving harder when the block came earlier than the target spacing of 600 seconds after its predecessor, one doubling easier when later (never easier than the easiest target, 0x7F FF...), unchanged at exactly the target; emission never panics.",
 ["histories","inputs","fault_sequences"],"every sequence of emission attempts (valid, wrong, and stale proofs) under clock skew and jumps, long runs of early and of late blocks included",
 "The retarget test checks a handful of fixed steps with increasing timestamps.",
 [BT,TL],[("proof check before append",BT+": emmit_new_main_block, emmit_new_derivative_block"),("retarget",TL+": recalculate_difficulty, check_pow")],
 [("difficulty","recorded in every block",BL)],["emission results and emitted block headers"])
prop("C12","Honest blocks validate everywhere and replicas converge",
 "Every block an honest node emits validates against its predecessor on every other node after travelling as bytes, so nodes that exchange blocks over a network that loses, duplicates, delays, reorders and partitions end up, once faults stop, with identical chains. A block whose predecessor link, proof of work, difficulty or transaction list was altered does not validate against that predecessor.",
 ["fault_sequences","schedules","histories"],"every message loss, duplication, reordering, delay, partition and node restart, and forged variants of every block kind injected in transit",
 "validate tests check one hand-made pair per kind; no test validates a block the node itself emitted.",
 [BL,BT,CH],[("validation rule",BL+": validate, verify_block"),("emission rule",BT+": emmit_new_main_block, emmit_new_derivative_block"),("acceptance",BT+": add_new_block")],
 [],["validate results and the chains of all replicas"])
prop("C13","Corrupted or truncated network bytes never bring a node down",
 "Whatever bytes arrive in place of a block or a transaction, truncated, extended, bit-flipped or random, decoding them either returns an error or a well-formed value, never panics and changes no state. Bytes that arrive intact decode to a value that encodes to the same bytes and the same hash.",
 ["fault_sequences","inputs"],"every corruption and truncation of messages in transit between nodes, for every block kind and for transactions",
 "Round-trip tests only decode what was just encoded.",
 [BL,TR,TL],[("decoders",BL+": parse, deserialize_main_chain_block; "+TR+": parse; "+TL+": load_u256")],
 [],["decoder results for corrupted deliveries"])
prop("C14","The shared transaction pool is a linearizable deduplicating queue",
 "With any number of tasks pushing to and popping from the shared pool concurrently, each transaction is held at most once, a push reports whether it was new, and every pop returns the transaction with the earliest timestamp among those held. Nothing is lost, invented or returned twice without being pushed again, and size and membership queries agree with that content.",
 ["schedules"],"every interleaving of pushing, popping and querying tasks, with equal timestamps and re-pushed transactions",
 "The pool has no test.",
 [TP,TR],[("heap plus hash set",TP+": push, pop"),("ordering",TR+": Ord for TransactionableItem")],
 [("pool, hashes","must always agree",TP)],["push/pop/len/transaction_exists results"])
prop("C15","The summary store loses no update and keeps what it acknowledged",
 "Concurrent credits and debits through the summary store on any addresses take effect exactly once each and never overdraw; a refused debit reports an error without effect and nothing panics. Once a credit or debit has returned success, a crash at any later moment does not undo it.",
 ["schedules","crash_points","inputs"],"every interleaving of concurrent callers, every crash point after an acknowledgement, any 33-byte address",
 "The summary store has no test.",
 [SD],[("read-modify-write and flush",SD+": add_funds, decrease_funds")],
 [("db","balances by address",SD)],["add_funds/decrease_funds results, get_funds before and after restart"])
prop("C16","An archive file reads back exactly or reports an error",
 "Data compressed to a file with a reported success decompresses to exactly that data, whatever short reads, short writes and interrupted system calls happen on the way. When the disk fails, fills up, or the file was cut short or is missing, the operation returns an error and never returns wrong or incomplete data as success, nor panics.",
 ["fault_sequences","crash_points","inputs"],"every placement of short, interrupted and failing reads and writes, disk-full, and truncation of the file at any byte",
 "tools_test does not compile; nothing injects a disk fault.",
 [TL],[("zstd stream to and from a file",TL+": compress_to_file, decompress_from_file")],
 [],["compress_to_file, decompress_from_file results"])
prop("C24","A copied folder is complete or the copy reports an error",
 "When copying a folder reports success, every file and folder of the source, however deep and whatever its name, is in the destination with exactly the same content, whatever short reads, short writes and interrupted system calls happened on the way and whatever an older or interrupted copy left there; other files of the destination stay as they were. A closed node's copied folder opens as that very node. When the disk fails or fills up, or the source is missing, the copy returns an error and never panics, and copying again once the fault has cleared completes it. The source is never changed.",
 ["fault_sequences","crash_points","inputs"],"every placement of short, interrupted and failing reads, writes, listings and folder operations, disk-full, the process killed at any disk operation of the copy, and every tree of files",
 "No test copies a folder; nothing injects a disk fault.",
 [TL],[("recursive copy of a folder",TL+": copy_dir_all")],
 [],["copy_dir_all results, the content of source and destination, the node opened from the copy"])
prop("C17","The treasury is funded exactly once; restarts move no balance",
 "On first start the treasury address holds exactly the per-cycle coin supply and nobody else holds anything. Closing and reopening a node any number of times, at any chain height, gracefully or by a crash after a flush, changes no coin or gas balance: no coins are minted or lost by restarting.",
 ["histories","crash_points"],"every history of spending from the treasury, flushes, restarts and crashes, in particular while the chain holds only the genesis block",
 "No test reopens a node.",
 [BT],[("funding the treasury at open",BT+": BlockChainTree::new")],
 [("summary_db","coin ledger",BT)],["get_amount of treasury and others across restarts"])
prop("C18","Disk errors are reported and cause no silent damage",
 "When the disk returns an error or is full during opening, flushing or archiving, the call returns an error instead of panicking or claiming a success that a crash could undo. Once the fault clears, the same call, on the same node or after reopening the folder, succeeds, and nothing flushed earlier was lost.",
 ["fault_sequences","histories"],"every placement of EIO and ENOSPC over the reads, writes, syncs, opens, renames and directory operations of opening and flushing",
 "No test injects a disk error.",
 [CH,BT],[("error propagation",CH+": MainChain::new, dump_config, flush; "+BT+": new, flush, rotate_dbs")],
 [],["results of new, flush and of the retry"])
prop("C19","A crash never leaves a transaction half applied",
 "After a crash at any moment of or after a transaction's submission, the reopened node shows either all of its effects (record stored, coins moved, gas charged) or none of them.",
 ["crash_points","histories"],"every crash point during and after submissions that were not followed by a flush",
 "No test submits a transaction or crashes a node.",
 [BT],[("three separate databases are updated one after another",BT+": send_transaction")],
 [],["transaction_exists, get_amount, get_gas after restart"])
prop("C23","Every call returns, and a call whose caller gives up harms nobody",
 "Whatever mix of calls several threads make on one node at the same time (blocks, reads, ledgers, transactions, flushes, pool, summary store), every call returns: none waits for ever for a lock or for another call. A caller may also drop the future of a flush, of a summary-store update or of an epoch-closing emission before it is ready (a timeout, a select), at any of the points where it waits: the update then took effect wholly or not at all, the block was added wholly or not at all and asking again closes the epoch, no lock stays held, calls made at the same time and later succeed and keep every guarantee, in particular a later flush makes durable what it covers and a crash after it leaves a folder that opens.",
 ["schedules","crash_points","histories"],"every interleaving of the calls, every waiting point at which a future may be dropped, every crash after that",
 "No test calls from two threads or drops a future.",
 [CH,BT,SD],[("locks and config replacement",CH+": dump_config, flush, add_block"),("rollover",BT+": emmit_new_main_block, rotate_dbs, flush"),("update lock",SD+": add_funds, decrease_funds")],
 [("config_dump","serializes the replacement of the config, also of an abandoned one",CH)],["completion of every call; results of the calls made next; state after a crash"])
# pure functions: listed, not claimed
prop("C20","Merkle proofs are sound and complete",
 "A proof produced for an element of a list verifies against that list's root, and no proof verifies for an element that is not in the list.",
 ["inputs"],"every list and every element","One list of a few elements is checked.",
 [MK],[("tree and proof",MK)],[],["get_proof, verify"])
prop("C21","A signed transaction verifies; an altered one does not",
 "A transaction signed with the sender's key verifies, and changing any signed field or using another key makes verification fail.",
 ["inputs"],"every transaction and every alteration","One transaction is signed and verified.",
 [TR],[("sign, verify",TR)],[],["verify"])
prop("C22","Numbers survive encoding",
 "Every unsigned 256-bit number and every big integer that fits decodes from its encoding to the same number, with the consumed length reported correctly.",
 ["inputs"],"every number","A few numbers are checked.",
 [TL],[("dump_u256, load_u256, dump_biguint, load_biguint",TL)],[],["load_u256"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
