from propfmt import MC, P

SHIM = "The crate is compiled from /repo's sources with stand-ins for the dependencies that are not available offline (see DESIGN.md). "
PROPS = [
    P("C20", "Stakes ledger: every coin accounted for, rules on amounts, delays, nonces kept",
      "Under any history of adding, withdrawing, rewarding, slashing, ageing and querying, the ledger holds exactly the coins put in less those taken out, per validator and withdrawer, refuses what is below the minimum, above the balance, before the delay or from a wrong withdrawer, and a refused operation changes nothing. "
      "All indexes agree with each other and with the entries, coin age and power are those of the entry's amount and epochs, nonces only grow, and ranks and censuses list every holder once, in order of power.",
      ["histories", "inputs"], "every sequence of ledger operations with any amounts, epochs, validators, withdrawers, capabilities and census strategies",
      "The tests run a few fixed sequences; conservation and agreement of three indexes is about all histories and about refused operations in the middle of them.",
      ["data_structures/src/staking/stakes.rs", "data_structures/src/staking/stake.rs", "data_structures/src/staking/helpers.rs", "data_structures/src/capabilities.rs"],
      [("add, remove, reward and reduce stake, census and rank", "data_structures/src/staking/stakes.rs"), ("one entry", "data_structures/src/staking/stake.rs")], MC + SHIM),
    P("C21", "Unspent outputs: every view shows what is spendable, also after failed writes",
      "The set of unspent outputs seen through any view (memory, database, pending changes, by address) is exactly what was inserted and not removed, no matter how additions, removals, confirmations, persistence and failed writes interleave. "
      "A block's own changes are visible to the following transactions of the block only, balances are sums of the outputs, and selecting coins yields distinct unlocked outputs that cover the amount asked for or an error.",
      ["histories", "crash_points", "inputs"], "every interleaving of insertions, removals, persisted and failed writes, confirmations and queries",
      "The tests use a healthy in-memory database and one view at a time.",
      ["data_structures/src/utxo_pool.rs", "data_structures/src/chain/mod.rs", "storage/src/lib.rs"],
      [("UnspentOutputsPool and its cache by address", "data_structures/src/utxo_pool.rs"), ("UtxoDiff", "data_structures/src/utxo_pool.rs")], MC + SHIM),
    P("C22", "Transactions pool: indexes, weights, limits consistent; cheapest leave first",
      "Under any history of insertions, removals, evictions and clearings of every kind of transaction, the pool holds exactly what was admitted and not removed, its total weight and its indexes by hash, by input, by data request and by validator are those of the transactions it holds, and it never exceeds its weight limit. "
      "The transactions evicted are those that pay least, what spends an output consumed by a block leaves the pool, and iteration is in order of what is paid.",
      ["histories", "inputs"], "every sequence of pool operations over all kinds of transactions, fees, weights, limits and shared inputs",
      "The tests insert a handful of value transfers; the failures are in combinations of kinds, of shared inputs and of a full pool.",
      ["data_structures/src/chain/mod.rs"],
      [("TransactionsPool", "data_structures/src/chain/mod.rs")], MC + SHIM),
    P("C23", "Data requests go through commit, reveal and tally once, in order and in time",
      "A data request advances through its stages only by the transactions and epochs that the protocol foresees, takes at most one commit and one matching reveal per witness, gets the extra rounds it is entitled to and no more, and ends exactly once, by a tally or for lack of commits. "
      "The pool of requests, its index by epoch and what is to be stored agree at all times, and a refused transaction changes nothing.",
      ["histories", "schedules"], "every order of requests, commits, reveals, tallies, refused ones included, and epochs, for any number of witnesses and rounds",
      "The tests follow one request along the good path.",
      ["data_structures/src/data_request.rs", "data_structures/src/chain/mod.rs"],
      [("DataRequestPool", "data_structures/src/data_request.rs"), ("DataRequestState", "data_structures/src/chain/mod.rs")], MC + SHIM),
    P("C24", "Requests are resolved as revealed: exact payments, no coin lost, never stuck",
      "Across any history of blocks, commits, reveals and tallies are accepted exactly when they follow from the pending requests: enough eligible, collateralized witnesses at once, each revealing once what it committed, and one tally per ended request whose result, liars, errors and payments follow from the reveals. "
      "Consolidating a block updates outputs, stakes, ages and requests so that coins in outputs, stakes and requests only change by block rewards and what is burnt, a refused block changes nothing, and the honest block for any state is always accepted.",
      ["histories", "inputs", "schedules"], "every history of blocks with requests, commits, reveals, silences, lies, errors and tallies, across the versions of the protocol, under invalid blocks in between",
      "The tests validate one commit, reveal or tally at a time against a hand-made pool; payments, burning and stuck requests are about whole histories, and consolidation has no tests at all.",
      ["validations/src/validations.rs", "data_structures/src/data_request.rs", "node/src/actors/chain_manager/mod.rs", "data_structures/src/staking/stakes.rs"],
      [("validate_commit_reveal_tally", "validations/src/validations.rs"), ("DataRequestPool", "data_structures/src/data_request.rs"), ("process_wit2_stakes_changes and update_pools", "node/src/actors/chain_manager/mod.rs")], MC + SHIM),
    P("C25", "A valid block never creates, destroys or steals coins, nor breaks staking rules",
      "A block is accepted exactly when each of its transactions, in order, spends existing, unlocked and unspent outputs once with their owners' signatures, pays no more than it spends, keeps the rules of data requests and of stakes, fits the weight limits, and the miner mints exactly fees and reward, or nothing since wit/2. "
      "Whatever is accepted conserves the coins in outputs, stakes and requests, dates and locks outputs as the version of the protocol says, and a refused block leaves no trace; a lone transaction is taken just when a block could hold it.",
      ["inputs", "histories"], "every block of transactions, valid or not, over every ledger, at every epoch of every protocol version",
      "The tests try one bad field at a time in blocks of one transaction; conservation and the refusal of double spends are about all blocks and chains of dependent transactions in them.",
      ["validations/src/validations.rs", "data_structures/src/utxo_pool.rs", "data_structures/src/transaction_factory.rs", "data_structures/src/staking/stakes.rs"],
      [("validate_block_transactions", "validations/src/validations.rs"), ("validate_new_transaction", "validations/src/validations.rs"), ("transaction_inputs_sum", "data_structures/src/transaction_factory.rs")], MC + SHIM),
    P("C26", "A node only proposes blocks that the network accepts, as full as they can be",
      "Out of any pool of valid transactions, however they conflict, a node builds a block that every node accepts: no transaction spends what another one in it spends, weight limits, reward, tallies due and the split with an external address are right, and rounds of commits are complete or absent. "
      "What it leaves out could not be in that block as well, or pays less for its weight; and building a block changes nothing in the node.",
      ["inputs", "histories", "schedules"], "every pool of valid, conflicting, late and outdated transactions of every kind, at every state of ledger, stakes and requests, in every version of the protocol",
      "The tests build blocks out of pools with one transaction or one kind; invalid proposals come from transactions that are valid alone and not together, or no longer.",
      ["node/src/actors/chain_manager/mining.rs", "data_structures/src/chain/mod.rs", "validations/src/validations.rs"],
      [("build_block", "node/src/actors/chain_manager/mining.rs"), ("TransactionsPool", "data_structures/src/chain/mod.rs"), ("validate_block_transactions", "validations/src/validations.rs")], MC + SHIM),
    P("C27", "Superblocks: one vote a member, two thirds confirm, any node agrees",
      "The committee and the superblock that a node builds depend on the chain only: the right number of distinct members, those that the last superblock draws or that the protocol fixes, and the roots over all data requests, tallies and keys, under which each of them has a valid proof. "
      "Whatever votes arrive, in whatever order, early, late, repeated or contradictory, a member of the committee counts at most once, one that votes twice not at all until the next superblock, outsiders never, and the verdict is the one that the counted votes give.",
      ["histories", "inputs", "schedules"], "every list of candidates, chain of superblocks, committee size and order of votes, in every environment and around every change of the protocol",
      "The tests vote two or three times in a committee of four; a node is broken by sequences of votes nobody wrote down, and agreement among nodes is about all chains.",
      ["data_structures/src/superblock.rs", "data_structures/src/chain/mod.rs", "data_structures/src/transaction.rs", "node/src/actors/chain_manager/mod.rs"],
      [("SuperBlockState", "data_structures/src/superblock.rs"), ("SuperBlockVotesMempool", "data_structures/src/superblock.rs"), ("dr_proof_of_inclusion and tally_proof_of_inclusion", "data_structures/src/chain/mod.rs"), ("current_committee_size_requirement", "node/src/actors/chain_manager/mod.rs")], MC + SHIM),
    P("C28", "Who may mine or witness, and which block wins, follows from stakes and draws",
      "At any ledger of stakes, mining is open to the first of the rank by power, no more than the factor and two thirds of the stakes, and witnessing to those above the place that witnesses and round say, with a target that never falls with power or between rounds; whoever has no stake or no power is out. "
      "Of the blocks that compete for an epoch all nodes prefer the same one, whatever the order of arrival, in every version of the protocol.",
      ["inputs", "histories"], "every history of the ledger, every validator, epoch, factor, round and set of candidates",
      "The tests ask for a few ledgers of two or three validators; a proposer that one node admits and another refuses forks the chain, and that shows at ties, edges of the rank and full words only.",
      ["validations/src/eligibility/current.rs", "validations/src/eligibility/legacy.rs", "validations/src/validations.rs", "data_structures/src/staking/stakes.rs"],
      [("mining_eligibility and witnessing_eligibility", "validations/src/eligibility/current.rs"), ("calculate_randpoe_threshold and VrfSlots", "validations/src/eligibility/legacy.rs"), ("compare_block_candidates", "validations/src/validations.rs")], MC + SHIM),
    P("C29", "Reputation: earned by acts, lost by lies, shared exactly; eligibility follows",
      "Over any history of blocks with tallies, reputation in the ledger and the remainder changes only by what is issued and expires: liars lose their part, the honest share it evenly, identities stay active as long as they take part. "
      "At any time, also right after a change, a reload or a repeated question, order, eligibility, factors and targets are those of the current reputation, activity and acts; spreading eligibility neither creates nor destroys reputation nor reverses the order.",
      ["histories", "inputs"], "every history of blocks, gains, penalties, expirations, activity and questions in between",
      "The tests compute eligibility of fixed sets with a fresh engine; stale caches and lost remainders need histories.",
      ["data_structures/src/chain/mod.rs", "node/src/actors/chain_manager/mod.rs", "validations/src/eligibility/legacy.rs", "reputation/src/trs.rs", "reputation/src/ars.rs"],
      [("ReputationEngine", "data_structures/src/chain/mod.rs"), ("update_reputation", "node/src/actors/chain_manager/mod.rs"), ("calculate_reppoe_threshold and calculate_mining_probability", "validations/src/eligibility/legacy.rs")], MC + SHIM),
    P("C30", "Upgrades: one epoch in force for all; clock and versions agree",
      "What four fifths of the epochs of a voting period signal comes into force 21 epochs later for everybody who saw the same blocks, once and for all, missed epochs being noes and bits out of range or time ignored; what was in force before is known by table. "
      "Every second belongs to one epoch and epochs follow each other without gaps, also where wit/2 changes their length; the version of an epoch is the last begun, and rules, periods, starts and rewards follow from it.",
      ["histories", "inputs"], "every history of signals with gaps, slots opened and closed, every epoch, time, period and order of registration",
      "The tests count a few votes and compare a few epochs; two nodes that disagree about one epoch, at the edge of a period or of a fork, split the chain.",
      ["data_structures/src/chain/tapi.rs", "data_structures/src/chain/mod.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/lib.rs", "validations/src/validations.rs"],
      [("TapiEngine, BitTapiCounter and ActiveWips", "data_structures/src/chain/tapi.rs"), ("EpochConstants and ConsensusConstantsWit2", "data_structures/src/chain/mod.rs"), ("ProtocolInfo and VersionsMap", "data_structures/src/proto/versioning.rs"), ("block_reward and total_block_reward", "validations/src/validations.rs")], MC + SHIM),
    P("C31", "Peers and connections: known, tried, set aside; limits and ranges kept",
      "The book of peers holds each address in the place its key, its source and the secret give it, in the new or the tried half and never while it is set aside; whoever is set aside stays so for the whole period and not longer, and draws at random give peers that are there. "
      "Of connections none is lost or counted twice: limits of consolidated ones hold, a refused operation changes nothing, those in consensus are among the outbound ones, and a range of the network counts as taken exactly as long as a caller from it is connected.",
      ["histories", "inputs"], "every history of addresses heard, reached, lost and set aside and of connections opened, introduced and closed, with clashing places and shared ranges",
      "The tests insert two or three peers and sessions; a session that leaks, or a range that is freed too early, needs several connections that come and go.",
      ["p2p/src/peers/mod.rs", "p2p/src/sessions/mod.rs", "p2p/src/sessions/bounded_sessions.rs"],
      [("Peers", "p2p/src/peers/mod.rs"), ("Sessions", "p2p/src/sessions/mod.rs"), ("BoundedSessions", "p2p/src/sessions/bounded_sessions.rs"), ("get_range_address", "p2p/src/peers/mod.rs")], MC + SHIM),
    P("C32", "What a node makes of its outputs is covered, spendable and as asked",
      "Payments, requests, stakes and collaterals are made of the node's own outputs that are neither locked nor promised nor too young, each once, no more of them than needed in the order asked; they pay out what was asked, the fee asked, also by weight, and give back the rest. "
      "What is made stays promised until its time is over, what cannot be made is refused and changes nothing, and after any blocks the node's own outputs and balances are those of the pool.",
      ["histories", "inputs"], "every pool of outputs, amount, fee, order, limit and time, and every history of making, mining and waiting",
      "The tests make single payments from equal outputs; a fee that is not recomputed, or outputs that stay promised after a refusal, need an unusual set of outputs or several steps.",
      ["data_structures/src/transaction_factory.rs", "data_structures/src/utxo_pool.rs", "node/src/actors/chain_manager/mod.rs"],
      [("OutputsCollection, build_vtt, build_drt, build_st and build_commit_collateral", "data_structures/src/transaction_factory.rs"), ("NodeUtxos and OwnUnspentOutputsPool", "data_structures/src/utxo_pool.rs"), ("update_pools", "node/src/actors/chain_manager/mod.rs")], MC + SHIM),
    P("C33", "The tally: one result from what was revealed, liars and errors told apart",
      "From the same reveals, in any order, each node gets the same result: a value if more than the asked share of those who committed agree on its kind and stay within the filters, else an error that says why; who is called a liar or in error is who is out of the majority, out of the filters, or not understood. "
      "Errors that most report are the result, mixed ones are not; modes and averages count each reveal once, whatever the number; no set of reveals makes the tally fail otherwise.",
      ["inputs"], "every multiset and order of revealed values and errors, filter, reducer, quorum, number of commits, and set of active rules",
      "The tests tally a few fixed lists; which of the many ties, mixes of kinds and sizes a request meets is up to its witnesses, some of whom are adversaries.",
      ["rad/src/lib.rs", "rad/src/conditions.rs", "rad/src/reducers", "rad/src/filters", "data_structures/src/radon_report.rs"],
      [("run_tally_report", "rad/src/lib.rs"), ("evaluate_tally_precondition_clause and radon_report_from_error", "rad/src/conditions.rs"), ("mode, average, deviation_standard, hash_concatenate", "rad/src/reducers"), ("filter", "rad/src/filters")], MC + SHIM),
    P("C34", "Scripts: same value, same script, same result; errors, never panics",
      "What a script makes of a value is what its operators, one after another, make of it, on whole numbers of 128 bits, texts, bytes, arrays, maps and documents: an operator that does not apply, has wrong arguments, overflows or does not find gives the error that says so, which ends the script, and nothing makes a node panic. "
      "How it is watched or timed changes nothing, sorting and filtering neither lose nor invent items, and results survive the way they travel in.",
      ["inputs"], "every value, script of any operators with any arguments, nested scripts, documents, and both versions of the rules",
      "The tests call each operator with a few good arguments; scripts are written by anybody and values come from any web site, so slices inside a character, missing arguments and mixed kinds do come.",
      ["rad/src/script.rs", "rad/src/operators", "rad/src/types", "rad/src/filters", "rad/src/reducers"],
      [("execute_radon_script and unpack_radon_script", "rad/src/script.rs"), ("operate", "rad/src/operators/mod.rs"), ("RadonTypes", "rad/src/types/mod.rs")], MC + SHIM),
    P("C35", "A wallet owns, shows and spends what its blocks gave it, no more and no less",
      "After any blocks, pending or confirmed, superblocks, transactions on their way, orphaned blocks, rescans, crashes while writing and restarts, a wallet owns the outputs that pay its addresses and are not spent, and the stakes it made; "
      "its balances are those of them, its movements explain every coin of them and are listed once each, its addresses know their payments. What was pending and is not to be leaves no trace. "
      "What it makes spends its own unlocked, unpromised coins in the order asked, pays what was asked, and gives the rest back to itself.",
      ["histories", "crash_points", "inputs"], "every history of blocks with any transactions, confirmations, orphans, rescans, failed writes, restarts, payments made and submitted, and every page size, look-ahead and spending policy",
      "The tests index one or two blocks; a coin spent in the block that created it, an orphaned block with a stake, a second stake, or a tally after a reorganisation need several steps, and money appears or disappears when they go wrong.",
      ["wallet/src/repository/wallet/mod.rs", "wallet/src/repository/wallet/state.rs", "wallet/src/db", "wallet/src/model.rs"],
      [("index_block_transactions, filter_wallet_transactions, handle_superblock, clear_pending_state, clear_chain_data, add_local_movement, create_vtt, create_data_req", "wallet/src/repository/wallet/mod.rs"), ("State", "wallet/src/repository/wallet/state.rs"), ("EncryptedDb", "wallet/src/db/encrypted")], MC + SHIM),
    P("C36", "The bridge answers every query once, with what came of it, and loses none",
      "Whatever calls to Ethereum or to Witnet are refused, cut off, reverted or never heard of, in whatever order the actors of the bridge get on, and whenever it crashes: every query posted to the contract is found, none is left behind; "
      "what can be relayed is sent to Witnet as it was asked, never for less, and what cannot is reported with the code of what is wrong; "
      "what the contract is told of a query is the result of a request made for that query, with the moment of its commitments (or that it is too large); "
      "a query is settled only when the contract waits for it no more, stays settled, and is not sent again unless its request got no answer for the time allowed; reports that do not fit a transaction are split and only those that were in it are settled; "
      "once the faults end every query gets its answer.",
      ["schedules", "fault_sequences", "crash_points", "inputs"], "every interleaving of the actors, with every call answered, refused, cut off, reverted or lost, crashes, other reporters, late answers and any terms of the queries",
      "The tests cover the arithmetic of the batches; what is lost or paid twice takes a failed call between two others, an answer that comes while another actor works from an old list, or a batch that is split.",
      ["bridges/centralized-ethereum/src/actors"],
      [("check_new_requests_from_ethereum", "bridges/centralized-ethereum/src/actors/eth_poller.rs"), ("check_new_drs, deserialize_and_validate_dr_bytes", "bridges/centralized-ethereum/src/actors/dr_sender.rs"),
       ("check_tally_pending_drs, get_dr_timestamp", "bridges/centralized-ethereum/src/actors/wit_poller.rs"), ("DrReporterMsg, split_by_gas_limit", "bridges/centralized-ethereum/src/actors/dr_reporter.rs"), ("DrDatabase", "bridges/centralized-ethereum/src/actors/dr_database.rs")], MC + SHIM),
    P("C37", "A session with a peer: met before heard, asked before told, ended once",
      "However the bytes of a peer arrive, cut anywhere, in the present or the legacy encoding, malformed or meant for another network: a session greets once, is established when both have greeted and acknowledged and the node agrees, and until then nothing of the peer's is told to the rest of the node; "
      "a peer that we called and whose clock, epoch or superblock does not fit is put aside, one that called us is heard; the blocks asked for are handed over together, in the order announced, when the last has come, or the session ends when the time for it is over; "
      "peers that were not asked for, what cannot be read, and what is not of our network end the session with the peer put aside. Whatever a peer sends, no session fails otherwise, and each that ends says so exactly once. "
      "Two nodes that fit, and a line that does not break, meet, and the blocks of the one that is ahead reach the other.",
      ["schedules", "inputs", "fault_sequences"], "every sequence of frames, well formed or not, of pieces, of answers and refusals of the other actors, of timers, epochs and breaks of the line, for inbound, outbound and feeler sessions and every configuration",
      "The tests build a session's messages and check one version each; what a peer sends and when is up to the peer, and a session that dies on a frame nobody wrote a test for keeps its place for good.",
      ["node/src/actors/session", "node/src/actors/codec.rs", "data_structures/src/proto/versioning.rs", "data_structures/src/builders.rs"],
      [("handlers of Session", "node/src/actors/session/handlers.rs"), ("Actor for Session", "node/src/actors/session/actor.rs"), ("P2PCodec", "node/src/actors/codec.rs"), ("from_versioned_pb_bytes", "data_structures/src/proto/versioning.rs"), ("Message::build_*", "data_structures/src/builders.rs")], MC + SHIM),
    P("C38", "What a node keeps is found again, and what is missing is told",
      "Every block a node says it kept is found again under the hash it has by the rules of its epoch, alone or among others, however old the node that wrote it was; every transaction in it is found, in the block and at the place it is said to be; every superblock is found by its index, and all of them in their order, whatever else is in the database; "
      "what was never kept is not found; a place whose block is gone, or that holds another transaction, is told as such. When the database fails at any call the failure is told, nothing that was there is lost, and no transaction is left without its block. "
      "The state of the chain is read back as it was written, also when a former version of the node wrote it.",
      ["histories", "fault_sequences", "inputs"], "every history of keeping blocks, transactions, superblocks and chain states, of asking for them one by one and together, of blocks dropped or spoiled, and of databases that fail at any call",
      "The tests store one item and read it; which of two blocks with the same transaction is pointed at, what a failure between two writes leaves, and what an old database holds only show over histories.",
      ["node/src/actors/inventory_manager", "node/src/storage_mngr.rs", "node/src/storage_mngr/node_migrations.rs", "data_structures/src/chain/mod.rs"],
      [("handlers of InventoryManager", "node/src/actors/inventory_manager/handlers.rs"), ("mapped_get, put_batch, handlers of StorageManager", "node/src/storage_mngr.rs"), ("migrate_chain_state, put_chain_state_in_batch", "node/src/storage_mngr/node_migrations.rs"), ("BlockTransactions::create_pointers_to_transactions, get", "data_structures/src/chain/mod.rs")], MC + SHIM),
    P("C39", "What a node advises to pay follows from the blocks it has seen",
      "Of each block a node keeps, for each kind of transaction, the least and the most that was paid by weight, and of blocks as many as it can hold, the newest; before it has seen twenty it advises nothing, and says how long to wait. "
      "Then, for each kind and each of five spans of time, it advises what was met often enough in these blocks to get in within that span: never less than the least that got in or the floor of that tier, never more than any block took, and never less for a shorter span than for a longer one.",
      ["histories", "inputs"], "every sequence of blocks with any transactions of any fees and weights, longer than the node can hold, and every length of an epoch",
      "The tests compare one estimate for one made-up history; what is advised depends on the whole of the history, on blocks with none of a kind, and on what has fallen out of it.",
      ["data_structures/src/chain/priority.rs"],
      [("PriorityEngine", "data_structures/src/chain/priority.rs"), ("PriorityVisitor", "data_structures/src/chain/priority.rs"), ("strategies::target_minutes", "data_structures/src/chain/priority.rs")], MC + SHIM),
]
