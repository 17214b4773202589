#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": x.strip(), "where": files[0]} for x in state.split(",")]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
M = "minter/src/"
p("D01", "A deposit is credited at most once",
  "Each deposit log on the EVM chain (identified by transaction hash and log index) causes at most one successful mint on the twin-token ledgers. This holds whatever the order of scraping rounds, repeated or overlapping log answers, ledger failures, traps in the middle of minting, and canister upgrades.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "all interleavings of scrape/mint timers with ledger and RPC replies, all single and pairwise faults, traps and upgrades within the bound",
  "Double minting needs a particular interleaving of an asynchronous ledger reply with another timer, a trap or an upgrade; unit tests run one straight-line schedule with no ledger.",
  [M+"deposit.rs", M+"state.rs", M+"state/audit.rs"],
  [("mint with per-task guard and scopeguard quarantine", M+"deposit.rs mint"), ("events_to_mint / minted_events / invalid_events", M+"state.rs record_*")],
  "events to mint, minted events, quarantined events", "twin-token ledger transactions vs. chain deposit logs")
p("D02", "Mints go to the right account, ledger and amount",
  "Every successful mint for a deposit goes to exactly the principal and subaccount encoded in the deposit log, on the ledger of the deposited token (native ledger for the native coin, the registered ledger for an ERC-20), for exactly the deposited amount, reduced only for native deposits by the configured deposit fee, which is credited to the minter's own fee subaccount. No other mint ever happens except reimbursements.",
  ["inputs", "histories", "configurations"],
  "all deposit histories over native/ERC-20, with and without subaccount and deposit fee, within the bound",
  "The account and amount pass through log parsing, state, an async call and the ledger; no unit test connects the chain log with the ledger transaction.",
  [M+"deposit.rs", M+"deposit_logs/parser.rs", M+"deposit_logs/mod.rs"],
  [("mint transfer arguments", M+"deposit.rs mint"), ("log parsing", M+"deposit_logs/parser.rs")],
  None, "ledger mint (to, amount, ledger) against the chain log")
p("D03", "Every valid finalized deposit is eventually credited",
  "Once a valid deposit of a supported token is in a confirmed block after the configured starting block, and the RPC providers and the ledger of that token answer normally from some point on, the deposit is minted without operator action. Transient RPC errors, too-large log answers, ledger unavailability, other users' deposits and upgrades must not lose it or block it; the only exceptions are a deposit quarantined because its own mint call was interrupted by a trap, a native deposit smaller than the deposit fee, a token registered only after the block was scraped, and a single block whose logs are too large on their own, which is recorded as skipped.",
  ["schedules", "fault_sequences", "histories"],
  "all fault sequences within the bound followed by a fault-free suffix",
  "Liveness after faults depends on timers being re-armed and on scraping state left behind by every failure path; tests do not run timers.",
  [M+"deposit.rs", M+"deposit_logs/scraping.rs", M+"main.rs"],
  [("scrape loop and retry", M+"deposit.rs scrape_logs/scrape_block_range"), ("mint retry timer", M+"deposit.rs mint"), ("topic filter", M+"deposit_logs/scraping.rs")],
  "last scraped block, events to mint", "minted deposits after the settle phase")
p("D04", "Scraping covers every block, skipping none silently",
  "The set of blocks whose deposit logs have been successfully fetched, together with blocks explicitly recorded as skipped, always covers every block from the configured start to the reported last scraped block. Each log query covers at most 1000 blocks, and a block is recorded as skipped only when a query for that single block failed because its answer was too large.",
  ["fault_sequences", "histories", "inputs"],
  "all success/too-large/error outcomes of each log query of a multi-range scrape within the bound",
  "Range splitting is recursive and depends on the sequence of provider outcomes; a gap appears only for particular failure positions.",
  [M+"deposit.rs", M+"numeric/range.rs"],
  [("halving on too-large answers", M+"deposit.rs scrape_block_range"), ("chunking", M+"numeric/range.rs")],
  "last scraped block, skipped blocks", "log query ranges answered successfully vs. reported last scraped block")
p("D05", "Only sufficiently confirmed blocks are credited",
  "No log query asks for, and no mint results from, a block above the configured finality point: the block the provider reports for the configured tag (latest, safe or finalized), further reduced by 20 blocks on BSC and 12 blocks on Arbitrum, Base, Optimism, Avalanche and Fantom. This also holds when the provider's answer goes backwards, fails, or changes between rounds.",
  ["histories", "configurations", "fault_sequences"],
  "all networks x block tags x histories of head answers within the bound",
  "Depends on per-network configuration and on histories of provider answers over several rounds.",
  [M+"deposit.rs", M+"evm_config.rs"],
  [("confirmation offset", M+"deposit.rs apply_safe_threshold"), ("last observed block", M+"deposit.rs update_last_observed_block_number")],
  "last observed block number", "getLogs toBlock, minted deposits' block numbers")
p("D06", "Bad deposit logs are isolated and recorded",
  "A malformed, unsupported or removed log never results in a mint, and never prevents the other deposits in the same or later answers from being credited. A malformed log that identifies its source is recorded as an invalid deposit exactly once with a reason.",
  ["inputs", "histories"],
  "all combinations of a valid deposit with each malformed/unsupported log variant, in every position",
  "The interaction is between an invalid log and later processing (traps, blocking), which needs the whole pipeline.",
  [M+"deposit.rs", M+"deposit_logs/parser.rs", M+"state.rs"],
  [("register_deposit_events", M+"deposit.rs"), ("parser errors", M+"deposit_logs/parser.rs")],
  "invalid events", "mints, invalid-deposit events")
p("D07", "Providers must agree before chain data is acted on",
  "Deposit logs and transaction receipts are acted on only when the queried providers that answered agree on the same content and enough of them answered (at least two); a log or receipt reported by only some providers, or any conflict between successful answers, leaves the minter's state unchanged. For quantities where it tolerates divergence, the result is one a provider really reported.",
  ["inputs", "fault_sequences"],
  "all assignments of answers from a small alphabet to each of the providers",
  "Reduction has many combinations of errors and values; tests sample a few.",
  [M+"rpc_client/mod.rs", M+"rpc_client/providers.rs"],
  [("reduction strategies", M+"rpc_client/mod.rs")],
  None, "mints and finalizations after a mixed provider answer")
p("D08", "On-demand scraping is gated and throttled",
  "A user request to process a block triggers log scraping only if that block is newer than the last observed block (otherwise BlockAlreadyObserved) and at least one minute has passed since the minter last observed the chain head (otherwise CalledTooManyTimes); a block number beyond 256 bits is InvalidBlockNumber. A refused request has no effect. At most one scraping run is in progress at any time, whichever of timer or request started it.",
  ["schedules", "inputs"],
  "all interleavings of user requests, timer scrapes and pending RPC replies within the bound",
  "Needs concurrent requests while RPC calls are pending.",
  [M+"main.rs", M+"deposit.rs", M+"guard/mod.rs"],
  [("request_scraping_logs", M+"main.rs"), ("task guard", M+"guard/mod.rs TimerGuard")],
  "active tasks, last log scraping time", "log queries caused by a request; concurrently outstanding log queries")
p("W01", "Payments are backed by a prior burn and go to the asked recipient",
  "Every transaction the minter broadcasts pays exactly one accepted withdrawal: it follows a successful burn of that user's tokens, goes to the recipient the user named (native transfer, or ERC-20 transfer call to the token contract), and what it can take from the minter is bounded by the burn: native value plus maximum gas cost together exactly the burned amount, or the exact burned ERC-20 amount with maximum gas cost at most the burned native gas fee.",
  ["schedules", "fault_sequences", "histories"],
  "all withdrawal histories with ledger, fee and RPC fault choices within the bound",
  "Relates ledger state, a fee estimate taken at another time and the final signed bytes across asynchronous steps, resubmissions and upgrades.",
  [M+"withdraw.rs", M+"main.rs", M+"tx.rs", M+"state/transactions/mod.rs"],
  [("create_transaction", M+"state/transactions/mod.rs"), ("burn before request", M+"main.rs withdraw_native_token/withdraw_erc20")],
  None, "raw transactions sent vs. ledger burns")
p("W02", "A withdrawal is paid at most once",
  "For every withdrawal at most one payment can ever be executed on the EVM chain: all transactions ever signed for it carry the same nonce, and no two withdrawals are paid by transactions of the same nonce. This holds across fee bumps, lost or failed submissions, traps between steps and upgrades.",
  ["schedules", "fault_sequences", "crash_points"],
  "all interleavings, faults, traps and upgrades within the bound",
  "Double payment needs a crash or reorder between create, sign and send.",
  [M+"withdraw.rs", M+"state/transactions/mod.rs"],
  [("per-withdrawal created/sent maps", M+"state/transactions/mod.rs")],
  "created, sent, finalized transactions", "raw transactions per withdrawal and nonce")
p("W03", "Transaction nonces are consecutive and never reused",
  "Nonces are assigned to withdrawals starting from the configured first nonce, each new withdrawal getting the next integer, with no gap and no reuse, in all schedules and across upgrades that do not change the nonce.",
  ["histories", "crash_points", "schedules"],
  "all histories of withdrawals, traps and upgrades within the bound",
  "A gap or reuse only appears after an aborted step or an upgrade at a particular point.",
  [M+"state/transactions/mod.rs", M+"state/audit.rs", M+"lifecycle.rs"],
  [("next_nonce", M+"state/transactions/mod.rs"), ("replay", M+"state/audit.rs")],
  "next nonce", "nonces in raw transactions and events")
p("W04", "Broadcast transactions are valid signed EIP-1559 transactions",
  "Every raw transaction the minter submits is a canonically encoded EIP-1559 transaction for the configured chain id, with a low-s signature that recovers to the minter's address, max priority fee not above max fee, empty access list and a gas limit sufficient for its kind; the hash the minter reports for it is the keccak hash of those bytes.",
  ["inputs", "histories"],
  "all transactions produced by the explored histories plus a boundary-value grid of transaction fields and signatures of both parities",
  "RLP edge cases (leading zeros, short r or s, parity) appear only for particular values.",
  [M+"tx.rs", M+"management.rs", M+"eth_types/mod.rs"],
  [("rlp encoding, signing", M+"tx.rs"), ("ecdsa", M+"management.rs")],
  None, "bytes passed to eth_sendRawTransaction")
p("W05", "Stuck transactions are replaced only by valid fee bumps",
  "A transaction is re-signed only if its nonce is not yet below the latest mined count the minter was told; the replacement keeps nonce, destination, data and gas limit, raises the priority fee by at least 10% and does not lower the max fee, and any increase in gas cost is taken from the native value paid (native) or stays within the burned fee (ERC-20). If the withdrawal cannot afford the bump, nothing is replaced and the existing transaction is kept and re-sent.",
  ["histories", "inputs"],
  "all fee histories over a small fee alphabet with mined/not mined choices within the bound",
  "Needs several rounds of resubmission with changing fees.",
  [M+"tx.rs", M+"state/transactions/mod.rs", M+"withdraw.rs"],
  [("resubmission strategy", M+"tx.rs"), ("create_resubmit_transactions", M+"state/transactions/mod.rs")],
  "sent transactions", "successive raw transactions of one withdrawal")
p("W06", "Failed payments are reimbursed exactly once, and only those",
  "If and only if a withdrawal's transaction is finalized on chain with failure status, the user is reimbursed exactly once, on the ledger of the withdrawn token, to the account that was burned from, with exactly the value that the failed transaction would have paid. Ledger failures, traps during reimbursement and upgrades never cause a second reimbursement or one for a successful payment; only a reimbursement whose own ledger call was interrupted by a trap may be left out, and is then recorded as quarantined.",
  ["fault_sequences", "crash_points", "schedules"],
  "all outcomes of payment, receipt queries, ledger replies, traps and upgrades within the bound",
  "Double or missing reimbursement needs faults at particular asynchronous points.",
  [M+"withdraw.rs", M+"state/transactions/mod.rs"],
  [("process_reimbursement", M+"withdraw.rs"), ("record_finalized_transaction", M+"state/transactions/mod.rs")],
  "reimbursement requests, reimbursed, quarantined", "ledger mints vs. chain receipts")
p("W07", "A failed ERC-20 burn refunds the prepaid gas fee",
  "When an ERC-20 withdrawal burned the user's native gas fee but the token burn then failed, no payment is made and the native fee is minted back to the user exactly once: in full if the token ledger was temporarily unavailable, otherwise minus one ledger transfer fee (a refund whose own ledger call was interrupted by a trap is quarantined instead). The user sees the error together with the identifier of the fee burn.",
  ["fault_sequences", "schedules"],
  "all ledger reply combinations for the burn sequence x reimbursement ledger outcomes within the bound",
  "Needs two ledgers and a timer-driven reimbursement.",
  [M+"main.rs", M+"state/transactions/mod.rs", M+"withdraw.rs"],
  [("FailedErc20WithdrawalRequest", M+"main.rs withdraw_erc20")],
  "reimbursement requests", "native ledger mints after failed ERC-20 burns")
p("W08", "Accepted withdrawals eventually complete",
  "Once a withdrawal is accepted and can afford its transaction at the market fees, and the EVM network, providers and ledgers answer normally from some point on, it is eventually paid and reported finalized, or reimbursed, without operator action. Earlier faults, traps, upgrades or other users' withdrawals never leave it stuck.",
  ["schedules", "fault_sequences", "crash_points"],
  "all fault, trap, upgrade and reorder sequences within the bound followed by a fault-free suffix",
  "Stuck withdrawals come from state left behind by a failure at some asynchronous step.",
  [M+"withdraw.rs", M+"state/transactions/mod.rs", M+"main.rs"],
  [("process_retrieve_tokens_requests", M+"withdraw.rs"), ("rescheduling", M+"state/transactions/mod.rs")],
  "withdrawal requests", "status queries and chain state after the settle phase")
p("W09", "The withdrawal fee is given back when a withdrawal fails",
  "When a withdrawal fee is configured and a withdrawal request fails after the fee was collected, the transfer of the collected fee back to the user is requested exactly once, less only ledger transfer fees. A request that reports success keeps exactly one fee, and the burned amount is the requested amount minus the fee.",
  ["fault_sequences", "inputs", "configurations"],
  "all fee/amount relations x ledger reply combinations within the bound",
  "Needs a ledger that enforces allowances and subaccounts.",
  [M+"main.rs", M+"withdraw.rs", M+"ledger_client.rs"],
  [("transfer_withdrawal_fee/refund_withdrawal_fee", M+"withdraw.rs")],
  None, "user ledger balances around a failed withdrawal call")
p("W10", "Withdrawal status queries tell the truth",
  "At every moment the status reported for a withdrawal, by its identifier or by a search on recipient, sender or identifier, agrees with what actually happened: a sent or finalized status names a transaction hash actually submitted or mined for it, success or failure agrees with the chain, reimbursed status agrees with the ledger, and every accepted withdrawal is found with its true amount, recipient and token. Statuses never move backwards, except that a sent transaction shows as created again while its replacement is being signed.",
  ["histories", "schedules"],
  "all reachable states of the explored histories",
  "Requires comparing the query with chain and ledger in each intermediate state.",
  [M+"main.rs", M+"state/transactions/mod.rs", M+"endpoints.rs"],
  [("withdrawal_status", M+"main.rs"), ("transaction_status", M+"state/transactions/mod.rs")],
  None, "retrieve_witdrawal_status, withdrawal_status after every step")
p("W11", "Rejected withdrawal requests cost the user nothing",
  "A withdrawal request that is refused for an invalid recipient, an amount below the minimum, an unsupported token, an anonymous caller, an unavailable fee estimate, or insufficient funds or allowance burns none of the user's tokens, creates no withdrawal and leads to no payment.",
  ["inputs", "configurations"],
  "all combinations of request field classes with ledger states within the bound",
  "Ordering of validation and asynchronous burns matters; needs the ledgers.",
  [M+"main.rs", M+"address.rs"],
  [("request validation", M+"main.rs withdraw_*")],
  None, "ledger balances around a refused call")
p("W12", "Per-user withdrawal locks are exclusive and always released",
  "A user never has two withdrawal requests in progress at once, concurrent requests by one user are refused without effect, and different users do not block one another as long as fewer than 100 requests are in progress and fewer than 100 accepted withdrawals are waiting. While one of these limits is reached, further requests are refused without effect. After a request ends in any way, including an error or a trap in a callback, the user can make new requests.",
  ["schedules", "crash_points"],
  "all interleavings of concurrent requests with ledger replies and traps within the bound",
  "Needs concurrency and callback traps.",
  [M+"guard/mod.rs", M+"main.rs"],
  [("retrieve_withdraw_guard", M+"guard/mod.rs")],
  "pending withdrawal principals", "replies to concurrent withdraw calls")
p("S01", "Twin tokens stay fully backed",
  "At every step, the native twin supply never exceeds the native coin held by the minter's address, and for every ERC-20 the twin supply never exceeds the minter's holdings, counting only deposits really made on chain. The balance and fee totals the minter reports agree with the chain once everything has settled.",
  ["histories", "schedules", "fault_sequences"],
  "all explored histories, checked after every step",
  "A global conservation law over chain, ledgers and minter state.",
  [M+"state.rs", M+"withdraw.rs", M+"deposit.rs"],
  [("evm_balance/erc20_balances accounting", M+"state.rs")],
  "native and ERC-20 balances", "ledger supplies vs. chain balances; get_minter_info")
p("S02", "Upgrades preserve state and behaviour",
  "Upgrading the canister at any point between messages restores exactly the state before: every query about withdrawals, deposits, tokens, balances, nonces and configuration answers the same before and after, and all further processing continues as if no upgrade had happened. Only transient caches may be lost.",
  ["crash_points", "histories"],
  "an upgrade inserted at every quiescent point of every explored history",
  "Replay of the event log must agree with live mutation for every event kind and order.",
  [M+"lifecycle.rs", M+"state/audit.rs", M+"state/event.rs", M+"storage.rs"],
  [("replay_events", M+"state/audit.rs"), ("post_upgrade", M+"lifecycle.rs")],
  "entire state", "queries before and after upgrade")
p("S03", "The audit log is append-only and served faithfully",
  "The list of events served by the minter only ever grows at the end: no event is changed, reordered or removed, including by upgrades. Any page request returns exactly the requested slice (at most 100 events) and the true total, and each credit, withdrawal, payment and reimbursement step that happened has exactly one event with the true data.",
  ["histories", "inputs", "crash_points"],
  "all reachable states of explored histories x all page requests over a grid",
  "Append-only is a property of whole histories.",
  [M+"storage.rs", M+"main.rs", M+"state/audit.rs", M+"state/event.rs"],
  [("record_event", M+"storage.rs"), ("get_events", M+"main.rs")],
  "event log", "get_events")
p("S04", "Background tasks are never duplicated nor permanently stuck",
  "At most one run of each background task (scraping, minting, withdrawing, reimbursing) is active at a time, and after a run ends in any way, including a trap at any of its asynchronous steps, a later scheduled run of the same task can start and make progress.",
  ["schedules", "crash_points"],
  "all interleavings of timers with pending calls and a trap at every message within the bound",
  "Needs timers firing while calls are pending, and callback traps with cleanup.",
  [M+"guard/mod.rs", M+"main.rs", M+"deposit.rs", M+"withdraw.rs"],
  [("TimerGuard", M+"guard/mod.rs")],
  "active tasks", "outgoing calls per task; progress after traps")
p("S05", "The token registry is consistent",
  "A token can be registered only for the minter's own chain id, each ERC-20 address and each ledger appears at most once, and a successful registration is visible in the queries and makes that token's deposits and withdrawals work; a refused one leaves everything unchanged.",
  ["inputs", "histories"],
  "all registration sequences over a small alphabet of tokens, within the bound",
  "Uniqueness is over sequences of registrations and upgrades.",
  [M+"state.rs", M+"erc20.rs", M+"main.rs"],
  [("record_add_ckerc20_token", M+"state.rs")],
  "erc20 tokens", "get_minter_info, mints after registration")
p("S06", "Privileged calls are refused to everyone else",
  "Only the configured ledger suite orchestrator can register tokens, only the configured swap canister can use its deposit check, and anonymous callers can never withdraw. A refused call changes nothing, and no caller can invoke any other state change beyond requesting a scrape or withdrawing their own approved tokens.",
  ["inputs", "histories"],
  "all update entry points x all caller classes",
  "Quantifies over entry points and callers.",
  [M+"main.rs"],
  [("caller checks", M+"main.rs add_erc20_token, check_new_deposits, validate_caller_not_anonymous")],
  None, "event log and outgoing calls after a refused call")
p("S07", "Invalid configurations are refused",
  "Installing or upgrading with an invalid configuration (blank key name, anonymous ledger, zero or malformed helper contract address, zero minimum withdrawal, minimum withdrawal below the ledger transfer fee, a number beyond 256 bits, an installation argument for an upgrade or the other way round) traps and changes nothing; a valid configuration takes effect exactly as given and every unspecified field of an upgrade keeps its value.",
  ["configurations"],
  "the full grid of argument field classes for install and upgrade",
  "Quantifies over the whole configuration space.",
  [M+"lifecycle.rs", M+"state.rs"],
  [("validate_config, upgrade", M+"state.rs"), ("init", M+"lifecycle.rs")],
  "configuration", "get_minter_info after install/upgrade")
p("S08", "A new minter announces its native ledger suite",
  "Installing a minter sends the configured ledger suite orchestrator exactly one announcement of its native ledger suite, naming the configured symbol, native ledger, index canister and the network's chain id, with well-formed distinct module hashes and no archives; upgrades send none. Whether the announcement is accepted, refused or never answered has no effect on deposits and withdrawals.",
  ["histories", "fault_sequences", "configurations"],
  "all answers of the orchestrator x all fault and upgrade points of deposit and withdrawal histories within the bound, and the installation configurations",
  "Needs the orchestrator's failures combined with the rest of the minter's life; the unit test only compares two hashes.",
  [M+"lsm_client.rs", M+"main.rs"],
  [("lazy_add_native_ls_to_lsm_canister", M+"lsm_client.rs"), ("init", M+"main.rs")],
  "ledger suite orchestrator id", "outgoing calls to the orchestrator; mints and transactions afterwards")
p("C01", "EVM addresses are parsed and printed correctly",
  "An address text is accepted exactly when it is 0x followed by 40 hex digits, parsing then yields those 20 bytes, and printing yields the EIP-55 checksummed form which parses back to the same address. The zero address and existing blocked forms are never accepted as withdrawal destination.",
  ["inputs"], "bounded exhaustive grid of lengths, prefixes, alphabets, positions and case patterns",
  "Quantifies over strings; tests sample a few.",
  [M+"address.rs"], [("validate_address_as_destination", M+"address.rs")])
p("C02", "Amount arithmetic is exact and checked",
  "Addition, subtraction, multiplication, division and increments on amounts either give the exact mathematical result or report overflow, never wrap, and byte, decimal and ledger-number conversions round-trip without loss.",
  ["inputs"], "all operand pairs from a boundary-value lattice, and all 8-bit-limb-boundary values",
  "Quantifies over 256-bit operands.",
  [M+"checked_amount/mod.rs", M+"numeric/mod.rs"], [("CheckedAmountOf", M+"checked_amount/mod.rs")])
p("C03", "Fee estimates follow the market data and caching rules",
  "The fee estimate is always at least the configured priority floor and is computed from the provider's fee history as the median of its rewards for the priority fee and twice the next base fee plus priority for the max fee. An estimate older than 30 seconds when a withdrawal request or processing round needs one is not used for it, and a quoted price equals gas limit times the max fee actually charged.",
  ["inputs", "schedules"], "all fee histories over a boundary alphabet up to length 5 x floors, and all request times around cache expiry",
  "Quantifies over fee histories and timing.",
  [M+"tx.rs", M+"main.rs"], [("estimate_transaction_fee, lazy_refresh_gas_fee_estimate", M+"tx.rs")])
p("C04", "Block ranges are split into exact partitions",
  "Splitting a block range in halves or in chunks of any size yields consecutive, non-overlapping, non-empty ranges whose union is exactly the original range, each no longer than the chunk size.",
  ["inputs"], "all ranges up to a length bound x all chunk sizes, at low, middle and maximal offsets",
  "Off-by-one at specific lengths and at the number range ends.",
  [M+"numeric/range.rs"], [("BlockRangeInclusive", M+"numeric/range.rs")])
p("C05", "Two-key lookups stay consistent",
  "A collection indexed by two keys behaves after any sequence of operations like a set of (key, alternate key, value) triples: both lookups agree, inserting a clashing key is refused without change, and removing an entry removes both of its keys.",
  ["histories"], "all operation sequences up to a depth over a 3x3 key alphabet, compared with a reference model",
  "Inconsistency needs particular operation sequences.",
  [M+"map.rs"], [("MultiKeyMap, DedupMultiKeyMap", M+"map.rs")])
p("C06", "Ledger memos are lossless and unambiguous",
  "Every memo attached to a mint or burn decodes back to exactly the transfer it describes, two different operations never share a memo, and a memo fits the ledger's size limit of 80 bytes for token symbols of up to 20 characters and 64-bit log indices and burn identifiers.",
  ["inputs"], "boundary-value grid over all memo kinds and fields, plus every memo in explored histories",
  "Quantifies over field values.",
  [M+"memo.rs"], [("MintMemo, BurnMemo", M+"memo.rs")])
p("C07", "Stored events keep their encoding across versions",
  "An event written to stable storage decodes to exactly the same event, and the byte encoding of each kind of event and field stays as it was, so that logs written by earlier versions of the canister are still read correctly.",
  ["inputs", "histories"], "every event kind x boundary field values x all optional-field presence patterns",
  "A swapped field tag round-trips in tests yet corrupts existing data.",
  [M+"state/event.rs", M+"storage.rs", M+"cbor/mod.rs"], [("minicbor encodings", M+"state/event.rs")])
p("C08", "Deposit log fields are decoded exactly or rejected",
  "A deposit log is accepted exactly when it comes from the helper contract, has the expected topics and data length and a well-formed non-anonymous principal, and then token, amount, principal, subaccount, sender, block and index are those in the log; a zero subaccount means the default account. Everything else is rejected without a trap.",
  ["inputs"], "all principal lengths and paddings, topic counts, data lengths, subaccount forms and missing fields",
  "Quantifies over log contents.",
  [M+"deposit_logs/parser.rs", M+"deposit_logs/mod.rs", M+"eth_types/mod.rs"], [("ReceivedDepositLogParser", M+"deposit_logs/parser.rs"), ("parse_principal_from_slice", M+"deposit_logs/mod.rs")])
p("C09", "RPC calls retry with enough cycles and give up eventually",
  "A call to the EVM RPC canister that reports too few cycles is retried with at least twice the cycles and at least the amount the canister asked for, up to ten times and no more; after any other outcome the same call is not repeated.",
  ["fault_sequences"], "all sequences of outcomes over a small alphabet until the retry bound",
  "Quantifies over outcome sequences.",
  ["evm_rpc_client/src/lib.rs"], [("call_internal", "evm_rpc_client/src/lib.rs")])
p("C10", "Log endpoint never exceeds its size limit",
  "The served log text never exceeds its byte limit (if that is at least the size of an empty log), is always well-formed, keeps entries in order, and drops no entry that would still have fit; each priority buffer keeps the most recent entries up to its capacity.",
  ["inputs"], "all entry counts and size limits over a grid",
  "Quantifies over sizes.",
  [M+"logs.rs"], [("serialize_logs", M+"logs.rs")])
p("H01", "Deposit helper contract forwards funds and emits truthful logs",
  "The Solidity helper contract forwards exactly the deposited native coins or ERC-20 tokens to the minter address and emits one log with the true token, amount, principal and sender; it never keeps funds.",
  ["inputs", "histories"], "all call sequences to the contract",
  "Requires executing EVM byte code.",
  ["evm_helper_contract/src/Deposit.sol"], [("deposit", "evm_helper_contract/src/Deposit.sol")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
