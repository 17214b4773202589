M = "minter/src/"
BUGS = {}
def bug(i, prop, needs, breaks, edits, demo=None, **k):
    BUGS[i] = dict(property=prop, needs=needs, breaks=breaks, edits=[(M + f, a, b) for f, a, b in edits], demo=demo, **k)

bug("d01-guard-defused-early", "D01", "a trap in the ledger callback of a mint, after the ledger has minted",
    "The quarantine guard of a deposit is dropped as soon as the ledger answered, before the minted event is recorded: when the fee mint's callback traps, the deposit stays in the to-mint list and is minted again.",
    [("deposit.rs", """            Ok(Ok(block_index)) => block_index.0.to_u64().expect("nat does not fit into u64"),
            Ok(Err(err)) => {
                log!(INFO, "Failed to mint {token_symbol}: {event:?} {err}");
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;
            }""", """            Ok(Ok(block_index)) => {
                // minting succeeded, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                block_index.0.to_u64().expect("nat does not fit into u64")
            }
            Ok(Err(err)) => {
                log!(INFO, "Failed to mint {token_symbol}: {event:?} {err}");
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;
            }"""),
     ("deposit.rs", """        // minting succeeded, defuse guard
        ScopeGuard::into_inner(prevent_double_minting_guard);
    }

    if error_count > 0 {
        log!(
            INFO,
            "Failed to mint""", """    }

    if error_count > 0 {
        log!(
            INFO,
            "Failed to mint"""),
    ], """
# the callback of the deposit fee's mint traps
history dep_fee "trap in callback of transfer 3_000_000_000_000_000 on native" 1 1
happens 1 "^chosen: trap in callback of transfer 3_000_000_000_000_000 on native"
happens 1 "^native: mint 1997000000000000007 to user1$"
""")

bug("d04-split-forgets-next-range", "D04", "an answer that is too large twice in a row (so that a later part of the chunk is still queued), and a further chunk in the same round",
    "When a queried range is split a second time, the queued rest of the chunk is replaced by the new upper half instead of being joined with it; the next chunk then advances the scraped height over the lost blocks.",
    [("deposit.rs", """                                .map(|current_next| r.clone().join_with(current_next))
""", """                                .map(|_| r.clone())
""")], """
# the first chunk's answer is too large, then the answer for its first half is too large too
history dep_far "answer to getLogs 7401" 1 9 "answer to getLogs 7401" 2 9
cat "$s/facts" | grep -E "^(chosen|log query)" | cut -c1-100
happens 2 "^chosen: answer to getLogs 7401"
""")


T = "state/transactions/mod.rs"
bug("w06-refund-of-last-bump", "W06", "a transaction that is replaced by a fee bump while the original one is mined, and fails",
    "The reimbursement is computed from the last signed replacement instead of the transaction that was mined.",
    [(T, """        let nonce = sent_tx.as_ref().nonce();
        {
            self.sent_tx.remove_entry(&nonce);
""", """        let nonce = sent_tx.as_ref().nonce();
        let last_amount = Self::expect_last_sent_tx_entry(&self.sent_tx, &nonce)
            .1
            .as_ref()
            .transaction()
            .amount;
        {
            self.sent_tx.remove_entry(&nonce);
"""), (T, "reimbursed_amount: finalized_tx.transaction_amount().change_units(),", "reimbursed_amount: last_amount.change_units(),")])

bug("w05-bump-rounds-down", "W05", "a stuck transaction whose priority fee is not a multiple of ten, and a market fee below 110% of it",
    "The fee bump rounds 10% down, so that nodes refuse the replacement as underpriced.",
    [("tx.rs", """                        .checked_div_ceil(10_u8)
                        .expect(""", """                        .checked_div_floor(10_u8)
                        .expect(""")])

bug("s04-guard-released-before-receipts", "S04", "the retrieval timer firing while the receipts of an earlier round are outstanding",
    "The task lock of the withdrawal round is released before finalization, so that two rounds overlap.",
    [("withdraw.rs", """    send_transactions_batch(latest_transaction_count).await;
    finalize_transactions_batch().await;
""", """    send_transactions_batch(latest_transaction_count).await;
    // nothing is signed from here on
    drop(_guard);
    finalize_transactions_batch().await;
""")])

bug("w08-unaffordable-keeps-its-place", "W08", "five queued withdrawals that can not afford the market fee, and another one behind them",
    "A request that can not afford its transaction stays at the front of the queue; five of them block everyone else.",
    [(T, """        self.remove_withdrawal_request(&request);
        self.record_withdrawal_request(request);
    }

    pub fn record_created_transaction""", """        self.remove_withdrawal_request(&request);
        self.pending_withdrawal_requests.push_front(request);
    }

    pub fn record_created_transaction""")])

bug("d05-base-offset-only-for-latest", "D05", "a minter on Base configured with the safe or finalized tag",
    "The 12 block margin on Base is applied only when the configured tag is latest.",
    [("deposit.rs", "                EvmNetwork::Base => {", "                EvmNetwork::Base if block_height == BlockTag::Latest => {"),
     ("deposit.rs", "use crate::rpc_declrations::LogEntry;\n", "use crate::rpc_declrations::{BlockTag, LogEntry};\n")])

bug("d07-majority-of-logs", "D07", "three providers, one of which reports different logs",
    "Log answers are reduced by majority instead of equality, so that a conflict between providers is acted on.",
    [("rpc_client/mod.rs", """            logs.into_iter().map(map_single_log).collect()
        }
""", """            logs.into_iter().map(map_single_log).collect()
        }
        let value = ReducedResult::from_multi_result(self);
"""),], skip=True)

bug("d07-compare-with-next-only", "D07", "three providers, the last of which disagrees with the two others",
    "Only the first two answers are compared.",
    [("rpc_client/mod.rs", "for (_other_provider, other_result) in inconsistent_result.into_iter() {", "for (_other_provider, other_result) in inconsistent_result.into_iter().take(2) {")])

bug("c07-swapped-reimbursed-fields", "C07", "reading a log written by an earlier version that contains a reimbursement",
    "Two fields of the reimbursement event swap their encoding positions.",
    [(T, """pub struct Reimbursed {
    #[cbor(n(0), with = "crate::cbor::id")]
    pub reimbursed_in_block: LedgerMintIndex,
    #[cbor(n(1), with = "crate::cbor::id")]
""", """pub struct Reimbursed {
    #[cbor(n(1), with = "crate::cbor::id")]
    pub reimbursed_in_block: LedgerMintIndex,
    #[cbor(n(0), with = "crate::cbor::id")]
""")])

bug("w09-no-refund-when-unavailable", "W09", "a withdrawal fee, and the native ledger becoming unavailable between fee and burn",
    "The fee is refunded only if the ledger refused the burn, not if it could not be reached.",
    [("main.rs", """                Some(withdrawal_fee) => {
                    // Amount= Withdrawal_fee - (ledger_transfer_fee * 2)
                    let refund_amount = withdrawal_fee
                        .checked_sub(
                            native_transfer_fee
                                .checked_mul(2_u8)
                                .unwrap_or(withdrawal_fee),
                        )
                        .unwrap_or(Wei::ZERO);
                    let _refund_result = client
""", """                // the ledger may not be reachable for the refund either
                Some(_) if matches!(e, LedgerBurnError::TemporarilyUnavailable { .. }) => {}
                Some(withdrawal_fee) => {
                    // Amount= Withdrawal_fee - (ledger_transfer_fee * 2)
                    let refund_amount = withdrawal_fee
                        .checked_sub(
                            native_transfer_fee
                                .checked_mul(2_u8)
                                .unwrap_or(withdrawal_fee),
                        )
                        .unwrap_or(Wei::ZERO);
                    let _refund_result = client
""")])

bug("w12-lock-released-before-burn", "W12", "two withdrawals of one user, the second while the first one's burn is in progress",
    "The per-user lock is released before the burn.",
    [("main.rs", """    let now = ic_cdk::api::time();
    log!(INFO, "[withdraw]: burning {:?}", amount);
""", """    let now = ic_cdk::api::time();
    // the fee is settled
    drop(_guard);
    log!(INFO, "[withdraw]: burning {:?}", amount);
""")])

bug("s01-failed-erc20-leaves-balance", "S01", "an ERC-20 payment that fails on chain",
    "The ERC-20 balance is debited even if the payment failed.",
    [("state.rs", "if receipt.status == TransactionStatus::Success && !tx.transaction_data().is_empty() {", "if !tx.transaction_data().is_empty() {")])

bug("s01-unspent-from-max-fee", "S01", "a native withdrawal that was bumped",
    "The charged fee is computed from the transaction's own price rather than from what was charged: after the payment, reported totals differ.",
    [("state.rs", """            TransactionStatus::Failure => tx_fee,
        };""", """            TransactionStatus::Failure => charged_tx_fee,
        };""")])

bug("w04-fixed-width-signature", "W04", "a signature whose r or s has a leading zero byte (1 in 128)",
    "The signature values are encoded with leading zero bytes, which nodes refuse as not canonical.",
    [("tx.rs", "    let leading_empty_bytes: usize = value.leading_zeros() as usize / 8; // Calculate leading zeros.", "    let leading_empty_bytes: usize = if value == u256::ZERO { 32 } else { 0 };")])

bug("w10-status-of-first-signed", "W10", "a transaction that was replaced by a fee bump",
    "The search reports the first signed transaction instead of the one that is being sent.",
    [(T, "if let Some(tx) = self.sent_tx.get_alt(burn_index).and_then(|txs| txs.last()) {", "if let Some(tx) = self.sent_tx.get_alt(burn_index).and_then(|txs| txs.first()) {")])

bug("s02-skipped-forgotten", "S02", "an upgrade after quarantining a reimbursement",
    "A quarantined reimbursement is put back into the queue by the replay.",
    [("state/audit.rs", """            state
                .withdrawal_transactions
                .record_quarantined_reimbursement(index.clone());
        }
    }
}

/// Records""", """            let _ = index;
        }
    }
}

/// Records"""), ("withdraw.rs", "            mutate_state(|s| process_event(s, EventType::QuarantinedReimbursement { index }));", """            mutate_state(|s| {
                s.withdrawal_transactions
                    .record_quarantined_reimbursement(index.clone());
                process_event(s, EventType::QuarantinedReimbursement { index })
            });""")])

bug("d08-throttle-counts-failed-rounds", "D08", "two requests within a minute when the first round could not get the block",
    "The time of the last observation is recorded only when the block number could be fetched, so that while a provider fails requests are not throttled.",
    [("deposit.rs", """    mutate_state(|s| s.last_observed_block_time = Some(ic_cdk::api::time()));

    let mut attempts = 0;""", """    let mut attempts = 0;"""), ("deposit.rs", """            mutate_state(|s| s.last_observed_block_number = block_number);
            block_number""", """            mutate_state(|s| {
                s.last_observed_block_time = Some(ic_cdk::api::time());
                s.last_observed_block_number = block_number
            });
            block_number""")])

bug("d06-error-stops-the-rest", "D06", "a malformed log with a source before other malformed ones",
    "Only the first invalid log of an answer is recorded.",
    [("deposit.rs", """        report_transaction_error(error);
    }
}""", """        report_transaction_error(error);
        break;
    }
}""")])

bug("d01-sources-by-hash-prefix", "D01", "two deposits in one transaction",
    "Deposit sources are compared by transaction hash only after the first log.", [("deposit_logs/mod.rs", "xx", "yy")], skip=True)

bug("w07-full-refund-on-refusal", "W07", "an ERC-20 withdrawal whose token burn is refused for insufficient allowance",
    "The gas fee is refunded in full when the token allowance was insufficient.",
    [("main.rs", """                        LedgerBurnError::InsufficientFunds { .. }
                        | LedgerBurnError::AmountTooLow { .. }
                        | LedgerBurnError::InsufficientAllowance { .. } => erc20_tx_fee
""", """                        LedgerBurnError::InsufficientAllowance { .. } => erc20_tx_fee,
                        LedgerBurnError::InsufficientFunds { .. }
                        | LedgerBurnError::AmountTooLow { .. } => erc20_tx_fee
""")])

bug("w08-no-retry-after-receipt-error", "W08", "a receipt that can not be fetched",
    "Transactions whose receipt is missing are dropped from the sent list.",
    [("withdraw.rs", "xx", "yy")], skip=True)

bug("w02-new-nonce-on-created-leftover", "W02", "a fee bump whose signature fails",
    "After a failed signature the created replacement is resubmitted from scratch.",
    [("withdraw.rs", "xx", "yy")], skip=True)

bug("w03-nonce-kept-after-failed-create", "W03", "upgrade", "x", [("withdraw.rs", "xx", "yy")], skip=True)

bug("c09-retry-without-doubling", "C09", "an RPC call that asks for more cycles twice", "x", [("withdraw.rs", "xx", "yy")], skip=True)

bug("w01-erc20-bump-over-burned-fee", "W01", "an ERC-20 payment stuck while fees rise beyond what was burned",
    "The bump of an ERC-20 payment is not limited by the burned fee.",
    [("withdraw.rs", "xx", "yy")], skip=True)

bug("s03-page-end", "S03", "x", "x", [("withdraw.rs", "xx", "yy")], skip=True)

bug("w06-error-defuse-order", "W06", "a trap in the ledger callback of a reimbursement",
    "The quarantine guard of a reimbursement is dropped before the reimbursement is recorded.",
    [("withdraw.rs", """            Ok(Ok(block_index)) => block_index
                .0
                .to_u64()
                .expect("block index should fit into u64"),
            Ok(Err(err)) => {
                log!(
                    INFO,
                    "[process_reimbursement] Failed to mint native token {err}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;
            }
            Err(err) => {
                log!(
                    INFO,
                    "[process_reimbursement] Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;
            }
        };""", """            Ok(Ok(block_index)) => block_index
                .0
                .to_u64()
                .expect("block index should fit into u64"),
            Ok(Err(err)) => {
                log!(
                    INFO,
                    "[process_reimbursement] Failed to mint native token {err}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;
            }
            Err(err) => {
                log!(
                    INFO,
                    "[process_reimbursement] Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                continue;
            }
        };""")])

bug("d03-unavailable-ledger-quarantines", "D03", "a ledger that can not be reached while minting",
    "A deposit whose mint could not be sent is quarantined instead of being retried.",
    [("deposit.rs", """                    "Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;""", """                    "Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                continue;""")])

bug("d03-trap-on-short-rounds", "D03", "x", "x", [("withdraw.rs", "xx", "yy")], skip=True)

bug("w11-fee-before-token-check", "W11", "x", "x", [("withdraw.rs", "xx", "yy")], skip=True)

bug("w08-finalize-needs-all", "W08", "a receipt error for one of several transactions",
    "One receipt that can not be fetched is treated as not mined; the round then traps until...", [("withdraw.rs", """                            "Failed to get transaction receipt for {hash} and withdrawal ID {withdrawal_id}: {e:?}. Will retry later",
                        );
                        return;""", """                            "Failed to get transaction receipt for {hash} and withdrawal ID {withdrawal_id}: {e:?}. Will retry later",
                        );"""), ("withdraw.rs", """            assert_eq!(
                expected_finalized_withdrawal_ids, actual_finalized_withdrawal_ids,
                "ERROR: unexpected transaction receipts for some withdrawal IDs"
            );
""", """            if !actual_finalized_withdrawal_ids.is_subset(&expected_finalized_withdrawal_ids) {
                return;
            }
""")], skip=True)

bug("w02-stale-created-signed", "W02", "x", "x", [("withdraw.rs", "xx", "yy")], skip=True)

bug("s02-nonce-not-replayed", "S02", "x", "x", [("withdraw.rs", "xx", "yy")], skip=True)

# ------------------------------------------------------------------ second batch
bug("d03-mint-timer-only-for-new", "D03", "a failed mint followed by an upgrade (which loses the retry timer), and no further deposit",
    "Minting is started only by a scraping round that found deposits, so that a pending mint is not resumed after an upgrade.",
    [("deposit.rs", """    for event in transaction_events {
        log!(
            INFO,
            "Received event {event:?}; will mint""", """    let found_events = !transaction_events.is_empty();
    for event in transaction_events {
        log!(
            INFO,
            "Received event {event:?}; will mint"""),
     ("deposit.rs", "    if read_state(State::has_events_to_mint) {\n", "    if found_events {\n")])

bug("d01-repeated-log-minted-again", "D01", "a log that is reported again after it was minted (an operator sets back the scraped height, or a provider answers beyond the asked range)",
    "A deposit that is reported again is accepted again instead of being refused.",
    [("state.rs", "        assert!(!self.minted_events.contains_key(&event_source));\n", ""),
     ("state.rs", """        assert_eq!(
            self.minted_events.insert(
                source,
                MintedEvent {
                    deposit_event,
                    mint_block_index,
                    token_symbol: token_symbol.to_string(),
                    erc20_contract_address,
                },
            ),
            None,
            "attempted to mint native twice for the same event {source:?}"
        );""", """        self.minted_events.insert(
            source,
            MintedEvent {
                deposit_event,
                mint_block_index,
                token_symbol: token_symbol.to_string(),
                erc20_contract_address,
            },
        );""")])

bug("d01-quarantine-keeps-event", "D01", "a trap in the ledger callback of a mint",
    "Quarantining a deposit leaves it in the list of deposits to mint.",
    [("state.rs", """        self.events_to_mint.remove(&source);
        match self.invalid_events.entry(source) {
            btree_map::Entry::Occupied(_) => false,
            btree_map::Entry::Vacant(entry) => {
                entry.insert(InvalidEventReason::QuarantinedDeposit);""", """        match self.invalid_events.entry(source) {
            btree_map::Entry::Occupied(_) => false,
            btree_map::Entry::Vacant(entry) => {
                entry.insert(InvalidEventReason::QuarantinedDeposit);""")])

bug("d02-symbol-lookup", "D02", "two tokens, deposits of both",
    "The ledger is looked up by the first token whose symbol matches ... (uses the first registered ledger).",
    [("deposit.rs", """                    s.erc20_tokens
                        .get_entry_alt(&event.erc20_contract_address)
                        .map(|(principal, symbol)| (symbol.to_string(), *principal, false))""",
      """                    s.supported_erc20_tokens()
                        .find(|t| t.erc20_contract_address.as_ref()[..19] == event.erc20_contract_address.as_ref()[..19])
                        .map(|t| (t.erc20_token_symbol.to_string(), t.erc20_ledger_id, false))""")])

bug("d02-fee-changed-midway", "D02", "an upgrade that changes the deposit fee while mints are retried... reading the fee again after the mint",
    "The collected fee is read from the state after the mint.",
    [("deposit.rs", "            match deposit_native_fee {\n                Some(ref deposit_fee) => {", "            match read_state(|s| s.withdrawal_native_fee.or(s.deposit_native_fee)).map(Nat::from) {\n                Some(ref deposit_fee) => {")])

bug("d04-continue-after-error", "D04", "an error for one chunk of a long range while later chunks are answered",
    "After a failed chunk the round goes on with the next chunk.",
    [("deposit.rs", """                    "[scrape_contract_logs]: Failed to scrape logs in range {block_range}: {e:?}",
                );
                return;""", """                    "[scrape_contract_logs]: Failed to scrape logs in range {block_range}: {e:?}",
                );
                continue;""")])

bug("d04-json-error-skips", "D04", "a single block range whose query fails with an error that is not a too large answer",
    "Any provider error for a single block range counts as too large.",
    [("deposit.rs", "                if e.has_http_outcall_error_matching(is_response_too_large) {", "                if e.has_http_outcall_error_matching(is_response_too_large)\n                    || (from_block == to_block && matches!(e, MultiCallError::ConsistentHttpOutcallError(_)))\n                {")])

bug("d05-observed-before-margin", "D05", "a failing head query on a network with a margin, after a successful one",
    "The observed head is stored without the margin, which matters when the next head query fails and the stored value is used.",
    [("deposit.rs", """            let mut block_number = Some(latest_block.number);
            match network {""", """            let mut block_number = Some(latest_block.number);
            mutate_state(|s| s.last_observed_block_number = block_number);
            match network {"""),
     ("deposit.rs", """            mutate_state(|s| s.last_observed_block_number = block_number);
            block_number
        }""", """            block_number
        }""")])

bug("d06-removed-forgotten", "D06", "a removed log reported together with a valid one",
    "A removed log is rejected without being recorded.",
    [("deposit_logs/parser.rs", """        return Err(ReceivedDepsitEventError::InvalidEventSource {
            source: event_source,
            error: EventSourceError::InvalidEvent(
                "this event has been removed from the chain".to_string(),
            ),
        });""", """        let _ = event_source;
        return Err(ReceivedDepsitEventError::PendingLogEntry);""")])

bug("d07-receipt-by-majority", "D07", "three providers, one of which reports another receipt",
    "Receipts are reduced by majority.",
    [("rpc_client/mod.rs", """        let mapped_transaction_receipt = ReducedResult::from_multi_result(self)
            .reduce_with_equality()
            .map_reduce(&map_transaction_receipt);""", """        let mapped_transaction_receipt = ReducedResult::from_multi_result(self)
            .map_reduce(&map_transaction_receipt)
            .reduce_with_strict_majority_by_key(|r| r.as_ref().map(|r| (r.block_number, r.status == TransactionStatus::Success)));""")])

bug("d07-one-ok-is-enough", "D07", "two of three providers failing",
    "A single successful answer is enough.",
    [("rpc_client/mod.rs", """                    1 => Err(MultiCallError::InconsistentResults(
                        inconsistent_results.clone(),
                    )),
                    _ => Ok(inconsistent_ok_results),""", """                    1 if inconsistent_results.len() > 3 => Err(MultiCallError::InconsistentResults(
                        inconsistent_results.clone(),
                    )),
                    _ => Ok(inconsistent_ok_results),""")])

bug("d08-equal-block-accepted", "D08", "a request for exactly the last observed block",
    "A request for the last observed block itself is accepted.",
    [("deposit.rs", "    if last_observed_block_number >= block_number {", "    if last_observed_block_number > block_number {")])

bug("d08-throttle-boundary", "D08", "a request exactly one minute after the last observation",
    "A request exactly one minute later is still refused.",
    [("deposit.rs", "    if now_ns < last_observed_block_time.saturating_add(ONE_MIN_NS) {", "    if now_ns <= last_observed_block_time.saturating_add(ONE_MIN_NS) {")])

bug("d08-observed-time-at-end", "D08", "two requests while a scraping round is waiting for its answers, or after a failed one",
    "The time of the observation is recorded when the head is known, so that requests during a slow or failed round are not throttled.",
    [("deposit.rs", "    mutate_state(|s| s.last_observed_block_time = Some(ic_cdk::api::time()));\n\n    let mut attempts", "    let mut attempts"),
     ("deposit.rs", """    let max_block_spread = read_state(|s| s.max_block_spread_for_logs_scraping());
    scrape_until_block""", """    mutate_state(|s| s.last_observed_block_time = Some(ic_cdk::api::time()));
    let max_block_spread = read_state(|s| s.max_block_spread_for_logs_scraping());
    scrape_until_block""")])

bug("w01-erc20-bump-exceeds-fee", "W01", "an ERC-20 withdrawal whose transaction is stuck while fees rise above what was burned",
    "The fee cap of an ERC-20 bump uses the effective rather than the maximum fee.",
    [("tx.rs", "        if new_tx_price.max_transaction_fee() > self.resubmission.allowed_max_transaction_fee() {", "        if matches!(self.resubmission, ResubmissionStrategy::ReduceEthAmount { .. })\n            && new_tx_price.max_transaction_fee() > self.resubmission.allowed_max_transaction_fee()\n        {")])

bug("w02-resubmit-last-lost", "W02", "a stuck transaction during a fee rise with signing failing, then another bump",
    "A replaced transaction that was not signed keeps its place: (try_insert clash)",
    [(T, "        Self::cleanup_failed_resubmitted_transactions(&mut self.created_tx, &nonce);\n        let new_tx = last_sent_tx", "        if self.created_tx.get(&nonce).is_some() {\n            return;\n        }\n        let new_tx = last_sent_tx")])

bug("w02-finalize-any-receipt-nonce", "W02", "a replaced transaction whose original is mined",
    "After an original is mined its replacement left in created_tx is signed later.",
    [(T, """            self.sent_tx.remove_entry(&nonce);
            Self::cleanup_failed_resubmitted_transactions(&mut self.created_tx, &nonce);
        }
        assert_eq!(
            self.finalized_tx""", """            self.sent_tx.remove_entry(&nonce);
        }
        assert_eq!(
            self.finalized_tx""")])

bug("w03-upgrade-resets-nonce", "W08", "an upgrade that passes unrelated settings after withdrawals were made",
    "Replaying created transactions does not... nonce after upgrade set to max of finalised",
    [("state/audit.rs", """            state
                .upgrade(upgrade_arg.clone())
                .expect("applying upgrade event should succeed");""", """            state
                .upgrade(upgrade_arg.clone())
                .expect("applying upgrade event should succeed");
            if let Some((nonce, _, _)) = state.withdrawal_transactions.sent_transactions_iter().last() {
                let next = nonce.checked_increment().expect("nonce overflow");
                state.withdrawal_transactions.update_next_transaction_nonce(next);
            }""")])

bug("w05-bump-mined-nonce", "W05", "a stale latest count ... resubmits transactions with nonce below the count by one",
    "The first pending nonce is the mined count minus one.",
    [(T, """        let first_pending_tx_nonce: TransactionNonce = latest_transaction_count.change_units();
        let mut transactions_to_resubmit = Vec::new();""", """        let first_pending_tx_nonce: TransactionNonce = latest_transaction_count
            .checked_sub(TransactionCount::ONE)
            .unwrap_or(latest_transaction_count)
            .change_units();
        let mut transactions_to_resubmit = Vec::new();""")])

bug("w05-bump-lowers-max-fee", "W05", "a rising priority fee together with a falling base fee",
    "The replacement's max fee follows the market down.",
    [("tx.rs", "let new_max_fee_per_gas = new_gas_fee.min_max_fee_per_gas().max(self.max_fee_per_gas);", "let new_max_fee_per_gas = new_gas_fee.min_max_fee_per_gas();")])

bug("w06-finality-from-latest", "W06", "a failing transaction in a block that is not final yet",
    "Transactions are finalized as soon as they are in the latest block.",
    [("withdraw.rs", "        .get_finalized_transaction_count(crate::state::minter_address().await)", "        .get_latest_transaction_count(crate::state::minter_address().await)")])

bug("w06-reimburse-erc20-fee", "W06", "a failed ERC-20 payment",
    "The reimbursement of a failed ERC-20 payment is on the index of the native burn (to: same)",
    [("withdraw.rs", "            ReimbursementIndex::Erc20 { ledger_id, .. } => ledger_id,", "            ReimbursementIndex::Erc20 { ledger_id, .. } => {\n                if reimbursement_request.transaction_hash.is_some() {\n                    ledger_id\n                } else {\n                    read_state(|s| s.native_ledger_id)\n                }\n            }")], skip=True)

bug("w06-quarantine-not-removed", "W06", "a trap in the reimbursement's ledger callback",
    "A quarantined reimbursement stays in the list of requests.",
    [(T, """        self.reimbursement_requests.remove(&index);
        self.reimbursed
            .insert(index, Err(ReimbursedError::Quarantined));""", """        self.reimbursed
            .insert(index, Err(ReimbursedError::Quarantined));""")])

bug("w07-refund-penalty-unavailable", "W07", "a token ledger that answers with a generic error",
    "A generic ledger error is treated like insufficient funds.",
    [("main.rs", "                        LedgerBurnError::TemporarilyUnavailable { .. } => erc20_tx_fee, //don't penalize user in case of an error outside of their control", "                        LedgerBurnError::TemporarilyUnavailable { message, .. } if !message.contains(\"error code\") => erc20_tx_fee, //don't penalize user in case of an error outside of their control\n                        LedgerBurnError::TemporarilyUnavailable { .. } => erc20_tx_fee\n                            .checked_sub(native_transfer_fee)\n                            .unwrap_or(Wei::ZERO),")])

bug("w08-pending-cap-counts-finalized", "W08", "signing failing once for a transaction that is then never retried until another request",
    "A round with only created transactions is not started.",
    [(T, """        !self.pending_withdrawal_requests.is_empty()
            || !self.created_tx.is_empty()
            || !self.sent_tx.is_empty()""", """        !self.pending_withdrawal_requests.is_empty() || !self.sent_tx.is_empty()""")])

bug("w08-no-retry-timer", "W08", "none: only slower",
    "no-op", [], skip=True)

bug("w08-send-batch-oldest-only", "W08", "more than five stuck transactions",
    "Only transactions never sent before are sent", [], skip=True)

bug("w10-search-recipient-destination", "W10", "an ERC-20 withdrawal searched by its recipient",
    "A search by recipient compares the transaction's destination, which is the token contract for an ERC-20 withdrawal.",
    [(T, "            ByRecipient(address) => &self.payee() == address,", "            ByRecipient(address) => &self.destination() == address,")])

bug("w10-quarantined-shown-reimbursed", "W10", "a quarantined reimbursement",
    "A quarantined reimbursement makes the status Success",
    [(T, "            if tx.transaction_status() == &TransactionStatus::Failure {\n                return (", "            if tx.transaction_status() == &TransactionStatus::Failure\n                && self\n                    .find_reimbursed_transaction_by_native_token_ledger_burn_index(burn_index)\n                    .is_none()\n            {\n                return (")])

bug("w11-min-off-by-one", "W11", "an amount exactly one below the minimum",
    "The minimum is compared after deduction of the fee.",
    [("main.rs", "    if amount < minimum_withdrawal_amount {\n", "    if amount.checked_increment().unwrap_or(amount) < minimum_withdrawal_amount {\n")])

bug("w12-pending-limit-only-own", "W12", "a hundred accepted withdrawals waiting",
    "The pending limit counts one fewer.",
    [("guard/mod.rs", "            if PR::pending_requests_count(s) >= MAX_PENDING {", "            if PR::pending_requests_count(s) + 1 >= MAX_PENDING {")])

bug("s01-fee-added-to-balance", "S01", "a deposit that is quarantined",
    "A quarantined deposit is no longer counted.",
    [("state.rs", "        self.native_balance.eth_balance_sub(debited_amount);\n        self.native_balance.total_effective_tx_fees_add(tx_fee);", "        self.native_balance.eth_balance_sub(debited_amount);\n        if receipt.status == TransactionStatus::Success {\n            self.native_balance.total_effective_tx_fees_add(tx_fee);\n        }")])

bug("s02-synced-block-minus", "S02", "an upgrade right after a scraping round",
    "The block before the last scraped one is recorded before an upgrade.",
    [("main.rs", "            block_number: s.last_scraped_block_number,\n", "            block_number: s.last_scraped_block_number.checked_sub(BlockNumber::from(1_u8)).unwrap_or(s.last_scraped_block_number),\n")])

bug("s02-fee-zero-lost", "S07", "an upgrade that sets a fee back to zero, then another upgrade",
    "Replaying an upgrade event does not apply zero fees.",
    [("state.rs", """        if let Some(withdrawal_native_fee) = withdrawal_native_fee {
            // Conversion""", """        if let Some(withdrawal_native_fee) = withdrawal_native_fee.filter(|fee| *fee != 0_u8 || self.last_observed_block_number.is_some()) {
            // Conversion""")])

bug("s03-page-limit", "S03", "a page request of more than 100 events",
    "Pages have up to 101 events.",
    [("main.rs", "            .take(arg.length.min(MAX_EVENTS_PER_RESPONSE) as usize)", "            .take(arg.length.min(MAX_EVENTS_PER_RESPONSE + 1) as usize)")])

bug("s03-event-twice-on-retry", "S03", "a reimbursement after a failed attempt ...",
    "Failed reimbursement attempts record events.", [], skip=True)

bug("s04-guard-forgotten-on-error", "S04", "a failing fee history answer",
    "The lock of the fee refresh is leaked when the answer is an error.",
    [("tx.rs", """                    "[refresh_gas_fee_estimate]: Failed retrieving fee history: {e:?}",
                );
                return None;""", """                    "[refresh_gas_fee_estimate]: Failed retrieving fee history: {e:?}",
                );
                std::mem::forget(_guard);
                return None;""")])

bug("s04-mint-guard-leak", "S04", "a failing ledger during minting",
    "The mint lock is kept until the retry timer, which then refuses to start.",
    [("deposit.rs", "        ic_cdk_timers::set_timer(crate::MINT_RETRY_DELAY, || ic_cdk::spawn(mint()));", "        std::mem::forget(_guard);\n        ic_cdk_timers::set_timer(crate::MINT_RETRY_DELAY, || {\n            mutate_state(|s| s.active_tasks.remove(&TaskType::Mint));\n            ic_cdk::spawn(mint())\n        });")])

bug("s05-symbol-case", "S05", "two tokens with one address on different ledgers",
    "The registry replaces an entry whose address is already used.",
    [("map.rs", "        if self.by_alt_key.contains_key(&alt_key) {", "        if false && self.by_alt_key.contains_key(&alt_key) {")], skip=True)

bug("s06-swap-anyone-when-set", "S06", "a caller other than the orchestrator",
    "The orchestrator check accepts the native ledger too.",
    [("main.rs", "    if orchestrator_id != ic_cdk::caller() {", "    if orchestrator_id != ic_cdk::caller() && read_state(|s| s.native_ledger_id) != ic_cdk::caller() {")])

bug("s07-upgrade-not-validated", "S07", "an upgrade that sets the minimum withdrawal below the transfer fee",
    "An upgrade that changes only the transfer fee is not validated.",
    [("state.rs", "            self.withdrawal_native_fee = withdrawal_native_fee;\n        }\n\n        self.validate_config()", "            self.withdrawal_native_fee = withdrawal_native_fee;\n            return Ok(());\n        }\n\n        self.validate_config()")])

bug("c03-median-lower", "C03", "an even number of rewards",
    "The lower of the two middle rewards is used.",
    [("tx.rs", "values.select_nth_unstable(values.len() / 2)", "values.select_nth_unstable((values.len() - 1) / 2)")])

bug("c03-cached-while-refreshing", "C03", "a request while another one's fee refresh is outstanding",
    "While a refresh is in progress the old estimate is used.",
    [("tx.rs", """                    "[refresh_gas_fee_estimate]: Failed retrieving guard: {e:?}",
                );
                return None;""", """                    "[refresh_gas_fee_estimate]: Failed retrieving guard: {e:?}",
                );
                return read_state(|s| s.last_transaction_price_estimate.clone()).map(|(_, e)| e);""")])

bug("c08-subaccount-truncated", "C08", "a subaccount that ends with zeros",
    "Subaccount with leading zero is default.",
    [("deposit_logs/parser.rs", "        let subaccount = LedgerSubaccount::from_bytes(subaccount_bytes);", "        let subaccount = if subaccount_bytes[..16] == [0; 16] && subaccount_bytes[24..] == [0; 8] {\n            None\n        } else {\n            LedgerSubaccount::from_bytes(subaccount_bytes)\n        };")])

bug("c09-retry-same-cycles", "C09", "an answer that asks for more cycles than twice the attached ones", "see evm_rpc_client", [], skip=True)

exec(open(__file__.replace("bugs.py", "bugs3.py")).read())
for k in [k for k in BUGS if BUGS[k].get("skip")]:
    del BUGS[k]
exec(open(__file__.replace("bugs.py", "demos.py")).read())
