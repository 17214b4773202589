bug("x01-bump-continues-after-unaffordable", "W05", "two stuck payments, the first of which can not afford the bump",
    "After a payment that can not afford the bump, the later ones are still bumped.",
    [(T, """                    ));
                    return transactions_to_resubmit;
""", """                    ));
""")])
bug("x02-first-pending-not-bumped", "W08", "one stuck payment under rising fees",
    "The payment right at the latest count is not bumped.",
    [(T, """            .filter(|(nonce, _burn_index, _signed_tx)| *nonce >= &first_pending_tx_nonce)
        {
            let last""", """            .filter(|(nonce, _burn_index, _signed_tx)| *nonce > &first_pending_tx_nonce)
        {
            let last""")])
bug("x03-chunk-of-two", "C04", "halving a range of 3 or more blocks", "halves lose nothing but overlap", [
    ("numeric/range.rs", "            let right = BlockRangeInclusive::new(mid, end);", "            let right = BlockRangeInclusive::new(if mid == end { start } else { mid }, end);")], skip=True)
bug("x04-mint-stops-at-failure", "D03", "one ledger that stays unreachable while another token's deposit waits behind it",
    "Minting stops at the first ledger that can not be reached.",
    [("deposit.rs", """                    "Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;""", """                    "Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                break;""")])
bug("x05-timers-only-with-args", "D03", "an upgrade without an argument",
    "Timers are only started by upgrades with an argument.",
    [("main.rs", """        Some(MinterArg::UpgradeArg(upgrade_args)) => lifecycle::post_upgrade(Some(upgrade_args)),
        None => lifecycle::post_upgrade(None),
    }
    setup_timers();""", """        Some(MinterArg::UpgradeArg(upgrade_args)) => lifecycle::post_upgrade(Some(upgrade_args)),
        None => return lifecycle::post_upgrade(None),
    }
    setup_timers();""")])
bug("x06-stale-on-failed-refresh", "C03", "a failing fee history after an estimate has grown old",
    "An old estimate is used when the refresh fails.",
    [("tx.rs", "        _ => do_refresh().await,", "        Some((_, estimate)) => do_refresh().await.or(Some(estimate)),\n        None => do_refresh().await,")])
bug("x07-fee-failure-retries-deposit", "D01", "the mint of the deposit fee fails",
    "A failed fee mint makes the whole deposit be minted again.",
    [("deposit.rs", """                            log!(INFO,"Failed to send a message to the ledger for miting fees({ledger_canister_id}): {err:?}");
""", """                            log!(INFO,"Failed to send a message to the ledger for miting fees({ledger_canister_id}): {err:?}");
                            error_count += 1;
                            ScopeGuard::into_inner(prevent_double_minting_guard);
                            continue;
""")])
bug("x08-observed-never-back", "D05", "a provider answer that goes backwards",
    "The height used for scraping never goes back, also when the provider's does.",
    [("deposit.rs", "            mutate_state(|s| s.last_observed_block_number = block_number);\n            block_number", "            mutate_state(|s| s.last_observed_block_number = s.last_observed_block_number.max(block_number));\n            read_state(|s| s.last_observed_block_number)")])
bug("x09-reduce-from-last-amount", "W01", "a native payment bumped twice",
    "see tx.rs", [], skip=True)
bug("x10-pending-count-off", "W12", "exactly 100 waiting withdrawals", "101 withdrawals can wait.",
    [("guard/mod.rs", "PR::pending_requests_count(s) >= MAX_PENDING", "PR::pending_requests_count(s) > MAX_PENDING")])
bug("x11-erc20-refund-when-unavailable", "W09", "ERC-20 withdrawal with fee: the native ledger refuses the gas burn",
    "The fee of a refused gas burn is refunded without deducting the ledger fees.",
    [("main.rs", """            match withdrawal_native_fee {
                Some(withdrawal_fee) => {
                    // Amount= Withdrawal_fee - (ledger_transfer_fee * 2)
                    let refund_amount = withdrawal_fee
                        .checked_sub(
                            native_transfer_fee
                                .checked_mul(2_u8)
                                .unwrap_or(withdrawal_fee),
                        )
                        .unwrap_or(Wei::ZERO);
                    let _refund_result = native_ledger""", """            match withdrawal_native_fee {
                Some(withdrawal_fee) => {
                    let refund_amount = withdrawal_fee;
                    let _refund_result = native_ledger""")])
bug("x12-erc20-two-refunds", "W09", "ERC-20 withdrawal with a fee whose token burn fails",
    "The withdrawal fee is refunded, and again when reimbursement amount is zero.", [], skip=True)
bug("x13-created-at-lost", "S02", "an upgrade with a pending erc20 withdrawal", "", [], skip=True)
bug("x14-finalize-latest-of-several", "W08", "a bumped transaction whose original is mined",
    "Only the last signed transaction of a nonce is looked up when finalizing.",
    [(T, "            for sent_tx in sent_txs {\n                if let", "            for sent_tx in sent_txs.iter().rev().take(1) {\n                if let")])
bug("x15-finalize-two-of-three", "W08", "a payment bumped twice or more whose original is mined",
    "Only the last two signed transactions of a nonce are looked up when finalizing.",
    [(T, "            for sent_tx in sent_txs {\n                if let", "            for sent_tx in sent_txs.iter().rev().take(2) {\n                if let")])
bug("x16-first-receipt-only", "W02", "receipts", "", [], skip=True)
bug("x17-send-uses-stale-count", "W08", "a lost send after which the count moved on", "", [], skip=True)
bug("x18-skip-failed-sign", "W08", "a signing failure for one of several payments",
    "A payment that fails to be signed is dropped from the round, and the sent ones are stored as if signed.",
    [("withdraw.rs", """    if read_state(|s| s.withdrawal_transactions.has_pending_requests()) {
        ic_cdk_timers""", """    if read_state(|s| {
        s.withdrawal_transactions.withdrawal_requests_len() > 0
            || !s.withdrawal_transactions.is_sent_tx_empty()
    }) {
        ic_cdk_timers""")])
bug("x19-cleanup-keeps-created", "W08", "a fee bump that is created but not signed before the original is finalized",
    "A replacement that was created but not signed stays when the original is finalized.",
    [(T, """            self.sent_tx.remove_entry(&nonce);
            Self::cleanup_failed_resubmitted_transactions(&mut self.created_tx, &nonce);""", """            self.sent_tx.remove_entry(&nonce);""")])
bug("x20-status-created-hidden", "W10", "a bump in progress", "While a bump waits for its signature, the withdrawal is found as not found.",
    [(T, """        if let Some(tx) = self.created_tx.get_alt(burn_index) {
            return (RetrieveWithdrawalStatus::TxCreated, Some(tx.as_ref()));
        }

        if let Some(tx) = self.sent_tx""", """        if let Some(tx) = self.created_tx.get_alt(burn_index) {
            if self.sent_tx.contains_alt(burn_index) {
                return (RetrieveWithdrawalStatus::Pending, Some(tx.as_ref()));
            }
            return (RetrieveWithdrawalStatus::TxCreated, Some(tx.as_ref()));
        }

        if let Some(tx) = self.sent_tx""")])
bug("x21-sender-search-ignores-subaccount", "W10", "x", "", [], skip=True)
bug("x22-memo-ledger-id", "C06", "failed erc20 payments whose two burn indexes differ",
    "The refund memo of a failed transaction is the one of a failed burn when the index is zero.",
    [("memo.rs", """            Some(tx_hash) => MintMemo::ReimburseTransaction {
                withdrawal_id: reimbursement_request.ledger_burn_index.get(),
                tx_hash,
            },""", """            Some(tx_hash) if reimbursement_request.ledger_burn_index.get() > 0 => MintMemo::ReimburseTransaction {
                withdrawal_id: reimbursement_request.ledger_burn_index.get(),
                tx_hash,
            },
            Some(_) => MintMemo::ReimburseWithdrawal {
                withdrawal_id: 0,
            },""")])
bug("x23-log-last-entry", "C10", "a log whose first entry alone fits exactly",
    "The last entry that fits exactly is dropped.",
    [("logs.rs", "                if temp_entries_json.len() <= max_body_size {", "                if temp_entries_json.len() < max_body_size {")])
bug("x24-map-remove-by-key-only", "C05", "removing and inserting again",
    "An entry whose value is replaced keeps its alternative key.",
    [("map.rs", """        if self.by_key.contains_key(&key) {
            return Err""", """        if self.by_key.get(&key).is_some_and(|a| self.by_alt_key.contains_key(a)) && self.by_key.len() > 1 {
            return Err""")], skip=True)
bug("x25-removed-none", "D06", "a removed log without a source", "see parser", [], skip=True)
bug("x26-priority-floor-only-if-zero", "C03", "a market reward above zero but below the floor",
    "The floor applies only when the reward is zero.",
    [("tx.rs", "        historic_max_priority_fee_per_gas.max(min_max_priority_fee_per_gas)", "        if historic_max_priority_fee_per_gas == WeiPerGas::ZERO {\n            min_max_priority_fee_per_gas\n        } else {\n            historic_max_priority_fee_per_gas\n        }")])
bug("x27-bump-uses-estimated-max", "W05", "a bump for a native payment",
    "The bump takes the market's priority fee without its base fee.",
    [("tx.rs", "            let new_max_fee_per_gas = new_gas_fee.min_max_fee_per_gas().max(self.max_fee_per_gas);", "            let new_max_fee_per_gas = self.max_fee_per_gas.max(updated_max_priority_fee_per_gas);")])
bug("x28-bump-priority-only-market", "W05", "a market priority fee between the old one and 110% of it",
    "When the market's priority fee is above the old one, it is taken as is.",
    [("tx.rs", """            let updated_max_priority_fee_per_gas = plus_10_percent(self.max_priority_fee_per_gas)
                .max(new_gas_fee.max_priority_fee_per_gas);""", """            let updated_max_priority_fee_per_gas =
                if new_gas_fee.max_priority_fee_per_gas > self.max_priority_fee_per_gas {
                    new_gas_fee.max_priority_fee_per_gas
                } else {
                    plus_10_percent(self.max_priority_fee_per_gas)
                };""")])
bug("x29-skip-block-with-range", "D04", "a response too large for two blocks",
    "A range of two blocks that is too large is skipped as a whole.",
    [("deposit.rs", "                    if from_block == to_block {", "                    if from_block.checked_increment().is_some_and(|next| next >= to_block) {")])
bug("x30-scraped-before-registered", "D01", "x", "", [], skip=True)
bug("x31-mint-traps-keep-order", "D03", "an erc20 deposit mint that traps", "", [], skip=True)
bug("x32-throttle-on-request", "D08", "a refused request delays the next ones",
    "A request refused for its block number still counts as an observation.",
    [("main.rs", """        block_number,
        now_ns,
    )?;
""", """        block_number,
        now_ns,
    )
    .inspect_err(|e| {
        if matches!(e, RequestScrapingError::CalledTooManyTimes) {
            mutate_state(|s| s.last_observed_block_time = Some(now_ns));
        }
    })?;
""")])
bug("x33-new-deposits-guardless", "S06", "x", "", [], skip=True)
bug("x34-erc20-quarantine-native", "W06", "a trap while reimbursing a failed ERC-20 payment", "", [], skip=True)
bug("x35-reimburse-lock-per-call", "S04", "", "", [], skip=True)
bug("x36-reimburse-stops-at-error", "W06", "one ledger that stays unreachable while another token's refund waits behind it",
    "Reimbursing stops at the first ledger that can not be reached.",
    [("withdraw.rs", """                    "[process_reimbursement] Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                continue;""", """                    "[process_reimbursement] Failed to send a message to the ledger ({ledger_canister_id}): {err:?}"
                );
                error_count += 1;
                // minting failed, defuse guard
                ScopeGuard::into_inner(prevent_double_minting_guard);
                break;""")])
bug("x37-reschedule-loses-all-but-one", "W08", "two withdrawals of one user with equal data", "", [], skip=True)
bug("x38-quote-uses-min-fee", "C03", "", "", [], skip=True)
bug("x39-nonce-too-low-finalizes", "W02", "", "", [], skip=True)
bug("x40-deposit-fee-on-erc20", "D02", "an ERC-20 deposit when a deposit fee is configured, larger than the deposit", "", [], skip=True)
bug("x41-scrape-from-observed", "D04", "first scrape after an upgrade that changes the last scraped block", "", [], skip=True)
bug("x42-erc20-amount-low-bits", "W01", "an ERC-20 amount beyond 128 bits",
    "The transfer call's amount is cut to 128 bits.",
    [], skip=True)
