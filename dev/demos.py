
def demo(i, text):
    BUGS[i]["demo"] = text

demo("d05-base-offset-only-for-latest", """
# Base with the safe tag: the chain's safe block is 9995 in the first round
history net:22
happens 1 "^log query 9701..=9983: 4 logs"
happens 0 "^log query [0-9]*..=9995:"
""")
demo("s01-failed-erc20-leaves-balance", """
# both payments fail on chain, so that the tokens stay where they are
history fail_mix
happens 1 "^mined nonce 1 to 0xa0bca0[0-9a-f]* ok false"
happens 1 "^reported token balance 17000000 of "
""")
demo("w10-status-of-first-signed", """
# each of two payments is replaced twice
history bump2
distinct 3 "^seen status of 2: Some\\(TxSent"
distinct 3 "^seen status of 3: Some\\(TxSent"
""")
demo("w09-no-refund-when-unavailable", """
# the fee is paid, and then the ledger can not be reached for the burn
history wfee "answer to transfer_from 998_000_000_000_000_000" 1 2
happens 1 "^chosen: answer to transfer_from 998"
happens 1 "^native: transfer 1980000000000000 from minter/fees to user0"
""")
demo("d03-unavailable-ledger-quarantines", """
# the ledger can not be reached once
history dep "answer to transfer 2_000_000_000_000_000_007" 1 2
happens 1 "^chosen: answer to transfer 2_000"
happens 1 "^native: mint 2000000000000000007 to user1"
""")
demo("s01-unspent-from-max-fee", """
# the payment fails on chain and its amount is given back
history fail_n
happens 1 "^mined nonce 0 to 0x[0-9a-f]* ok false"
balance=$(sed -n 's/^chain holdings of the minter: //p' "$s/facts")
happens 1 "^reported native balance $balance$"
""")
demo("w06-refund-of-last-bump", """
# the payment is replaced, and the original is what gets mined (and fails)
history bump_f "which trans" 1 1
happens 1 "^mined nonce 0 to 0x[0-9a-f]* ok false"
happens 1 "^native: mint 999517000000000000 to user0"
""")
demo("s02-skipped-forgotten", """
# processing the answer to the ledger transfer of a reimbursement traps; an upgrade follows
history fail_n "trap in callback of transfer 999_517" 1 1 "upgrade here" 15 1
happens 1 "^chosen: trap in callback of transfer 999_517"
happens 1 "^native: mint 999517000000000000 to user0"
""")
demo("d04-split-forgets-next-range", """
# the log query for 1000 blocks is too large, and so is its first half
history dep_far "answer to getLogs 7401..=8400" 1 9 "answer to getLogs 7401..=7900" 1 9
happens 2 "^chosen: answer to getLogs 7401"
grep -E "^log query [0-9]+[.][.]=[0-9]+: [0-9]+ logs" "$s/facts" | sed -E 's/^log query ([0-9]+)..=([0-9]+):.*/\\1 \\2/' >"$s/covered"
b=7901
while [ $b -le 8400 ]; do
  awk -v b=$b '$1 <= b && b <= $2 {f = 1} END {exit !f}' "$s/covered" || { echo "block $b was never looked at"; bad=1; break; }
  b=$((b + 1))
done
""")
demo("w05-bump-rounds-down", """
# fees that are no multiple of ten
history bump_odd
happens 0 "priority 3300000007 "
happens 2 "priority 3300000008 "
""")
demo("w08-unaffordable-keeps-its-place", """
# five requests that can not pay the present gas price, and two that can
history poor5
happens 2 "^mined nonce [01] to 0xdec[67][0-9a-f]* ok true"
""")
demo("w12-lock-released-before-burn", """
# the same user asks again while the ledger is burning for the first request
history same 'next: reply ["transfer_from 1_000_000_000_000_000_000' 1 1
happens 1 "^native: burn 1000000000000000000 from user0"
happens 0 "^token0: burn 700000 from user0"
""")
demo("w07-full-refund-on-refusal", """
# the token ledger refuses the burn after the gas has been paid
history burnfail "operation: [SetBalance" 1 2
happens 0 "^native: mint 1495000000000000 to user0"
""")
demo("w06-error-defuse-order", """
# the ledger can not be reached once
history fail_n "answer to transfer 999_517" 1 2
happens 1 "^chosen: answer to transfer 999_517"
happens 1 "^native: mint 999517000000000000 to user0"
""")
demo("d07-compare-with-next-only", """
# one of three providers reports a log that the others do not know
history dep "answer to getLogs 9981" 1 7
happens 1 "^chosen: answer to getLogs 9981"
happens 1 "^log query 9981..=10080: 3 logs"
happens 1 "^native: mint 2000000000000000007 to user1"
""")
demo("d06-error-stops-the-rest", """
# two damaged logs in one answer
history raw2 "operation: [Raw" 1 1 "operation: [Raw" 2 2
happens 2 "^event [0-9]*: InvalidDeposit"
""")
demo("d08-throttle-counts-failed-rounds", """
history dep_req 'next: reply ["getBlock Latest"], 0 request, 3 timers' 1 3
happens 1 "^chosen: next: reply"
happens 0 "^request Scrape { block: 12 } by user3: .*CalledTooManyTimes"
""")
demo("w05-bump-lowers-max-fee", """
# a replacement at a time when fees have fallen
history bump_e 'next: reply ["transfer 7_000_000_000_000_000_005 on native ledger' 1 2
happens 0 "^transaction nonce 0 .* max fee 16300000000 "
""")
demo("w08-pending-cap-counts-finalized", """
# signing fails once
history wn "answer to sign" 1 1
happens 1 "^chosen: answer to sign"
happens 1 "^mined nonce 0 to 0xdec1[0-9a-f]* ok true"
""")
demo("d01-quarantine-keeps-event", """
# processing the ledger's answer to a mint traps
history dep "trap in callback of transfer 2_000_000_000_000_000_007" 1 1
happens 1 "^chosen: trap in callback of transfer 2_000"
happens 0 "^native: supply 14000000000000000"
happens 1 "^token0: mint 5000007 to user2"
n=$(grep -cE "^native: mint 2000000000000000007 to user1" "$s/facts")
[ "$n" -le 1 ] || { echo "minted $n times"; bad=1; }
""")
demo("d07-one-ok-is-enough", """
# two of three providers fail
history dep "answer to getLogs 9981" 1 3
happens 1 "^chosen: answer to getLogs 9981"
happens 1 "^log query 9981..=10080: 3 logs"
happens 1 "^native: mint 2000000000000000007 to user1"
""")
demo("d04-continue-after-error", """
# the query for a range of blocks fails once
history dep_back "answer to getLogs 10106" 1 1
happens 1 "^chosen: answer to getLogs 10106"
grep -E "^log query [0-9]+[.][.]=[0-9]+: [0-9]+ logs" "$s/facts" | sed -E 's/^log query ([0-9]+)..=([0-9]+):.*/\\1 \\2/' >"$s/covered"
for b in 10106 10500 11105; do
  awk -v b=$b '$1 <= b && b <= $2 {f = 1} END {exit !f}' "$s/covered" || { echo "block $b was never looked at"; bad=1; }
done
""")
demo("w01-erc20-bump-exceeds-fee", """
# gas becomes dearer than what was paid for it
history bump_x "answer to transfer 7_000_000_000_000_000_005" 1 2
happens 0 "max fee 304000000000 "
""")
demo("s04-guard-forgotten-on-error", """
# the fee history can not be had once
history regwork "answer to feeHistory" 1 2
happens 1 "^chosen: answer to feeHistory"
happens 1 "^mined nonce 0 to 0x[0-9a-f]* ok true"
""")
demo("s06-swap-anyone-when-set", """
# a token is registered by somebody who is not entitled to
history priv "operation: [AddToken" 1 8
happens 1 "^request AddToken .* i: 1, chain: None, caller: .*901.* reject"
happens 0 "^token1: mint"
""")
demo("w12-pending-limit-only-own", """
# many withdrawals wait for lower fees
history full
happens 1 "^native: burn 10000000000000000 from user1$"
""")
demo("d02-fee-changed-midway", """
history wfee_both "answer to transfer 6_997_000_000_000_000_005" 1 1
happens 1 "^chosen: answer to transfer 6_997"
happens 0 "^native: mint 2000000000000000 to minter/fees"
""")
demo("d01-repeated-log-minted-again", """
# an operator sets back the scraped height, so that deposits are reported again
history dep_again
happens 1 "^native: mint 2000000000000000000 to user1"
""")
