use candid::utils::{ArgumentDecoder, ArgumentEncoder};
use candid::{Nat, Principal};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::{BlockIndex, TransferArg, TransferError};
use icrc_ledger_types::icrc2::approve::{ApproveArgs, ApproveError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};

pub struct CdkRuntime;
impl CdkRuntime {
    async fn call<In: ArgumentEncoder + Send, Out: for<'a> ArgumentDecoder<'a>>(
        &self,
        id: Principal,
        method: &str,
        args: In,
    ) -> Result<Out, (i32, String)> {
        ic_cdk::api::call::call(id, method, args)
            .await
            .map_err(|(code, msg)| (code as i32, msg))
    }
}
pub struct ICRC1Client<R> {
    pub runtime: R,
    pub ledger_canister_id: Principal,
}
impl ICRC1Client<CdkRuntime> {
    pub async fn balance_of(&self, account: Account) -> Result<Nat, (i32, String)> {
        self.runtime
            .call(self.ledger_canister_id, "icrc1_balance_of", (account,))
            .await
            .map(|(n,): (Nat,)| n)
    }
    pub async fn fee(&self) -> Result<Nat, (i32, String)> {
        self.runtime
            .call(self.ledger_canister_id, "icrc1_fee", ())
            .await
            .map(|(n,): (Nat,)| n)
    }
    pub async fn transfer(
        &self,
        args: TransferArg,
    ) -> Result<Result<BlockIndex, TransferError>, (i32, String)> {
        self.runtime
            .call(self.ledger_canister_id, "icrc1_transfer", (args,))
            .await
            .map(|(r,): (Result<BlockIndex, TransferError>,)| r)
    }
    pub async fn transfer_from(
        &self,
        args: TransferFromArgs,
    ) -> Result<Result<BlockIndex, TransferFromError>, (i32, String)> {
        self.runtime
            .call(self.ledger_canister_id, "icrc2_transfer_from", (args,))
            .await
            .map(|(r,): (Result<BlockIndex, TransferFromError>,)| r)
    }
    pub async fn approve(
        &self,
        args: ApproveArgs,
    ) -> Result<Result<BlockIndex, ApproveError>, (i32, String)> {
        self.runtime
            .call(self.ledger_canister_id, "icrc2_approve", (args,))
            .await
            .map(|(r,): (Result<BlockIndex, ApproveError>,)| r)
    }
}
