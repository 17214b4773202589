pub mod icrc1 {
    pub mod account {
        use candid::{CandidType, Principal};
        use minicbor::{Decode, Encode};
        use serde::{Deserialize, Serialize};
        use std::cmp::Ordering;
        use std::fmt;
        use std::hash::{Hash, Hasher};

        pub type Subaccount = [u8; 32];
        pub const DEFAULT_SUBACCOUNT: &Subaccount = &[0; 32];

        mod principal {
            use candid::Principal;
            use minicbor::decode::{Decoder, Error};
            use minicbor::encode::{Encoder, Write};
            pub fn decode<Ctx>(d: &mut Decoder<'_>, _: &mut Ctx) -> Result<Principal, Error> {
                Principal::try_from_slice(d.bytes()?).map_err(|e| Error::message(e.to_string()))
            }
            pub fn encode<Ctx, W: Write>(
                v: &Principal,
                e: &mut Encoder<W>,
                _: &mut Ctx,
            ) -> Result<(), minicbor::encode::Error<W::Error>> {
                e.bytes(v.as_slice())?;
                Ok(())
            }
        }

        #[derive(Serialize, CandidType, Deserialize, Clone, Debug, Copy, Encode, Decode)]
        pub struct Account {
            #[cbor(n(0), with = "principal")]
            pub owner: Principal,
            #[cbor(n(1), with = "minicbor::bytes")]
            pub subaccount: Option<Subaccount>,
        }
        impl Account {
            pub fn effective_subaccount(&self) -> &Subaccount {
                self.subaccount.as_ref().unwrap_or(DEFAULT_SUBACCOUNT)
            }
        }
        impl PartialEq for Account {
            fn eq(&self, o: &Self) -> bool {
                self.owner == o.owner && self.effective_subaccount() == o.effective_subaccount()
            }
        }
        impl Eq for Account {}
        impl PartialOrd for Account {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for Account {
            fn cmp(&self, o: &Self) -> Ordering {
                self.owner
                    .cmp(&o.owner)
                    .then_with(|| self.effective_subaccount().cmp(o.effective_subaccount()))
            }
        }
        impl Hash for Account {
            fn hash<H: Hasher>(&self, s: &mut H) {
                self.owner.hash(s);
                self.effective_subaccount().hash(s);
            }
        }
        impl From<Principal> for Account {
            fn from(owner: Principal) -> Self {
                Account { owner, subaccount: None }
            }
        }
        impl fmt::Display for Account {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match &self.subaccount {
                    None => write!(f, "{}", self.owner),
                    Some(s) if s == &[0; 32] => write!(f, "{}", self.owner),
                    Some(s) => write!(
                        f,
                        "{}.{}",
                        self.owner,
                        hex::encode(s).trim_start_matches('0')
                    ),
                }
            }
        }
    }
    pub mod transfer {
        use super::account::{Account, Subaccount};
        use candid::{CandidType, Nat};
        use serde::{Deserialize, Serialize};
        use serde_bytes::ByteBuf;
        pub type BlockIndex = Nat;
        pub type NumTokens = Nat;

        #[derive(
            Serialize, Deserialize, CandidType, Clone, Hash, Debug, PartialEq, Eq, PartialOrd, Ord, Default,
        )]
        #[serde(transparent)]
        pub struct Memo(pub ByteBuf);
        impl From<u64> for Memo {
            fn from(n: u64) -> Self {
                Self(ByteBuf::from(n.to_be_bytes().to_vec()))
            }
        }
        impl From<ByteBuf> for Memo {
            fn from(b: ByteBuf) -> Self {
                Self(b)
            }
        }
        impl From<Vec<u8>> for Memo {
            fn from(v: Vec<u8>) -> Self {
                Self(ByteBuf::from(v))
            }
        }
        impl From<Memo> for ByteBuf {
            fn from(m: Memo) -> Self {
                m.0
            }
        }

        #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
        pub struct TransferArg {
            #[serde(default)]
            pub from_subaccount: Option<Subaccount>,
            pub to: Account,
            #[serde(default)]
            pub fee: Option<NumTokens>,
            #[serde(default)]
            pub created_at_time: Option<u64>,
            #[serde(default)]
            pub memo: Option<Memo>,
            pub amount: NumTokens,
        }
        #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
        pub enum TransferError {
            BadFee { expected_fee: NumTokens },
            BadBurn { min_burn_amount: NumTokens },
            InsufficientFunds { balance: NumTokens },
            TooOld,
            CreatedInFuture { ledger_time: u64 },
            TemporarilyUnavailable,
            Duplicate { duplicate_of: BlockIndex },
            GenericError { error_code: Nat, message: String },
        }
        impl std::fmt::Display for TransferError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", self)
            }
        }
    }
}
pub mod icrc2 {
    pub mod transfer_from {
        use crate::icrc1::account::{Account, Subaccount};
        use crate::icrc1::transfer::{BlockIndex, Memo, NumTokens};
        use candid::{CandidType, Nat};
        use serde::Deserialize;
        #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
        pub struct TransferFromArgs {
            #[serde(default)]
            pub spender_subaccount: Option<Subaccount>,
            pub from: Account,
            pub to: Account,
            pub amount: NumTokens,
            #[serde(default)]
            pub fee: Option<NumTokens>,
            #[serde(default)]
            pub memo: Option<Memo>,
            #[serde(default)]
            pub created_at_time: Option<u64>,
        }
        #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
        pub enum TransferFromError {
            BadFee { expected_fee: NumTokens },
            BadBurn { min_burn_amount: NumTokens },
            InsufficientFunds { balance: NumTokens },
            InsufficientAllowance { allowance: NumTokens },
            TooOld,
            CreatedInFuture { ledger_time: u64 },
            Duplicate { duplicate_of: BlockIndex },
            TemporarilyUnavailable,
            GenericError { error_code: Nat, message: String },
        }
    }
    pub mod approve {
        use crate::icrc1::account::{Account, Subaccount};
        use crate::icrc1::transfer::{BlockIndex, Memo, NumTokens};
        use candid::{CandidType, Nat};
        use serde::Deserialize;
        #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
        pub struct ApproveArgs {
            pub from_subaccount: Option<Subaccount>,
            pub spender: Account,
            pub amount: Nat,
            pub expected_allowance: Option<Nat>,
            pub expires_at: Option<u64>,
            pub fee: Option<NumTokens>,
            pub memo: Option<Memo>,
            pub created_at_time: Option<u64>,
        }
        #[derive(CandidType, Deserialize, Clone, Debug, PartialEq, Eq)]
        pub enum ApproveError {
            BadFee { expected_fee: NumTokens },
            InsufficientFunds { balance: NumTokens },
            AllowanceChanged { current_allowance: NumTokens },
            Expired { ledger_time: u64 },
            TooOld,
            CreatedInFuture { ledger_time: u64 },
            Duplicate { duplicate_of: BlockIndex },
            TemporarilyUnavailable,
            GenericError { error_code: Nat, message: String },
        }
    }
}
