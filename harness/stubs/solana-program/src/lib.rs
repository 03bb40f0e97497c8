//! Minimal stand-in for the three `solana-program` types the client side of
//! swig-compact-instructions uses.
pub mod pubkey {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
    pub struct Pubkey(pub [u8; 32]);
    impl Pubkey {
        pub fn new_from_array(a: [u8; 32]) -> Self { Self(a) }
        pub fn to_bytes(&self) -> [u8; 32] { self.0 }
    }
}
pub mod instruction {
    use crate::pubkey::Pubkey;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct AccountMeta { pub pubkey: Pubkey, pub is_signer: bool, pub is_writable: bool }
    impl AccountMeta {
        pub fn new(pubkey: Pubkey, is_signer: bool) -> Self { Self { pubkey, is_signer, is_writable: true } }
        pub fn new_readonly(pubkey: Pubkey, is_signer: bool) -> Self { Self { pubkey, is_signer, is_writable: false } }
    }
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Instruction { pub program_id: Pubkey, pub accounts: Vec<AccountMeta>, pub data: Vec<u8> }
}
