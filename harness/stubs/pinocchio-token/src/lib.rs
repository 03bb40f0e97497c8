//! Stand-in for pinocchio-token 0.3 (not in the offline cache): the two
//! instruction builders a swig handler could want.
#![no_std]
pinocchio_pubkey::declare_id!("TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA");
pub mod instructions {
    use pinocchio::{
        account_info::AccountInfo,
        cpi::invoke_signed,
        instruction::{AccountMeta, Instruction, Signer},
        ProgramResult,
    };
    pub struct Transfer<'a> {
        pub from: &'a AccountInfo,
        pub to: &'a AccountInfo,
        pub authority: &'a AccountInfo,
        pub amount: u64,
    }
    impl Transfer<'_> {
        pub fn invoke(&self) -> ProgramResult { self.invoke_signed(&[]) }
        pub fn invoke_signed(&self, signers: &[Signer]) -> ProgramResult {
            let metas = [
                AccountMeta::writable(self.from.key()),
                AccountMeta::writable(self.to.key()),
                AccountMeta::readonly_signer(self.authority.key()),
            ];
            let mut d = [3u8; 9];
            d[1..9].copy_from_slice(&self.amount.to_le_bytes());
            let ix = Instruction { program_id: &crate::ID, accounts: &metas, data: &d };
            invoke_signed(&ix, &[self.from, self.to, self.authority], signers)
        }
    }
    pub struct CloseAccount<'a> {
        pub account: &'a AccountInfo,
        pub destination: &'a AccountInfo,
        pub authority: &'a AccountInfo,
    }
    impl CloseAccount<'_> {
        pub fn invoke(&self) -> ProgramResult { self.invoke_signed(&[]) }
        pub fn invoke_signed(&self, signers: &[Signer]) -> ProgramResult {
            let metas = [
                AccountMeta::writable(self.account.key()),
                AccountMeta::writable(self.destination.key()),
                AccountMeta::readonly_signer(self.authority.key()),
            ];
            let ix = Instruction { program_id: &crate::ID, accounts: &metas, data: &[9u8] };
            invoke_signed(&ix, &[self.account, self.destination, self.authority], signers)
        }
    }
}
