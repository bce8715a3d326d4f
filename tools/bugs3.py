import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
PR = "program/src/processor.rs"

mkbug("unwrap-many-extra-accounts", "C26", [
 (PR, "    // Burn wrapped tokens\n\n", "    // No multisig has more signers than this\n    if additional_accounts.len() > spl_token_2022::instruction::MAX_SIGNERS {\n        return Err(ProgramError::InvalidArgument);\n    }\n\n    // Burn wrapped tokens\n\n"),
], r'''
use {
    crate::helpers::{common::*, mint_builder::MintBuilder, unwrap_builder::UnwrapBuilder},
    mollusk_svm::result::Check,
    solana_account::Account,
    solana_pubkey::Pubkey,
    spl_token_2022_interface::{extension::PodStateWithExtensions, pod::PodAccount},
};
pub mod helpers;

/// Accounts an unwrap does not need (a transfer hook's, say) do not stand in the way of redeeming, however many there are.
#[test]
fn redeeming_tolerates_extra_accounts() {
    for n in [0usize, 3, 11, 12, 20] {
        let mint = MintBuilder::new().token_program(TokenProgram::SplToken).build();
        let mut b = UnwrapBuilder::default().unwrapped_mint(mint).escrow_starting_amount(1_000)
            .wrapped_token_starting_amount(400).unwrap_amount(400).recipient_starting_amount(0);
        for _ in 0..n {
            b = b.add_extra_account(KeyedAccount { key: Pubkey::new_unique(), account: Account::default() });
        }
        let r = b.check(Check::success()).execute();
        let bal = |d: &[u8]| u64::from(PodStateWithExtensions::<PodAccount>::unpack(d).unwrap().base.amount);
        assert_eq!(bal(&r.recipient_unwrapped_token.account.data), 400);
    }
}
''', "an unwrap that passes more than eleven additional accounts, as a transfer hook may need", "the holder cannot redeem the wrapped tokens")

mkbug("close-escrow-surplus-kept", "C10", [
 (PR, "    let in_good_state = current_account_extensions.len() == required_account_extensions.len()\n        && ", "    let in_good_state = current_account_extensions.len() >= required_account_extensions.len()\n        && "),
], r'''
use {
    crate::helpers::{close_stuck_escrow_builder::CloseStuckEscrowBuilder, common::*, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder},
    mollusk_svm::result::Check,
    spl_token_2022_interface::extension::ExtensionType,
    spl_token_wrap::{get_escrow_address, get_wrapped_mint_address, get_wrapped_mint_authority},
};
pub mod helpers;

/// An escrow made for extensions the mint no longer has (it was closed and created anew) can be closed.
#[test]
fn escrow_with_a_leftover_extension_is_closable() {
    let mint = MintBuilder::new().token_program(TokenProgram::SplToken2022).build();
    let t22 = spl_token_2022_interface::id();
    let wm = get_wrapped_mint_address(&mint.key, &t22);
    let key = get_escrow_address(&mint.key, &t22, &t22);
    let escrow = TokenAccountBuilder::new().token_program(TokenProgram::SplToken2022).mint(mint.clone())
        .owner(get_wrapped_mint_authority(&wm)).amount(0).account_key(key)
        .with_extension(ExtensionType::ImmutableOwner).with_extension(ExtensionType::TransferHookAccount).build();
    CloseStuckEscrowBuilder::default().unwrapped_mint(mint).escrow_account(escrow)
        .wrapped_token_program(TokenProgram::SplToken2022).check(Check::success()).execute();
}
''', "an escrow that carries every required extension and one more, left from an earlier version of the mint", "the outdated escrow is refused as good and can never be replaced")
