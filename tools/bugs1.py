import sys; sys.path.insert(0, "/verif/tools")
from mkbug import mkbug
PR = "program/src/processor.rs"
WRAPFEE_TAIL = '''
    if unwrapped_token_program.key == &spl_token_2022_interface::id() {
        // This invoke fn does extra validation on calculated fee
        invoke_transfer_checked_with_fee(
            unwrapped_token_program.key,
            unwrapped_token_account.clone(),
            unwrapped_mint.clone(),
            unwrapped_escrow.clone(),
            transfer_authority.clone(),
            &accounts[9..],
            amount,
            unwrapped_mint_state.base.decimals,
            fee,
            &[],
        )?;
    } else {
        invoke_transfer_checked('''
mkbug("wrap-fee-upcoming-schedule", "C01", [
 (PR, ".and_then(|cfg| cfg.calculate_epoch_fee(clock, amount))", ".and_then(|cfg| {\n            cfg.get_epoch_fee(clock.saturating_add(FEE_LOOKAHEAD_EPOCHS))\n                .calculate_fee(amount)\n        })"),
 (PR, WRAPFEE_TAIL, "\n    {\n        invoke_transfer_checked("),
 (PR, "    onchain::{\n        extract_multisig_accounts, invoke_transfer_checked, invoke_transfer_checked_with_fee,\n    },", "    onchain::{extract_multisig_accounts, invoke_transfer_checked},") if False else
 (PR, "type FieldExtractor", "/// Fee changes are announced two epochs ahead\nconst FEE_LOOKAHEAD_EPOCHS: u64 = 2;\n\ntype FieldExtractor"),
], r'''
use {
    crate::helpers::{common::*, extensions::MintExtension, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder, wrap_builder::WrapBuilder},
    mollusk_svm::result::Check,
    spl_token_2022_interface::{
        extension::{transfer_fee::TransferFeeConfig, BaseStateWithExtensionsMut, ExtensionType, PodStateWithExtensions, PodStateWithExtensionsMut},
        pod::{PodAccount, PodMint},
    },
    spl_token_wrap::{get_wrapped_mint_address, get_wrapped_mint_authority},
};
pub mod helpers;

/// A fee change that is announced but not yet in force must not change what is minted.
#[test]
fn minted_equals_received_while_a_fee_change_is_pending() {
    let amount = 1_000_000u64;
    let mut mint = MintBuilder::new().token_program(TokenProgram::SplToken2022).with_extension(MintExtension::TransferFeeConfig).build();
    {
        let mut st = PodStateWithExtensionsMut::<PodMint>::unpack(&mut mint.account.data).unwrap();
        let cfg = st.get_extension_mut::<TransferFeeConfig>().unwrap();
        cfg.older_transfer_fee.epoch = 0.into();
        cfg.older_transfer_fee.transfer_fee_basis_points = 1000.into();
        cfg.older_transfer_fee.maximum_fee = u64::MAX.into();
        cfg.newer_transfer_fee.epoch = 2.into();
        cfg.newer_transfer_fee.transfer_fee_basis_points = 10.into();
        cfg.newer_transfer_fee.maximum_fee = u64::MAX.into();
    }
    let auth = KeyedAccount::default();
    let user = TokenAccountBuilder::new().token_program(TokenProgram::SplToken2022).mint(mint.clone()).owner(auth.key).amount(amount)
        .with_extension(ExtensionType::TransferFeeConfig).build();
    let wm = get_wrapped_mint_address(&mint.key, &spl_token_2022_interface::id());
    let escrow = TokenAccountBuilder::new().token_program(TokenProgram::SplToken2022).mint(mint.clone()).owner(get_wrapped_mint_authority(&wm)).amount(0)
        .with_extension(ExtensionType::TransferFeeConfig).with_extension(ExtensionType::ImmutableOwner).build().account;
    let r = WrapBuilder::default().unwrapped_mint(mint).unwrapped_token_account(user).unwrapped_escrow_account(escrow)
        .transfer_authority(TransferAuthority { keyed_account: auth, signers: vec![] })
        .unwrapped_token_program(TokenProgram::SplToken2022).wrapped_token_program(TokenProgram::SplToken2022)
        .wrap_amount(amount).recipient_starting_amount(0).check(Check::success()).execute();
    let bal = |d: &[u8]| u64::from(PodStateWithExtensions::<PodAccount>::unpack(d).unwrap().base.amount);
    assert_eq!(bal(&r.recipient_wrapped_token.account.data), bal(&r.unwrapped_escrow.account.data));
}
''', "an unwrapped mint whose transfer fee change is scheduled for an epoch that has not come yet",
 "The wrap subtracts the fee of a future epoch while the token program charges the current one: more is minted than the escrow received")

mkbug("unwrap-last-holder-sweep", "C02", [
 (PR, '''    let unwrapped_mint_state = PodStateWithExtensions::<PodMint>::unpack(&unwrapped_mint_data)?;
    let bump_seed = [bump];
    let signer_seeds = get_wrapped_mint_authority_signer_seeds(wrapped_mint.key, &bump_seed);

    invoke_transfer_checked(
        unwrapped_token_program.key,
        unwrapped_escrow.clone(),
        unwrapped_mint.clone(),
        recipient_unwrapped_token.clone(),
        wrapped_mint_authority.clone(),
        additional_accounts,
        amount,
''', '''    let unwrapped_mint_state = PodStateWithExtensions::<PodMint>::unpack(&unwrapped_mint_data)?;
    let bump_seed = [bump];
    let signer_seeds = get_wrapped_mint_authority_signer_seeds(wrapped_mint.key, &bump_seed);

    // The last holder leaves no dust behind in the escrow
    let remaining_supply = {
        let data = wrapped_mint.try_borrow_data()?;
        u64::from(PodStateWithExtensions::<PodMint>::unpack(&data)?.base.supply)
    };
    let release_amount = if remaining_supply == 0 {
        let data = unwrapped_escrow.try_borrow_data()?;
        u64::from(PodStateWithExtensions::<PodAccount>::unpack(&data)?.base.amount).max(amount)
    } else {
        amount
    };

    invoke_transfer_checked(
        unwrapped_token_program.key,
        unwrapped_escrow.clone(),
        unwrapped_mint.clone(),
        recipient_unwrapped_token.clone(),
        wrapped_mint_authority.clone(),
        additional_accounts,
        release_amount,
'''),
], r'''
use {
    crate::helpers::{common::*, mint_builder::MintBuilder, unwrap_builder::UnwrapBuilder},
    mollusk_svm::result::Check,
    spl_token_2022_interface::{extension::PodStateWithExtensions, pod::PodAccount},
    spl_token_wrap::{get_wrapped_mint_address, get_wrapped_mint_authority},
};
pub mod helpers;

#[test]
fn burning_the_whole_supply_releases_only_the_burned_amount() {
    let unwrapped = MintBuilder::new().token_program(TokenProgram::SplToken).build();
    let wm = get_wrapped_mint_address(&unwrapped.key, &spl_token_2022_interface::id());
    let wrapped = MintBuilder::new().token_program(TokenProgram::SplToken2022).mint_key(wm)
        .mint_authority(get_wrapped_mint_authority(&wm)).supply(400).build();
    let r = UnwrapBuilder::default().unwrapped_mint(unwrapped).wrapped_mint(wrapped).escrow_starting_amount(1_000)
        .wrapped_token_starting_amount(400).unwrap_amount(400).recipient_starting_amount(0).check(Check::success()).execute();
    let bal = |d: &[u8]| u64::from(PodStateWithExtensions::<PodAccount>::unpack(d).unwrap().base.amount);
    assert_eq!(bal(&r.recipient_unwrapped_token.account.data), 400);
    assert_eq!(bal(&r.unwrapped_escrow.account.data), 600);
}
''', "an unwrap that burns the last of the wrapped supply while the escrow holds more than that",
 "Unwrapping releases more than was burned")

mkbug("wrap-program-signs-deposit", "C03", [
 (PR, '''    if unwrapped_token_program.key == &spl_token_2022_interface::id() {
        // This invoke fn''', '''    // Deposits made on behalf of a program-owned account carry its signature
    let bump_seed = [bump];
    let signer_seeds = get_wrapped_mint_authority_signer_seeds(wrapped_mint.key, &bump_seed);
    let own_signature: &[&[&[u8]]] = &[&signer_seeds];
    let deposit_seeds: &[&[&[u8]]] =
        if !transfer_authority.is_signer && accounts.len() == 9 { own_signature } else { &[] };

    if unwrapped_token_program.key == &spl_token_2022_interface::id() {
        // This invoke fn'''),
 (PR, '''            unwrapped_mint_state.base.decimals,
            fee,
            &[],
''', '''            unwrapped_mint_state.base.decimals,
            fee,
            deposit_seeds,
'''),
 (PR, '''            &accounts[9..],
            amount,
            unwrapped_mint_state.base.decimals,
            &[],
''', '''            &accounts[9..],
            amount,
            unwrapped_mint_state.base.decimals,
            deposit_seeds,
'''),
 (PR, '''    // Mint wrapped tokens to recipient
    let bump_seed = [bump];
    let signer_seeds = get_wrapped_mint_authority_signer_seeds(wrapped_mint.key, &bump_seed);
''', '''    // Mint wrapped tokens to recipient
'''),
], r'''
use {
    crate::helpers::{common::*, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder},
    solana_account::Account,
    spl_token_2022_interface::{extension::PodStateWithExtensions, pod::PodAccount},
    spl_token_wrap::{get_escrow_address, get_wrapped_mint_address, get_wrapped_mint_authority, instruction::wrap},
};
pub mod helpers;

/// The escrow named as the user's account, its own authority as transfer authority, nobody signing.
#[test]
fn escrow_cannot_be_its_own_depositor() {
    let unwrapped = MintBuilder::new().token_program(TokenProgram::SplToken).build();
    let t22 = spl_token_2022_interface::id();
    let wm = get_wrapped_mint_address(&unwrapped.key, &t22);
    let auth = get_wrapped_mint_authority(&wm);
    let wrapped = MintBuilder::new().token_program(TokenProgram::SplToken2022).mint_key(wm).mint_authority(auth).supply(0).build();
    let escrow_key = get_escrow_address(&unwrapped.key, &TokenProgram::SplToken.id(), &t22);
    let escrow = TokenAccountBuilder::new().token_program(TokenProgram::SplToken).mint(unwrapped.clone()).owner(auth).amount(5_000).account_key(escrow_key).build();
    let thief = TokenAccountBuilder::new().token_program(TokenProgram::SplToken2022).mint(wrapped.clone()).owner(solana_pubkey::Pubkey::new_unique()).amount(0).build();
    let mut ix = wrap(&spl_token_wrap::id(), &thief.key, &wm, &auth, &TokenProgram::SplToken.id(), &t22, &escrow_key, &unwrapped.key, &escrow_key, &auth, &[], 5_000);
    for m in ix.accounts.iter_mut() { m.is_signer = false; }
    let accounts = vec![thief.pair(), wrapped.pair(), (auth, Account::default()), TokenProgram::SplToken.keyed_account(), TokenProgram::SplToken2022.keyed_account(),
        escrow.pair(), unwrapped.pair()];
    let r = init_mollusk().process_instruction(&ix, &accounts);
    let bal = |d: &[u8]| u64::from(PodStateWithExtensions::<PodAccount>::unpack(d).unwrap().base.amount);
    let minted = bal(&r.get_account(&thief.key).unwrap().data);
    assert!(r.program_result.is_err() && minted == 0, "wrapped tokens minted for nothing: {minted}");
}
''', "a wrap whose source account is the escrow itself, with the escrow's authority as unsigned transfer authority and no multisig signers",
 "The program lends its own signature to the user's deposit: the escrow deposits to itself and wrapped tokens are minted for nothing")

mkbug("wrap-owner-check-spl-only", "C05", [
 (PR, '''        let escrow_data = unwrapped_escrow.try_borrow_data()?;
        let escrow_account = PodStateWithExtensions::<PodAccount>::unpack(&escrow_data)?;
        if escrow_account.base.owner != expected_authority {''', '''        let escrow_data = unwrapped_escrow.try_borrow_data()?;
        let escrow_account = PodStateWithExtensions::<PodAccount>::unpack(&escrow_data)?;
        // Token-2022 associated accounts cannot change owner
        let owner_is_fixed = *unwrapped_token_program.key == spl_token_2022_interface::id();
        if !owner_is_fixed && escrow_account.base.owner != expected_authority {'''),
], r'''
use {
    crate::helpers::{common::*, mint_builder::MintBuilder, wrap_builder::WrapBuilder},
    mollusk_svm::result::Check,
    spl_token_wrap::error::TokenWrapError,
};
pub mod helpers;

#[test]
fn token_2022_escrow_with_a_foreign_owner_is_refused() {
    let mint = MintBuilder::new().token_program(TokenProgram::SplToken2022).build();
    WrapBuilder::default().unwrapped_mint(mint).unwrapped_token_program(TokenProgram::SplToken2022)
        .wrapped_token_program(TokenProgram::SplToken2022)
        .unwrapped_escrow_owner(solana_pubkey::Pubkey::new_unique()).recipient_starting_amount(0)
        .check(Check::err(TokenWrapError::EscrowOwnerMismatch.into())).execute();
}
''', "a Token-2022 escrow account at the canonical address whose owner field is not the pair's authority",
 "Wrap deposits into an escrow that the pair's authority does not own")

mkbug("close-escrow-order-sensitive", "C10", [
 (PR, '''    let in_good_state = current_account_extensions.len() == required_account_extensions.len()
        && required_account_extensions
            .iter()
            .all(|item| current_account_extensions.contains(item));
''', '''    let in_good_state = current_account_extensions == required_account_extensions;
'''),
 (PR, '''    if !required_account_extensions.contains(&ExtensionType::ImmutableOwner) {
        required_account_extensions.push(ExtensionType::ImmutableOwner);
    }
''', '''    // and it is the first one they initialize
    if !required_account_extensions.contains(&ExtensionType::ImmutableOwner) {
        required_account_extensions.insert(0, ExtensionType::ImmutableOwner);
    }
'''),
], r'''
use {
    crate::helpers::{close_stuck_escrow_builder::CloseStuckEscrowBuilder, common::*, extensions::MintExtension, mint_builder::MintBuilder, token_account_builder::TokenAccountBuilder},
    mollusk_svm::result::Check,
    spl_token_2022_interface::extension::ExtensionType,
    spl_token_wrap::{error::TokenWrapError, get_escrow_address, get_wrapped_mint_address, get_wrapped_mint_authority},
};
pub mod helpers;

/// An escrow with exactly the required extensions, in either storage order, is in a good state.
#[test]
fn good_escrow_in_any_extension_order_is_not_closed() {
    for fee_first in [true, false] {
        let mint = MintBuilder::new().token_program(TokenProgram::SplToken2022).with_extension(MintExtension::TransferFeeConfig).build();
        let t22 = spl_token_2022_interface::id();
        let wm = get_wrapped_mint_address(&mint.key, &t22);
        let key = get_escrow_address(&mint.key, &t22, &t22);
        let b = TokenAccountBuilder::new().token_program(TokenProgram::SplToken2022).mint(mint.clone()).owner(get_wrapped_mint_authority(&wm)).amount(0).account_key(key);
        let b = if fee_first { b.with_extension(ExtensionType::TransferFeeConfig).with_extension(ExtensionType::ImmutableOwner) }
            else { b.with_extension(ExtensionType::ImmutableOwner).with_extension(ExtensionType::TransferFeeConfig) };
        CloseStuckEscrowBuilder::default().unwrapped_mint(mint).escrow_account(b.build())
            .wrapped_token_program(TokenProgram::SplToken2022)
            .check(Check::err(TokenWrapError::EscrowInGoodState.into())).execute();
    }
}
''', "an empty escrow that has exactly the required extensions but stores them in another order",
 "A healthy escrow can be closed by anyone")
