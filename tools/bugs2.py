import sys; sys.path.insert(0, "/verif/tools")
import shutil
from mkbug import mkbug
PR, IN, MD, MX = ("program/src/%s.rs" % x for x in ("processor", "instruction", "metadata", "metaplex"))
CLI = "clients/cli/src/"
PY = '#!/bin/bash\n# Runs the built client against a stand-in RPC node on the loopback.\nd=$(cd "$(dirname "$0")" && pwd)\ncd /repo || exit 2\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d" timeout 280 python3 "$d/demo.py"\n'


def clibug(id, prop, edits, demo, needs, breaks):
    if mkbug(id, prop, edits, None, needs, breaks, sh=PY):
        shutil.copy("/verif/tools/demo/fakerpc.py", "/verif/seeded/%s/fakerpc.py" % id)
        open("/verif/seeded/%s/demo.py" % id, "w").write(demo)


mkbug("sync-stale-field-letter-case", "C12", [
 (PR, "            wrapped_meta_map.remove(key);", "            wrapped_meta_map.retain(|tracked, _| !tracked.eq_ignore_ascii_case(key));"),
], r'''
use {
    crate::helpers::{common::TokenProgram, extensions::MintExtension, mint_builder::MintBuilder, sync_to_token_2022_builder::SyncToToken2022Builder},
    spl_token_2022_interface::{extension::{BaseStateWithExtensions, PodStateWithExtensions}, pod::PodMint},
    spl_token_metadata_interface::state::TokenMetadata,
    spl_token_wrap::{get_wrapped_mint_address, get_wrapped_mint_authority},
    solana_pubkey::Pubkey,
};
pub mod helpers;

/// A field renamed in letter case only leaves no stale copy behind.
#[test]
fn renamed_field_leaves_no_stale_copy() {
    let key = Pubkey::new_unique();
    let mint = MintBuilder::new().token_program(TokenProgram::SplToken2022).mint_key(key)
        .with_extension(MintExtension::TokenMetadata { name: "N".into(), symbol: "S".into(), uri: "u".into(),
            additional_metadata: vec![("website".into(), "new.example".into())] })
        .with_extension(MintExtension::MetadataPointer { metadata_address: Some(key) }).build();
    let wm = get_wrapped_mint_address(&key, &spl_token_2022_interface::id());
    let wrapped = MintBuilder::new().token_program(TokenProgram::SplToken2022).mint_key(wm).mint_authority(get_wrapped_mint_authority(&wm))
        .with_extension(MintExtension::MetadataPointer { metadata_address: Some(wm) })
        .with_extension(MintExtension::TokenMetadata { name: "N".into(), symbol: "S".into(), uri: "u".into(),
            additional_metadata: vec![("Website".into(), "old.example".into())] })
        .lamports(1_000_000_000).build();
    let r = SyncToToken2022Builder::new().unwrapped_mint(mint).wrapped_mint(wrapped).execute();
    let st = PodStateWithExtensions::<PodMint>::unpack(&r.wrapped_mint.account.data).unwrap();
    let md = st.get_variable_len_extension::<TokenMetadata>().unwrap();
    assert_eq!(md.additional_metadata, vec![("website".to_string(), "new.example".to_string())]);
}
''', "a source field whose name differs from an existing wrapped field only in letter case", "the stale field stays in the wrapped mint's metadata")

mkbug("pointer-update-by-anyone", "C16", [
 (PR, "    if mint_authority != *unwrapped_mint_authority_info.key {\n        return Err(ProgramError::IncorrectAuthority);\n    }\n", ""),
 (PR, "        let space = mem::size_of::<CanonicalDeploymentPointer>();", "        if mint_authority != *unwrapped_mint_authority_info.key {\n            return Err(ProgramError::IncorrectAuthority);\n        }\n\n        let space = mem::size_of::<CanonicalDeploymentPointer>();"),
 (PR, "        return Err(ProgramError::InvalidArgument);\n    }\n\n    // If pointer does not exist, initialize it", "        return Err(ProgramError::InvalidArgument);\n    }\n\n    // If pointer does not exist, initialize it on the authority's behalf"),
], r'''
use {
    crate::helpers::{common::{KeyedAccount, TokenProgram}, mint_builder::MintBuilder, set_canonical_pointer_builder::SetCanonicalPointerBuilder},
    mollusk_svm::result::Check,
    solana_account::Account,
    solana_program_error::ProgramError,
    solana_pubkey::Pubkey,
    solana_rent::Rent,
    spl_token_wrap::get_canonical_pointer_address,
};
pub mod helpers;

/// Nobody but the mint authority may change a pointer that exists already.
#[test]
fn stranger_cannot_change_an_existing_pointer() {
    let mint = MintBuilder::new().token_program(TokenProgram::SplToken).mint_authority(Pubkey::new_unique()).build();
    let key = get_canonical_pointer_address(&mint.key);
    let pointer = KeyedAccount { key, account: Account { lamports: Rent::default().minimum_balance(32), owner: spl_token_wrap::id(),
        data: vec![9; 32], ..Default::default() } };
    SetCanonicalPointerBuilder::default().unwrapped_mint_authority(Pubkey::new_unique()).unwrapped_mint(mint).canonical_pointer(pointer)
        .check(Check::err(ProgramError::IncorrectAuthority)).execute();
}
''', "a pointer account that exists already and a signer other than the mint authority", "anyone can redirect an existing canonical-deployment pointer")

mkbug("decode-pointer-trailing-bytes", "C17", [
 (IN, "            Some((&6, rest)) if rest.len() == 32 => {\n                let program_id = Pubkey::new_from_array(rest.try_into().unwrap());",
      "            Some((&6, rest)) if rest.len() >= 32 => {\n                let (key, _) = rest.split_at(32);\n                let program_id = Pubkey::new_from_array(key.try_into().unwrap());"),
], r'''
use {solana_pubkey::Pubkey, spl_token_wrap::instruction::TokenWrapInstruction};

/// Every accepted byte string is the encoding of what it decodes to.
#[test]
fn decoding_is_strict() {
    for extra in 1..40usize {
        for ix in [
            TokenWrapInstruction::Wrap { amount: 7 },
            TokenWrapInstruction::Unwrap { amount: 7 },
            TokenWrapInstruction::CreateMint { idempotent: true },
            TokenWrapInstruction::CloseStuckEscrow,
            TokenWrapInstruction::SyncMetadataToToken2022,
            TokenWrapInstruction::SyncMetadataToSplToken,
            TokenWrapInstruction::SetCanonicalPointer { program_id: Pubkey::new_unique() },
        ] {
            let mut b = ix.pack();
            b.extend(std::iter::repeat_n(1u8, extra));
            assert!(TokenWrapInstruction::unpack(&b).is_err(), "{b:?}");
        }
    }
}
''', "instruction data for SetCanonicalPointer with extra bytes after the program id", "malformed instruction data is accepted")

mkbug("metaplex-name-cut-panics", "C25", [
 (MX, "        name: token_metadata.name.clone(),\n        symbol", "        name: shorten(&token_metadata.name, MAX_NAME_LENGTH).to_string(),\n        symbol"),
 (MX, "/// Converts Token-2022 `TokenMetadata` to the `Metaplex` `DataV2` format.", "fn shorten(text: &str, max: usize) -> &str {\n    if text.len() > max {\n        &text[..max]\n    } else {\n        text\n    }\n}\n\n/// Converts Token-2022 `TokenMetadata` to the `Metaplex` `DataV2` format."),
 (MX, "fn extract_additional_metadata(", "/// Longest name the `Metaplex` program accepts\nconst MAX_NAME_LENGTH: usize = 32;\n\nfn extract_additional_metadata("),
], r'''
use {spl_token_metadata_interface::state::TokenMetadata, spl_token_wrap::metaplex::token_2022_metadata_to_metaplex};

/// No name, however long and in whatever script, makes the translation abort.
#[test]
fn long_names_do_not_abort() {
    for n in 0..80usize {
        for c in ["a", "é", "語", "🪙"] {
            let md = TokenMetadata { name: format!("x{}", c.repeat(n)), ..Default::default() };
            let _ = token_2022_metadata_to_metaplex(&md);
        }
    }
}
''', "a name longer than 32 bytes with a multi-byte character across the 32nd byte", "the program aborts instead of returning a result or an error")

clibug("cli-backpointer-shortfall", "L05", [
 (CLI + "create_mint.rs", "    let backpointer_lamports = match backpointer_account {\n        Ok(account) => account.lamports,\n        Err(_) => 0,\n    };",
  "    let backpointer_lamports = match backpointer_account {\n        Ok(account) if !account.data.is_empty() => account.lamports,\n        _ => 0,\n    };"),
], '''from fakerpc import *
um = key("mint")
for tp, size in ((TOKEN, 82),):
    wm = wrapped_mint(um, tp)
    for have in (0, 1, 500_000, rent(32) - 1, rent(32), rent(32) + 5):
        n = Node({um: (10**7, TOKEN, mint())})
        if have:
            n.accounts[backpointer(wm)] = (have, SYSTEM, b"")
        rc, out, err, _ = cli(n, "create-mint", um, tp)
        assert rc == 0 and len(n.sent) == 1, (rc, out, err)
        paid = {a[1]: int.from_bytes(d[4:], "little") for p, a, d in n.sent[0]["ixs"] if p == SYSTEM}
        assert paid.get(backpointer(wm), 0) == max(0, rent(32) - have), ("backpointer", have, paid)
        assert paid.get(wm, 0) == rent(size), ("mint", paid)
''', "a backpointer address that was funded in part or in full before create-mint is run", "the fee payer is charged the full rent again")
clibug("cli-sync-ignores-source", "L07", [
 (CLI + "sync_metadata_to_token2022.rs", "    let source_metadata = if let Some(metadata_account) = args.metadata_account {\n        Some(metadata_account)\n    } else {\n        resolve_source_metadata_account(&config.rpc_client, &args.unwrapped_mint).await?\n    };",
  "    let source_metadata = match (args.metadata_account, args.metadata_program_id) {\n        (Some(metadata_account), Some(_)) => Some(metadata_account),\n        _ => resolve_source_metadata_account(&config.rpc_client, &args.unwrapped_mint).await?,\n    };"),
], '''from fakerpc import *
um, src, prog = key("mint"), key("source"), key("program")
for extra in ([], ["--metadata-program-id", prog]):
    n = Node({um: (10**7, TOKEN, mint())})
    rc, out, err, _ = cli(n, "sync-metadata-to-token2022", um, "--metadata-account", src, *extra)
    assert rc == 0 and len(n.sent) == 1, (rc, out, err)
    acc = n.sent[0]["ixs"][-1][1]
    assert acc[4] == src, (extra, acc)
''', "--metadata-account without --metadata-program-id", "the source the user named is replaced by the derived one")

clibug("cli-presigned-sign-only-sends", "L02", [
 (CLI + "wrap.rs", "    if !args.sign_only {\n        process_transaction(config, transaction.clone()).await?;", "    if !args.sign_only || args.signer.is_some() && transaction.is_signed() {\n        process_transaction(config, transaction.clone()).await?;"),
], '''import re
from fakerpc import *
um, src, bh = key("mint"), key("src"), key("hash")
n = Node({um: (10**7, TOKEN, mint()), src: (10**7, TOKEN, token_account(um, key("multisig"), 50))})
base = ["wrap", src, TOKEN22, "5", "--unwrapped-mint", um, "--unwrapped-token-program", TOKEN, "--transfer-authority", key("multisig"),
        "--blockhash", bh, "--sign-only"]
K = ("payer", "m1", "m2")
rc, out, err, pub = cli(n, *base, "--multisig-signer", "@m1", "--multisig-signer", "=m2", keys=K)
assert rc == 0, (out, err)
sig = re.search(pub["m1"] + "=([1-9A-HJ-NP-Za-km-z]+)", out).group(0)
assert not n.sent
rc, out, err, pub = cli(n, *base, "--multisig-signer", "=m1", "--multisig-signer", "@m2", "--signer", sig, keys=K)
assert rc == 0, (out, err)
assert pub["m2"] + "=" in out, out
assert not n.sent and not n.simulated, "sign-only broadcast a transaction"
''', "--sign-only together with --signer values that complete the transaction", "a sign-only run broadcasts the transaction")

clibug("cli-unwrap-mint-unchecked-sign-only", "L04", [
 (CLI + "unwrap.rs", "        if mint != queried_mint {", "        if mint != queried_mint && !args.sign_only {"),
], '''from fakerpc import *
um, other, wacc, rec = key("mint"), key("other"), key("wacc"), key("rec")
wm = wrapped_mint(um, TOKEN22)
n = Node({um: (10**7, TOKEN, mint()), other: (10**7, TOKEN, mint()), wacc: (10**7, TOKEN22, token_account(wm, key("u"), 50)),
          rec: (10**7, TOKEN, token_account(um, key("u"), 50))})
for extra in ([], ["--sign-only", "--blockhash", key("hash")], ["--dry-run"]):
    pre = [x for x in extra if x == "--dry-run"]
    post = [x for x in extra if x != "--dry-run"]
    rc, out, err, _ = cli(n, *pre, "unwrap", wacc, rec, "5", "--unwrapped-mint", um, *post)
    assert rc == 0, (extra, out, err)
    rc, out, err, _ = cli(n, *pre, "unwrap", wacc, rec, "5", "--unwrapped-mint", other, *post)
    assert rc == 1 and "does not match" in err, ("accepted", extra, out, err)
''', "--sign-only with an --unwrapped-mint that differs from the recipient account's mint", "a contradictory transaction is signed")

mkbug("metaplex-collection-vouches", "C14", [
 (MX, "                creator.verified = false;\n            }\n            additional_metadata", "                // A verified collection vouches for its creators\n                creator.verified &= matches!(&metaplex_metadata.collection, Some(c) if c.verified);\n            }\n            additional_metadata"),
], r'''
use {
    mpl_token_metadata::{accounts::Metadata, types::{Collection, Creator, Key}},
    solana_account_info::AccountInfo,
    solana_pubkey::Pubkey,
    spl_token_wrap::metaplex::metaplex_to_token_2022_metadata,
};

/// A translated record never claims that a creator verified it.
#[test]
fn translation_never_forges_verification() {
    for vouched in [None, Some(false), Some(true)] {
        for primary_sale_happened in [false, true] {
            for verified in [false, true] {
                let (mint, meta) = (Pubkey::new_unique(), Pubkey::new_unique());
                let md = Metadata {
                    key: Key::MetadataV1, update_authority: Pubkey::new_unique(), mint, name: "n".into(), symbol: "s".into(), uri: "u".into(),
                    seller_fee_basis_points: 5, creators: Some(vec![Creator { address: Pubkey::new_unique(), verified, share: 100 }]),
                    primary_sale_happened, is_mutable: false, edition_nonce: None, token_standard: None, collection: vouched.map(|verified| Collection { verified, key: Pubkey::new_unique() }), uses: None,
                    collection_details: None, programmable_config: None,
                };
                let mut data = borsh::to_vec(&md).unwrap();
                let (mut l1, mut l2, mut none) = (1u64, 1u64, vec![]);
                let (owner, owner2) = (mpl_token_metadata::ID, spl_token::id());
                let info = AccountInfo::new(&meta, false, false, &mut l1, &mut data, &owner, false);
                let mint_info = AccountInfo::new(&mint, false, false, &mut l2, &mut none, &owner2, false);
                let t = metaplex_to_token_2022_metadata(&mint_info, &info).unwrap();
                let c = &t.additional_metadata.iter().find(|(k, _)| k == "creators").unwrap().1;
                assert!(c.contains("\"verified\":false") && !c.contains("\"verified\":true"), "{c}");
            }
        }
    }
}
''', "a Metaplex record in a verified collection whose creator is verified", "the wrapped mint's metadata claims a verification nobody gave")
