#!/usr/bin/env python3
"""Emits /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)
PR = "program/src/processor.rs"
prop("C01", "Wrapping mints exactly what the escrow receives",
 "Every successful wrap moves exactly the requested amount of unwrapped tokens from the user's account into the pair's escrow and, after that, mints to the recipient exactly what the escrow received: the amount minus the transfer fee the unwrapped mint charges for it in the current epoch (no fee for mints that have none). A zero amount is refused, each of the two movements happens exactly once, and a wrap that cannot complete either one fails as a whole.",
 ["inputs", "histories"], "all account lists, amounts, token-program pairs, mint fee configurations and epochs",
 "Tests sample a few mints, amounts and fee settings; the guarantee is about every path that reports success, including fee configurations and program combinations no test builds.",
 [PR], [("wrap handler", PR)])
prop("C02", "Unwrapping releases exactly what was burned",
 "Every successful unwrap burns exactly the requested amount of wrapped tokens and then releases exactly the same amount of unwrapped tokens from the pair's escrow to the recipient, each exactly once. A zero amount is refused, nothing leaves the escrow unless the burn of the same amount was performed first, and a failed burn or release fails the whole unwrap.",
 ["inputs", "histories"], "all account lists, amounts and token-program pairs",
 "A test shows equality for the amounts it picks; it cannot show that no path releases without burning or burns without releasing.",
 [PR], [("unwrap handler", PR)])
prop("C03", "A user's tokens move only on authority the caller supplied",
 "The tokens taken from a user (the deposit in a wrap and the burn in an unwrap) are taken under the transfer authority and multisig signers the caller passed in, and under nothing else: the program never lends its own derived-address signature to them and passes every supplied multisig signer through. In particular no wrap can be funded from the escrow itself.",
 ["inputs", "programs"], "all callers, account lists and multisig arrangements, including accounts the attacker chose to coincide",
 "The dangerous inputs are ones a test author does not think of (the escrow passed as the source account, its authority passed as transfer authority).",
 [PR], [("wrap handler", PR), ("unwrap handler", PR)])
prop("C04", "The program's derived-address signatures are confined to their purpose",
 "The program signs with a derived address only for a closed set of purposes: allocating and assigning the very account that address names while creating it, minting in a wrap, releasing from escrow in an unwrap, closing a stuck escrow, and writing metadata of the wrapped mint it governs. Each signature uses the seeds and bump belonging to the account it is used for, so no instruction can make the program sign for another pair's authority or for an arbitrary call.",
 ["inputs", "programs"], "all instructions and account lists",
 "Absence of a further signing path is a statement about the whole program, not about the executions tests perform.",
 [PR, "program/src/lib.rs", "program/src/metadata.rs", "program/src/mint_customizer/default_token_2022.rs", "program/src/mint_customizer/compliance.rs"], [("signed cross-program calls", PR)])
prop("C05", "Wrap and unwrap act only on the pair's canonical accounts",
 "Before a wrap or unwrap moves any token, the wrapped mint must be the address derived from this unwrapped mint and wrapped token program, the authority must be the address derived from that wrapped mint, and the escrow must be that authority's associated token account for the unwrapped mint and its token program; a wrap additionally requires the escrow to still be owned by that authority. Any other account fails the instruction with no effect.",
 ["inputs"], "all account lists an attacker can present",
 "Tests substitute a few wrong accounts one at a time; the guarantee covers every substitution and every path to a token movement.",
 [PR, "program/src/lib.rs"], [("wrap and unwrap account checks", PR)])
prop("C06", "A wrapped mint is created only at its canonical address for a real mint",
 "Creating a wrapped mint succeeds only if the wrapped mint and backpointer accounts are the addresses derived from the unwrapped mint and wrapped token program (and from the wrapped mint), and the unwrapped mint is owned by one of the two token programs. These checks precede every account change and apply to the idempotent success path as well.",
 ["inputs"], "all account lists, both settings of the idempotent flag, all mint configurations",
 "Tests try individual wrong addresses; they do not show every success path is guarded.",
 [PR, "program/src/lib.rs"], [("create-mint handler", PR)])
prop("C07", "A new wrapped mint is configured as promised",
 "A newly created wrapped mint has the unwrapped mint's decimals and freeze authority, the pair's derived address as its only mint authority, and exactly the extensions of the selected mint flavour: for the default Token-2022 flavour, confidential transfers that nobody can reconfigure or audit and that need no approval, plus a metadata pointer to the mint itself under the derived authority. Its account is sized for exactly those extensions, must be pre-funded to rent exemption, is handed to the wrapped token program, and extensions are initialised before the mint itself.",
 ["inputs", "configurations"], "all unwrapped mints, both wrapped token programs, every bundled mint flavour",
 "Tests compare a few fields of a few mints; a wrong extension order, size or argument on one combination is not seen.",
 [PR, "program/src/mint_customizer/default_token_2022.rs", "program/src/mint_customizer/no_extensions.rs"], [("create-mint handler", PR)])
prop("C08", "An existing wrapped mint or backpointer is never re-created",
 "If either the wrapped mint or its backpointer already holds data, creating the wrapped mint changes nothing: without the idempotent flag it fails, and with the flag it succeeds only when the wrapped mint belongs to the wrapped token program and the backpointer to this program. Conversely, when neither holds data a successful creation has really created both.",
 ["inputs", "histories"], "all prior account states and both settings of the idempotent flag",
 "Partial prior states (only one of the two accounts present, foreign owners) multiply beyond what tests enumerate.",
 [PR], [("create-mint handler", PR)])
prop("C09", "The backpointer always names the mint being wrapped",
 "After a successful creation the backpointer account is owned by this program, has exactly the size of one address, is rent exempt, and stores the address of the unwrapped mint the wrapped mint was derived from. No instruction ever writes it again.",
 ["inputs", "histories"], "all creations and all later instructions",
 "That nothing else ever writes the account is a whole-program statement.",
 [PR, "program/src/state.rs"], [("create-mint handler", PR)])
prop("C10", "Only an empty, genuinely mismatched escrow can be closed",
 "An escrow can be closed only if it and its mint are Token-2022 accounts, the wrapped mint, authority and escrow are the canonical ones of the pair, the escrow is owned by that authority, initialised (not frozen), holds zero tokens, and its extensions differ from those its mint requires today (immutable owner always included). Exactly that escrow is closed, once, its lamports going to the destination the caller named, and an escrow in a good state is refused; an escrow is refused as good only when its extensions are exactly the required ones, so an outdated one can always be cleared.",
 ["inputs", "histories"], "all escrow, mint and extension states and all account lists",
 "The tests build a handful of extension combinations; closing a good or funded escrow on any other combination would lock or lose user funds, and refusing a genuinely outdated one would block wrapping for good.",
 [PR], [("close-stuck-escrow handler", PR)])
prop("C11", "Synced metadata comes only from the mint's own authoritative source",
 "The metadata copied to a wrapped token is read from the unwrapped mint's own authoritative source: for an SPL Token mint, or a Token-2022 mint without a metadata pointer, the Metaplex record derived from that mint and owned by the Metaplex program; otherwise exactly the account the pointer names (the mint itself, a Metaplex-owned account, or an account whose owning program is asked and whose reply is attributed to that program). A missing source, an unset pointer, a different account, a Token-2022-owned external account or an empty or foreign reply makes the sync fail.",
 ["inputs", "programs"], "all source accounts, pointers, owner programs and returned data, including hostile ones",
 "Hostile source accounts and programs are unbounded; tests try one wrong account per branch.",
 ["program/src/metadata.rs", PR], [("source resolution", "program/src/metadata.rs")])
prop("C12", "After a sync to Token-2022 the wrapped metadata mirrors the source",
 "After a successful sync to a Token-2022 wrapped mint, its name, symbol, URI and every additional field equal the source's and no additional field absent from the source remains; a mint without metadata gets it initialised under the derived authority and then receives every additional field. Fields already equal are not rewritten.",
 ["inputs", "histories"], "all source and previously stored metadata, with any number of additional fields",
 "Tests use a few fixed field sets; the guarantee ranges over arbitrary lists of fields and prior states.",
 [PR], [("sync to Token-2022 handler", PR)])
prop("C13", "A sync to SPL Token writes the source's metadata to the Metaplex record",
 "A successful sync to an SPL Token wrapped mint creates its Metaplex record if it is empty (mutable, with the derived authority as mint authority, payer and update authority) and otherwise updates it, in both cases with the converted source metadata and nothing else: the update leaves sale flag, update authority and mutability untouched. Exactly one of the two writes happens.",
 ["inputs", "histories"], "all source metadata and prior records",
 "Tests inspect a few source records; the guarantee covers each attribute on each path.",
 [PR], [("sync to SPL Token handler", PR)])
prop("C14", "Metadata translation preserves content and never forges verification",
 "Translating metadata between the Metaplex and Token-2022 forms keeps name, symbol and URI unchanged (and, towards Token-2022, names the unwrapped mint and keeps the update authority), carries each optional attribute exactly when the source has it and under its own key, and fails on a value it cannot decode. Creators, and collections written to a Metaplex record, are always carried over as unverified.",
 ["inputs"], "all metadata records in either form, including hostile field values",
 "Combinations of optional attributes and verification flags are too many to test, and a forged or rejected verification shows only on particular ones.",
 ["program/src/metaplex.rs"], [("translation", "program/src/metaplex.rs")])
prop("C15", "Syncs write only to the canonical wrapped mint of the right kind",
 "A metadata sync writes only to the wrapped mint derived from the given unwrapped mint for the matching token program (or to that mint's derived Metaplex record), only when that mint is owned by the matching token program, only through the genuine Token-2022 or Metaplex program, and only under that mint's derived authority. All of this is checked before anything is written.",
 ["inputs"], "all account lists",
 "Each path to each metadata write must be guarded; tests cover single substitutions.",
 [PR], [("sync handlers", PR)])
prop("C16", "Only the mint authority can set the canonical-deployment pointer",
 "The canonical-deployment pointer of a mint is created or changed only when the current mint authority recorded in that mint signs, the mint belongs to one of the token programs, and the pointer account is the address derived from that mint. On success it stores exactly the requested program, is created (rent exempt, exactly sized, owned by this program) when empty and only overwritten otherwise; a mint without authority is refused.",
 ["inputs", "histories"], "all signers, mints, pointer accounts and prior states",
 "Tests try a few unauthorised callers; the guarantee is about every path to the write.",
 [PR], [("set-canonical-pointer handler", PR)])
prop("C17", "Instruction encoding and decoding are exact inverses and strict",
 "Every instruction has its own fixed code (0 to 6 in the published order) and encodes its parameters in a fixed little-endian layout; decoding accepts exactly the byte strings encoding produces, returns the very same parameters, and answers anything else - unknown code, wrong length, a flag byte other than 0 or 1, empty input - with an invalid-instruction-data error rather than a crash.",
 ["inputs"], "all byte strings and all instruction values",
 "Round-trip tests sample values; strictness and totality range over all byte strings.",
 ["program/src/instruction.rs"], [("codec", "program/src/instruction.rs")])
prop("C18", "Each instruction runs its own handler with its decoded parameters",
 "Executing a decoded instruction runs exactly the operation it names, with the decoded parameters, the given accounts and program id, and returns that operation's result unchanged; undecodable input has no effect. The deployed program uses the default mint flavour and its entry point reaches the same dispatcher, reporting the error it returns.",
 ["inputs", "programs"], "all instruction data and account lists",
 "The host tests call the processor directly and never see the on-chain entry point wiring; crossed handlers of similar account shape can pass sampled tests.",
 [PR, "program/src/entrypoint.rs"], [("dispatcher", PR), ("entry point", "program/src/entrypoint.rs")])
prop("C19", "Instruction builders and the processor agree on every account",
 "The published instruction builders list accounts in exactly the order the program reads them, put each argument in its own slot, mark every account the program modifies as writable and every account whose signature the program or the invoked token program requires as signer (the transfer authority exactly when no multisig signers are given, and every multisig signer), mark nothing else as signer, and carry the encoding of the same instruction.",
 ["inputs", "programs"], "all arguments and every number of multisig signers",
 "Tests that fail to set a flag may still pass because fixtures over-privilege accounts.",
 ["program/src/instruction.rs", PR], [("builders", "program/src/instruction.rs")])
prop("C20", "Derived addresses follow one published scheme without collisions",
 "The wrapped mint, authority, backpointer and canonical-pointer addresses are derived with the published seeds from exactly the published inputs under the given program, and the escrow is the associated token account of the derived authority; the four seed schemes cannot produce each other's input. Public helpers, per-program variants, the processor's checks and its signing seeds all use this one scheme.",
 ["inputs", "programs"], "all mints, token programs and program deployments",
 "Tests derive expected values with the same helpers they test, so a consistent change goes unseen, and collisions need inputs no test picks.",
 ["program/src/lib.rs"], [("derivation helpers", "program/src/lib.rs")])
prop("C21", "Error codes are stable, distinct and agree across the interfaces",
 "Each published error keeps its numeric code and its own name in the program, in the interface description and in the generated client, conversion from error to code and back is the identity on known codes and fails on unknown ones, and each error is reported under its own name.",
 ["programs"], "all error codes",
 "No test enumerates the three tables against each other.",
 ["program/src/error.rs", "idl.json", "clients/js/src/generated/errors/tokenWrap.ts"], [("error table", "program/src/error.rs")])
prop("C22", "Each mint flavour reserves space for exactly what it initialises",
 "For every bundled mint flavour, the set of extensions its space is computed for equals the set of extensions it initialises, each initialised once on the wrapped mint under the wrapped token program before the mint itself. The compliance flavour gives permanent delegate, freeze, pause and confidential-transfer roles to their respective published keys, with the published auditor and initialised default account state, and keeps the source's decimals.",
 ["configurations", "programs"], "all bundled flavours",
 "A wrong size fails or wastes rent only for that flavour; the deployed flavour is the one tests concentrate on.",
 ["program/src/mint_customizer/compliance.rs", "program/src/mint_customizer/default_token_2022.rs", "program/src/mint_customizer/no_extensions.rs"], [("mint flavours", "program/src/mint_customizer")])
prop("C23", "No instruction handler discards a failure",
 "Whenever a cross-program call, an account-data access, a state decoding or a system query made while executing an instruction fails, the instruction fails: success is never reported after a failed step. The only tolerated absences are the documented optional ones (no transfer-fee extension, no metadata pointer, no stored metadata yet).",
 ["fault_sequences", "inputs"], "every failing step on every path of every instruction",
 "Making each internal step fail in turn is out of reach of the fixtures.",
 [PR, "program/src/metadata.rs", "program/src/metaplex.rs"], [("error propagation", PR)])
prop("C24", "Error codes are truthful",
 "A failing instruction answers with one of the program's published error codes only when the published reason for that code holds, and whenever a published reason is what stopped the instruction (a zero amount, a wrapped mint, backpointer, authority, escrow or metadata account that is not the derived one, an escrow account with another owner, an already correct escrow, a missing pointer or returned metadata, a wrong program), it answers with that reason's own code.",
 ["inputs"], "every failing path of every instruction",
 "Tests assert the code on a handful of fixtures; which code the other failing inputs answer with is unexamined.",
 [PR, "program/src/error.rs", "program/src/metadata.rs"], [("error codes", "program/src/error.rs")])
prop("C25", "No input makes the program abort",
 "Whatever the instruction data, the account list and the accounts' contents, an instruction ends in success or in an error result the caller can read; it never aborts. No arithmetic overflows, no index or slice leaves its bounds, no absent value is unwrapped, and an account record viewed in place has exactly the record's size.",
 ["inputs"], "all instruction data, account lists and account contents",
 "An abort needs the one malformed length, missing account or extreme amount the fixtures never use.",
 [PR, "program/src/instruction.rs", "program/src/metadata.rs", "program/src/metaplex.rs"], [("handlers", PR), ("decoder", "program/src/instruction.rs")])
prop("C26", "A request that meets the published preconditions is never refused",
 "An instruction is refused only for a published reason: malformed instruction data, too few accounts, the condition of one of the program's own errors, an account with the wrong owner or program, an existing mint without the idempotent flag, missing rent, a fee above the amount, an escrow that is in use, a source, pointer or mint authority that is not the designated one, an account that cannot be read or metadata that cannot be decoded, or a runtime, token-program or Metaplex call that itself failed. In particular wrapped tokens can always be redeemed: unwrap adds no condition beyond the derived accounts, a non-zero amount and the token programs' own.",
 ["inputs", "histories"], "all instruction data, account lists, account contents and outcomes of called programs",
 "A needless refusal strands funds for the one mint, amount or holder no fixture uses; tests only confirm that their few valid requests succeed.",
 [PR, "program/src/metadata.rs", "program/src/metaplex.rs"], [("handlers", PR), ("decoder", "program/src/instruction.rs")])
CL = "clients/cli/src/"
prop("L01", "CLI wrap and unwrap submit the transaction the user asked for",
 "The wrap and unwrap commands build exactly one program instruction whose accounts are those the user named or, when omitted, their documented defaults (queried mint and owner programs, payer as authority, payer's associated account as recipient), with the pair's canonical mint, authority and escrow, the requested amount, and all multisig signers; the transaction is paid and signed by the fee payer, the authority (unless a multisig is used), the multisig members and supplied presigners.",
 ["inputs", "configurations"], "all combinations of optional arguments",
 "Each optional argument doubles the combinations; the validator-based tests run a few.",
 [CL + "wrap.rs", CL + "unwrap.rs"], [("wrap command", CL + "wrap.rs"), ("unwrap command", CL + "unwrap.rs")])
prop("L02", "Dry-run and sign-only never broadcast",
 "With dry-run set no command broadcasts a transaction, only simulates it, and with sign-only set wrap and unwrap neither broadcast nor simulate; signing data is output only for sign-only, which always outputs it. There is a single place from which transactions are broadcast and every command goes through it at most once per run.",
 ["configurations", "programs"], "all commands and flag combinations",
 "Absence of any other broadcasting path cannot be sampled.",
 [CL + "common.rs", CL + "wrap.rs", CL + "unwrap.rs"], [("transaction submission", CL + "common.rs")])
prop("L03", "The CLI reports success only for transactions that succeeded",
 "A command reports success only if its simulation (dry run) or confirmed submission succeeded: a failed send, a failed simulation request and a simulation whose outcome is an error all make the command fail. Failures of queries the command depends on also make it fail (a failed look-up of the very account a command would create or fund counts as its absence, and the transaction then decides).",
 ["fault_sequences", "configurations"], "all RPC outcomes",
 "The tests' validator accepts the transactions they dry-run; failing simulations and RPC errors are not exercised.",
 [CL + "common.rs"], [("transaction submission", CL + "common.rs")])
prop("L04", "CLI unwrap refuses contradictory arguments",
 "Unwrap uses the actual owner of the wrapped account, the actual mint of the recipient account and the actual owner of that mint, and fails before building a transaction if the user supplied a different value for any of them. Token-program arguments accept only the two token programs.",
 ["inputs"], "all supplied and actual values",
 "Tests try single mismatches.",
 [CL + "unwrap.rs", CL + "common.rs"], [("address resolution", CL + "unwrap.rs")])
prop("L05", "CLI create-mint funds exactly the shortfall and creates the canonical mint",
 "The create-mint command tops up the canonical wrapped mint and backpointer to the rent-exempt minimum for the sizes the program will allocate - no transfer when already funded, otherwise exactly the shortfall, from the fee payer - and then submits one creation instruction for the canonical addresses with the requested idempotent flag, all in one transaction in that order.",
 ["inputs", "histories"], "all prior balances, both token programs",
 "Partial pre-funding and both programs are sampled once.",
 [CL + "create_mint.rs"], [("create-mint command", CL + "create_mint.rs")])
prop("L06", "CLI escrow commands act on the canonical escrow only",
 "Create-escrow creates the canonical escrow (associated account of the pair's authority, under the mint's actual token program) only for a real mint and only when it does not exist, failing or skipping an existing one according to the idempotent flag; close-stuck-escrow refuses non-Token-2022 mints and otherwise closes the canonical escrow to the named destination. Find-pdas prints each canonical address under its own label.",
 ["inputs", "histories"], "all mints, token programs and escrow states",
 "Tests cover the main flows with fixed mints.",
 [CL + "create_escrow_account.rs", CL + "close_stuck_escrow.rs", CL + "find_pdas.rs"], [("escrow commands", CL)])
prop("L07", "CLI sync commands pass the right metadata source",
 "The sync commands target the canonical wrapped mint of the matching token program; when no source is given for a sync to Token-2022, the source is the Metaplex record for SPL Token mints and for Token-2022 mints without a set pointer, nothing when the pointer names the mint itself, and the pointer's target otherwise. Supplied sources and owner programs are passed through unchanged and unknown mint owners are refused.",
 ["inputs"], "all mints, pointers and argument combinations",
 "Pointer kinds and options are sampled.",
 [CL + "sync_metadata_to_token2022.rs", CL + "sync_metadata_to_spl_token.rs"], [("sync commands", CL)])
prop("L08", "CLI reports state what the transaction did",
 "Every address, amount, funded lamport count and signature a command reports (on screen and as JSON) is the one its transaction uses on that run: the accounts at their positions in the submitted instruction, the amount moved, the transfers made (zero when none), the signature of the confirmed submission (none for a dry run). Each is printed under a label of its own.",
 ["inputs", "configurations"], "all commands, argument combinations and RPC outcomes",
 "The tests compare a few fields of a few runs.",
 [CL + "wrap.rs", CL + "unwrap.rs", CL + "create_mint.rs", CL + "output.rs"], [("command reports", CL)])
prop("L09", "No argument and no RPC answer crashes the CLI",
 "Whatever arguments are accepted and whatever the RPC node answers (missing optional fields, absent accounts, malformed account data, extreme balances), every command ends with a result or an error message; it never panics. The same holds for building the configuration and for parsing each argument.",
 ["inputs", "fault_sequences"], "all arguments and RPC answers",
 "The tests' validator answers with complete, well-formed data.",
 [CL + "common.rs", CL + "output.rs", CL + "config.rs"], [("commands", CL + "cli.rs"), ("transaction submission", CL + "common.rs")])
prop("L10", "CLI options configure what they name",
 "The RPC endpoint, fee payer, output format and dry-run flag in effect are those given on the command line and otherwise the configuration file's (a named file that cannot be loaded is an error). Positional arguments keep their documented order; address arguments are parsed as addresses, token-program arguments accept only the two token programs, switches take no value, repeated signers all count and require a blockhash, and a presigner is the address before and the signature after the equals sign.",
 ["configurations", "inputs"], "all combinations of supplied and omitted options",
 "Tests construct argument structures directly or pass one fixed option set.",
 [CL + "cli.rs", CL + "config.rs", CL + "common.rs"], [("options", CL + "cli.rs"), ("configuration", CL + "config.rs")])
prop("J01", "The published interface description matches the program",
 "For every instruction it lists, the published interface description gives the code, parameter layout, account order and writable/signer flags that the program's own builder and decoder use, the same derived-address seeds, the same backpointer layout, program id and error table.",
 ["programs"], "all instructions, accounts, addresses and errors listed",
 "Nothing in the test suite reads the interface description.",
 ["idl.json", "program/src/instruction.rs"], [("interface description", "idl.json")])
prop("J02", "The generated client matches the interface description",
 "Every generated client instruction, account, derived-address helper and error constant carries the code, parameter layout, account order, roles, defaults, seeds and values of the interface description, so transactions built with it are what the program decodes.",
 ["programs"], "all generated instructions, accounts, addresses and errors",
 "There is no client test in the repository's suite.",
 ["clients/js/src/generated", "idl.json"], [("generated client", "clients/js/src/generated")])
prop("J03", "JavaScript helpers build canonical, complete transactions",
 "The client helpers derive the wrapped mint, authority and escrow canonically, use caller-supplied values before fetched defaults, and pass every account, the amount and the multisig signers of their request to the instruction; the combine helper refuses transactions whose messages differ or that lack any required signature, and create-mint funds exactly the shortfall before creating.",
 ["inputs"], "all arguments and partially signed transaction sets",
 "There is no client test in the repository's suite.",
 ["clients/js/src/wrap.ts", "clients/js/src/unwrap.ts", "clients/js/src/utilities.ts", "clients/js/src/create-mint.ts"], [("client helpers", "clients/js/src")])
prop("N01", "Escrow always fully backs the wrapped supply over all histories",
 "At every point of every history, for every pair, the escrow's balance is at least the wrapped supply, whatever sequence of wraps, unwraps and direct token-program operations is performed.",
 ["histories", "schedules"], "all interleavings of this program's and the token programs' instructions",
 "Histories are unbounded and involve programs outside the repository.",
 [PR], [("wrap and unwrap handlers", PR)])
prop("N02", "Fee computation equals what the token program withholds",
 "The transfer fee this program subtracts in a wrap numerically equals, for every amount, epoch and fee configuration, the fee the Token-2022 program actually withholds.",
 ["inputs"], "all amounts, epochs and fee schedules",
 "Numerical agreement with an external program on all inputs.",
 [PR], [("wrap handler", PR)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=True) + "\n")
