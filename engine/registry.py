"""Which rule decides which property, over which extracted program."""
import re, time, traceback
import extract


ABS = ("Path-sensitive abstract interpretation of the compiler's MIR (trace partitioning, interprocedural inlining of all repository "
       "code, symbolic terms for values and effects, loop summaries; no solver, no execution). Every path of the analysed entry that "
       "can return success is enumerated with its facts and effects, and the rule is decided on each of them.")
ASSUME = [
    "rustc's MIR for the analysed crate represents the source (nightly front end; overflow checks and target pointer width do not alter the rule)",
    "calls into the Solana SDK, the token libraries and the Metaplex client behave as the models in engine/models.py describe them",
    "the Solana runtime aborts the whole transaction when an instruction returns an error or an inner call fails",
    "aliasing: two account infos are treated as possibly the same account; data read before an inner call is not assumed unchanged after it",
]

ENTRIES = {}


def entry(pid, title, rule, want=("lib",), module="rules_prog", how=ABS, assumptions=ASSUME):
    ENTRIES[pid] = dict(title=title, rule=rule, want=want, module=module, how=how, assumptions=assumptions)


PS = "every path of process_instruction that can return Ok for this instruction: "
entry("C01", "Wrapping mints exactly what the escrow receives",
      PS + "its effects are exactly one transfer user->escrow of the requested amount, then one mint to the recipient of amount minus the epoch fee declared by the mint")
entry("C02", "Unwrapping releases exactly what was burned",
      PS + "its effects are exactly one burn of the requested amount, then one transfer escrow->recipient of the same amount")
entry("C03", "A user's tokens move only on authority the caller supplied",
      PS + "the call taking the user's tokens carries the caller's authority and all its signers and no program signature")
entry("C04", "The program's derived-address signatures are confined to their purpose",
      "every signed inner call on every succeeding path matches one row of the closed purpose table")
entry("C05", "Wrap and unwrap accept only the one escrow and wrapped mint of the pair",
      PS + "before the first effect the path has established the identity of every account the pair depends on")
entry("C06", "Mint creation produces accounts at the derived addresses",
      PS + "address equalities hold before the first effect and the allocated and assigned accounts are those addresses")
entry("C07", "A created wrapped mint has the promised configuration",
      PS + "the sequence allocate, assign, extension initialisers, mint initialiser has the promised parameters")
entry("C08", "Creation is safe to repeat and never rewrites a foreign account",
      PS + "effects on an account happen only under the emptiness facts that justify them")
entry("C09", "The backpointer names the unwrapped mint",
      PS + "direct writes are confined to the program's own records and store exactly the promised key")
entry("C10", "Only an empty, outdated escrow of the pair can be closed",
      PS + "the single effect is the close of the checked escrow, under the emptiness, state and extension-mismatch facts")
entry("C11", "Metadata is copied only from the source the unwrapped mint designates",
      PS + "the source account is accepted only on a path that established the designated pointer, owner and address", module="rules_sync")
entry("C12", "Syncing to Token-2022 makes the wrapped metadata equal to the source",
      PS + "the effects are one initialisation or the updates and removals that make each field equal to the decoded source's", module="rules_sync")
entry("C13", "Syncing to SPL Token creates or updates only the wrapped mint's Metaplex record",
      PS + "the effect is one create or update of the derived record with the derived authority and the decoded source data", module="rules_sync")
entry("C14", "The metadata conversions keep every field and forge no verification",
      "on every succeeding path the value written is, field by field, the decoded source's, and creators and collections are unverified", module="rules_sync")
entry("C15", "Metadata syncs touch nothing but the wrapped mint's metadata",
      PS + "every effect is one of the metadata writes (or the top-up they need) of the canonical wrapped mint", module="rules_sync")
entry("C16", "Only the mint authority sets the canonical pointer",
      PS + "the authority signed and is the mint's authority, the pointer is the derived record, and what is written is the caller's choice", module="rules_sync")


entry("C17", "Instruction encoding and decoding are exact inverses and strict",
      "for each instruction: the packed bytes are the tag and the little-endian arguments, and unpacking them on every path yields the same instruction; the decoder answers an error for every other first byte and every short input", module="rules_api")
entry("C18", "Each instruction runs its own handler with its decoded parameters",
      "every path of the dispatcher and of the exported entry point: the first byte selects the handler, undecodable input and missing accounts end in an error, nothing panics", want=("lib", "libsbf"), module="rules_api")
entry("C19", "Instruction builders and the processor agree on every account",
      "each builder's account list, flags, program id and data, compared position by position with the roles the handlers' paths require", module="rules_api")
entry("C20", "Derived addresses follow one published scheme without collisions",
      "every derivation in the program, the builders and the helpers uses the published seeds under the program's id, and the seed shapes are pairwise disjoint", module="rules_api")
entry("C21", "Error codes are stable, distinct and agree across the interfaces",
      "the compiled discriminants, the conversion to ProgramError, the IDL and the generated TypeScript client list the same codes", module="rules_api")
entry("C22", "Each mint flavour reserves space for exactly what it initialises",
      "for each customizer: the extensions initialised are those the reserved size is computed from, with the published parameters", module="rules_api")
entry("C23", "No instruction handler discards a failure",
      "on every path that returns success every fallible step's outcome was established as success, except the documented optional ones", module="rules_api")
entry("C24", "Error codes are truthful",
      "every failing path: the published code it answers matches the condition the path established, and a path that established a published condition answers with that code", module="rules_api")
entry("C25", "No input makes the program abort",
      "every arithmetic, index, slice, copy and unwrap on every path of the dispatcher and of each mint flavour's creation is decided by the facts of the path, and a record viewed in place has exactly the viewed size", module="rules_api")
entry("C26", "A request that meets the published preconditions is never refused",
      "every failing path of the dispatcher: it established at least one published reason to refuse (malformed data, a missing or wrong account, a published error's condition, an unreadable account, missing rent, or a library or cross-program call that failed)", module="rules_avail")


CLI_ASSUME = [
    "rustc's MIR for the client crate represents the source; an awaited future is run to completion before the next statement",
    "RPC calls, signer loading (clap-v3-utils), transaction construction and signing behave as the models in engine/rules_cli.py describe them",
    "clap fills the argument structures from the command line as their derives declare",
]
CP = "every path of Command::execute for the subcommand, over all combinations of supplied and omitted arguments and of RPC answers: "
for _p, _t, _r in (
    ("L01", "CLI wrap and unwrap submit the transaction the user asked for", "the one instruction, its accounts, amount, payer and signers are those the arguments designate"),
    ("L02", "Dry-run and sign-only never broadcast", "a broadcast happens only from the one place, at most once, under facts that dry-run and sign-only are off"),
    ("L03", "The CLI reports success only for transactions that succeeded", "a path that returns success established success of the submission or simulation and of every step it depends on"),
    ("L04", "CLI unwrap refuses contradictory arguments", "a path that builds a transaction established that each supplied address equals the actual one"),
    ("L05", "CLI create-mint funds exactly the shortfall and creates the canonical mint", "the transfers are exactly rent minus balance to the canonical addresses, followed by the one creation instruction"),
    ("L06", "CLI escrow commands act on the canonical escrow only", "the created, closed or printed address is the derived escrow of the pair, under the facts that justify it"),
    ("L07", "CLI sync commands pass the right metadata source", "the instruction's accounts and source are those the mint's owner and pointer designate, or those supplied"),
    ("L08", "CLI reports state what the transaction did", "each field of the report equals the account, amount, lamports or signature of the transaction on that path, and is printed under its own label"),
    ("L09", "No argument and no RPC answer crashes the CLI", "every unwrap, index, slice and arithmetic step of the commands, the configuration and the argument parsers is decided by the facts of the path"),
    ("L10", "CLI options configure what they name", "each argument's declared parser, arity, order and requirements, the parsers' results, and the configuration built from every combination of supplied and omitted global options"),
):
    entry(_p, _t, CP + _r, want=("cli",), module="rules_cli", assumptions=CLI_ASSUME)


TS_HOW = ("Path-sensitive abstract evaluation of the TypeScript client's syntax tree (TypeScript compiler's parser; symbolic values; every combination of "
          "branch outcomes enumerated; no solver, no execution), compared with the published interface description")
TS_ASSUME = [
    "@solana/kit and the @solana-program clients behave as the models in engine/tseval.py and engine/rules_js.py describe them",
    "the TypeScript is transpiled faithfully; types are not relied on",
]
TS_T = "abstract evaluation of the TypeScript syntax tree and of the interface description, compared with the program's MIR"
entry("J01", "The published interface description matches the program",
      "each instruction, account, derived address, layout, program id and error of idl.json equals what the program's builders, decoder and error enum say",
      module="rules_js", how=TS_HOW + " and with the program's MIR", assumptions=ASSUME + TS_ASSUME)
entry("J02", "The generated client matches the interface description",
      "each generated builder, encoder, decoder, seed list and constant, evaluated abstractly, equals the entry of the interface description", want=(),
      module="rules_js", how=TS_HOW, assumptions=TS_ASSUME)
entry("J03", "JavaScript helpers build canonical, complete transactions",
      "every path of each helper that returns a value: the instruction's accounts, amount, signers and funding are those the request designates",
      module="rules_js", how=TS_HOW, assumptions=TS_ASSUME)
for _p in ("J01", "J02", "J03"):
    ENTRIES[_p]["technique"] = TS_T


def anchor(where):
    """where an obligation failed, without line numbers"""
    return re.sub(r":\d+\)", ")", str(where))


def decide(pid, tier):
    e = ENTRIES[pid]
    t0 = time.time()
    files = extract.extract(e["want"])
    t1 = time.time()
    mod = __import__(e["module"])
    rep = mod.Rep(pid)
    import interp
    import tseval
    ctx = mod.Prog(files)
    try:
        getattr(mod, pid)(ctx, rep)
    except (interp.Limit, tseval.Unknown) as x:
        rep.ok(False, "analysis", "the code lies within what the analysis can follow, so that the rule can be established: %s" % x, key="beyond " + str(x))
    except mod.MissingAnchor as x:
        rep.ok(False, "repository", "the construct this property is anchored in exists: %s" % x, key="missing " + str(x))
    except Exception as x:
        # the code was built and read, and is of a shape the rule cannot be established on
        traceback.print_exc()
        at = traceback.extract_tb(x.__traceback__)[-1].name
        rep.ok(False, "analysis", "the rule can be established on the code as it is (%s in %s)" % (type(x).__name__, at), key="shape %s %s" % (type(x).__name__, at))
    cov = ctx.coverage()
    cov["seconds_extract"] = round(t1 - t0, 1)
    cov["seconds_analysis"] = round(time.time() - t1, 1)
    return rep, cov


NOTE = ("Holds for every input on every enumerated path of the analysed entry, relative to the library models and the runtime's atomicity; "
        "an obligation the analysis cannot establish is reported as a violation.")
