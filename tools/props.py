#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SW = "state/src/swig.rs"
p("C01", "The stored role table always decodes to exactly the intended roles",
  "After any sequence of accepted instructions the wallet account is a well-formed, contiguous table in which the declared role count, every role's authority, permissions and boundaries decode to exactly the roles the history prescribes. "
  "Adding, removing or editing one role leaves the id, authority, permissions and limits of every other role unchanged, whatever their position and sizes.",
  ["histories", "inputs"], "every history of create/add/remove/update/replace/session/spend instructions, any role position, authority and permission sizes",
  "tests build one or two fixed tables; the property ranges over every order of growth, shrinkage and removal of differently sized roles",
  [SW, "state/src/role.rs", "program/src/actions/add_authority_v1.rs", "program/src/actions/remove_authority_v1.rs", "program/src/actions/update_authority_v1.rs"],
  [("SwigBuilder::add_role / remove_role / create", SW), ("perform_add/remove/replace operations", "program/src/actions/update_authority_v1.rs")],
  [("roles", "role table bytes with per-role and per-action boundaries", "state/src/swig.rs, state/src/role.rs")], ["account data after each transaction"])
p("C02", "Role ids are unique, never reused, and the root role is permanent",
  "Each new role receives an id no role of that wallet ever had before, even after removals, and that id keeps naming the same role until it is removed. "
  "The root role (id 0) can never be removed, and no instruction can make an existing id denote another role's authority except replacing that role's own authority.",
  ["histories"], "every interleaving of role additions and removals in one wallet",
  "tests add and remove a handful of roles once; reuse shows only after particular add/remove orders",
  [SW, "program/src/actions/add_authority_v1.rs", "program/src/actions/remove_authority_v1.rs"],
  [("role counter", "state/src/swig.rs SwigBuilder::add_role"), ("root role guard", "state/src/swig.rs SwigBuilder::remove_role")])
p("C03", "Only management permissions can change roles, and spending ones cannot",
  "Roles are added, removed or edited only on behalf of a role holding the all-powers or manage-authority permission; a role with only spending permissions, including the all-but-management one, never can, except that a role may remove itself. "
  "A management-only role in turn never gains the power to spend, to sign as the wallet or to operate sub-accounts through that permission alone.",
  ["inputs", "histories", "configurations"], "every instruction kind, acting role, combination of permissions held",
  "tests try a few forbidden pairs; the property covers the full product of instruction kinds and permission combinations",
  ["program/src/actions/add_authority_v1.rs", "program/src/actions/remove_authority_v1.rs", "program/src/actions/update_authority_v1.rs", "state/src/role.rs"],
  [("permission checks in the handlers", "program/src/actions/*.rs"), ("Role::get_action", "state/src/role.rs")])
p("C04", "No instruction succeeds without the acting role's own authority proof",
  "Every instruction that acts for a role succeeds only if the transaction carries a valid proof by that role's current authority, bound to exactly this instruction's arguments and, for signature-based authorities, to its accounts. "
  "A proof by another key, another role, for other arguments or accounts, malformed or missing, is refused and changes nothing.",
  ["inputs", "histories"], "every instruction kind, authority type, and forged, misdirected, truncated or rebound proof",
  "tests show valid proofs pass and a few bad ones fail; the set of ways a proof can be wrong is not sampled systematically",
  ["state/src/authority/ed25519.rs", "state/src/authority/secp256k1.rs", "state/src/authority/secp256r1.rs", "program/src/actions/mod.rs"],
  [("AuthorityInfo::authenticate", "state/src/authority/*.rs")])
p("C05", "A signed secp authorisation is accepted at most once and only while fresh",
  "For signature-based authorities each accepted authorisation carries exactly the successor of the last accepted counter, so while a key stays installed no accepted payload can ever be accepted again and none can be applied out of order. "
  "A payload whose slot is in the future or more than 60 slots old is refused; refusals never advance the counter.",
  ["histories", "schedules"], "every order, delay and repetition in which previously produced authorisations are submitted",
  "unit tests replay a payload once; re-submission after other accepted, refused or delayed payloads is not covered",
  ["state/src/authority/secp256k1.rs", "state/src/authority/secp256r1.rs"],
  [("signature_odometer check and increment", "state/src/authority/secp256k1.rs, secp256r1.rs"), ("signature age check", "state/src/authority/secp256k1.rs, secp256r1.rs")],
  [("odometer", "last accepted counter of the authority", "state/src/authority/secp256k1.rs")])
p("C06", "Session keys work only while unexpired and within the granted maximum",
  "A session key can act for a role only between its creation by the role's master authority and its expiry slot, and the duration never exceeds the maximum fixed for the role. "
  "Starting a session replaces the earlier session key, authorities without session support cannot open one, and a session key can never open or extend a session.",
  ["histories", "schedules", "inputs"], "every order of session creation, use, expiry and slot advance, and every duration",
  "tests use one session near its start; expiry edges, replacement and reuse across histories are not explored",
  ["state/src/authority/ed25519.rs", "state/src/authority/secp256k1.rs", "state/src/authority/secp256r1.rs", "state/src/authority/programexec/session.rs", "program/src/actions/create_session_v1.rs"],
  [("start_session / authenticate_session", "state/src/authority/*.rs")])
p("C07", "Passkey authorisations bind the verified message to this instruction",
  "A secp256r1 authority is accepted only when the transaction's signature-verification instruction verified exactly one signature, by exactly that authority's key, over exactly the message derived from this instruction's payload, accounts, slot and counter. "
  "For WebAuthn proofs the signed client data must carry that message as its challenge and be of an assertion type; any other challenge, origin splice, or authenticator data is refused.",
  ["inputs"], "every layout of the verification instruction, every WebAuthn client data and authenticator data",
  "tests cover fixed vectors; the property quantifies over every malformed layout or re-encoding",
  ["state/src/authority/secp256r1.rs"],
  [("verify_secp256r1_instruction_data", "state/src/authority/secp256r1.rs"), ("webauthn_message", "state/src/authority/secp256r1.rs")])
p("C08", "Program-executed authority needs the named program's own instruction",
  "A program-execution authority is satisfied only if an earlier instruction of the same transaction was executed by exactly the configured program, starts with exactly the configured data prefix, and lists this wallet's account and its address as its first two accounts. "
  "Any other program, prefix, position or account list is refused.",
  ["inputs", "schedules"], "every arrangement of the transaction's instructions, data and accounts",
  "tests use one accepted and a few rejected arrangements",
  ["state/src/authority/programexec/mod.rs", "state/src/authority/programexec/session.rs"],
  [("program_exec_authenticate", "state/src/authority/programexec/mod.rs")])
p("C09", "Replacing an authority keeps the role and fully retires the old key",
  "Replacing a role's authority is possible only for an all-powers, manage-authority or matching replace-authority role, keeps the role's id, authority type, permissions and every other role, and starts the new key with a zero counter and no session. "
  "From then on the old key and its sessions authorise nothing for that role; unchanged or wrongly sized new keys are refused.",
  ["histories", "inputs"], "every target, key, role layout and later use of the old and new key",
  "tests replace one key; continued use of old keys, counters and sessions over later histories is not covered",
  ["program/src/actions/replace_authority_v1.rs", "state/src/action/replace_authority.rs", SW],
  [("replace_authority_v1", "program/src/actions/replace_authority_v1.rs")])
p("C10", "SOL spent by a limited role never exceeds its one-shot allowance",
  "The total lamports that leave the wallet over all transactions of a role holding only a one-shot SOL limit never exceed the granted amount, and the remaining allowance always equals the grant minus what was spent. "
  "An attempt above the remaining allowance is refused and changes nothing.",
  ["histories", "inputs"], "every sequence of spends through any inner instructions, amounts and roles",
  "tests spend once or twice along one path",
  ["state/src/action/sol_limit.rs", "program/src/actions/sign_v2.rs"],
  [("SolLimit::run", "state/src/action/sol_limit.rs"), ("lamport snapshot", "program/src/actions/sign_v2.rs")])
p("C11", "Recurring limits never allow more than the allowance per window",
  "For recurring SOL, token and stake limits the amount spent within one window never exceeds the allowance; the allowance is restored only after a full window has passed, to exactly the configured amount, and never accumulates over idle windows. "
  "Every well-formed configured window is usable and refusals change nothing.",
  ["histories", "schedules", "inputs"], "every sequence of spends and slot advances, window sizes and amounts",
  "tests cross one window edge; histories of partial spends around many edges are not enumerated",
  ["state/src/action/sol_recurring_limit.rs", "state/src/action/token_recurring_limit.rs", "state/src/action/stake_recurring_limit.rs"],
  [("run of each recurring limit", "state/src/action/*_recurring_limit.rs")])
p("C12", "Tokens moved by a limited role stay within the limit of their own mint",
  "The tokens that leave wallet-owned token accounts through a role without full powers never exceed its limit for exactly that mint, whichever token instruction moves them and however many accounts or instructions are involved. "
  "A mint without a limit cannot be spent and one mint's spending never draws on another's limit.",
  ["histories", "inputs"], "every set of token accounts, mints, inner instructions and amounts",
  "tests use one mint and one account",
  ["state/src/action/token_limit.rs", "state/src/action/token_recurring_limit.rs", "program/src/actions/sign_v2.rs"],
  [("TokenLimit::run", "state/src/action/token_limit.rs"), ("token balance diff", "program/src/actions/sign_v2.rs")])
p("C13", "Destination limits confine spending to the named destination and amount",
  "When a role has SOL or token destination limits, value leaves only to a destination that has such a limit, within that destination's own remaining (one-shot or per-window) amount, in addition to the general limit. "
  "Spending to one destination never draws on another's allowance, and splitting over several instructions changes nothing.",
  ["histories", "inputs", "schedules"], "every mix of destinations, one-shot and recurring destination limits, amounts and slots",
  "tests check one destination at a time",
  ["state/src/action/sol_destination_limit.rs", "state/src/action/sol_recurring_destination_limit.rs", "state/src/action/token_destination_limit.rs", "state/src/action/token_recurring_destination_limit.rs", "program/src/actions/sign_v2.rs"],
  [("run of each destination limit", "state/src/action/*_destination_limit.rs"), ("destination matching", "program/src/actions/sign_v2.rs")])
p("C14", "Stake moved or re-delegated by a limited role stays within its stake limit",
  "The stake value changed by a role holding only stake limits, counting withdrawals, splits and changes of delegated stake on wallet-controlled stake accounts, never exceeds its one-shot or per-window allowance. "
  "Without a stake permission no wallet-controlled stake account may change, and its authorities can never be handed over by a limited role.",
  ["histories", "inputs"], "every sequence of stake operations, amounts and slots",
  "tests do one stake operation",
  ["state/src/action/stake_limit.rs", "state/src/action/stake_recurring_limit.rs", "program/src/actions/sign_v2.rs"],
  [("StakeLimit::run", "state/src/action/stake_limit.rs"), ("stake snapshot", "program/src/actions/sign_v2.rs")])
p("C15", "Program-scoped balances change only within the configured scope limit",
  "For an account covered by a program scope, the decrease of the configured balance field by a role's transactions never exceeds that role's scope limit (total or per window), and no other byte of the account may change. "
  "A role without a scope for the account cannot touch it.",
  ["histories", "inputs", "configurations"], "every scope type, field position and width, limit, window and sequence of changes",
  "tests use one scope layout and one change",
  ["state/src/action/program_scope.rs", "program/src/actions/sign_v2.rs", "program/src/lib.rs"],
  [("ProgramScope::run / read_account_balance", "state/src/action/program_scope.rs")])
p("C16", "A limited role's wallet signature only ever reaches permitted programs",
  "A role without full powers can make the wallet's address sign only in calls to programs its permissions allow: listed programs, the curated set, or any program only with the all-programs permission. "
  "No other account is ever signed for beyond the transaction's own signers and this wallet's address.",
  ["inputs", "configurations"], "every program, permission set and position of the wallet among the called accounts",
  "tests call one allowed and one forbidden program",
  ["program/src/actions/sign_v2.rs", "state/src/action/program.rs", "state/src/action/program_all.rs", "state/src/action/program_curated.rs"],
  [("program permission check", "program/src/actions/sign_v2.rs"), ("is_curated_program", "state/src/action/program_curated.rs")])
p("C17", "Limited roles cannot damage or hand over what the wallet owns",
  "A transaction by a limited role never changes the wallet's configuration, its address's ownership or rent-exempt minimum, nor the owner, authority, state or existence of wallet-owned token accounts (closing needs the close permission). "
  "A transaction that would do so is refused as a whole.",
  ["inputs", "histories"], "every inner instruction sequence over wallet-controlled accounts",
  "tests try a few handovers",
  ["program/src/actions/sign_v2.rs", "program/src/util/mod.rs"],
  [("account snapshots and post checks", "program/src/actions/sign_v2.rs"), ("hash_except", "program/src/util/mod.rs")])
p("C18", "Editing a role's permissions does exactly the requested edit",
  "Replacing, adding or removing permissions of a role, by type or by position, yields exactly the requested list in order, keeps the remaining permissions' limits and progress, and never leaves the role without permissions. "
  "Invalid, duplicate, empty or unknown edits are refused and change nothing.",
  ["inputs", "histories"], "every list of permissions, edit kind and position, before and after limits have been partly used",
  "tests edit one fixed list",
  ["program/src/actions/update_authority_v1.rs", "state/src/action/mod.rs", SW],
  [("update operations", "program/src/actions/update_authority_v1.rs")])
p("C19", "Malformed permissions and authorities can never be stored",
  "A wallet or role is created or changed only with well-formed permissions and authority data: known types, exact sizes, consistent boundaries, fresh counters and usage state, no forbidden duplicates. "
  "Whatever bytes are submitted, the instruction either stores exactly the described role or is refused without effect, and everything stored is later usable.",
  ["inputs"], "every byte string offered as permission list or authority data",
  "tests feed a few malformed inputs; the space of encodings is not sampled",
  ["state/src/action/mod.rs", SW, "state/src/authority/mod.rs", "state/src/action/*.rs"],
  [("ActionLoader::validate_layout", "state/src/action/mod.rs"), ("Authority::set_into_bytes", "state/src/authority/*.rs")])
p("C20", "First-generation sub-accounts obey only their own role or the managers",
  "A sub-account acts only through the role that created it while it is enabled; it can be disabled or enabled only by that role or a managing role, and its assets can be withdrawn only to its own wallet. "
  "One role holds at most the sub-accounts it was granted, and creating one never affects another role.",
  ["histories", "inputs"], "every order of create, toggle, sign, withdraw by every role",
  "tests walk one sub-account through one path",
  ["program/src/actions/create_sub_account_v1.rs", "program/src/actions/sub_account_sign_v1.rs", "program/src/actions/toggle_sub_account_v1.rs", "program/src/actions/withdraw_from_sub_account_v1.rs", "state/src/action/sub_account.rs"],
  [("SubAccount action state", "state/src/action/sub_account.rs")])
p("C21", "Second-generation sub-accounts honour scoped permissions and the switch",
  "Every new sub-account gets a fresh id and its own address; signing, withdrawing and toggling it require the matching permission for exactly that id (or the all-scoped one), and signing or withdrawing require it to be enabled. "
  "Withdrawals reach only the wallet that owns the sub-account, and creation grants its creator exactly the scoped permission of the new id.",
  ["histories", "inputs"], "every set of scoped permissions over several sub-accounts and every order of operations",
  "tests use one sub-account and one role",
  ["program/src/actions/create_sub_account_v2.rs", "program/src/actions/sub_account_sign_v2.rs", "program/src/actions/toggle_sub_account_v2.rs", "program/src/actions/withdraw_from_sub_account_v2.rs", "state/src/action/sub_account_v2.rs", "state/src/sub_account_v2.rs"],
  [("scoped permission lookup", "program/src/actions/*_sub_account_*v2.rs")],
  [("sub_account_counter", "next sub-account id", "state/src/swig.rs")])
p("C22", "A wallet is created once, at its own address, with a managing root role",
  "Creating a wallet succeeds only at the addresses derived from its id, only when nothing exists there, and only with a root role that can manage it; afterwards it can never be created, initialised or migrated again over existing state. "
  "Migrating an old wallet changes nothing but its wallet address binding and happens only on behalf of a managing role.",
  ["inputs", "histories"], "every id, bump, pre-existing account state, root authority type and permission list",
  "tests create wallets on clean addresses only",
  ["program/src/actions/create_v1.rs", "program/src/actions/migrate_to_wallet_address_v1.rs", "program/src/actions/transfer_assets_v1.rs", SW],
  [("create_v1 checks", "program/src/actions/create_v1.rs")])
p("C23", "Closing and the rent claimer send value only where they must",
  "A wallet or wallet token account is closed only on behalf of a role allowed to, only when empty of spendable value, and its rent goes to the rent claimer once one is set; the claimer is set at most once and survives every later change of the role table. "
  "A closed wallet can never act, be reopened or be re-created.",
  ["histories", "inputs"], "every order of role edits, claimer setting and closing",
  "tests set and close in one order",
  ["program/src/actions/close_swig_v1.rs", "program/src/actions/close_token_account_v1.rs", "program/src/actions/set_rent_claimer_v1.rs", "state/src/tail/mod.rs", "state/src/tail/rent_claimer.rs"],
  [("tail metadata", "state/src/tail/*.rs")])
p("C24", "Lamports are only moved where the instruction says, and rent stays covered",
  "Every accepted instruction moves exactly the lamports it must: top-ups for a grown wallet account are exactly the missing rent, refunds for a shrunken one no more than the excess, both only with the payer, and nobody else's balance changes. "
  "The wallet account never drops below its rent-exempt minimum, nor do its address through a limited role's batch or a sub-account through any batch.",
  ["histories", "inputs"], "every instruction over every history of resizes and balances",
  "tests assert a few balances",
  ["program/src/actions/*.rs", "program/src/util/mod.rs"],
  [("rent top-up / refund", "program/src/actions/add_authority_v1.rs, remove_authority_v1.rs, update_authority_v1.rs")])
p("C25", "Batched inner instructions run exactly as encoded, in order, or not at all",
  "The compact encoding of a list of instructions decodes to exactly the same programs, accounts, order and data, with signer rights only for the wallet's address and genuine transaction signers. "
  "Truncated, out-of-range or malformed encodings are refused without effect, and encoding then decoding returns the original instructions. A signing instruction never runs inside another program's call.",
  ["inputs"], "every instruction list, account table and byte string",
  "tests decode one small batch",
  ["instructions/src/lib.rs", "instructions/src/compact_instructions.rs"],
  [("InstructionIterator", "instructions/src/lib.rs"), ("compact_instructions", "instructions/src/compact_instructions.rs")])
p("C26", "Every account passed in is classified by what it really is",
  "Each account of a transaction is treated as wallet configuration, wallet address, wallet-owned token account, wallet-controlled stake account or scoped program account exactly when its address, owner and content make it one, whatever its position and however the list is arranged. "
  "No arrangement or duplication of accounts makes a controlled account escape the checks.",
  ["inputs", "configurations"], "every account list: order, duplicates, owners, data lengths and contents",
  "tests pass accounts in the usual order",
  ["program/src/lib.rs", "state/src/lib.rs"],
  [("classify_account", "program/src/lib.rs")])
p("C27", "Wallets are isolated from each other",
  "An instruction for one wallet never changes another wallet's roles, counters, limits, sub-accounts or balances, and no authority, session, sub-account or signature for one wallet is accepted for another, even when both use the same keys. (A call of the wallet program made from inside a batch counts as an instruction for the wallet that call names, and needs that wallet's authority.)",
  ["inputs", "histories"], "every pair of wallets sharing keys and every mixture of their accounts in one transaction",
  "tests use a single wallet",
  ["program/src/actions/*.rs", "state/src/authority/*.rs"],
  [("PDA derivations and account checks", "program/src/actions/*.rs")])
p("C28", "Every reader of the wallet account sees the same wallet",
  "The read-only views of the account offered to clients, such as role lookup by id or by key, role and permission listing, session and expiry queries, agree with each other and with what the on-chain program enforces, for every account the program can produce. "
  "Reading truncated bytes or an inconsistent role table reports an error instead of a wrong wallet.",
  ["inputs", "histories"], "every reachable account and every corruption of its bytes",
  "tests read back what they just wrote",
  [SW, "state/src/role.rs", "state/src/authority/mod.rs", "state/src/action/mod.rs"],
  [("SwigWithRoles", SW), ("Role::get_action / get_all_actions", "state/src/role.rs")])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
