"""The properties: what is claimed, which harness entries decide it, and within which bounds.

gen.py writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from here."""

PROPS = {}
NOT_APPLICABLE = {}


def prop(pid, title, statement, over, text, tests, files, mechanism, observe, entries, bounds, **kw):
    """statement: observable behaviour; over/text: the quantifier; tests: why tests cannot settle
    it; mechanism: [(name, where)]; entries: harness entries; bounds: what the solver covers."""
    PROPS[pid] = dict(title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                      mechanism=mechanism, observe=observe, entries=entries, bounds=bounds, **kw)


prop("A01", "Amount arithmetic is exact, rounds as documented and never wraps",
     "Adding, subtracting, summing, splitting and rounding token amounts gives the exact mathematical result whenever it "
     "fits the amount type. A result that does not fit is reported as absent, saturated, or refused, according to the "
     "operation's kind; it is never a wrapped number. Splitting into whole units and remainder recombines to the same "
     "amount at every precision.",
     ["inputs"], "every pair (or triple) of 64-bit amounts and every precision",
     "The repository's tests multiply out a handful of constants; overflow edges and exact halves at nineteen precisions "
     "are values nobody lists.",
     ["invoice/src/amount.rs"],
     [("Amount::{checked_,saturating_,}{add,sub}", "invoice/src/amount.rs"), ("Amount::{split,rem,floor,ceil,round}", "invoice/src/amount.rs"),
      ("Sum for Amount", "invoice/src/amount.rs"), ("Precision multipliers", "invoice/src/amount.rs")],
     ["return values of the amount operations"],
     ["amount_split", "amount_add", "amount_sub", "fraction_arith", "amount_convert"],
     "all 64-bit amounts, all 19 precisions, sums of up to three terms",
     assumptions=["the plain + and - operators follow Rust's integer semantics (panic or wrap by build profile) and are outside"])

prop("A02", "Amounts, coins and allocations survive printing and parsing",
     "Every amount, decimal coin amount and token allocation reads back from its printed form as the same value. A decimal "
     "text that denotes no representable amount is refused with an error. Reading arbitrary text never crashes and never "
     "yields a value that prints differently from an equal one.",
     ["inputs"], "every amount at every precision; every text of bounded length",
     "Round trips are tested on a few constants; padding, trailing zeros and overflow of the fractional part depend on the "
     "value and precision together.",
     ["invoice/src/amount.rs", "invoice/src/data.rs", "invoice/src/builder.rs"],
     [("Display/FromStr for Amount", "invoice/src/amount.rs"), ("Display/FromStr for CoinAmount", "invoice/src/amount.rs"),
      ("Display/FromStr for Allocation", "invoice/src/data.rs"), ("RgbInvoiceBuilder::set_amount", "invoice/src/builder.rs")],
     ["printed text, parse result"],
     ["coin_text", "coin_text_wide", "coin_parse", "amount_text", "amount_parse", "allocation_text", "invoice_amount"],
     "coins with up to three decimals and below 20 units fully symbolic, one symbolic digit anywhere at each of the 19 "
     "precisions; coin texts of up to five characters over 0 1 9 . ~ _; amount texts of four characters over a set of "
     "seven; amount text for all 64-bit values; allocations within 100 tokens and 1000 parts of either end of the range; "
     "invoice amounts for all 64-bit whole and fractional parts",
     assumptions=["floating point input (set_amount_approx) is outside: the executor has no symbolic floats"])

prop("I01", "An invoice reads back from its text as the same invoice",
     "Any invoice that can be built prints to a text that parses to an equal invoice: contract, interface, requested state, "
     "beneficiary, network, expiry, transports and extra parameters included. The text contains no character that ends "
     "or splits a parameter early.",
     ["inputs", "configurations"], "every combination of optional invoice parts, with symbolic values in each",
     "Tests list some thirty fixed invoice strings; percent-encoding, optional-part combinations and numeric edges are not enumerable.",
     ["invoice/src/parse.rs", "invoice/src/invoice.rs", "invoice/src/builder.rs", "invoice/src/data.rs"],
     [("Display for RgbInvoice", "invoice/src/parse.rs"), ("FromStr for RgbInvoice", "invoice/src/parse.rs"),
      ("QUERY_ENCODE set", "invoice/src/parse.rs"), ("RgbInvoiceBuilder", "invoice/src/builder.rs")],
     ["RgbInvoice equality after to_string/from_str"],
     ["invoice_state_text", "invoice_query_text", "invoice_names_text", "transport_text"],
     "one printable ASCII (or two-byte) character at a time in a host, parameter name or parameter value; any amount, "
     "allocations below 100 tokens and 1000 parts, first byte of an attachment id; expiry below 100, -1 and the ends of the "
     "range; combinations of network, interface, contract, transports, expiry and extra parameters",
     assumptions=["extra parameters named like the built-in ones (expiry, endpoints) and commas inside host names are outside",
                  "invoices without an interface cannot be parsed, by design of the format"])

prop("I02", "Reading an untrusted invoice never crashes and never invents content",
     "Parsing any text as an invoice ends with an invoice or an error, never a crash. When it yields an invoice, printing "
     "that invoice and parsing again gives the same invoice.",
     ["inputs"], "arbitrary characters at the tail, in the query and in place of any single character of a valid invoice",
     "Crashes on hostile text depend on single characters at specific places; the tests feed fewer than twenty bad strings.",
     ["invoice/src/parse.rs"],
     [("FromStr for RgbInvoice and its parts", "invoice/src/parse.rs")],
     ["parse result"],
     ["invoice_parse_tail", "invoice_parse_query", "invoice_parse_mutated"],
     "up to four arbitrary ASCII characters after three prefixes and after three query prefixes, one arbitrary ASCII "
     "character at each position of a full invoice")

prop("I03", "Networks, payment addresses and beneficiaries keep their meaning in text",
     "Every network name reads back as the same network and two networks never share a name. A payee's address and "
     "commitment method read back unchanged from text, and any payload that is accepted re-encodes to itself. A "
     "beneficiary keeps its network and its kind.",
     ["inputs", "configurations"], "every network, address kind, method and payload bytes",
     "Tests use one method and all-ones payloads; a swapped tag or wrong slice shows only for other kinds and bytes.",
     ["invoice/src/parse.rs", "invoice/src/invoice.rs"],
     [("ChainNet Display/FromStr", "invoice/src/invoice.rs"), ("Pay2Vout payload encoding", "invoice/src/parse.rs"),
      ("XChainNet prefix handling", "invoice/src/parse.rs")],
     ["text forms and payload bytes"],
     ["chain_text", "pay2vout_payload", "pay2vout_decode", "beneficiary_text"],
     "all networks, all address kinds, both methods, all payload bytes symbolic at byte level; two symbolic bytes through the text form")

STOCK = "src/persistence/stock.rs"
COMPOSE = [("Stock::compose_deterministic", STOCK), ("TransitionBuilder, OperationBuilder", "src/interface/builder.rs"),
           ("Batch, TransitionInfo", "src/containers/partials.rs"), ("contract_assignments_for", STOCK)]

STATE = [("Stock::update_witnesses, contract_state, contract_assignments_for", STOCK),
         ("MemState, MemContract", "src/persistence/memory.rs"), ("ContractIface", "src/interface/contract.rs")]
TRANSFER = [("Stock::consign, consume_fascia, consume_consignment", STOCK), ("MemIndex", "src/persistence/memory.rs"),
            ("Stash::consume_consignment, resolve_secrets", "src/persistence/stash.rs"),
            ("Consignment::validate, reveal_terminal_seals", "src/containers/consignment.rs"),
            ("IndexedConsignment", "src/containers/indexed.rs")]

prop("S01", "Paying an invoice conserves amounts and pays exactly what is asked",
     "When a wallet composes a payment, the payee's seal receives exactly the invoiced amount and everything left on the "
     "spent outputs returns to the change output the wallet names; nothing is lost or created. A payment is refused only "
     "when the spent outputs hold less than asked, or more than an amount can express.",
     ["inputs", "configurations"], "every amount on the spent outputs, every invoiced amount, every mix of closing methods and kinds of payee",
     "No test composes a payment; splits between two closing methods and exact, short and surplus amounts multiply.",
     [STOCK, "src/interface/builder.rs", "src/containers/partials.rs"], COMPOSE,
     ["transitions of the composed batch"],
     ["compose_amounts", "compose_large"],
     "a genesis with four outputs of both closing methods, one or two of them spent; all 64-bit amounts held and asked; "
     "blinded and address payees; both closing methods of the wallet",
     oracle=True, assumptions=["compose_amounts assumes the spent total fits 64 bits; compose_large covers the rest for one closing method"])

prop("S02", "Paying an invoice keeps all other state on the spent outputs",
     "Rights, data items, other assets and state of other contracts that sit on the outputs spent by a payment all come "
     "out again on the output the wallet names, each piece once. The payee gets the item or amount asked for and nothing "
     "else. An invoice that asks for something unsupported or contradictory is refused without a crash.",
     ["inputs", "configurations"], "every value of the state pieces and every mix of what is on the outputs",
     "Loss of co-located state shows only with particular combinations of state types, equal values and closing methods.",
     [STOCK, "src/interface/builder.rs"], COMPOSE,
     ["transitions of the composed batch"],
     ["compose_carries", "compose_items", "compose_refuses"],
     "two contracts and two outputs with two assets, a right and a data item each; up to three items with values below "
     "three; invoices for every kind of state on every kind of field",
     oracle=True, assumptions=["attachments cannot be part of a valid contract in the consensus library this version builds on"])

prop("S03", "Contract state shows exactly while its witness transaction is valid",
     "After any change of the status of witness transactions, each piece of state of a contract shows in every view "
     "exactly when the transaction which witnesses its operation is not archived; state of genesis always shows. Updating "
     "asks for every status which may have changed, keeps the last known one when the answer fails, and reports what "
     "succeeded and what failed.",
     ["histories", "fault_sequences"],
     "every status and height of two witness transactions before and after an update, every height to update from, and "
     "every choice of failing answers",
     "Tests never update witnesses; reorganisations, replacements and failing resolvers need particular histories.",
     [STOCK, "src/persistence/memory.rs", "src/persistence/state.rs", "src/interface/contract.rs"], STATE,
     ["owned and global state read from the stock", "statuses reported by the stock", "result of the update"],
     ["witness_update", "witness_global", "witness_global_many", "rewitness"],
     "a contract with a chain of two payments, or with one payment witnessed by two transactions; all 32-bit heights; "
     "global state of genesis and of two transitions",
     oracle=True)

prop("T01", "A consigned payment is valid and gives the payee what was asked",
     "A payment composed for an invoice, anchored in a transaction and exported as a consignment passes validation, and "
     "a payee who accepts it holds exactly the amount or item asked for. The payer keeps all the rest, and payments can be "
     "passed on from stock to stock.",
     ["inputs", "histories"],
     "every amount held, asked for and passed on, over chains of up to three payments between stocks",
     "No test issues, pays, consigns, validates and accepts; errors in what a consignment includes show only in chains.",
     [STOCK, "src/persistence/stash.rs", "src/containers/consignment.rs", "src/containers/indexed.rs", "src/containers/anchors.rs"], TRANSFER,
     ["validation status of consignments", "state read from the stocks of payer and payees"],
     ["transfer_accept", "transfer_vout", "transfer_items", "transfer_blank", "transfer_chain"],
     "payments to blinded outputs and to outputs of the witness transaction, closed by OP_RETURN; amounts of 64 bits in "
     "single payments and up to 150 in chains; two contracts on one output",
     oracle=True)

prop("T02", "Consignments hold the right operations in any order of events",
     "Consignments reach the payee in any order, once or again, before or after the payee remembers the blinded output, with "
     "the same result. A consignment names a transaction which is valid whenever there is one, holds all state of the "
     "output asked for, and nothing of other contracts even when they use the same blinded output.",
     ["histories", "configurations"],
     "every order of accepting two consignments, every status of two transactions for one payment, both closing methods and every amount",
     "Needs histories of several payments between several stocks, which no test has.",
     [STOCK, "src/persistence/memory.rs", "src/persistence/index.rs", "src/persistence/stash.rs"], TRANSFER,
     ["contents and validation of consignments", "state read from the stocks of payer and payee"],
     ["transfer_order", "transfer_rewitness", "transfer_shared_seal", "transfer_two_seals"],
     "two payments, two contracts or two transactions for the same payment; a repeated acceptance",
     oracle=True)

prop("T03", "Payments work with either way of closing seals, and with both at once",
     "State may be held on outputs closed by a tapret or by an opret commitment. A payment from outputs of either kind, or of "
     "both kinds in one transaction, gives a valid consignment, after which the payee holds exactly what was asked and the "
     "payer the change. What was received can be paid on.",
     ["inputs", "configurations"],
     "all amounts, every mix of closing methods of spent outputs, change and payment",
     "No test closes a seal at all; a transaction with both commitments holds two bundles of the same contract, which must be told apart.",
     [STOCK, "src/persistence/stash.rs", "src/containers/consignment.rs", "src/containers/indexed.rs", "src/containers/anchors.rs", "src/containers/partials.rs"],
     TRANSFER + [("WitnessBundle::into_double, AnchoredBundles, AnchorSet", "src/containers/anchors.rs")],
     ["validation status of consignments", "state read from the stocks of payer and payees"],
     ["transfer_tapret"],
     "two spent outputs of one contract, one of each kind; 64-bit amounts; a payment passed on once; quick: change and payment of "
     "two of the four combinations of kinds",
     oracle=True)

prop("V01", "Scripts see the same contract state as wallets, operation by operation",
     "While operations are validated one by one, what scripts may read of owned and global state, output by output and type by "
     "type, is the state of the operations added so far whose transactions are valid by their last told status. The stock shows "
     "the same for the same operations. Global state is counted in full and is found at its depth back from the most recent.",
     ["histories", "inputs"],
     "all amounts and values; every status of the transaction and every change of it",
     "Nothing in the repository runs a script which reads state, so no test reaches these readers.",
     ["src/persistence/memory.rs", "src/contract/assignments.rs"],
     [("ContractStateAccess, ContractStateEvolve for MemContract", "src/persistence/memory.rs"), ("OutputAssignment::check_witness", "src/contract/assignments.rs")],
     ["state read through the interfaces used by scripts"],
     ["access_owned", "access_extension", "access_global"],
     "genesis with one transition or one extension; up to three items of global state at depths 0 to 2; reading several items of "
     "global state in a row is the known finding S03/global-order",
     oracle=True)

prop("X01", "State made by extensions is kept, shown and paid on",
     "A consignment in which state made by an extension is spent is accepted; the state of the extension and all spent from it "
     "show while a spending transaction is valid. What was received that way, and all other state of the contract, can be paid "
     "on to others, who get the extension as well.",
     ["histories", "inputs"],
     "all amounts; every status of two transactions spending from one extension",
     "No test has an extension.",
     [STOCK, "src/persistence/state.rs", "src/persistence/index.rs", "src/persistence/stash.rs", "src/persistence/memory.rs", "src/containers/indexed.rs"],
     [("State::update_from_consignment", "src/persistence/state.rs"), ("Index::index_extension", "src/persistence/index.rs"), ("Stock::consign", STOCK)],
     ["validation status of consignments", "state read from the stocks"],
     ["extension_paid", "extension_twice"],
     "one extension of genesis with one or two amounts; chains of one more payment",
     oracle=True)

prop("N01", "Contracts, transfers and kits are read from files and texts as written",
     "A contract, transfer or kit read from its file or its armored text is the one written, and the kind of a file is told from "
     "the file. A file of another kind, or cut short, is refused; a text with one character changed is refused or read as before. "
     "Containers which differ have different ids, and validation warns of a consignment whose kind, interfaces or terminals do "
     "not match its contents.",
     ["inputs"],
     "all amounts and annotation values; every byte in the name of a file; every character in eight places of a text",
     "Tests read and write only default containers, which have no contents, and a few texts with a wrong id.",
     ["src/containers/file.rs", "src/containers/kit.rs", "src/containers/consignment.rs", "src/containers/suppl.rs"],
     [("FileContent::load, save, UniversalFile", "src/containers/file.rs"), ("armor headers, CommitEncode of Kit", "src/containers/kit.rs"),
      ("armor headers, from_str, CommitEncode, validate, into_contract of Consignment", "src/containers/consignment.rs")],
     ["the container read", "errors of reading", "ids", "warnings of validation"],
     ["file_contract", "file_transfer", "file_kit", "text_kit", "text_consignment", "consignment_ids", "kit_ids", "warnings"],
     "contracts with up to two payments, up to two terminals and interfaces; kits of up to two interfaces, a schema, an "
     "implementation and three supplements; five places to cut a file; files and texts are byte buffers, not files on a disk",
     oracle=True)

prop("L01", "A stock lists what it knows and finds contracts by interface class",
     "Lists of interfaces, schemata, contracts, transactions, bundles and blinded outputs have everything known exactly once and "
     "as it is, naming inherited interfaces and telling class and features given by a supplement. Contracts are listed by a class "
     "of interfaces if their schema implements an interface of the class or one such an interface inherits from, and only then. "
     "Every form of filtering state by outputs gives state of exactly these outputs.",
     ["histories", "inputs"],
     "all amounts; all outputs of transactions whose ids differ in one byte; five relations of an implemented interface to a class",
     "No test lists anything or implements a class of interfaces.",
     ["src/persistence/stock.rs", "src/persistence/stash.rs", "src/persistence/memory.rs", "src/info.rs", "src/interface/filter.rs"],
     [("Stock::ifaces, schemata, contracts, contracts_by, contract_iface_class", "src/persistence/stock.rs"),
      ("MemStash: impl_for, geneses_by, listings", "src/persistence/memory.rs"), ("IfaceInfo, SchemaInfo, ContractInfo", "src/info.rs"),
      ("AssignmentsFilter", "src/interface/filter.rs")],
     ["items of lists", "contracts found and their state", "filter results"],
     ["class_contracts", "lists", "filters"],
     "up to two contracts, four interfaces, a payment")

prop("C01", "Knowledge of the same data gained from two sides adds up",
     "Merging two copies of one operation, bundle, witness or anchor, each revealing a different part, gives the same "
     "operation with everything either copy reveals and nothing else, in whichever order they are merged. Copies of "
     "different operations are refused. A payee who already knows the witness transaction only by its id, or in full, "
     "accepts both forms.",
     ["inputs", "configurations"],
     "every choice of what each copy reveals or conceals for each kind of state, and every value of the state",
     "Merging is reached only when the same operation arrives twice with different parts known; no test does that.",
     ["src/contract/merge_reveal.rs", "src/containers/anchors.rs", "src/persistence/memory.rs"],
     [("MergeReveal", "src/contract/merge_reveal.rs"), ("WitnessBundle::merge_reveal, AnchorSet", "src/containers/anchors.rs")],
     ["operations, bundles and witnesses after the merge"],
     ["merge_assignments", "merge_operations", "merge_different", "merge_bundles", "merge_witness", "merge_anchors",
      "transfer_known_witness"],
     "operations with up to two assignments of each of four kinds, three transitions in a bundle, two bundles in an "
     "anchor; each part known to the first, the second, both or neither",
     oracle=True)

prop("B01", "Builders make exactly the operation they were told to make",
     "An issued contract or built transition holds every piece of global state, metadata, owned state and input given to "
     "the builder, with the values and seals given, whatever the order of the calls, and nothing else. Names which the "
     "interface does not have, state of a wrong kind or type, and seals on unsupported chains are refused.",
     ["inputs", "programs"],
     "every value of the state given, every order of up to four calls, and every kind of wrong name or state",
     "Tests issue one contract with fixed values; pieces which get lost need particular combinations.",
     ["src/interface/builder.rs"],
     [("ContractBuilder", "src/interface/builder.rs"), ("TransitionBuilder", "src/interface/builder.rs")],
     ["the issued contract or built transition, read back through its public fields"],
     ["issue_contents", "issue_order", "issue_refused", "issue_layers", "build_contents", "build_refused"],
     "up to two pieces of each kind of state; 64-bit amounts; both layer-1 chains",
     oracle=True)

prop("F01", "Interfaces, implementations and schemata fit each other when said to",
     "The check of an interface passes exactly when its operations use what it defines and genesis has all required state; "
     "the check of an implementation passes exactly when every name has one type which the schema knows. Extending an "
     "interface keeps the promises of the original or is refused, and an implementation of the result abstracts to a "
     "complete implementation of each parent. Names and types of an implementation translate to each other.",
     ["inputs", "configurations"],
     "every type number, every number of allowed repetitions, and every choice of missing, wrong or repeated definitions",
     "Tests never check or extend interfaces; each rule needs a different wrong definition to show.",
     ["src/interface/iface.rs", "src/interface/iimpl.rs", "src/interface/inheritance.rs"],
     [("Iface::check", "src/interface/iface.rs"), ("IfaceImpl::check", "src/interface/iimpl.rs"),
      ("Iface::extended, IfaceImpl::abstracted, CheckInheritance", "src/interface/inheritance.rs")],
     ["results and reported errors of the checks", "the extended interface and abstracted implementation"],
     ["iface_names", "iface_required", "impl_types", "impl_names", "impl_abstracted", "iface_extended", "schema_inherits"],
     "one changed definition at a time in an interface and schema with every kind of definitions; two interfaces with one "
     "definition of each kind, any one of them left out; all 16-bit types and repetitions")

prop("H01", "A wallet reads its state and history in full and without foreign state",
     "State read with a filter is exactly the state on the outputs the filter lets through, for each kind of state and "
     "each kind of filter. The history lists what was issued to, received by and sent from the wallet, once, with the "
     "right sums, outputs and transactions, kinds of assets told apart, and without what invalid transactions did. "
     "Contracts having state on given outputs are found, each once.",
     ["inputs", "histories", "configurations"],
     "all amounts, every choice of own outputs and transactions, valid and invalid transactions, every kind of filter",
     "Tests never build a stock with contracts; sums and direction depend on which outputs and transactions are own.",
     ["src/interface/contract.rs", "src/interface/filter.rs", "src/persistence/memory.rs"],
     [("ContractIface::history, fungible, data, rights, allocations", "src/interface/contract.rs"),
      ("AssignmentsFilter", "src/interface/filter.rs"), ("MemIndex::contracts_assigning", "src/persistence/memory.rs")],
     ["history records", "allocations read through an interface", "contracts found for outputs"],
     ["history_lists", "filtered_reads", "contracts_found"],
     "one genesis with four kinds of state and one transfer moving all of them; two contracts; sets of up to two outputs")

prop("K01", "What a stock knows of schemata and interfaces is kept, usable and exportable",
     "Parts of a kit can be imported in any order, one by one and repeatedly, and a part whose needs are unknown is refused. "
     "Exported schemata and contracts have everything needed to import them elsewhere, with signatures of not distrusted "
     "signers and supplements. Builders are given for known contracts, interfaces and operations and refused otherwise, "
     "and annotations of supplements are read as written.",
     ["inputs", "histories", "configurations"],
     "every order of importing, every signed content and trust level, every name and version asked for, all annotation values",
     "Tests import no kits; the order and repetition of imports and unknown names are what goes wrong.",
     ["src/persistence/stash.rs", "src/persistence/stock.rs", "src/containers/kit.rs", "src/containers/suppl.rs"],
     [("Stash::consume_kit, transition_builder", "src/persistence/stash.rs"),
      ("Stock::export_schema, export_contract", "src/persistence/stock.rs"),
      ("Supplement::annotate, get", "src/containers/suppl.rs")],
     ["results of imports", "exported kits and contracts", "builders given or refused", "annotations read"],
     ["kit_parts", "kit_versions", "stock_builders", "kit_signatures", "suppl_annotations"],
     "one schema, two interfaces of the same name, implementations of each; three parts in any order with one repeated; "
     "three annotations in eight places")

prop("P01", "A stock is stored as held, read back the same, and failures leave no traces",
     "After each operation on a persistent stock the stored data are those held in memory, and a stock read back from them "
     "shows the same state and makes the same consignments. An operation which fails because the status of a transaction "
     "is not available or a contract is unknown changes nothing, and repeating it later gives the same as if it never failed. "
     "A failure to store is reported and does not damage what was stored.",
     ["fault_sequences", "histories", "inputs"],
     "all amounts; every operation on a stock; a failure at each transaction asked for, or at each attempt to store",
     "Tests never make a stock persistent and never let a resolver or a store fail half way.",
     ["src/persistence/stock.rs", "src/persistence/state.rs", "src/persistence/memory.rs"],
     [("Stock::store_transaction, load, make_persistent, store", "src/persistence/stock.rs"),
      ("State::update_from_consignment", "src/persistence/state.rs"), ("MemStash, MemState, MemIndex", "src/persistence/memory.rs")],
     ["stored bytes compared to those of the stock held", "results after reading back", "the stock after a failed operation"],
     ["store_kept", "failed_accept", "failed_payment", "store_full"],
     "one contract with a payment and change; a consignment of two transactions; five kinds of operations; files are replaced "
     "by an in-memory store which may refuse to write")
