MB = "The tests sample a few dozen literal cases; "
prop("C01", "A dictionary is a finite map with one canonical cell tree per content",
     "Whatever sequence of insertions, replacements, additions and removals produced a dictionary, every lookup answers as the finite map "
     "with the same history would, and the cells are the unique canonical tree (shortest label forms, no redundant nodes) of that map. "
     "Equal contents therefore have equal root hashes, whichever public layer (raw functions, raw dictionary, typed dictionary) did the work; "
     "an operation that fails leaves the dictionary as it was.",
     ["histories", "inputs"], "all key lengths 1..1023, key types, values with bits and references, operation sequences, set modes",
     MB + "label form choices depend on key length, remaining length and neighbours, and a non-canonical tree still answers lookups.",
     ["src/dict/mod.rs", "src/dict/raw.rs", "src/dict/typed.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs", "src/dict/ops/get.rs"],
     [("label encoding and edge splitting", "src/dict/mod.rs, src/dict/ops/insert.rs"), ("removal and edge merging", "src/dict/ops/remove.rs")],
     note="TLC: all maps over small key sets and every operation on them; recorded random histories up to 1023-bit keys.")
prop("C02", "Ordered navigation and iteration follow the key order, signed or not",
     "First, last, next and previous lookups, and every iterator (keys, values, owned, reversed, signed, union of two dictionaries) visit "
     "exactly the entries of the map in the exact order of their keys, where signed order puts keys with a leading one first. Neighbour "
     "lookups work for keys that are absent as well as present, inclusive or exclusive. Removing the first or last entry removes and returns exactly that one.",
     ["histories", "inputs"], "all dictionaries, keys, directions, signedness, inclusiveness",
     MB + "the order depends on which fork of the tree a key leaves, and on where label and fork bits fall.",
     ["src/dict/ops/find.rs", "src/dict/raw.rs", "src/dict/typed.rs", "src/dict/ops/remove.rs"],
     [("stack based traversal", "src/dict/raw.rs"), ("nearest key search", "src/dict/ops/find.rs")],
     note="TLC: all maps over small key sets; recorded random histories up to 1023-bit keys.")
prop("C03", "Bulk dictionary operations equal the one-by-one ones",
     "Building from sorted entries, applying a sorted batch of changes, splitting by a prefix, removing all entries under a prefix, merging siblings and merging one dictionary into another "
     "give the very cells that single insertions and removals of the same entries would give. Inputs that are out of order, not siblings or "
     "outside the prefix are rejected without changing anything.",
     ["histories", "inputs"], "all dictionaries, batches, prefixes and pairs of dictionaries",
     MB + "the batch algorithm walks and rebuilds many paths at once; interactions need several neighbouring edits.",
     ["src/dict/ops/build.rs", "src/dict/ops/modify.rs", "src/dict/ops/split_merge.rs", "src/dict/raw.rs"],
     [("batch modification over a stack of edges", "src/dict/ops/modify.rs"), ("bottom-up building", "src/dict/ops/build.rs")],
     note="TLC: all maps and batches over small key sets; recorded random histories.")
prop("C04", "Augmented dictionaries keep every subtotal equal to the combination of its leaves",
     "In an augmented dictionary every fork, and the root, carries the extra value obtained by combining the extras of its left and right subtrees in that "
     "order, after any history of single or batch updates, splits and merges. Entries, lookups and order behave as in C01 and C02.",
     ["histories", "inputs"], "all histories over keys, values and extras with a non-commutative, non-associative combination",
     MB + "they use sums, which hide a wrong order or a stale subtotal that happens to cancel.",
     ["src/dict/aug.rs", "src/dict/ops/insert.rs", "src/dict/ops/remove.rs", "src/dict/ops/modify.rs", "src/dict/ops/build.rs"],
     [("extra recomputed on every rebuilt fork", "src/dict/aug.rs")],
     note="TLC: all maps over small key sets; recorded random histories.")
prop("C05", "Dictionary work is metered exactly, and a failing context has no effect",
     "Every cell that a dictionary operation visits is loaded through the caller's context exactly once in the given mode, and every cell it creates is built through it. "
     "If the context refuses at any point (gas, cancellation), the operation fails and the dictionary is unchanged.",
     ["fault_sequences", "histories"], "every operation, and every position at which the context can refuse",
     MB + "none injects a failing context.",
     ["src/dict/ops/*.rs", "src/cell/cell_context.rs"],
     [("explicit context on every load and build", "src/dict/ops, src/cell/cell_context.rs")],
     note="Counts are asserted exactly for lookups, insertions and removals, whose visited path the specification fixes; for ordered search only the fault behaviour is.")
prop("C06", "A cell builder is an append-only string of bits with a list of references",
     "After any sequence of stores (single bits, integers of any width, raw bits from unaligned places, whole slices and builders, references, rewinds) the content is exactly "
     "the concatenation of what was stored, up to 1023 bits and 4 references. A store that does not fit fails and leaves the builder as it was; remaining-capacity queries agree with what then succeeds.",
     ["histories", "inputs"], "all sequences of operations, widths, alignments and sizes, also huge ones",
     MB + "behaviour depends on the bit offset modulo 8 of both sides, on the width and on how full the builder is.",
     ["src/cell/builder.rs"], [("unaligned bit copies", "src/cell/builder.rs")],
     note="TLC: every alignment and width class in the model; recorded random histories.")
prop("C07", "Reading a slice consumes exactly what it returns",
     "Every read, peek, skip, prefix or suffix cut, comparison and search on a slice answers as the same operation on a bit string with a list of references would, for all offsets and widths. "
     "A read that asks for more than remains fails and leaves the slice as it was; ranges, sub-slices and owned parts keep denoting the same bits and references. The hexadecimal text form denotes exactly the bits, both ways.",
     ["histories", "inputs"], "all cells, windows, offsets and widths, also huge ones, ordinary and exotic cells",
     MB + "behaviour depends on alignment and on where the window ends relative to the underlying bytes.",
     ["src/cell/slice.rs", "src/cell/mod.rs"], [("windowed range over cell data", "src/cell/slice.rs")],
     note="TLC: all small bit strings and windows; recorded random histories.")
prop("C08", "Cell identity is a function of structure, as the TVM defines it",
     "For every cell, of every type, the level mask, the depth and the hash at every level are those the TVM cell representation defines from its type, data and children; two cells are equal exactly when their representation hashes are. "
     "Building a cell succeeds exactly when the type, data layout, depth and level rules admit it; a virtualized cell answers as the cell without its highest level.",
     ["inputs"], "all ordinary, pruned, library, proof and update cells over all children, virtualized once or (with levels without gaps) more often",
     MB + "exotic cells with several levels, and malformed ones, are hardly built in them.",
     ["src/cell/cell_impl/mod.rs", "src/cell/mod.rs", "src/cell/builder.rs"],
     [("hash and depth per level computed when a cell is finalized", "src/cell/cell_impl/mod.rs")],
     note="Hash preimages come from the specification, digests from the JDK; SHA-256 itself is trusted to be injective.")
prop("C09", "Encoding a bag of cells is faithful, complete and deterministic",
     "For every list of roots and every combination of options (checksum, index, cached hashes) the encoder writes a well-formed bag: every distinct cell once, parents before children, roots listed in order, all counters and widths right, and decoding it gives equal roots. "
     "The in-memory and the streaming encoder write the same bytes.",
     ["inputs", "configurations"], "all cell graphs with sharing, all option combinations, one or more roots (no more root entries than distinct cells, which the format demands)",
     MB + "option combinations and multi-root graphs with sharing are not covered.",
     ["src/boc/ser.rs", "src/boc/mod.rs"], [("topological order and header", "src/boc/ser.rs")],
     note="The specification contains an executable parser of the format and decides every byte of the recorded encodings.")
prop("C10", "Decoding a bag of cells accepts exactly well-formed input, and never panics",
     "For every byte string the decoder returns an error or the cells the bytes denote: it never panics, loops, overflows its stack or invents data. What it accepts is well-formed: magic, counters, ordering of references, sizes, checksum when present, limits and cell rules all hold.",
     ["inputs"], "all byte strings, in particular near-valid ones: mutated headers, counters, references, descriptors, truncations and extensions",
     MB + "hostile headers and references need combinations that random tests do not reach.",
     ["src/boc/de.rs", "src/boc/mod.rs"], [("header and cell validation", "src/boc/de.rs")],
     note="Recorded decodings of structured and mutated bytes, each decided by the parser in the specification.")
prop("C11", "A Merkle proof proves exactly the chosen cells, and nothing else changes",
     "A proof made from a root and a set of visited or chosen cells has the root's hash and depth; its virtualized content equals the original everywhere except that subtrees outside the set are pruned branches with the hash and depth of what they replace, at the right level under nested proofs. "
     "Reading a proof answers exactly like reading the original or fails at a pruned cell; sequential and parallel builders give the same cells, and malformed proof cells are rejected.",
     ["inputs", "schedules"], "all cell graphs with sharing and nested exotic cells, all inclusion filters, all options",
     MB + "sharing across Merkle depths and nested exotic cells are hardly built.",
     ["src/merkle/proof.rs", "src/merkle/pruned_branch.rs", "src/merkle/mod.rs"],
     [("recursive pruning with a memo table", "src/merkle/proof.rs")],
     note="TLC: all small graphs and filters; recorded random graphs.")
prop("C12", "A Merkle update turns the old tree into the new one, and only that one",
     "For every pair of trees, the update made from them, applied to the old tree, yields the new tree; its stored hashes and depths are theirs. Applied to any other tree, or when malformed, it is rejected. The lists of removed and reused cells are what the trees say; parallel variants agree with the sequential ones.",
     ["inputs", "schedules"], "all pairs of cell graphs with sharing, all filters of visited cells",
     MB + "only a few small pairs are tried.",
     ["src/merkle/update.rs"], [("old and new proofs with shared pruned cells", "src/merkle/update.rs")],
     note="TLC: all small pairs; recorded random pairs.")
prop("C13", "A usage tree records exactly the cells that were read",
     "Reading through tracked cells gives the same data as reading the original, and afterwards the tree reports exactly the cells that were visited (loaded, or also data-accessed, as configured), however many threads did the reading and whatever was dropped meanwhile. A proof made from the record suffices to repeat the reading.",
     ["schedules", "histories"], "all reading histories over shared graphs, by one or more threads, in all modes",
     MB + "no test reads shared cells from several threads or drops cells in between.",
     ["src/cell/usage_tree.rs"], [("shared map of visited cells", "src/cell/usage_tree.rs")],
     note="Recorded histories, single threaded exact; concurrent ones checked for the same final record.")
prop("C14", "Cells are freed exactly once and exactly when unreachable",
     "After any sequence of building, cloning, slicing and dropping, exactly the cells reachable from live handles are alive; nothing leaks and nothing is freed early. Dropping or comparing arbitrarily deep trees does not exhaust the stack.",
     ["histories", "schedules"], "all histories of building, cloning and dropping; all shapes, depths up to the maximum and beyond sharing",
     MB + "no test counts allocations or drops trees of extreme depth.",
     ["src/cell/cell_impl/sync.rs", "src/cell/cell_impl/rc.rs", "src/cell/cell_impl/mod.rs"],
     [("reference counting and iterative drop", "src/cell/cell_impl")],
     note="Recorded histories with counted allocations.")
prop("C15", "Shard identifiers form a binary tree",
     "Splitting, merging, parent, opposite, ancestor, sibling, intersection and containment tests on shard identifiers agree with the binary tree of prefixes they stand for, for all depths up to the limit, also when the identifier came from untrusted bytes or text. An account or address is contained in exactly one shard of every partition.",
     ["inputs", "histories"], "all prefixes of depth 0 to 60 and workchains, valid and invalid encodings",
     MB + "they check literal identifiers.",
     ["src/models/block/block_id.rs"], [("tagged prefix arithmetic", "src/models/block/block_id.rs")],
     note="TLC: all identifiers to a small depth embedded at several offsets; recorded random ones to depth 60.")
prop("C16", "The shard table is a partition of the workchain",
     "A shard hashes dictionary built from shard descriptions contains exactly these, in order, and building succeeds exactly when they form a complete partition of each workchain. Lookup, iteration and latest-block queries return exactly what was put in; malformed trees are rejected, never misread.",
     ["inputs", "histories"], "all partitions, non-partitions and malformed trees",
     MB + "two or three literal trees are built.",
     ["src/models/block/shard_hashes.rs"], [("binary tree building from sorted shards", "src/models/block/shard_hashes.rs")],
     note="TLC: all sequences of shards to a small depth; recorded random partitions.")
prop("C17", "Currency arithmetic is exact and never wraps",
     "Adding and subtracting currency collections works per currency on exact integers; it fails, without effect, precisely when a native or extra amount would overflow its maximum or become negative. Zero amounts are not kept where normal form forbids them, and encoding and decoding preserve the value.",
     ["histories", "inputs"], "all amounts up to the 120- and 248-bit maxima, all sets of extra currencies, sequences of operations",
     MB + "carry and overflow at type borders are not tried.",
     ["src/models/currency.rs", "src/num/mod.rs", "src/num/varuint248.rs"], [("checked arithmetic on dictionaries", "src/models/currency.rs")],
     note="TLC: small amounts exhaustively at the borders; recorded random histories.")
prop("C18", "Variable-length and fixed-width numbers encode exactly their value",
     "Every number type stores the shortest encoding its format defines, loads exactly the values that format admits, round-trips every value in range, rejects the rest, and its arithmetic, comparison and conversions agree with the integers, failing instead of wrapping.",
     ["inputs"], "all values of all widths, all bit strings as input",
     MB + "they sample values away from borders.",
     ["src/num/mod.rs", "src/num/varuint248.rs"], [("length-prefixed big-endian encoding", "src/num")],
     note="Recorded values concentrated on borders, decided by binary arithmetic in the specification.")
prop("C19", "Message layout is decided by size alone and always decodes to the same message",
     "Every message whose header, initial state and body can be stored at all is stored, with each part inlined exactly when the layout says so and it fits, and decodes to the same header, state and body; the declared exact size of every part is the size it takes. Header encodings follow the block schema bit by bit.",
     ["inputs"], "all combinations of header kinds, address forms, state sizes and body sizes near the capacity limits",
     MB + "the boundaries of the capacity rule are not enumerated.",
     ["src/models/message/mod.rs", "src/models/account/mod.rs"], [("layout computation", "src/models/message/mod.rs")],
     note="TLC: all size classes; recorded messages.")
prop("C20", "Addresses denote the same account in every notation",
     "Every address round-trips through cells, text and base64 notations; parsing accepts exactly valid notations (length, alphabet, tag, checksum, range; in the formats that are allowed) and never panics; and order, prefixes, anycast data and dictionary keys agree with the binary form.",
     ["inputs"], "all addresses, all strings near valid notations",
     MB + "mutated and multi-byte text is not tried.",
     ["src/models/message/address.rs", "src/cell/mod.rs", "src/util.rs"], [("text and base64 parsing with checksum", "src/models/message/address.rs")],
     note="Recorded conversions and mutated notations, decided by the specification.")
prop("C21", "ABI encoding is decodable to the same value and fits the cells",
     "For every type and value of that type, in every version of the format, encoding splits the value over cells as the format defines and decoding returns the same value; decoding arbitrary cells returns an error or a value of the type, and never panics. Function and event identifiers are those of the canonical signature; call bodies (internal, external, signed or not) and initial data have the layout of their version and are read back.",
     ["inputs", "configurations"], "all types (nested tuples, arrays, maps, optionals, references), values and versions",
     MB + "composite types at cell borders are rarely built.",
     ["src/abi/value/ser.rs", "src/abi/value/de.rs", "src/abi/ty.rs", "src/abi/contract.rs"], [("packing by maximum size", "src/abi/value/ser.rs")],
     note="All tuples of the model's menus; recorded values of random types, calls and initial data, built and read by the specification.")
prop("C22", "Storage statistics count every distinct cell once",
     "Counting a cell graph adds every distinct cell reachable from what was added, once, with its bits and references, in any order of additions; a limit makes counting fail exactly when the number of distinct cells exceeds it, on arbitrarily deep or wide graphs.",
     ["histories", "inputs"], "all graphs with sharing, orders of additions and limits",
     MB + "no test uses limits or several additions.",
     ["src/cell/mod.rs"], [("visited set keyed by hash", "src/cell/mod.rs")],
     note="TLC: all small graphs and orders; recorded random graphs.")
prop("C23", "Structured data survives encoding, and decoding is exact",
     "For every block, transaction, account, configuration and action structure, decoding what was encoded gives an equal value and encoding it again gives the same cell; decoding any cell returns an error or a value whose encoding is again decodable, and never panics. The encodings follow the block schema.",
     ["inputs"], "all values of all model types in every variant, all malformed or pruned cells",
     MB + "they decode a handful of real blocks.",
     ["src/models", "proc/src"], [("derived and hand-written codecs", "src/models, proc")],
     note="Recorded values of the model types, decided by a schema interpreter in the specification.")
prop("C24", "Action lists and validator subsets are computed as the protocol says",
     "A list of output actions decodes in the order it was emitted whatever its length, and the selected validator subset for a shard and seqno is the one the weighted pseudo-random selection defines, a set of distinct members of the right size.",
     ["inputs"], "all lists; all validator sets, weights, shards and seqnos",
     MB + "one or two literal sets are checked.",
     ["src/models/vm/out_actions.rs", "src/models/config/params.rs"], [("linked list of actions", "src/models/vm/out_actions.rs"), ("weighted selection", "src/models/config/params.rs")],
     note="Recorded lists and selections, decided by the specification.")
prop("C25", "Damaged or partial cell trees are rejected, never misread or fatal",
     "Reading any cell tree as a dictionary of any kind (malformed labels, missing branches, pruned or exotic nodes, wrong key length) with any operation terminates with an answer or an error: it never panics or loops, and entries it reports are the ones on the paths that can be read.",
     ["inputs", "histories"], "all small malformed trees and random damage to valid ones, all operations",
     MB + "only well-formed dictionaries are used.",
     ["src/dict/mod.rs", "src/dict/raw.rs", "src/dict/ops"], [("label validation on every edge", "src/dict/mod.rs")],
     note="Recorded operations on damaged trees, with a reading relation in the specification.")
prop("C26", "The textual (JSON) and binary forms of a model value read back as the same value",
     "Serializing a value of any serde-enabled model type (accounts, transactions and their phases, messages with state and body, block headers, value flow, currencies, validator sets and the parts of a configuration, merkle proofs and updates) as JSON and reading it back, from text, from a reader or from a JSON value, gives a value with every part the same, whatever optional parts, amounts, extra currencies and capabilities (known or not) it has; so does a binary (bincode) form, except for the types that are written with their alternative's name beside their parts. A set of capabilities reports exactly its members by iteration, containment, size and union, each by the name it parses from. Addresses with an anycast prefix or of variable length and shards that are parts of the masterchain, which have no readable textual form, are excluded.",
     ["inputs"], "all values of the types that have a textual form",
     MB + "a few samples are round-tripped; alternatives, optional parts and unknown capabilities in their combinations are not.",
     ["src/models", "src/util.rs", "src/boc/mod.rs", "src/num", "src/merkle"],
     [("tagged alternatives and their maps", "src/models/currency.rs"), ("capabilities as lists of names", "src/models/global_version.rs"), ("message body and layout", "src/models/message/mod.rs")],
     note="Values generated by the specification or by the harness; the parts come from the specification's own reading of the cell.")
prop("C27", "A blockchain configuration is a map of parameters with typed views",
     "A configuration is a map from parameter numbers to cells: setting, removing, looking up, iterating, saving and loading, and its JSON and binary forms agree with the map after every history; parameter 0 is never removed. A typed getter reads exactly its parameter (the masterchain or the basechain one as asked); the minter and fee collector addresses, the current, previous and next validator sets come from the first of their two parameters that is present; a missing mandatory one is an error, and one that is present but cannot be read is an error and not passed over. A typed setter changes that parameter only, to the canonical cell of the value, and a dictionary that must not be empty is refused when it is.",
     ["inputs", "histories"], "all histories of operations on a configuration",
     MB + "one real configuration is read, and few parameters are set.",
     ["src/models/config/mod.rs", "src/models/config/params.rs"],
     [("known parameters and wrappers", "src/models/config/mod.rs"), ("fallback parameters", "src/models/config/mod.rs")],
     note="A map in the specification, compared with the code after every operation, by content and by the root cell.",
     state=[("params", "dictionary of parameter number to cell", "src/models/config/mod.rs")])
