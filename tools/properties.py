NA = []
TESTS_NONE = "the package has no tests at all"
prop("C01", "A Merkle tree commits to its blocks, their number and their order",
 "The head digest of a tree is the digest of its two branches, down to leaves that are the digests of the blocks in the order given, whatever the blocks hold, padded to a power of two by empty blocks. The same blocks always give the same head; different blocks, another order, one changed byte, or the digest of a block in its place give another one. Building never changes the caller's blocks, and an empty list is refused with an error.",
 ["inputs", "histories"], "every list of blocks (any number, contents, repeats, memory layout) and every history of builder calls",
 "the tests hash a handful of fixed lists; block counts that are not a power of two, repeated or empty blocks, and slices with shared backing memory are never combined",
 ["domain/hashtree/builder.go", "domain/hashtree/block.go", "domain/hashtree/hashtree.go"],
 [("padding to a power of two and pairwise digesting", "domain/hashtree/builder.go")], ["Head", "Height", "Length", "Parent", "Compact"],
 "bounded-exhaustive enumeration of block lists and builder histories against a reference Merkle tree",
 "Every list over a small block alphabet (with a digest as a block) up to the depth, wide trees, the nodes of one tree as the blocks of another; trusts the reference model and SHA-512. Known finding: the joined inner nodes of a tree, given as blocks, have its head (the length differs).")
prop("C02", "Blocks received in any order are put back in committed order, or refused",
 "Given any arrangement of blocks that belong to a tree, ordering returns exactly those blocks, each as often as it was given, in the order the tree committed to. Anything that contains a block which was not committed, or a block more often than it was committed, is refused. The caller's data is left untouched.",
 ["inputs"], "every tree and every list of received blocks: permutations, subsets, repeats, foreign blocks",
 "the tests order one shuffled list; repeated and foreign blocks are not explored",
 ["domain/hashtree/hashtree.go", "domain/hashtree/leaf.go", "domain/hashtree/leaves.go", "domain/hashtree/parentleaf.go"],
 [("walk of the leaves against the digests of the data", "domain/hashtree/hashtree.go")], ["Order"],
 "bounded-exhaustive enumeration of (tree, received list) pairs against a multiset model",
 "All pairs over a 5-letter alphabet up to the depth, all pairs with digests of blocks among the blocks, all permutations up to 7 (8) blocks, wide trees.")
prop("C03", "A digest is determined by content, travels as text, and is equal only to itself",
 "The digest of content is its SHA-512, whatever its length and however it is cut in chunks; a digest given as its 64 bytes or as its hexadecimal text is that digest. Two digests are equal if and only if all their bytes are. Text that is not hexadecimal is refused, and a digest never changes with its inputs or outputs.",
 ["inputs"], "every content, every split in chunks, every pair of digests, every text",
 TESTS_NONE + "; equality on every bit and every split are universally quantified",
 ["domain/hash/adapter.go", "domain/hash/hash.go"], [("digest and text conversions", "domain/hash/adapter.go")], ["FromBytes", "FromMultiBytes", "FromString", "Compare"],
 "bounded-exhaustive enumeration of contents, splits, bit differences and texts against SHA-512",
 "All short contents, all lengths to 260 (2100), to 300 chunks, all single-bit differences of a digest.")
prop("C04", "The hash of a ledger record identifies its content",
 "For every kind of ledger record (rings, genesis and its units, transactions and their contents and origins, secrets, receipts, private records, blocks, chains) records with the same content have the same hash, whatever the order in which their fields were given. Two records of one kind that differ in any recorded field, in the presence of an optional one, or in the order of a list have different hashes (times count at one second in transactions, blocks and chains, exactly in the genesis).",
 ["inputs", "histories"], "every assignment of values to the fields of every kind of record, and every order of setting them",
 TESTS_NONE + "; injectivity is a statement about all pairs of records",
 ["domain/chains/builder.go", "domain/chains/block_builder.go", "domain/genesis/builder.go", "domain/genesis/unit_builder.go", "domain/genesis/unitcontent_builder.go", "domain/genesis/units_builder.go", "domain/genesis/privates/private_builder.go", "domain/transactions/content_builder.go", "domain/transactions/transaction_builder.go", "domain/transactions/builder.go", "domain/transactions/origin.go", "domain/transactions/secrets/secret_builder.go", "domain/transactions/secrets/builder.go", "domain/transactions/privates/private_builder.go", "domain/receipts/builder.go", "domain/rings/ring_builder.go", "domain/rings/builder.go"],
 [("each builder digests all the fields of its record", "the Now function of every builder")], ["Hash of every record"],
 "bounded-exhaustive enumeration of all field assignments per record kind; functionality and injectivity of content -> hash",
 "Full product of small field domains chosen to collide when fields are concatenated, lists to 1000 items; trusts SHA-512.")
prop("C05", "Ledger builders accept exactly the valid records and return what they were given",
 "A ledger record is built if and only if every mandatory field was given and its rules hold: ring sizes within their bounds, activation not before creation, no genesis unit older than the genesis, lists not empty. What is built reports exactly the values given last, optional ones as absent when not given; otherwise an error and no record is returned. This holds for every history of setting, building, and starting over, and what was built before never changes.",
 ["inputs", "histories"], "every assignment of values and every sequence of builder calls",
 TESTS_NONE + "; builders are mutable and reused, so that verdicts depend on histories",
 ["domain/chains/builder.go", "domain/chains/block_builder.go", "domain/genesis/builder.go", "domain/genesis/unit_builder.go", "domain/genesis/unitcontent_builder.go", "domain/genesis/units_builder.go", "domain/genesis/privates/builder.go", "domain/transactions/content_builder.go", "domain/transactions/transaction_builder.go", "domain/transactions/origin_builder.go", "domain/transactions/secrets/secret_builder.go", "domain/transactions/privates/builder.go", "domain/receipts/builder.go", "domain/rings/ring_builder.go", "domain/identities/builder.go", "domain/identities/transactions_builder.go", "domain/peers/builder.go"],
 [("mandatory-field and rule checks", "the Now function of every builder")], ["Now", "every getter"],
 "explicit-state exploration of every builder-call history up to a depth against a last-write-wins model",
 "All histories to the depth over two values per field, plus the full product of field values and lists to 1000 items.")
prop("C06", "A signature names its signer, for the signed message only",
 "From a signature and the message that was signed, exactly the signer's public key is recovered, also after the signature, the message or the keys travelled as text. With any other message, or after any change of its text, the signer's key is not recovered. A text that is not a signature or a key is refused with an error, never a crash.",
 ["inputs"], "every key, message, other message, and alteration of the text",
 "one test signs one message with one key and never tries another message or an altered text",
 ["domain/cryptography/keys/signature/signature.go", "domain/cryptography/keys/signature/privatekey.go", "domain/cryptography/keys/signature/adapter.go", "domain/cryptography/keys/signature/helper.go", "domain/cryptography/keys/signature/publickey_adapter.go", "domain/cryptography/keys/signature/privatekey_adapter.go"],
 [("recovery of the signer from commitment, response and message", "domain/cryptography/keys/signature/signature.go")], ["Sign", "PublicKey", "Verify", "String", "ToSignature"],
 "bounded-exhaustive enumeration of keys, messages, cross pairs and single-edit alterations on the real code",
 "All pairs of a message language, all single-digit edits and cuts; trusts discrete logarithms and SHA-256.")
prop("C07", "A ring signature verifies exactly when a member of that ring signed that message",
 "Every member of a ring, at any position and for any ring size, can sign, and the result verifies for that message and for the hashes of that ring, also after travelling as text; nobody outside the ring can sign for it. It verifies for no other message, no other list of members or hashes, and after no change of its members, order, numbers or text. A text without members, or with a number too few or too many, proves nothing and never crashes the verifier.",
 ["inputs"], "every ring, signer position, message, hash list and alteration",
 "one test uses a ring of two and verifies the genuine signature only",
 ["domain/cryptography/keys/signature/ringsignature.go", "domain/cryptography/keys/signature/ringsignature_adapter.go", "domain/cryptography/keys/signature/privatekey.go"],
 [("closing of the challenge ring", "domain/cryptography/keys/signature/privatekey.go"), ("recomputation of the challenge ring", "domain/cryptography/keys/signature/ringsignature.go")], ["RingSign", "Verify", "ToVerification", "ToSignature"],
 "bounded-exhaustive enumeration of rings, positions, messages and structural alterations on the real code",
 "Rings to size 5 (12), and some of up to 33 (65) members, all positions, all component swaps/removals/replacements; trusts discrete logarithms.")
prop("C08", "No history of signatures discloses a private key or who signed a ring",
 "Whatever sequence of messages the owner signs, alone or in any rings, and however often a message is signed again, no two published signatures share the secret number they were made with, none of these numbers is published in a ring, guessable, or shared with another key or process. So nobody computes the private key from what is published. Inside one ring signature every published number is distinct and unpredictable.",
 ["histories"], "every sequence of plain and ring signatures over messages and rings",
 "a test sees one signature at a time; the disclosure needs two signatures of a history",
 ["domain/cryptography/keys/signature/privatekey.go", "domain/cryptography/keys/signature/helper.go", "domain/cryptography/keys/signature/privatekey_factory.go"],
 [("fresh secret number for every signature and ring member", "domain/cryptography/keys/signature/helper.go")], ["Sign", "RingSign", "String"],
 "exhaustive exploration of signing histories up to a depth with a linear key-recovery attacker as the monitor",
 "All histories of length 3 (4) over 20 operations and two keys; the attacker is linear.")
prop("C09", "Password encryption returns the message to the password, and only to it",
 "Whatever is encrypted with a password is decrypted to exactly the same bytes with the same password, by any instance and in any history of calls. Another password, or other encrypted bytes, never give the message back (a text that spells the same bytes differently is the same ciphertext). Encrypting twice never gives the same ciphertext, the ciphertext contains no part of the message, and a text that cannot be a ciphertext is refused with an error.",
 ["inputs", "histories"], "every password, message, other password, alteration, and history of calls",
 TESTS_NONE, ["domain/cryptography/encryption.go", "domain/cryptography/builder.go", "domain/cryptography/sdk.go"],
 [("AES stream with a fresh random block in front", "domain/cryptography/encryption.go")], ["Encrypt", "Decrypt"],
 "bounded-exhaustive enumeration of passwords, lengths, alterations and call histories on the real code",
 "All lengths to 70 (300), all bit flips and cuts of several ciphertexts, all histories to length 4 (6); trusts AES.")
prop("C10", "Encryption keys: only the owner reads, and keys survive their encodings",
 "Every message up to the capacity of the key that is encrypted to a public key is decrypted to the same bytes by its private key, and by no other; a changed ciphertext is refused. Private and public keys come back equal from their bytes and text, in every order of imports, and distinct public keys have distinct hashes. Truncated or foreign encodings are refused with an error, never a crash.",
 ["inputs", "histories"], "every message length, key, alteration, encoding, and sequence of imports",
 TESTS_NONE, ["domain/cryptography/keys/encryption/adapter.go", "domain/cryptography/keys/encryption/builder.go", "domain/cryptography/keys/encryption/factory.go", "domain/cryptography/keys/encryption/privatekey.go", "domain/cryptography/keys/encryption/publickey.go", "domain/cryptography/keys/encryption/publickey_adapter.go", "domain/cryptography/keys/encryption/publickey_builder.go"],
 [("OAEP and PKCS#1 encodings", "domain/cryptography/keys/encryption")], ["Encrypt", "Decrypt", "FromBytes", "ToBytes", "FromEncoded", "ToEncoded", "ToHash"],
 "bounded-exhaustive enumeration of message lengths, alterations and import histories on the real code",
 "All lengths to the capacity + 3, every ciphertext byte, every cut of encoded keys; trusts RSA-OAEP.")
prop("C11", "A peer and its text are the same thing",
 "For every host that does not contain the delimiter and every port, the text of a peer parses back to the same host and port. A text without exactly one delimiter, without a host, or whose port is not a plain non-negative number that fits, is refused. This holds for every history of builder calls.",
 ["inputs", "histories"], "every host, port, delimiter, text, and builder history",
 TESTS_NONE, ["domain/peers/peer.go", "domain/peers/peer_builder.go"], [("split on the delimiter and port parsing", "domain/peers/peer_builder.go")], ["String", "WithString", "Host", "Port"],
 "bounded-exhaustive enumeration of peers, texts and builder histories against a reference parser",
 "All texts to length 6 (7) over 7 letters, all histories to length 5 (6).")

L="domain/languages/lexers/"
prop("C12", "A cardinality allows exactly the counts that its text says",
 "A cardinality written +, *, ?, {n}, {n,m} or {n,} allows exactly one or more, any number, at most one, n, n to m, or at least n repetitions. Writing a cardinality and reading it back gives one that allows the same counts. A text that is none of these, a negative or too large number, a zero amount, or a maximum below the minimum is refused with an error.",
 ["inputs"], "every text and every count", TESTS_NONE,
 [L+"cardinality/adapter.go", L+"cardinality/specific_adapter.go", L+"cardinality/cardinality.go", L+"cardinality/specific.go", L+"cardinality/range_builder.go"],
 [("reading and writing of cardinalities", L+"cardinality/specific_adapter.go"), ("admitted counts", L+"cardinality/cardinality.go")], ["ToCardinality", "ToPatternString", "IsValid", "Delimiter"],
 "bounded-exhaustive enumeration of texts and objects against an interval model",
 "All texts to length 5 (6) over the letters of the notation, all boundary numbers.")
prop("C13", "A text of patterns is read as exactly the groups, series and patterns in it",
 "A text of groups, series and patterns gives, for every pattern, its name, its series in order, reversed where written so, and in each serie its groups with their character sequences, quotation marks included, whatever the spacing and the order of the sections. A reference to a serie or group that is not defined, or a text that defines no pattern, is refused with an error. No text crashes the reader.",
 ["inputs"], "every set of definitions in every style of writing", "the tests read a few fixed texts",
 [L+"containers/patterns/adapter.go", L+"containers/patterns/builder.go", L+"containers/patterns/groups_builder.go"],
 [("extraction of groups, series and patterns", L+"containers/patterns/adapter.go")], ["ToPatterns", "Find", "All", "First"],
 "bounded-exhaustive enumeration of definitions: model -> text -> real objects -> comparison with the model",
 "All option lists to length 2 (3), all structures of 2 series x 2 patterns, all texts of 5 (6) lexemes for crashes.")
prop("C14", "A pattern finds exactly the leftmost content it describes",
 "Searching a pattern in a content gives the leftmost place where it begins, taking the longest option of each group, and everything before the given serie for a reversed one. The result tells what each part matched, where, what remains, and which group was expected next when the pattern is not complete; prefix, matched parts and remaining content together are the content. Among several patterns the leftmost match wins, the first pattern on a tie; without a match an error is returned.",
 ["inputs"], "every pattern and content", "the tests try some patterns on a few contents; overlapping options, reversed series and partial matches are not combined",
 [L+"containers/patterns/adapter.go", L+"containers/patterns/groupcontent.go", L+"containers/patterns/discoveries.go"],
 [("search and matching", L+"containers/patterns/adapter.go"), ("longest option of a group", L+"containers/patterns/groupcontent.go")], ["FromGroupToResult", "FromPatternToResult", "FromPatternsToResult"],
 "bounded-exhaustive enumeration of (patterns, content) pairs against a reference matcher",
 "All patterns of up to 3 choices over 15 families of groups x all contents to length 6 (8); matches up to 1025 (4097) bytes away.")
prop("C15", "A rule is read as written and matches exactly its constant or its patterns",
 "A rule keeps its name and either its constant, character by character, or its patterns in order with their cardinality; what cannot be read is refused with an error, never a crash. Applied to a content, a constant rule finds its first occurrence, and a pattern rule takes as many consecutive matches from the beginning as its cardinality allows; it matches only if that amount is allowed.",
 ["inputs"], "every rule and content", "the tests read two rules and apply three",
 [L+"containers/rules/adapter.go", L+"containers/rules/sdk.go", L+"asts/results/adapter.go", L+"asts/results/matches.go"],
 [("reading of rules", L+"containers/rules/adapter.go"), ("matching of a rule", L+"asts/results/adapter.go")], ["Rules", "ToResult", "Content", "Amount"],
 "bounded-exhaustive enumeration of rules and contents against a reference reader and matcher",
 "All constants to 3 (4) letters, all lists of up to 2 (3) of 5 patterns x 12 cardinalities x all contents to length 6 (8).")
prop("C16", "A text of tokens is read as exactly the productions it defines",
 "A text of tokens gives, for every token, its name, its lines in order, and in each line its elements in order: tokens, rules, and their cardinality, specifiers, channel switches, the lines that must not match, and the lines of its test suite, whatever the spacing. A reference to a rule that is not defined, a token defined twice, or a token without a line is refused with an error. No text crashes the reader.",
 ["inputs"], "every set of productions in every style of writing", "the tests read a few fixed texts and look at the token count",
 [L+"containers/tokens/adapter.go", L+"containers/tokens/builder.go", L+"containers/tokens/tokenspecifiers_builder.go"],
 [("extraction of tokens, lines and elements", L+"containers/tokens/adapter.go")], ["ToTokens", "Find", "Lines", "Suite", "NotLines"],
 "bounded-exhaustive enumeration of grammars: model -> text -> real objects -> comparison with the model",
 "All lines of up to 3 (4) elements x cardinalities x specifiers, all structures of up to 3 lines, not-lines and suites; all texts of lexemes to a length for crashes.")
prop("C18", "A text is read as exactly the derivation that the grammar defines",
 "Parsing a text with a grammar (without tokens that begin with themselves) gives the derivation of its beginning from the root token, and refuses the text when there is none. The line that reads the most wins, the first one on a tie; elements take as many repetitions as they find, within their cardinality; specifiers limit what an element contains; a token whose excluded line matches is refused; channels are skipped before elements where they are switched on, in their order of declaration. Every repetition, sub token and rule is in the result, in order, with what it read.",
 ["inputs"], "every grammar and text", "the tests parse a dozen texts, and look only at whether they are accepted",
 [L+"asts/tokens/adapter.go", L+"asts/paths/adapter.go", L+"asts/adapter.go", L+"asts/results/adapter.go"],
 [("lines, elements, channels", L+"asts/tokens/adapter.go"), ("what a token refers to", L+"asts/paths/adapter.go"), ("conversion to the result", L+"asts/adapter.go")], ["ToAST", "Success", "Match", "Matches", "Discovery"],
 "bounded-exhaustive enumeration of (grammar, text) pairs, every real parse compared with a reference interpreter",
 "5393 (31934) grammars of seven families x all texts of up to 4-5 (5-6) letters: 0.53 (5.8) million parses.")
prop("C20", "A refused text is refused for the reason and at the place the grammar defines",
 "A parse is either a success or a mistake. The mistake is that of the line that matched the most elements, the first one on a tie, and tells the first thing that is wrong in it: an amount outside of the cardinality of a rule, a mandatory token that does not match, a specifier that is not respected, a constant that only comes later, or a text that is over; or, instead, that an excluded line matches; it names the rule or the token and the amounts concerned, and what the text should go on with. Its index is the amount of characters (bytes) that were read before, including those of the channels, and its line and column are those of this index.",
 ["inputs"], "every grammar and refused text", "the tests check the kinds of a handful of mistakes, none of them after several lines or elements",
 [L+"asts/mistakes/adapter.go", L+"asts/tokens/adapter.go", L+"asts/tokens/blockmatch.go", L+"asts/tokens/match.go"],
 [("search of the mistake", L+"asts/mistakes/adapter.go"), ("the best invalid line", L+"asts/tokens/adapter.go")], ["ToAST", "IsMistake", "Mistake", "Index", "Path", "Content"],
 "bounded-exhaustive enumeration of (grammar, text) pairs, every mistake compared with that of a reference interpreter",
 "5513 grammars (thorough: 32054) x all texts of up to 4-6 letters, several lines included; long texts, and grammars with many tokens, lines and elements.")
prop("C17", "A token is resolved to exactly what its definition refers to",
 "Resolving a token gives all of its lines, with the elements of every line in order, their cardinality, specifiers and channel switches, and for every token that is referred to its own resolution; a token that refers to itself, directly or through others, refers to its name, which the dependencies of the result, found by name and never there twice, resolve. A reference that is replaced resolves to its replacement, one that is not defined here to what is provided for it, and otherwise, or for a line that consists of nothing but its own token, an error is returned; resolving other tokens before changes nothing.",
 ["inputs", "histories"], "every graph of references between tokens", "the tests resolve four fixed graphs",
 [L+"asts/paths/adapter.go", L+"asts/paths/dependencies_builder.go", L+"asts/paths/dependencies.go", L+"asts/paths/path.go"],
 [("resolution", L+"asts/paths/adapter.go"), ("dependencies", L+"asts/paths/dependencies_builder.go")], ["ToPath", "Element", "Dependencies", "Fetch"],
 "explicit enumeration of all reference graphs over pools of lines; every path is walked and compared with the definitions",
 "30160 graphs of three tokens (thorough: all pairs of lines), with replacements and tokens defined elsewhere, requests in several orders, and about tokens of other grammars in between.")
prop("C19", "What a grammar makes of a text depends on nothing else",
 "The result of a parse (derivation or mistake), of a tree, of the tests and of the resolution of a token depends only on the grammar and the text: not on what the same adapter or application did before, in any order, nor on other grammars, nor on the run. Reading the grammar through the application or through the adapters is the same.",
 ["histories", "schedules"], "every history of requests and every iteration order", "each test builds everything anew and asks once; Go randomises the order of maps, so that a test samples one order",
 ["applications/languages/lexers/application.go", L+"asts/tokens/adapter.go", L+"asts/adapter.go", L+"asts/paths/adapter.go", L+"suites/application.go"],
 [("requests to an application", "applications/languages/lexers/application.go"), ("state of the adapters", L+"asts/tokens/adapter.go")], ["AST", "Root", "Tests", "Path", "ToAST"],
 "exhaustive exploration of request sequences, and of map-iteration orders under a controlled runtime hook, on the real code",
 "1900 (5813) grammars in three orders; all sequences of 3 (4) of 16 requests; large grammars; all iteration orders with up to 1 (2) deviations for 28 (200) parses.")
prop("C21", "The tree of a text mirrors its derivation and is searched from the nearest",
 "The tree of an accepted text has, for its token and recursively for every sub token, the text that was read and a node for each name of its line, which holds every occurrence in order, with its text. Fetching a name gives its node and fails when there is none. Searching a name gives the direct node when there is one, otherwise one that is nested, always the same one, and fails only when there is none at all.",
 ["inputs", "schedules"], "every derivation", "the tests never look into a tree",
 [L+"roots/adapter.go", L+"roots/nodes.go", L+"roots/node.go", L+"roots/containers.go", L+"roots/container.go", L+"roots/root.go"],
 [("conversion", L+"roots/adapter.go"), ("search", L+"roots/nodes.go")], ["ToRoot", "Nodes", "Fetch", "Exists", "Scan", "Content"],
 "bounded-exhaustive enumeration of derivations, compared with the reference interpreter, with exploration of map-iteration orders",
 "Every accepted text of 5813 (32000) grammars; 5000 (25000) iteration orders.")
prop("C22", "A test of a grammar passes exactly when the grammar accepts its text",
 "Executing the tests of a grammar gives one suite per token that has tests, in the order of the tokens, with one line per test in the order they are written. A line is successful exactly when parsing its text from that token, with the channels, is.",
 ["inputs"], "every grammar and test text", "the test executes the suites of one grammar, all of which pass",
 [L+"suites/application.go", L+"suites/line_builder.go", L+"suites/application_builder.go", "applications/languages/lexers/application.go"],
 [("execution", L+"suites/application.go")], ["Tests", "Execute", "Lines", "IsSuccess"],
 "bounded-exhaustive enumeration of (grammar, token, test text), every verdict compared with the reference interpreter",
 "2900 (10800) grammars, every token with 2/3 (half) of all texts of the alphabet as its tests: 0.5 (2.5) million lines.")
prop("C23", "The events of a parsed text are executed as they are registered",
 "Executing a tree calls the events of its token in their order until one succeeds and gives its result; it fails when none does or none is registered. Triggering a name on a tree finds its node and gives, in order, one result per occurrence: the text of a rule, or the result of the events of the token, and fails as soon as one of them does, or when there is no such node. A result given by an event is passed on as if it was its own, and no other event is called.",
 ["inputs", "histories"], "every tree and set of events", "the tests execute one set of events whose functions all succeed at once",
 ["applications/languages/parsers/manager.go", "applications/languages/parsers/result_builder.go", "applications/languages/parsers/application.go"],
 [("dispatch", "applications/languages/parsers/manager.go"), ("results", "applications/languages/parsers/result_builder.go")], ["Execute", "Trigger", "First", "List"],
 "exhaustive enumeration of (tree, events) pairs; results and sequences of calls compared with a reference dispatcher",
 "241 trees (thorough: all distinct ones) x 264 combinations of events x 7 requests; histories of 3 (4) requests to one manager, with events that alternate, execute other trees, or give built results.")

S="domain/languages/scripts/"
prop("C24", "A program of the base language is read as the program it says",
 "A program written in the base language, with any spacing and comments, is read as exactly that program: its header variables with their direction, type, name, key and whether they are mandatory, and its instructions in order, with every name, type, value, operator, list, slice, index, condition and block in its place; parentheses only group, and operations without them group to the right. What is accepted of an altered program is what it would be read as alone, and a number that does not fit is an error. Names have at least two letters and are not keywords.",
 ["programs", "inputs"], "every program and every way of writing it", "the tests execute about sixty fragments, and mostly check the type of what they get",
 [S+"resources/base/tokens.alex", S+"resources/base/rules.alex", S+"resources/base/patterns.alex", S+"resources/base/channels.alex", S+"base/parsers/helper.go", S+"base/parsers/value_builder.go", S+"base/parsers/operation.go"],
 [("grammar", S+"resources/base/tokens.alex"), ("meaning of the tokens", S+"base/parsers/helper.go"), ("objects", S+"base/parsers/sdk.go")], ["Root", "Execute", "Program", "Instructions", "Variables"],
 "bounded-exhaustive enumeration of abstract programs: model -> text in four styles -> real grammar and events -> comparison with the model",
 "7000 (13000) abstract programs, 3500 (12000) altered ones, the examples of the grammar; parts of any size; all words of two elements to length 3 (4) in every list; nesting of parentheses to depth 2 (reading takes time exponential in it).")

prop("C25", "An included grammar is read as if it were written in place",
 "A grammar that refers to tokens of included grammars, directly or through further includes, reads every text as if these tokens, with their own rules and all that they refer to, were its own, under the names that it gives them; wherever an included grammar refers to a token that is replaced, the local token is read instead, and so are the tokens that the application is given to be read in place of others, everywhere. The directives are read as they are written, whatever the spacing, their place and order, and nothing else is taken for one; includes and replacements of one grammar have no effect on another one. An include without two or three paths, an unknown include, a file or token that is missing, and files that include each other are refused with an error, never a crash.",
 ["inputs", "histories"], "every set of grammars, directives and texts", "the tests read three texts of directives, and never link a file",
 ["applications/languages/lexers/application.go", L+"references/adapter.go", L+"references/links/builder.go", L+"references/links/links.go", L+"asts/paths/adapter.go", L+"paths/builder.go"],
 [("directives", L+"references/adapter.go"), ("linking of the files", "applications/languages/lexers/application.go")], ["References", "AST", "Root", "Tests", "Path", "ToReferences", "FetchByLocalToken"],
 "bounded-exhaustive enumeration of (grammars, directives, text), every real parse compared with a reference parser of the merged grammar; exhaustive request sequences",
 "1500 (thorough: 20000) sets of grammars x all texts of 1-3 (4) letters; 1800 texts of directives; all sequences of 5 (6) of 10 fragments; sequences of 3 (4) of 30 requests. Many links and replacements of one file, replacements at two levels. Names that several grammars give to different tokens, of which one refers to itself, are a listed finding.")

B=S+"base/parsers/"
prop("C26", "A part of a program's model is built when complete, and is what was given",
 "Every part of the model of a program (types, values, variables, header, names, lists, slices, conditions, operations, calls, instructions, programs) is built when, and only when, all that it needs was given and, where it is one of several things, one of them; empty texts and empty lists are not given. What is built says exactly what was given, in its order, which of several things it is, and nothing more; the last value given counts, starting over forgets everything, and what was built before never changes.",
 ["inputs", "histories"], "every assignment of values to the fields of a part, and every history of calls to its builder", "the tests build each part at most once, from complete values, through a parsed text",
 [B+"value_builder.go", B+"type_builder.go", B+"headervariable_builder.go", B+"ifdeclaration_builder.go", B+"operation_builder.go", B+"instruction_builder.go", B+"program_builder.go", B+"variabledeclarations_builder.go"],
 [("validation by the builders", B+"value_builder.go"), ("the parts", B+"value.go")], ["Create", "With*", "Is*", "Now", "getters"],
 "explicit-state exploration of builder-call histories against a last-write-wins model, over a world of parts built bottom up",
 "40 kinds of parts: products of their values, both orders of the setters, every history before a start over, all call sequences to a depth, all lists of up to 3 (4) of 8 elements that share parts. Two alternatives given at once: only that one of them is what was built is claimed.")

prop("C27", "A part of a grammar's model is built when complete, and is what was given",
 "Every part of the model of a grammar and of what it recognized (cardinalities, patterns, rules, tokens, lines, specifiers, paths, links, references, resources, suites, matches, results, mistakes, trees, nodes) is built when, and only when, all that it needs was given; what is built says exactly what was given, in its order, and which of several things it is. The last value given counts, starting over forgets everything, and what was built before never changes. What follows from the parts follows: looking up a name or an index gives the part of that name or place, or an error; an amount is admitted exactly when it is in the bounds; the text of a part is that of its own parts.",
 ["inputs", "histories"], "every assignment of values to the fields of a part, and every history of calls to its builder", "most of these builders have no test; the others are called once, with complete values",
 [L+"cardinality/builder.go", L+"cardinality/specific_builder.go", L+"containers/patterns/group_builder.go", L+"containers/rules/builder.go", L+"containers/tokens/builder.go", L+"containers/tokens/block_builder.go", L+"paths/builder.go", L+"references/links/builder.go", L+"suites/line_builder.go", L+"asts/tokens/match_builder.go", L+"asts/mistakes/builder.go", L+"asts/results/builder.go", L+"roots/builder.go"],
 [("validation by the builders", L+"containers/tokens/block_builder.go"), ("look-ups", L+"containers/tokens/tokens.go")], ["Create", "With*", "Is*", "Now", "Find", "Fetch", "IsValid", "getters"],
 "explicit-state exploration of builder-call histories against a last-write-wins model, over a world of parts built bottom up",
 "95 kinds of parts: products of their values, both orders of the setters, every history before a start over, all call sequences to a depth, all lists of up to 3 (4) of 8 elements that share parts. Two alternatives given at once: only that one of them is what was built is claimed.")

prop("C28", "Any text offered as a definition is read or refused, whatever its spacing",
 "Any text offered as patterns, rules, tokens, directives or a cardinality is either read or refused with an error, never both or neither, always in the same way, without a crash or an endless run. What is read from an altered text can be used like any other, and written again says the same. Where the parts of a definition are apart, any spaces and line breaks between them leave what it says unchanged (in the tests of a token they are part of the texts; keywords of directives used as names are not considered).",
 ["inputs"], "every text, and every place and kind of spacing", "the tests read about twenty valid texts, in one spacing each",
 [L+"containers/patterns/adapter.go", L+"containers/rules/adapter.go", L+"containers/rules/content_builder.go", L+"containers/tokens/adapter.go", L+"references/adapter.go", L+"cardinality/adapter.go", L+"cardinality/specific_adapter.go"],
 [("reading of patterns", L+"containers/patterns/adapter.go"), ("reading of rules", L+"containers/rules/adapter.go"), ("reading of tokens", L+"containers/tokens/adapter.go"), ("reading of directives", L+"references/adapter.go")], ["ToPatterns", "Rules", "ToTokens", "ToReferences", "ToCardinality"],
 "bounded-exhaustive enumeration of short texts and of all alterations and spacings of valid ones, with a read-write-read check on the real readers",
 "4 million texts: all of up to 4-6 (5-7) lexemes, all single alterations of 18 valid texts, all places x 5 spacings.")

prop("C29", "Reading any text with any grammar ends, and only gives its derivations",
 "Whatever the tokens of a grammar refer to (themselves, each other in circles, as excluded lines or in channels, with any cardinality), resolving it ends with a result or, for a line that is nothing but its own token, an error; reading any text ends with a derivation, a mistake or an error. A derivation that is given is one of the grammar: each token stands for one of its lines, each element is there as often as its cardinality allows, and the texts of the parts are those of the whole and begin the text that was read. Where no token has to begin with itself, it is the derivation that the grammar defines.",
 ["inputs"], "every grammar, circular ones included, and every text", "the tests read a dozen grammars that were written to be read; the only circles are those of the base language",
 [L+"asts/tokens/adapter.go", L+"asts/adapter.go", L+"asts/paths/adapter.go", L+"asts/mistakes/adapter.go"],
 [("circles of tokens", L+"asts/tokens/adapter.go"), ("resolution", L+"asts/paths/adapter.go")], ["Now", "ToAST", "Success", "Mistake"],
 "exhaustive enumeration of all small grammars of five shapes x all short texts on the real lexer; every derivation is checked against the grammar, and compared with a reference where that is defined",
 "38300 (thorough: 348040) grammars x 4-11 texts. Time is exponential in the length of the text for a token that begins with itself: texts of up to 3 (4) letters.")

prop("C30", "A reader works with what its builder was given last, and nothing else",
 "An adapter, a test application, a lexer application, a manager of events, a cipher or a key is built when, and only when, all that it needs was given, and then reads, tests, executes or decrypts exactly with what was given last: its root, tokens, channels, replacements, options, rules, events, password or key. Starting over forgets everything, whatever is given or built afterwards leaves what was built before as it is, and readers built alike do the same.",
 ["histories", "inputs"], "every history of calls to the builder of a reader, and every reader built on the way", "the tests build each reader once, from complete values, and never use a builder again",
 [L+"asts/adapter_builder.go", L+"asts/tokens/adapter_builder.go", L+"asts/paths/adapter_builder.go", L+"containers/tokens/adapter_builder.go", L+"suites/application_builder.go", "applications/languages/lexers/builder.go", "applications/languages/parsers/manager_builder.go"],
 [("validation and defaults of the builders", L+"asts/adapter_builder.go"), ("what the readers keep", L+"suites/application_builder.go")], ["Create", "With*", "CanContainPrefix", "CanContainSuffix", "Now", "ToAST", "Execute"],
 "explicit-state exploration of builder-call histories against a last-write-wins model; every reader that is built is used on a fixed set of requests, again after every later step, and compared with a reference for the values of the model",
 "11 builders: all subsets and values, both orders of the setters, every history to depth 4-5 (5-6).")

prop("C31", "A text is read from where it may begin, and a rule knows what surrounds it",
 "A text for which a prefix is legal is read from the first place at which the root token matches, as if it began there, and is refused with the mistake of its beginning when there is none; where a prefix is not legal it is read from its beginning, as if the option was not there. What a text has before or after the part that was read changes nothing in the derivation, nor does any text read before. Each match of a rule tells what was left to be read where it was read, without anything before it, and what was left after it.",
 ["inputs", "histories"], "every grammar, every text and every surrounding", "the tests read one text with a legal prefix, by a grammar without repetitions nor channels",
 [L+"asts/tokens/adapter.go", L+"asts/tokens/adapter_builder.go", L+"asts/adapter.go", "applications/languages/lexers/application.go", L+"contents/builder.go"],
 [("skipping of a prefix", L+"asts/tokens/adapter.go"), ("surroundings of a rule", L+"asts/adapter.go"), ("options of a content", "applications/languages/lexers/application.go")], ["ToAST", "Root", "Input", "Prefix", "Suffix", "Discoveries"],
 "bounded-exhaustive enumeration of (grammar, text, options) on the real lexer, compared with a reference interpreter applied to every suffix of the text; every adapter is used again after other texts",
 "the families of grammars of C18 x all texts of 1-5 (6) letters with both options; the rules of every derivation with the text around them; the four combinations of the options through the application.")
prop("C32", "What was read or built says the same for ever",
 "Whatever a reader or builder gave (patterns, rules, tokens, directives, cardinalities, matches, resolved tokens, derivations, mistakes, trees, suites, parts of programs, hash trees, digests, keys, signatures) says the same for ever: neither looking at it nor any later request to the same reader, with the same or other input, changes anything that it says, and the same request made alone or after any others says the same. Reading a text leaves the grammar that it is read with as it was.",
 ["histories"], "every history of requests to a reader, and every result of it", "the tests look at one result, at once, and drop it",
 [L+"containers/patterns/adapter.go", L+"containers/rules/adapter.go", L+"containers/tokens/adapter.go", L+"asts/adapter.go", L+"asts/paths/adapter.go", L+"roots/adapter.go", S+"base/parsers/helper.go", "domain/hashtree/leaves.go", "applications/languages/lexers/application.go"],
 [("results of the readers", L+"containers/tokens/adapter.go"), ("derivations", L+"asts/adapter.go"), ("requests to an application", "applications/languages/lexers/application.go")], ["ToPatterns", "Rules", "ToTokens", "ToReferences", "ToPath", "ToAST", "ToRoot", "Execute", "Order"],
 "exhaustive exploration of request sequences to one reader, on the real code; every result is observed through all its accessors when it is made and again after the sequence",
 "all sequences of 3 (5) of 3-12 requests to 20 kinds of readers (2 (3) of those of programs and keys); 1900 (3800) grammars of the families with half (all) of their texts read by one reader: 44 million observations.")
