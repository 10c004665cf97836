#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "A single-query database behaves as plain read/write memory",
  "For every database size and every history of single read and write requests, each response decrypts exactly to the value the addressed item held immediately before that request, on every coefficient. A write leaves exactly the addressed item holding the new value and a read changes nothing. All items that were not addressed keep their values.",
  ["histories", "inputs", "configurations"],
  "all histories of single requests over all item indices and values, all database sizes (powers of two), all polynomial sizes and plaintext moduli",
  "The only test does one read, one write and one read of index 1 in a database of 16 and never looks at any other item; whether all other items survive, or whether any other index, size or longer history works, is open.",
  ["src/oram.rs", "src/decision_tree.rs", "src/rgsw.rs"],
  [("demultiplex the encrypted index, inner product with the row", "src/oram.rs process_one_mt"), ("per-column conditional overwrite", "src/oram.rs update_db_mt, rw"), ("index encoding", "src/decision_tree.rs bit_decomposed_rgsw, demux_rec")],
  [("cells", "the encrypted rows x columns array", "src/oram.rs Server.data")], ["decrypted response of process_one", "decrypt_db", "later reads"])

p("C02", "A multi-query request is a snapshot read plus one combined update",
  "In one parallel request holding any number of read and write queries, including none or one, every response shows the database as it was before the request, whatever the other queries do. Afterwards an item holds the new value if one query of the request wrote it (at most one write per item and request), and every other item is unchanged, however many queries read it.",
  ["histories", "inputs", "configurations", "schedules"],
  "all multisets of read/write queries with at most one write per item, any request length including 0 and 1, all histories of such requests",
  "The test issues two requests of two distinct indices each, never mixes reads and writes, never repeats an index, never sends one query, and never looks at other items.",
  ["src/oram.rs"],
  [("respond to all queries, then sum the selected updates, then overwrite each column", "src/oram.rs Server::process_multi")],
  [("cells", "the encrypted row", "src/oram.rs Server.data")], ["decrypted responses of process_multi", "decrypt_db", "later reads"])

p("C03", "A batched request reads and writes exactly the requested items",
  "A batched request for any set of distinct items that can be placed returns, in the response of the row assigned to each requested item, the value that item held before the request. A batched write leaves exactly the requested items holding the new value; a batched read, an item that was not requested, and the padding queries of unused rows change nothing. This holds for every history of batched requests.",
  ["histories", "inputs", "configurations"],
  "all sets of distinct placeable items, all numbers of rows, columns and hash functions, all random placements, all histories of batched reads and writes",
  "One read of items {0,1} and one write of {1,2} under one random placement; items outside the request are never inspected, neither are repeated batches.",
  ["src/oram.rs", "src/naive_hash.rs"],
  [("one query per row, padding rows read column 0", "src/oram.rs gen_read_query_batch, gen_write_query_batch"), ("row-parallel processing", "src/oram.rs process_batch")],
  [("cells", "rows x columns ciphertexts", "src/oram.rs Server.data"), ("placement", "random injection of (item, replica) to cells", "src/naive_hash.rs")], ["decrypted responses of process_batch", "decrypt_db"])

p("C04", "All replicas of an item agree after every batched request",
  "An item stored in several places holds the same value in all of them after setup and after every batched request, whichever replica the request addressed. Replicas of a written item all hold the newly written value.",
  ["histories", "inputs", "configurations"],
  "all histories of batched requests, all choices of which replica serves an item, all placements, any number of replicas per item",
  "The test checks the replicas of the two written items once, after one write; reads through a different replica, repeated writes and non-requested items are not looked at.",
  ["src/oram.rs"],
  [("consistency correction over all replicas of every item", "src/oram.rs correct_consistency, process_batch")],
  [("replicas", "the h_count cells of an item", "src/naive_hash.rs hash_to_tuple")], ["decrypt_db after each request"])

p("C05", "Placement is collision free and never silently drops an item",
  "Every (item, replica) pair is placed in its own cell inside the array, and distinct pairs never share a cell. A request mapping assigns every requested item exactly one row, at a cell that really is one of that item's own replicas, and no row serves two items. If the assignment procedure cannot place an item it refuses loudly instead of returning a mapping that lacks the item.",
  ["inputs", "configurations"],
  "all random placement tables, all ordered lists of distinct items, all row widths",
  "Tests look up one item in a table with a single hash function; a list in which an item cannot be placed is never tried.",
  ["src/naive_hash.rs"],
  [("shuffled table of cell numbers", "src/naive_hash.rs NaiveHash::new, hash, checked_hash"), ("greedy assignment", "src/naive_hash.rs hash_to_mapping")],
  [("tables", "random permutation of the cells", "src/naive_hash.rs")], ["hash, checked_hash, hash_to_tuple, hash_to_mapping"])

p("C06", "Responses and database do not depend on scheduling",
  "For the same database and the same requests, the decrypted responses and the resulting database contents are the same for every number of worker threads, every order in which parallel tasks run, and every kind of calling thread. Every request terminates and none fails because of the thread it was called from or the number of tasks it was split into.",
  ["schedules", "configurations"],
  "all thread counts, all task orders within each parallel phase, calls from inside and outside a worker pool, all request shapes",
  "Tests run on whatever schedule the default pool happens to produce, with shapes large enough to always enter the pool.",
  ["src/oram.rs"],
  [("phases separated by parallel-iterator joins", "src/oram.rs process_one, process_multi, process_batch"), ("per-row locks and per-thread scratch buffers", "src/oram.rs FftBufferPool, Server.data")],
  [("row locks", "RwLock per row", "src/oram.rs"), ("scratch buffers", "one mutex-guarded buffer per worker", "src/oram.rs FftBufferPool")], ["responses and decrypt_db under different pools and task orders"])

p("C07", "Clients are stateless and non-interactive",
  "A client keeps no information about the database between requests: queries may be prepared in any order, long before they are executed, by any client holding the same secret key, and the result depends only on the order of execution. Preparing a query never affects the server, and a query that is never executed has no effect.",
  ["histories"],
  "all interleavings of query preparation and execution by several clients sharing a key",
  "Tests always use one client and execute every query immediately after preparing it.",
  ["src/oram.rs"],
  [("query = encrypted index, flag and data only", "src/oram.rs Client::gen_*_query_*"), ("server keeps no per-client state", "src/oram.rs Server")],
  [("pending queries", "prepared, not yet executed", "client side")], ["responses for out-of-order execution"])

p("C08", "The server's view is independent of what is accessed",
  "The number, shape and freshness of the ciphertexts in a request are the same whether it reads or writes and whichever items it addresses, and a batched request always carries exactly one query per row. Every ciphertext of a request is freshly randomised with a full-size mask and non-zero noise, so no two of them, in one request or in several, share a mask. Processing a request rewrites every stored cell of the rows it covers, never only the addressed ones.",
  ["inputs", "histories", "configurations"],
  "all operations, indices, values and request sets; all histories",
  "No test compares two requests or inspects a query or the stored ciphertexts.",
  ["src/oram.rs", "src/decision_tree.rs", "src/rlwe.rs"],
  [("encrypted operation flag and encrypted index bits", "src/oram.rs gen_enc_op, make_read_query, make_write_query"), ("uniform update of all columns", "src/oram.rs update_db_mt, update_db_st, process_multi"), ("fresh encryption", "src/rlwe.rs encrypt_*")],
  [("server view", "query ciphertexts and the set of cells rewritten", "src/oram.rs")], ["ClientQuery contents", "Server cells before and after"], "read-only accessors for a query's ciphertexts and for the stored cells")

p("C09", "Noise grows at most additively with the number of accesses",
  "The noise in responses and in stored items grows at most in proportion to the number of accesses made, never by a constant factor per access. With the default parameters and with every supported parameter set it stays well inside the decryption margin for long histories, so that the hundredth access decrypts as the first did.",
  ["histories", "configurations"],
  "all histories up to the supported number of accesses, all three access modes, reads and writes",
  "Tests print noise but assert nothing about it, and make at most three accesses (the 20-access tests are ignored by default).",
  ["src/oram.rs", "src/rgsw.rs"],
  [("conditional overwrite adds one selection's noise per access", "src/oram.rs update_db_mt, update_db_st, process_multi, correct_consistency")],
  [("noise level", "distance of a decrypted phase to its encoding", "src/rlwe.rs compute_noise")], ["noise of responses over a history"])

p("C10", "Encrypted index selection is one-hot for every width and payload",
  "Demultiplexing the encryption of index i over 2^n positions yields exactly 2^n ciphertexts, of which the i-th decrypts to the payload and every other one to zero. This holds for every n of at least one, every i below 2^n, every payload, and any mixture of selection bits.",
  ["inputs", "configurations"],
  "all widths n >= 1, all indices, all payload polynomials, all parameter sets",
  "Tests cover n = 4 with the unit payload and two cases of n = 2; other payloads and widths are not covered, and no test looks at the width used for an index that does not fill it.",
  ["src/decision_tree.rs"],
  [("recursive halving, most significant bit first", "src/decision_tree.rs demux_rec"), ("bit decomposition of the index", "src/decision_tree.rs bit_decomposed_rgsw")],
  None, ["demux, demux_with, bit_decomposed_rgsw"])

p("C11", "Encrypted decision-tree evaluation equals plaintext evaluation",
  "For every decision tree built from less-or-equal nodes, with any leaf labels and possibly missing children, and every feature vector in range, the decrypted result of the encrypted evaluation equals the label reached by following the comparisons in the clear. Plaintext evaluation itself returns the label of the unique leaf selected by the comparisons, or zero when the path ends at a missing child. Predictions are reported in input order, whether or not evaluation is parallel.",
  ["inputs", "programs"],
  "all tree shapes, thresholds, feature indices, leaf labels (any machine word) and feature vectors; sequential and parallel evaluation",
  "Three hand-made trees with labels 0, 1 and 10; missing children, large labels, several features vectors at once, all-zero trees and the parallel mode are never run.",
  ["src/decision_tree.rs"],
  [("choice bits in preorder", "src/decision_tree.rs compare_expand, EncNode::new, new_enc_node"), ("path products and bitwise accumulation of leaf labels", "src/decision_tree.rs eval_enc_node, EncNode::eval"), ("plaintext evaluation", "src/decision_tree.rs eval_node")],
  None, ["Node::eval, simulate, EncNode::eval"])

p("C12", "Tree structure operations are mutually consistent",
  "Numbering gives the internal nodes the indices 0, 1, 2, ... in depth-first left-to-right order and flattening lists them in that same order with their own threshold, feature and comparison. Node, leaf, depth and largest-feature counts agree with the shape; pruning removes exactly the subtrees without a non-zero leaf and never changes an evaluation; writing a tree to JSON and reading it back gives the same tree.",
  ["inputs", "programs"],
  "all tree shapes including missing children, all field values",
  "Numbering, counting and JSON are each tested on one or two hand-made trees; pruning is not tested at all.",
  ["src/decision_tree.rs"],
  [("structural recursion", "src/decision_tree.rs fix_index, flatten_tree, count_*, max_feature_index, trunc_tree")],
  None, ["Node methods, serde_json"])

p("C13", "Homomorphic ring programs compute the plaintext program",
  "Any sequence of ciphertext additions, subtractions, negations, plaintext-polynomial products, monomial divisions, products with an encrypted selector and encrypted selections decrypts to the result of the same sequence on plaintext polynomials modulo X^N+1 and the plaintext modulus. In-place, buffered and allocating forms of the same operation agree, and the operands that are only read are unchanged. Encryption followed by decryption is the identity for every message.",
  ["programs", "inputs", "configurations"],
  "all programs over the operation set within the noise margin, all polynomial sizes and plaintext moduli, all messages",
  "Single operations are tested once each on one random message; monomial division, subtraction, addition and body/mask products are not tested, nor is any composition.",
  ["src/rlwe.rs", "src/rgsw.rs", "src/utils.rs"],
  [("component-wise arithmetic", "src/rlwe.rs RLWECiphertext::update_*"), ("external product and selection", "src/rgsw.rs external_product_with_buf, cmux_with_buf"), ("negation of bits", "src/rlwe.rs not, not_in_place")],
  [("registers", "the ciphertexts a program computes with", "caller")], ["decrypt_decode_rlwe after every step"])

p("C14", "Key switching, substitution and trace preserve meaning",
  "Key switching changes the key and not the message, substitution by an odd k maps the encryption of p(X) to one of p(X^k), and the trace keeps N times the constant coefficient and clears all others. The standard and the Fourier-domain implementations agree for every decomposition, with an odd or even number of levels, and the gadget-ciphertext form of a key-switching key does the same.",
  ["inputs", "configurations"],
  "all messages, all odd k, all decomposition parameters including odd and even level counts, all polynomial sizes",
  "One random message at one parameter set with an odd level count; substitution only for k = N+1; the Fourier trace is tested only through tree evaluation.",
  ["src/rlwe.rs", "src/rgsw.rs", "src/utils.rs"],
  [("signed decomposition and key-switching sum", "src/rlwe.rs keyswitch_ciphertext (both forms)"), ("x -> x^k permutation with sign", "src/utils.rs eval_x_k_in_memory"), ("iterated substitution", "src/rlwe.rs trace1, trace1_fourier")],
  None, ["decryption under the new key"])

p("C15", "Ciphertext format conversions preserve the message",
  "Extracting coefficient n of a ring ciphertext gives a scalar ciphertext of exactly that coefficient, for every n, and converting a scalar ciphertext to a ring ciphertext puts its message in the constant coefficient and zero elsewhere. Expanding a decomposed bit to a gadget ciphertext gives one that multiplies any message by that bit, identically for the slow, standard and Fourier routes.",
  ["inputs", "configurations"],
  "all messages, all coefficient positions, both bits, all decomposition parameters",
  "Extraction is tested for the constant coefficient only; conversion is checked on the constant coefficient only; expansion by the slow route only for bit one; the Fourier route is only exercised through trees.",
  ["src/lwe.rs", "src/rlwe.rs"],
  [("sample extraction", "src/lwe.rs fill_with_sample_extract"), ("packing key switch", "src/lwe.rs conv_lwe_to_rlwe"), ("row construction", "src/rlwe.rs expand, expand_fourier, expand_slow, decomposed_rlwe_to_rgsw")],
  None, ["decryption after conversion"])

p("C16", "Encrypted comparison is exact at every threshold",
  "For every value m and every threshold d in range, the less-or-equal comparison of an encrypted m yields 1 exactly when m <= d and 0 otherwise, and the equality comparison yields 1 exactly when m = d. A threshold or value outside the range is rejected.",
  ["inputs", "configurations"],
  "all pairs (m, d) with 0 <= m, d < N, all polynomial sizes",
  "One value m = N/2, and d = m itself, is never compared with less-or-equal; m = 0 and m = N-1 are never used.",
  ["src/rlwe.rs", "src/decision_tree.rs"],
  [("test polynomial product", "src/rlwe.rs less_eq_than, eq_to"), ("exponent encoding", "src/decision_tree.rs encrypt_feature_vector")],
  None, ["constant coefficient after comparison"])

p("C17", "The plaintext encoding round-trips within its whole error margin",
  "For every power-of-two plaintext modulus of at least two and every message below it, decoding the encoded message plus any error strictly smaller than the stated margin returns the message, wrapping around at the modulus. A message that does not fit, a modulus that is not a power of two and a non-ternary value are rejected, and the ternary encoding round-trips -1, 0 and 1 likewise within a sixth of the modulus.",
  ["inputs", "configurations"],
  "all moduli 2^1..2^62, all messages, all errors within the margin of either sign",
  "Two messages at two moduli with the extreme errors; no ternary test of the codec, no rejection test.",
  ["src/codec.rs"],
  [("scaling by q/t and rounding", "src/codec.rs encode, decode"), ("ternary thresholds", "src/codec.rs ternary_encode, ternary_decode")],
  None, ["Codec::encode, decode, largest_error"])

p("C18", "Experiment configuration expands exactly and reports one row each",
  "A parameter file expands to exactly the ordered product of its access-mode and cryptographic settings, group by group, and every field reaches the experiment it configures. The command-line program prints one header and one row per configuration whose columns match the header, uses the command-line values when no file can be opened, and falls back to the documented defaults when the file is malformed; a non-dry run reports only verified results.",
  ["configurations", "inputs"],
  "all parameter files and all command lines, all three access modes",
  "Neither parameter parsing nor the program has any test.",
  ["src/main.rs", "src/params.rs", "src/cli.rs"],
  [("nested loops over the lists", "src/params.rs from_input_params_list"), ("row printing", "src/main.rs")],
  None, ["ServerParams::from_input_params_list", "program output"])

p("C19", "Every valid parameter set gives a working protocol",
  "The result of an access does not depend on the cryptographic parameters as long as they are valid: the selection, key-switching and key-negation decompositions may be chosen independently of each other, level counts may be one, odd or even, and any power-of-two polynomial size and plaintext modulus may be used. For all of them reads, writes, multi-query and batched requests and tree evaluation give the same plaintext results.",
  ["configurations"],
  "all combinations of polynomial size, plaintext modulus, base and level count of each of the three decompositions, noise and seeding mode within the noise margin",
  "All tests use the default parameters, in which the three decompositions share one base, so that mixing them up cannot be noticed.",
  ["src/context.rs", "src/rlwe.rs", "src/rgsw.rs", "src/params.rs"],
  [("each gadget ciphertext carries its own decomposition", "src/rlwe.rs encrypt_rgsw, neg_gsw; src/rgsw.rs"), ("parameters to context", "src/context.rs Context::new")],
  None, ["responses for swept parameters"])

p("C20", "Misuse is refused loudly and leaves the database intact",
  "A request that does not fit the database (a row width that is not a matching power of two, a query prepared for another width, a batch without exactly one query per row, a plaintext coefficient outside the modulus, an item, threshold or feature out of range) is refused with an error instead of being answered wrongly. A refused request leaves every stored item unchanged and the server usable.",
  ["inputs", "fault_sequences"],
  "all mismatches between query and database shape, all out-of-range arguments, at any point of a history",
  "No test provokes a refusal except the two out-of-range hash lookups.",
  ["src/oram.rs", "src/decision_tree.rs", "src/rlwe.rs", "src/codec.rs", "src/naive_hash.rs"],
  [("shape assertions before the first update", "src/oram.rs process_one_mt, process_one_st, process_batch"), ("range assertions", "src/rlwe.rs less_eq_than, eq_to; src/codec.rs encode; src/naive_hash.rs checked_hash")],
  None, ["panic outcome, decrypt_db afterwards"])

p("C21", "Secure seeding is fresh, insecure seeding is reproducible",
  "With secure seeding, two independently created contexts never share a secret key or an encryption mask, and successive encryptions under one context never repeat. With insecure seeding, two contexts created from the same parameters produce identical keys, plaintexts and ciphertexts for the same sequence of calls.",
  ["configurations", "histories"],
  "both seeding modes, all call sequences on two contexts",
  "No test creates two contexts and compares them; insecure seeding is never used.",
  ["src/context.rs"],
  [("seeder selection", "src/context.rs Context::new")],
  None, ["keys and ciphertexts of two contexts"])

p("C22", "Noise estimates report the true maximal error",
  "The reported noise of a ciphertext is the base-two logarithm of the largest distance, in the centred representation, between its decrypted phase and the encoding of the reference plaintext, whichever encoding (raw, modular or ternary) is asked for. A ciphertext whose phase equals the encoding reports no noise, and the estimate never reports less than the largest error of any coefficient.",
  ["inputs"],
  "all phases and reference plaintexts, all three encodings, errors of either sign up to half the modulus",
  "One test checks an upper bound of the raw estimate for fresh noise; the ternary estimate is only printed.",
  ["src/rlwe.rs", "src/rgsw.rs"],
  [("centred maximum", "src/rlwe.rs compute_noise, compute_noise_encoded, compute_noise_ternary")],
  None, ["compute_noise* on ciphertexts with known error"])

p("C23", "Setup stores every item in every place it is looked up",
  "After setup, item i of the returned plaintext list is exactly what a read of item i returns, for every i, and every replica cell of item i decrypts to that item, also for databases larger than the number of distinct items generated. The list has exactly rows x columns / replicas items, and a shape that does not match the placement is refused.",
  ["configurations", "inputs"],
  "all rows, columns, replica counts and placements, including more than 128 items",
  "Databases of 16 items only, so the path that repeats items beyond 128 never runs; only one or two items are compared.",
  ["src/oram.rs"],
  [("encrypt the first items, copy the rest, copy replicas", "src/oram.rs gen_dummy_database, setup_random_oram")],
  [("cells", "rows x columns ciphertexts", "src/oram.rs")], ["gen_dummy_database output decrypted cell by cell", "reads after setup"])

p("C24", "Instances in one process do not disturb one another",
  "Any number of contexts, clients, servers and decision trees, each with cryptographic parameters of its own, may be created and used in one process, in turns or at the same time on different threads. Each of them behaves exactly as if it were alone: databases answer and change as their own requests say, homomorphic operations and tree evaluations give their own results, and contexts with insecure seeding give the keys, plaintexts and ciphertexts they give on their own.",
  ["schedules", "histories", "configurations"],
  "all sets of instances, all combinations of their parameters (same ring size with other decompositions, other ring sizes, equal ones), all interleavings of their calls on one thread and on several",
  "Tests run side by side in one process but all use the default parameters, so state kept for the whole process under too small a key, or replaced while in use, goes unnoticed.",
  ["src/oram.rs", "src/rlwe.rs", "src/rgsw.rs", "src/lwe.rs", "src/context.rs", "src/decision_tree.rs"],
  [("scratch buffers and transform plans made per server, client or call", "src/context.rs gen_fft_ctx, FftBuffer; src/oram.rs FftBufferPool"), ("generators and seeders owned by the context", "src/context.rs Context::new"), ("the shared thread pool", "rayon's global pool in src/oram.rs process_*")],
  None, ["responses, decrypt_db, decrypted registers, tree results, keys and ciphertexts of every instance"])

p("C25", "Tables of numbers and bits are read exactly",
  "Reading a text of comma-separated values gives exactly the rows below its first line, in their order, every field as the number that is written there, for the whole range of 64-bit numbers and however the numbers, quotes and line ends are written. A file that is absent, a line with another number of fields than the first, and a field that is no such number are refused: nothing is left out, guessed or cut. The columns of a rectangular table come out in order and complete, and the number given by the first 64 coefficients of a plaintext is the sum of the powers of two whose coefficient is one, any coefficient other than zero and one being refused.",
  ["inputs"],
  "all texts of comma-separated values of any size, all rectangular tables, all plaintexts",
  "No test reads a table or uses the conversion of bits with more than a few of them set.",
  ["src/utils.rs"],
  [("records of the csv reader, parsed field by field", "src/utils.rs parse_csv"), ("columns of the decomposed selectors", "src/utils.rs transpose"), ("bits of a plaintext", "src/utils.rs pt_to_lossy_u64")],
  None, ["parse_csv, transpose and pt_to_lossy_u64"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
