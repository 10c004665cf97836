HOOKS = dict(guard="cfg panacea_verif (module panacea::oram::verif: read-only accessors of a query's ciphertexts and of the server's cells)", enable="RUSTFLAGS='--cfg panacea_verif'")
MC = "model_checking"
T = "TLA+ specification checked with TLC, bound to the code by "
GEN = T + "replaying TLC-generated histories of the specification in the real crate and checking every recorded observation against the specification's state (trace validation with TLC)"
PRG = T + "replaying TLC-generated programs in the real crate and checking the decrypted registers after every operation against the specification (trace validation with TLC); the algorithms are modelled separately and shown to refine the contract"
TRUST = " Trusts TLC, the harness's logging and the crate's own decryption (which C13 and C17 check against plain arithmetic)."
CLAIMS = {
 "C01": (MC, GEN, "All histories of the bounded model; the code is judged on the replayed histories: every response and every decrypted cell after every request." + TRUST),
 "C02": (MC, GEN, "All request multisets of the bounded model; the code is judged on replayed requests of 0 to 20 queries in several thread-pool sizes." + TRUST),
 "C03": (MC, GEN, "All batches, mappings and mixed row queries of the bounded model; the code is judged on replayed histories over 13 shapes." + TRUST),
 "C04": (MC, GEN, "Replica agreement is an invariant of the model; the code shows every cell of every row after every request." + TRUST),
 "C07": (MC, GEN, "The model has no client state; the code is judged on histories where several clients prepare early, reorder and drop queries." + TRUST),
 "C10": (MC, PRG, "All bit mixtures up to width 2^9 in the model; the code is judged on every index up to 16 (64 thorough) and sampled indices up to 256." + TRUST),
 "C13": (MC, PRG, "Small rings exhaustively in the model; the code on generated programs over 13 parameter sets." + TRUST),
 "C14": (MC, PRG, "All messages and substitutions of small rings in the model; the code on 13 decompositions (odd and even level counts), all four forms." + TRUST),
 "C15": (MC, PRG, "Extraction, conversion and expansion of small rings in the model; the code for every coefficient index of N up to 64 and 9 decompositions." + TRUST),
 "C16": (MC, PRG, "All (m, d) of small rings in the model; the code for all pairs of N = 8 and 16 and boundary pairs up to N = 2048." + TRUST),
 "C20": (MC, GEN, "The code is judged on all pairs of client and server widths, malformed batches, items and coefficients out of range." + TRUST),
 "C23": (MC, GEN, "The code is judged for 17 shapes and 12 mismatching ones, all cells after setup plus reads." + TRUST),
}
EVT = T + "checking every recorded observation of the real crate against the specification (trace validation with TLC); the inputs are enumerated by TLC from the specification or drawn from it by seed"
CLAIMS.update({
 "C05": (MC, EVT, "All placements and request sets of the bounded shapes in the model; the code is judged on every (item, replica) of 12 shapes and on all or sampled request sets, including the ones no assignment exists for." + TRUST),
 "C08": (MC, EVT, "All requests of the bounded model; the code is judged on the ciphertexts of recorded requests and on every stored cell before and after. Uses the guarded read-only accessors; without them the part that needs only public calls is still checked and the check says so." + TRUST),
 "C09": (MC, EVT, "The additive law is an invariant of the model for all histories of its bound; the code is judged on long recorded histories (hundreds of accesses) in all three modes against the law, at small rings and at the default parameters." + TRUST),
 "C11": (MC, PRG, "All trees up to the bounded size and all feature vectors in the model; the code on generated trees (skewed, full, with missing children, constant) at six parameter sets." + TRUST),
 "C12": (MC, PRG, "All trees up to the bounded size in the model; the code on generated trees: numbering, flattening, counts, pruning, JSON." + TRUST),
 "C17": (MC, EVT, "Limb arithmetic checked against unbounded integers; every modulus 2^1..2^62, boundary and sampled messages, every boundary error of both signs, on the real codec." + TRUST),
 "C21": (MC, EVT, "All call sequences of two or three contexts of the bounded model; the code on enumerated call sequences in both seeding modes, comparing hashes of keys, masks and bodies." + TRUST),
 "C22": (MC, EVT, "The centred maximum is compared with its definition over small words in the model; the code on crafted phases (all three encodings, both signs, halves of the modulus, each coefficient position)." + TRUST),
})
CLAIMS["C06"] = (MC, T + "replaying TLC-generated histories on pools of many sizes, from several kinds of calling thread and under a seeded, controlled rayon scheduler, every observation judged against the sequential specification (trace validation with TLC)", "All interleavings of one request on up to three workers in the model (responses, cells, absence of deadlock and panic, termination); the code under rayon's own schedules with pools of 1 to 32 threads and under seeded controlled schedules." + TRUST)
CLAIMS["C18"] = (MC, T + "replaying TLC-generated parameter files and command lines on the real parser and the real program, whose reports are judged by the specification", "All documents of the bounded model; the program on generated, malformed and absent files, every flag alone, dry and real runs at small parameters." + TRUST)
CLAIMS["C19"] = (MC, T + "running the protocol under parameter sets drawn by TLC from the specification's space of valid sets, judged by the parameter-free trace specifications", "All placements of three decompositions in a noise-free model; the code for about 110 drawn sets (quick), N from 8 to 2048, all plaintext moduli up to 2^16." + TRUST)
CLAIMS["C24"] = (MC, T + "driving several real instances in one process, in orders drawn by TLC and on several threads at once, and checking each instance's recorded observations against its own specification (trace validation with TLC)", "Four instances sharing plans, buffers or counters in the model, all interleavings; the code on groups of two to four databases, ring programs, trees and contexts of different parameters, in turns and at once." + TRUST)
CLAIMS["C25"] = (MC, T + "giving texts drawn by TLC from a writer's specification, tables and bit vectors to the real functions, whose results are judged by the reader's specification (trace validation with TLC)", "The reader is checked against the writer for all short texts in the model; the code on about 1,500 drawn texts (12,000 thorough), long texts, all small table shapes and sampled bit vectors. Texts that are not UTF-8 are not tried. Trusts TLC and the harness's logging.")
