# how each property is decided, for DESIGN.md
NOTES = {
"D01": "Histories are symbolic choices of the next operation; after every step every known hash is read by hash and by pointer in the open context, and at the end from a fresh process.",
"D02": "The crash point is a symbolic number compared with the count of file operations; after it a new process opens the database and the content is compared with the model before and after.",
"D03": "As D02 with a failing operation; afterwards the same context reads, retries, or closes and reopens.",
"D04": "Several databases with the same hashes and different data; every operation names one of the identifiers handed out so far, closed ones included.",
"D05": "Pending contents are looked for in the same context, another application and a fresh process before and after each ending.",
"D06": "Parents, trees and identities are recomputed from the written contents and compared with the recorded commits.",
"D07": "Pairwise disjointness and gaplessness of the recorded locations are assertions over their 64-bit words.",
"D08": "Histories of creation, deletion and opening compared with a set of names, directories included; contexts may be held open across a deletion and then commit. Overlapping processes as in D10.",
"D09": "The bytes of a file are symbolic; opening and reading must end, without panic, and leave the file as it was.",
"D10": "The two processes are two threads of control of the engine (`sym.CoNew`, `sym.CoYield`); the file or lock operation before which each one is interrupted is symbolic, so a path is a schedule. A third process judges the result.",
"D11": "Position and length are arbitrary 64-bit words, so overflow of their sum is included.",
"D12": "Kinds and the asked kind are arbitrary 64-bit words; `H_DBRepeat` commits the same hashes again with other kinds and reads every location twice.",
"R01": "Round trip of each record; every field of the decoded value is compared with the original.",
"R02": "Round trip; and one word, cut or continuation of a valid record is symbolic: only a panic or hang is a violation.",
"R03": "Kinds, locations and one byte of each hash are symbolic; list, look-up, filter and next location are recomputed; `H_CommitList` does the same for lists of commits.",
"H01": "Compared with SHA-512 (concrete: real; symbolic: the uninterpreted digest) and the text with its hexadecimal digits.",
"H02": "Parts share one backing array in some harnesses, so that appending in place is seen.",
"T01": "Heads of two lists with symbolic bytes are equal exactly when the lists are; the digests are injective.",
"T02": "Leaves, inner hashes, height and length recomputed from the definition; blocks and spare capacity compared afterwards.",
"T03": "Round trip node by node; damaged encodings as in R02.",
"T04": "The compact form's leaves against the hashes of the blocks, and the rebuilt tree against the first.",
"T05": "The permutation is a symbolic choice; the result must be the original list.",
"K01": "Two commits with one differing symbolic part; identities are compared under the injective digest.",
"K02": "The result is recomputed; every score is forced by constraining the leading bytes of the (uninterpreted) result.",
"A01": "The reference matcher gives bytes with and without channels of every node, and the remaining data.",
"A02": "Line index, amounts and contents of each element against the reference matcher; cardinalities are symbolic choices.",
"A03": "The reference everything scans byte by byte with escape and exception.",
"A04": "The reference skips channels before values and after tokens and records them.",
"A05": "The reference verifies previous and next tokens at the same places.",
"A06": "The reference executes the inner grammar on its own channels.",
"A07": "The reference has the same stack discipline; hangs and stack exhaustion are violations by themselves.",
"A08": "Composes are symbolic; the composed data is executed, and any other data of that length must be refused.",
"A09": "All elements of a grammar are enumerated by the reference, which executes the suites itself.",
"A10": "A depth-first search over the reference tree.",
"A11": "A second execution on the same objects against fresh objects, and the first tree compared before and after.",
"A12": "The parts are built with their builders; bounds, amounts of composes and bytes are symbolic, names, numbers of contents and shapes are choices. Success and bytes are recomputed from them.",
"G01": "The class of each token is a predicate on the byte; arbitrary bytes are executed.",
"G02": "Grammars built with the helpers are executed on arbitrary data and compared with what the helper says.",
"G03": "Scripts are assembled from variants by symbolic choice; the tree must contain the instruction and no data may remain. `H_ScriptAny` puts an arbitrary byte in a script, `H_ScriptForms` repeats, leaves out or exchanges its parts, and both compare the matched length and the kinds of instructions with a recognizer of the grammar written down by hand (`rScript`).",
"Q01": "Names and indexes of a query are symbolic choices; the selection is recomputed from the reference tree.",
"Q02": "Funcs accept, refuse or fail depending on the data; instances and errors are recomputed.",
"Q03": "Nested lists; the reference evaluates the innermost enclosing query.",
"I01": "Instruction sequences are symbolic choices; a reference compiler decides validity.",
"I02": "The reference evaluator runs the instructions; inputs are arbitrary bytes.",
"I03": "Modules record the parameters they receive; the reference evaluator predicts them.",
  "A13": "Each builder is used once and again; subsets, order and numbers are symbolic, and what is built is compared with what was given.",
  "A14": "Each builder is used once and again; subsets, order and numbers are symbolic, and what is built is compared with what was given.",
  "Q04": "Each builder is used once and again; subsets, order and numbers are symbolic, and what is built is compared with what was given.",
  "I04": "Each builder is used once and again; subsets, order and numbers are symbolic, and what is built is compared with what was given.",
  "R04": "Each builder is used once and again; subsets, order and numbers are symbolic, and what is built is compared with what was given.",
}
