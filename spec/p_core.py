REF = "libs/databases/domain/references"
CON = "libs/databases/domain/contents"
HT = "libs/cryptography/domain/hashtrees"
HASH = "libs/cryptography/domain/hash"
SHA = "sha512 of symbolic data is an arbitrary value that is a function of its input and never collides; concrete data has its real digest"

prop(id="R01", title="Reference records survive their encoding",
  statement="Pointers, content keys, commits and whole references (their commits and content keys together) decode from their encoding to the same value: every location, length, kind, hash, commit, parent, creation time (to the nanosecond, before and after 1970), tree and proof is restored, and lists keep their order and length. Lists of commits or content keys of any length, with and without parents and proofs, are included.",
  over=["inputs"], quant="Pointers and keys of arbitrary 64-bit words and arbitrary hashes; commits with and without parent and proof (0, 1 and 9 arbitrary bytes), 8 extreme creation times, trees of 1 to 3 blocks; lists of 1 to 3 keys; references of 1 to 2 commits and keys. References of 4, 17 and 257 (thorough up to 300) keys or commits of different sizes with one arbitrary member, commits of that many blocks, proofs of 8 to 300 bytes with one arbitrary byte.",
  why="The tests encode one value of each type with fixed small fields, without parent and proof in most of them.",
  files=[REF + "/pointer_adapter.go", REF + "/contentkey_adapter.go", REF + "/contentkeys_adapter.go", REF + "/commit_adapter.go", REF + "/commits_adapter.go", REF + "/adapter.go"],
  mechanism=[("length-prefixed binary records", REF + "/adapter.go"), ("commit record with optional parent and proof", REF + "/commit_adapter.go")],
  observe=["ToContent", "ToPointer", "ToContentKey(s)", "ToCommit(s)", "ToReference"], assume=[SHA, "the proof is not negative"],
  harnesses=[dict(fn="H_CodecKeys", reach=["keys"], what="arbitrary pointers and lists of content keys", quick=dict(params={"n": 3}), thorough=dict(params={"n": 5})),
    dict(fn="H_CodecCommit", reach=["parent and proof"], what="commits with every combination of parts", quick=dict(params={"blocks": 3}), thorough=dict(params={"blocks": 5})),
    dict(fn="H_CodecReference", reach=["reference"], what="lists of commits and whole references", quick=dict(params={"commits": 2}), thorough=dict(params={"commits": 3})),
    dict(fn="H_CodecLong", reach=["long"], what="long lists and large records", quick=dict(params={"lists": 3}), thorough=dict(params={"lists": 6}))])

prop(id="R02", title="Contents survive their encoding; no record decoder crashes",
  statement="A list of contents decodes from its encoding to the same hashes, data and kinds in the same order. Every decoder of stored records (pointer, content key, content keys, commit, commits, content, contents, hash tree, compact tree) ends with a value or an error on any input: bytes that are too short, cut anywhere, continued, or have any length, count or location in them replaced never cause a panic or an endless loop.",
  over=["inputs"], quant="1 to 3 contents with 0 to 2 arbitrary bytes; every truncation, every continuation by 1 to 3 arbitrary bytes (thorough 9) and every replacement of one aligned 8-byte word by arbitrary bytes, of one valid record of each type; all inputs of 0 to 10 arbitrary bytes. 4, 17 and 257 contents (thorough 5, 64 and 300 too), one of them of 64 to 70000 bytes (thorough 300000) with two arbitrary bytes and an arbitrary kind.",
  why="Tests only decode what the code itself encoded.",
  files=[CON + "/adapter.go", CON + "/content_adapter.go", REF + "/adapter.go", REF + "/commit_adapter.go", HT + "/leaf_adapter.go", HT + "/compact_adapter.go"],
  mechanism=[("size checks of the decoders", REF), ("length prefixes", CON + "/adapter.go")],
  observe=["ToInstance", "the other decoders"], assume=[SHA, "the creation time word of a commit is not replaced (it is formatted in decimal, which has too many paths)"],
  harnesses=[dict(fn="H_CodecContents", reach=["contents"], what="lists of arbitrary contents", quick=dict(params={"n": 3, "len": 3}), thorough=dict(params={"n": 3, "len": 5})),
    dict(fn="H_CodecMangled", reach=["accepted", "refused"], what="one valid record of each type, damaged", quick=dict(params={"more": 3}), thorough=dict(params={"more": 9})),
    dict(fn="H_CodecShort", reach=[], what="short arbitrary inputs for every decoder", quick=dict(), thorough=dict()),
    dict(fn="H_CodecContentsLong", reach=["long"], what="many and large contents", quick=dict(params={"lists": 3}), thorough=dict(params={"lists": 6, "sizes": 8}))])

prop(id="R03", title="Content keys and commits are found by identity, by kind and in order",
  statement="A list of content keys lists all of them in order; looking up a hash returns the last key recorded for it, and an error exactly when there is none; listing a kind returns exactly the keys of that kind in order; and the next free location is the largest end of any content, whatever the order of the keys. A list of commits lists all of them in order, its latest commit is its last one, whatever their times and parents, and looking up an identity returns the commit with it, and an error exactly when there is none.",
  over=["inputs"], quant="1 to 3 keys (thorough 4) with arbitrary 64-bit kinds and locations (below 2^62) and arbitrary hashes (one varying byte), any asked hash and kind. 4 and 17 keys (thorough up to 300) of five kinds with one key of arbitrary kind, location and either a new hash or that of another key. 300 keys (thorough 1100) of one or two kinds, one of them of an arbitrary kind. 1 to 3 commits (thorough 4) with and without parents, also the same one again, any of their identities asked for with one arbitrary byte in it.",
  why="Tests look up one hash in a list of two.",
  files=[REF + "/contentkeys.go", REF + "/contentkeys_builder.go", REF + "/commits.go", REF + "/commits_builder.go"], mechanism=[("map from hash to key", REF + "/contentkeys.go"), ("next location", REF + "/contentkeys.go")],
  observe=["List", "Fetch", "ListByKind", "Next", "Latest"], assume=[],
  harnesses=[dict(fn="H_Collections", reach=["known", "unknown"], what="arbitrary lists of keys", quick=dict(params={"n": 3}), thorough=dict(params={"n": 4}, budget=900)),
    dict(fn="H_CommitList", reach=["known", "unknown"], what="lists of commits", quick=dict(params={"n": 3}), thorough=dict(params={"n": 4})),
    dict(fn="H_CollectionsLong", reach=["long"], what="many keys", quick=dict(params={"lists": 2}), thorough=dict(params={"lists": 6}, budget=900)),
    dict(fn="H_KeysMany", reach=["many"], what="hundreds of keys of few kinds", quick=dict(params={"n": 300}), thorough=dict(params={"n": 1100}))])

prop(id="H01", title="The hash of data is its SHA-512 digest, or the data when it is one",
  statement="Hashing data gives its SHA-512 digest, except that data with the size of a digest (64 bytes) is kept as it is; the same data always has the same hash, and hashes compare equal exactly when their bytes are equal. A hash is a copy: changing the data afterwards does not change it. The text form has two hexadecimal digits per byte and converts back to the same hash, and text that is not hexadecimal is refused.",
  over=["inputs"], quant="Data of 0, 1, 2, 63, 64, 65 and 128 arbitrary bytes, in pairs; hashes with any byte at five positions; texts of 0 to 2 arbitrary bytes (thorough 4). Data of 20 sizes from 3 to 70000 bytes (thorough 22 sizes up to 300000) with one arbitrary byte; texts of 64 and 126 to 256 characters with one arbitrary character; hashes that differ in up to two arbitrary bytes, and parts of hashes.",
  why="Tests hash one fixed text.",
  files=[HASH + "/adapter.go", HASH + "/hash.go"], mechanism=[("size test before hashing", HASH + "/adapter.go")], observe=["FromBytes", "FromString", "Compare", "String"], assume=[SHA],
  harnesses=[dict(fn="H_Hash", reach=["digest"], what="data of all sizes around a digest", quick=dict(), thorough=dict()),
    dict(fn="H_HashText", reach=["text"], what="text form", quick=dict(params={"text": 3}), thorough=dict(params={"text": 5})),
    dict(fn="H_HashTextLong", reach=["text"], what="long texts", quick=dict(params={"n": 4}), thorough=dict(params={"n": 8})),
    dict(fn="H_HashLong", reach=["long"], what="data of 20 sizes up to 70000", quick=dict(params={"lens": 20}), thorough=dict(params={"lens": 22})),
    dict(fn="H_HashCompare", reach=["compared"], what="hashes that differ in two bytes", quick=dict(), thorough=dict())])

prop(id="H02", title="The hash of parts is the hash of their concatenation",
  statement="Hashing data given in parts gives the hash of the concatenated parts, for any number of parts including none and empty ones, and leaves the parts unchanged, even when they share memory or have spare capacity.",
  over=["inputs"], quant="0 to 3 parts of 0, 1, 2, 62 or 64 arbitrary bytes, carved out of one larger slice or separate. 5 to 300 short parts, one of them of 0 to 130 arbitrary bytes.",
  why="Tests hash two fixed parts.",
  files=[HASH + "/adapter.go"], mechanism=[("append of all parts", HASH + "/adapter.go")], observe=["FromMultiBytes"], assume=[SHA],
  harnesses=[dict(fn="H_HashMulti", reach=["parts", "shared"], what="arbitrary parts", quick=dict(params={"n": 4}), thorough=dict(params={"n": 5})),
    dict(fn="H_HashMultiLong", reach=["parts"], what="many parts", quick=dict(), thorough=dict())])

prop(id="T01", title="The head of a hash tree binds its blocks and their order",
  statement="Two hash trees have the same head exactly when they were built from the same blocks in the same order. Blocks are compared after hashing, so a block that is itself a digest stands for the data it is the digest of; for blocks that are digests this holds among lists that are padded to the same number of leaves, and none of them is the digest of no data, which is the padding.",
  over=["inputs"], quant="All pairs of lists of 1 to 3 (thorough 4) blocks of 1 to 2 arbitrary bytes, and of 1 to 8 digests with one arbitrary byte. Trees of 6, 9, 16, 17, 33, 64, 65, 127 and 513 blocks (thorough 20 sizes): texts, digests, repeated blocks and blocks around the size of a digest, one of them with an arbitrary byte.",
  why="Tests build one tree and compare it with itself.",
  files=[HT + "/builder.go", HT + "/leaf.go"], mechanism=[("blocks hashed into leaves, leaves paired upwards", HT + "/builder.go")], observe=["Head"], assume=[SHA],
  harnesses=[dict(fn="H_TreeBinds", reach=["digests", "short"], what="heads of two lists of blocks", quick=dict(params={"n": 3, "digests": 8}), thorough=dict(params={"n": 4, "digests": 9}, budget=900)),
    dict(fn="H_Tree", reach=["full", "padded"], what="head compared with the reference definition", quick=dict(params={"n": 5, "free": 4}), thorough=dict(params={"n": 9, "free": 5}, budget=900)),
    dict(fn="H_TreeLong", reach=["full", "padded"], what="larger trees with one arbitrary block", quick=dict(params={"sizes": 9}), thorough=dict(params={"sizes": 20}, budget=900))])

prop(id="T02", title="A hash tree has the shape and inner hashes of its definition",
  statement="A hash tree of n blocks has as many leaves as the next power of two (at least 2): the hashes of the blocks in order, followed by hashes of no data; every inner hash is the hash of its two children, left before right; the height and length agree with that. Building a tree changes neither the blocks nor the slice that holds them.",
  over=["inputs"], quant="1 to 4 blocks (thorough 5) of 0 to 2 arbitrary bytes and 1 to 5 digests (thorough 9), in a slice with spare capacity. Trees of 6, 9, 16, 17, 33, 64, 65, 127 and 513 blocks (thorough 20 sizes): texts, digests, repeated blocks and blocks around the size of a digest, one of them with an arbitrary byte.",
  why="Tests check the height of trees of fixed sizes.",
  files=[HT + "/builder.go", HT + "/leaves.go", HT + "/leaf.go", HT + "/hashtree.go"], mechanism=[("padding to a power of two", HT + "/builder.go")], observe=["Head", "Height", "Parent", "ToLength"], assume=[SHA],
  harnesses=[dict(fn="H_Tree", reach=["full", "padded"], what="tree compared with the reference definition", quick=dict(params={"n": 5, "free": 4}), thorough=dict(params={"n": 9, "free": 5}, budget=900)),
    dict(fn="H_TreeLong", reach=["full", "padded"], what="larger trees with one arbitrary block", quick=dict(params={"sizes": 9}), thorough=dict(params={"sizes": 20}, budget=900))])

prop(id="T03", title="A hash tree survives its encoding",
  statement="A hash tree, and its compact form, decode from their encoding to the same tree: head, height, every leaf and every inner hash. Decoding any other bytes, cut, continued or changed, ends with a tree or an error and never panics.",
  over=["inputs"], quant="Trees of 1 to 4 blocks (thorough 5) of 0 to 2 arbitrary bytes and 1 to 5 digests (thorough 9); every truncation, short continuation and replaced word of a valid encoding of 4 leaves, tree and compact. Trees of 6, 9, 16, 17, 33, 64, 65, 127 and 513 blocks (thorough 20 sizes): texts, digests, repeated blocks and blocks around the size of a digest, one of them with an arbitrary byte.",
  why="Tests encode one tree and decode only what was encoded.",
  files=[HT + "/adapter.go", HT + "/leaf_adapter.go", HT + "/leaf_builder.go", HT + "/compact_adapter.go"], mechanism=[("recursive length-prefixed encoding of leaves", HT + "/leaf_adapter.go")], observe=["ToContent", "ToHashTree", "ToCompact"], assume=[SHA],
  harnesses=[dict(fn="H_Tree", reach=["full", "padded"], what="round trip of arbitrary trees", quick=dict(params={"n": 5, "free": 4}), thorough=dict(params={"n": 9, "free": 5}, budget=900)),
    dict(fn="H_CodecMangled", reach=["refused"], what="damaged encoding of a tree", quick=dict(params={"more": 4, "what": 6}), thorough=dict(params={"more": 9, "what": 6})),
    dict(fn="H_CodecMangled", reach=["refused"], what="damaged encoding of a compact tree", quick=dict(params={"more": 4, "what": 7}), thorough=dict(params={"more": 9, "what": 7})),
    dict(fn="H_TreeLong", reach=["full", "padded"], what="larger trees with one arbitrary block", quick=dict(params={"sizes": 9}), thorough=dict(params={"sizes": 20}, budget=900))])

prop(id="T04", title="The leaves of a tree rebuild it",
  statement="The compact form of a tree has its head and exactly its leaves in order, before and after encoding, and building a tree from these leaves gives the same tree again. A list of leaves makes a tree exactly when its length is a power of two of at least 2; other lists are refused with an error. Merging two lists of leaves keeps all of them in order.",
  over=["inputs"], quant="Trees of 1 to 4 blocks (thorough 5); lists of 0 to 8 leaves (thorough 16) with one arbitrary byte each, merged from any two halves. Trees of 6, 9, 16, 17, 33, 64, 65, 127 and 513 blocks (thorough 20 sizes): texts, digests, repeated blocks and blocks around the size of a digest, one of them with an arbitrary byte.",
  why="Tests rebuild one tree of fixed size.",
  files=[HT + "/leaves_adapter.go", HT + "/leaves.go", HT + "/compact_adapter.go", HT + "/adapter.go"], mechanism=[("pairing of leaves", HT + "/leaves.go")], observe=["ToCompact", "ToHashTree", "Merge"], assume=[SHA],
  harnesses=[dict(fn="H_Tree", reach=["full", "padded"], what="compact form and rebuilding", quick=dict(params={"n": 5, "free": 4}), thorough=dict(params={"n": 9, "free": 5}, budget=900)),
    dict(fn="H_TreeLevels", reach=["tree", "merged"], what="lists of leaves of any length", quick=dict(params={"n": 9}), thorough=dict(params={"n": 17})),
    dict(fn="H_TreeLong", reach=["full", "padded"], what="larger trees with one arbitrary block", quick=dict(params={"sizes": 9}), thorough=dict(params={"sizes": 20}, budget=900))])

prop(id="T05", title="Shuffled blocks are put back in the order of their tree",
  statement="Given the blocks of a tree in any order, including empty and repeated blocks and blocks that are digests, ordering them returns every block exactly once in the order the tree was built from; data that does not belong to the tree is refused with an error.",
  over=["inputs"], quant="All permutations of 1 to 3 blocks (thorough 4) of 0 to 2 arbitrary bytes or of digests with one arbitrary byte; one block replaced by a foreign one. Rotations and reversals of 6, 9 and 16 such blocks (thorough 17), also with one block too many. 1 to 4 (thorough 8) equal blocks and 0 to 2 of their digests among 0 to 20 others, rotated and reversed.",
  why="Tests order one fixed permutation of distinct blocks.",
  files=[HT + "/adapter.go"], mechanism=[("look up of blocks by leaf hash", HT + "/adapter.go")], observe=["ToOrder"], assume=[SHA],
  harnesses=[dict(fn="H_TreeOrder", reach=["ordered"], what="arbitrary permutations of arbitrary blocks", quick=dict(params={"n": 3}, budget=60), thorough=dict(params={"n": 4}, budget=1500)),
    dict(fn="H_TreeOrderLong", reach=["ordered"], what="many shuffled blocks", quick=dict(params={"sizes": 3}), thorough=dict(params={"sizes": 5}, budget=900)),
    dict(fn="H_TreeOrderTwins", reach=["ordered"], what="blocks that are equal or digests of others", quick=dict(params={"texts": 4}), thorough=dict(params={"texts": 8}, budget=300))])

prop(id="K01", title="The identity of a commit binds each of its parts",
  statement="Two commits built from equal parts have equal identities, and two commits that differ in exactly one of content tree, creation time, parent (its value or its presence) and proof (its value or its presence, positive numbers) have different identities. Creation times are distinguished to the nanosecond, and equal when they are the same moment in different time zones.",
  over=["inputs"], quant="Trees over two digests with an arbitrary byte, absent parents and parents with an arbitrary byte, three creation times one nanosecond apart and far apart, absent proofs and proofs of 1 to 2 arbitrary bytes. Trees of 1 to 20 blocks, parents and proofs of 1 to 300 bytes that differ in one arbitrary byte at the beginning, in the middle or at the end; 11 times in pairs. 6 times in any of 7 time zones, in pairs.",
  why="Tests build single commits and compare them with themselves.",
  files=[REF + "/commit_builder.go", REF + "/commit.go"], mechanism=[("identity is the hash of head, time, parent and proof", REF + "/commit_builder.go")], observe=["Hash"], assume=[SHA, "differences in several parts at once are outside the claim: the parts are concatenated without lengths"],
  harnesses=[dict(fn="H_Commit", reach=["equal", "content", "parent", "time", "proof"], what="pairs of commits that differ in one part", quick=dict(), thorough=dict()),
    dict(fn="H_CommitLong", reach=["part", "time"], what="larger parts that differ in one byte", quick=dict(), thorough=dict()),
    dict(fn="H_CommitZone", reach=["zone"], what="times in any zone", quick=dict(), thorough=dict())])

prop(id="K02", title="A mined commit has the result and score its proof gives",
  statement="A commit with a proof has as mining result the hash of its identity followed by the bytes of the proof, as score the number of leading bytes of the result that equal the mining value (up to all 64), and keeps its proof; this also holds after the commit was encoded and decoded. A commit without a proof is not mined.",
  over=["inputs"], quant="Any mining value, with and without parent, proofs of 1 to 3 arbitrary bytes, every score from 0 to 64. Proofs of 9, 65, 256 and 300 bytes (thorough also 8, 16, 64, 130 and 70000) with one arbitrary byte.",
  why="Tests do not look at the result, and the score of a random proof is almost always 0.",
  files=[REF + "/commit_builder.go", REF + "/mine.go"], mechanism=[("score loop", REF + "/commit_builder.go")], observe=["Mine", "Result", "Score", "Proof"], assume=[SHA],
  harnesses=[dict(fn="H_Mine", reach=["score"], what="arbitrary proofs and mining values", quick=dict(), thorough=dict()),
    dict(fn="H_CodecCommit", reach=["parent and proof"], what="mined commits survive their encoding", quick=dict(params={"blocks": 1}), thorough=dict(params={"blocks": 2})),
    dict(fn="H_MineLong", reach=["score"], what="long proofs", quick=dict(params={"n": 4, "mining": 1}), thorough=dict(params={"n": 9, "mining": 4}))])
