R = "libs/databases/domain/references/"
C = "libs/databases/domain/contents/"
T = "libs/cryptography/domain/hashtrees/"
H = "libs/cryptography/domain/hash/"
def c(id, prop, file, edits, demo, needs, breaks, imports=()):
    return dict(id=id, prop=prop, edits=[(file,) + e if len(e) == 2 else e for e in edits], pkg="libs/databases/domain/references", help=["core"], demo="\nfunc TestDemo(t *testing.T) {\n" + demo.strip("\n") + "\n}", needs=needs, breaks=breaks, imports=list(imports))
HI = "github.com/steve-care-software/rodkina/libs/cryptography/domain/hash"
TI = "github.com/steve-care-software/rodkina/libs/cryptography/domain/hashtrees"
CI = "github.com/steve-care-software/rodkina/libs/databases/domain/contents"
RI = "github.com/steve-care-software/rodkina/libs/databases/domain/references"
BUGS = [
c("ref_kind_narrow", "R01", R + "contentkey_adapter.go", [('uint64(ins.Kind())', 'uint64(uint32(ins.Kind()))')], '''
	k := key("a", 1<<33+5, 0, 3)
	a := references.NewContentKeyAdapter()
	enc, err := a.ToContent(k)
	must(err)
	back, err := a.ToContentKey(enc)
	must(err)
	if back.Kind() != k.Kind() {
		t.Fatal(back.Kind())
	}''', "a kind of 2^32 or more", "the kind of a stored content key is cut to 32 bits", [RI]),
c("ref_time_epoch", "R01", R + "commit_adapter.go", [('createdOn := time.Unix(0, int64(createdOnUnixNano)).UTC()', 'createdOn := time.Unix(int64(createdOnUnixNano/1000000000), int64(createdOnUnixNano%1000000000)).UTC()')], '''
	a := commit('0', -1600000000000000017, "", nil, "x")
	if !again(a).CreatedOn().Equal(a.CreatedOn()) {
		t.Fatal(again(a).CreatedOn())
	}''', "a clock set before 1970", "the creation time of a stored commit changes, and so its identity"),
c("ref_proof_byte", "R01", R + "commit_adapter.go", [('binary.LittleEndian.PutUint64(proofBytesLength, uint64(len(proofBytes)))', 'binary.LittleEndian.PutUint64(proofBytesLength, uint64(byte(len(proofBytes))))')], '''
	a := commit('0', 5, "", bytes.Repeat([]byte{7}, 300), "x")
	if again(a).Mine().Proof().Cmp(a.Mine().Proof()) != 0 {
		t.Fatal("the proof changed")
	}''', "a proof of more than 255 bytes", "the proof of a stored commit is cut", ["bytes"]),
c("ref_latest_reference", "R01", R + "adapter.go", [('binary.LittleEndian.PutUint64(commitLengthBytes, uint64(len(commitsBytes)))', 'binary.LittleEndian.PutUint16(commitLengthBytes, uint16(len(commitsBytes)))')], '''
	list := []references.Commit{}
	for i := 0; i < 300; i++ {
		list = append(list, commit('0', int64(i), "", nil, "x"))
	}
	cs, err := references.NewCommitsBuilder().Create().WithList(list).Now()
	must(err)
	ref, err := references.NewBuilder().Create().WithContentKeys(keys(key("a", 1, 0, 3))).WithCommits(cs).Now()
	must(err)
	enc, err := references.NewAdapter('0').ToContent(ref)
	must(err)
	back, err := references.NewAdapter('0').ToReference(enc)
	must(err)
	if len(back.Commits().List()) != 300 {
		t.Fatal("commits are missing")
	}''', "more than 65535 bytes of commits", "a reference with many commits cannot be read again", [RI]),
c("contents_kind_sign", "R02", C + "content_adapter.go", [('WithKind(uint(kind))', 'WithKind(uint(kind & 0x7fffffffffffffff))')], '''
	one, err := contents.NewContentBuilder().Create().WithHash(digest("a")).WithData([]byte("a")).WithKind(1<<63 + 3).Now()
	must(err)
	enc, err := contents.NewContentAdapter().ToContent(one)
	must(err)
	back, err := contents.NewContentAdapter().ToInstance(enc)
	must(err)
	if back.Kind() != one.Kind() {
		t.Fatal(back.Kind())
	}''', "a kind with its highest bit set", "the kind of a content changes", [CI]),
c("commit_min_size", "R02", R + "sdk.go", [('const commitMinSize = 8 + 8 + hashtrees.MinHashtreeSize', 'const commitMinSize = 8 + hashtrees.MinHashtreeSize/hash.Size')], '''
	_, err := references.NewCommitAdapter('0').ToCommit(make([]byte, 13))
	if err == nil {
		t.Fatal("13 bytes are no commit")
	}''', "a commit record of 11 to 15 bytes", "the decoder of commits panics", [RI]),
c("contents_first_length", "R02", C + "content_adapter.go", [('''	output = append(output, ins.Data()...)
''', '''	if data := ins.Data(); len(data) != hash.Size {
		output = append(output, data...)
		return output, nil
	}

	if hashBytes[hash.Size-1] != ins.Data()[hash.Size-1] {
		output = append(output, ins.Data()...)
	}

''')], '''
	data := make([]byte, 64)
	data[3] = 7
	one, err := contents.NewContentBuilder().Create().WithHash(digest(string(data))).WithData(data).WithKind(3).Now()
	must(err)
	enc, err := contents.NewContentAdapter().ToContent(one)
	must(err)
	back, err := contents.NewContentAdapter().ToInstance(enc)
	if err != nil || !bytes.Equal(back.Data(), data) {
		t.Fatal("the data changed")
	}''', "a content of 64 bytes, which is its own hash", "the data of the content is lost", [CI, "bytes"]),
c("keys_first_kept", "R03", R + "contentkeys_builder.go", [('''		mp[contentContentKeyname] = oneContentKey
''', '''		if last, ok := mp[contentContentKeyname]; ok && last.Kind() == oneContentKey.Kind() {
			continue
		}

		mp[contentContentKeyname] = oneContentKey
''')], '''
	got, err := keys(key("a", 1, 0, 3), key("b", 1, 3, 3), key("a", 1, 6, 3)).Fetch(digest("a"))
	must(err)
	if got.Content().From() != 6 {
		t.Fatal(got.Content().From())
	}''', "a hash that was stored twice with the same kind", "looking it up returns the older key"),
c("keys_kind_byte", "R03", R + "contentkeys.go", [('if oneContentKey.Kind() != kind {', 'if uint16(oneContentKey.Kind()) != uint16(kind) {')], '''
	if got := keys(key("a", 1, 0, 3), key("b", 65537, 3, 3)).ListByKind(1); len(got) != 1 {
		t.Fatal(len(got))
	}''', "two kinds that differ by a multiple of 65536", "listing a kind returns keys of another one"),
c("hash_long_kept", "H01", H + "adapter.go", [('if len(input) != Size {', 'if len(input)%(2*Size) != Size {')], '''
	if len(digest(string(make([]byte, 192)))) != hash.Size {
		t.Fatal("192 bytes were kept")
	}''', "data of 192 bytes, 320 bytes and so on", "the hash has the wrong size and collides with nothing it should", [HI]),
c("hash_compare_zero", "H01", H + "hash.go", [('return bytes.Compare(currentBytes, otherBytes) == 0', 'return bytes.Compare(bytes.TrimRight(currentBytes, "\\x00"), bytes.TrimRight(otherBytes, "\\x00")) == 0')], '''
	a := digest("a")
	a[63] = 0
	if a.Compare(a[:63]) {
		t.Fatal("a part of a hash is equal to it")
	}''', "hashes that end with zeros, one of them cut", "hashes of different bytes compare equal"),
c("hash_text_half", "H01", H + "adapter.go", [('''	bytes, err := hex.DecodeString(input)
	if err != nil {''', '''	bytes, err := hex.DecodeString(input)
	if err != nil && len(bytes) != Size {''')], '''
	text := digest("a").String()
	if _, err := hash.NewAdapter().FromString(text + "zz"); err == nil {
		t.Fatal("the text is not hexadecimal")
	}''', "the text of a hash followed by other characters", "text that is not hexadecimal is accepted", [HI]),
c("hash_parts_alias", "H02", H + "adapter.go", [('''	for _, oneRow := range input {
		merged = append(merged, oneRow...)
''', '''	for index, oneRow := range input {
		if index <= 0 && len(oneRow) >= Size {
			merged = oneRow
			continue
		}

		merged = append(merged, oneRow...)
''')], '''
	data := []byte(fmt.Sprintf("%0100d", 5))
	before := string(data)
	_, err := hash.NewAdapter().FromMultiBytes([][]byte{data[:70], []byte("other")})
	must(err)
	if string(data) != before {
		t.Fatal("the data around the parts changed")
	}''', "a first part of 64 bytes or more with spare capacity", "hashing overwrites the memory behind the first part", [HI, "fmt"]),
c("hash_parts_empty", "H02", H + "adapter.go", [('''	for _, oneRow := range input {
		merged = append(merged, oneRow...)
''', '''	for index, oneRow := range input {
		if index > 0 && len(oneRow) <= 0 {
			break
		}

		merged = append(merged, oneRow...)
''')], '''
	a, err := hash.NewAdapter().FromMultiBytes([][]byte{[]byte("a"), nil, []byte("b")})
	must(err)
	if !a.Compare(digest("ab")) {
		t.Fatal("the parts after an empty one are ignored")
	}''', "an empty part between others", "the parts behind it are not hashed", [HI]),
c("tree_pad_last", "T01", T + "builder.go", [('single, err := app.hashAdapter.FromBytes(nil)', 'single, err := app.hashAdapter.FromBytes(hashes[len(hashes)-1])')], '''
	if tree("a", "b", "c").Head().Compare(tree("a", "b", "c", "c").Head()) {
		t.Fatal("two lists of blocks have the same head")
	}''', "a number of blocks that is no power of two", "a list and the same list with its last block repeated have the same head"),
c("tree_pad_round", "T02", T + "builder.go", [('next := uint(math.Pow(2, math.Ceil(math.Log(lengthAsFloat)/math.Log(2))))', 'next := uint(math.Pow(2, math.Ceil(math.Log2(lengthAsFloat-lengthAsFloat/64))))')], '''
	blocks := [][]byte{}
	for _, one := range many(65) {
		blocks = append(blocks, []byte(one))
	}
	if _, err := hashtrees.NewBuilder().Create().WithBlocks(blocks).Now(); err != nil {
		t.Fatal(err)
	}''', "65 blocks, or a little more than a larger power of two", "the blocks are refused", [TI]),
c("tree_left_short", "T03", T + "leaf_adapter.go", [('binary.LittleEndian.PutUint64(leftLengthBytes, uint64(len(leftBytes)))', 'binary.LittleEndian.PutUint16(leftLengthBytes, uint16(len(leftBytes)))')], '''
	one := tree(many(513)...)
	a := hashtrees.NewAdapter()
	enc, err := a.ToContent(one)
	must(err)
	if back, err := a.ToHashTree(enc); err != nil || !back.Parent().Left().Head().Compare(one.Parent().Left().Head()) {
		t.Fatal("the tree changed", err)
	}''', "a tree of more than 512 blocks", "it cannot be decoded", [TI]),
c("tree_decode_leaf", "T03", T + "leaf_adapter.go", [('''	builder := app.leafBuilder.Create().WithHead(*pHead)
	if len(remaining) > 0 {''', '''	builder := app.leafBuilder.Create().WithHead(*pHead)
	if len(remaining) > 0 && len(remaining) < 1<<12 {''')], '''
	one := tree(many(100)...)
	a := hashtrees.NewAdapter()
	enc, err := a.ToContent(one)
	must(err)
	back, err := a.ToHashTree(enc)
	must(err)
	if back.Height() != one.Height() {
		t.Fatal(back.Height())
	}''', "a tree of more than 64 blocks", "its lower levels are lost when it is decoded", [TI]),
c("compact_leaves_byte", "T04", T + "leaves_adapter.go", [('binary.LittleEndian.PutUint64(lengthBytes, uint64(len(list)))', 'binary.LittleEndian.PutUint64(lengthBytes, uint64(byte(len(list)-1))+1)')], '''
	comp, err := hashtrees.NewAdapter().ToCompact(tree(many(300)...))
	must(err)
	enc, err := hashtrees.NewCompactAdapter().ToContent(comp)
	must(err)
	back, err := hashtrees.NewCompactAdapter().ToCompact(enc)
	must(err)
	if back.Length() != 512 {
		t.Fatal(back.Length())
	}''', "a tree of more than 256 blocks", "leaves are missing when its compact form is decoded", [TI]),
c("leaves_merge_shorter", "T04", T + "leaves.go", [('''	for _, oneLeaf := range lves.Leaves() {
		obj''', '''	amount := len(obj.list) * 2
	for index, oneLeaf := range lves.Leaves() {
		if index >= amount {
			break
		}

		obj''')], '''
	list := []hashtrees.Leaf{}
	for _, one := range many(5) {
		l, err := hashtrees.NewLeafBuilder().Create().WithHead(digest(one)).Now()
		must(err)
		list = append(list, l)
	}
	a, err := hashtrees.NewLeavesBuilder().Create().WithList(list[:1:1]).Now()
	must(err)
	b, err := hashtrees.NewLeavesBuilder().Create().WithList(list[1:]).Now()
	must(err)
	comp, err := hashtrees.NewCompactBuilder().Create().WithHead(digest("x")).WithLeaves(a.Merge(b)).Now()
	must(err)
	if comp.Length() < 5 {
		t.Fatal(comp.Length())
	}''', "a merge with a list that is more than twice as long", "leaves are lost", [TI]),
c("order_cut", "T05", T + "adapter.go", [('''	if len(out) != len(mixed) {''', '''	if len(out) != len(mixed) && len(list) < len(mixed)*2 {''')], '''
	one := tree("a", "b", "c", "d")
	if _, err := hashtrees.NewAdapter().ToOrder(one, [][]byte{[]byte("d"), []byte("x")}); err == nil {
		t.Fatal("x is no block of the tree")
	}''', "at most half of the blocks, one of them foreign", "the foreign block is dropped without an error", [TI]),
c("commit_proof_word", "K01", R + "commit_builder.go", [('''		data = append(data, app.pProof.Bytes())
''', '''		data = append(data, []byte(fmt.Sprintf("%d", app.pProof.Uint64())))
''')], '''
	a := commit('0', 5, "", []byte{1, 0, 0, 0, 0, 0, 0, 0, 1}, "x")
	b := commit('0', 5, "", []byte{2, 0, 0, 0, 0, 0, 0, 0, 1}, "x")
	if a.Hash().Compare(b.Hash()) {
		t.Fatal("two proofs have the same identity")
	}''', "two proofs that differ above their lowest 64 bits", "commits with different proofs have the same identity"),
c("commit_parent_mined", "K01", R + "commit_builder.go", [('''	if app.pParent != nil {
		data =''', '''	if app.pParent != nil && app.pProof == nil {
		data =''')], '''
	a := commit('0', 5, "one", []byte{1}, "x")
	b := commit('0', 5, "two", []byte{1}, "x")
	if a.Hash().Compare(b.Hash()) {
		t.Fatal("two parents have the same identity")
	}''', "a mined commit with a parent", "its identity does not depend on its parent"),
c("commit_score_run", "K02", R + "commit_builder.go", [('''				score++
				continue
			}

			break''', '''				score++
				continue
			}

			if score > 0 || oneByte != 0 {
				break
			}''')], '''
	for i := 1; i < 1<<20; i++ {
		proof := []byte{byte(i >> 16), byte(i >> 8), byte(i)}
		first := commit(0, 5, "", proof, "x").Mine().Result()
		if first[0] != 0 {
			continue
		}
		if got := commit(first[1], 5, "", proof, "x").Mine().Score(); first[1] != 0 && got != 0 {
			t.Fatal(got)
		}
	}''', "a mining value other than zero and a result that begins with a zero", "leading zeros are skipped and the score is too high"),
c("commit_score_cap", "K02", R + "commit_builder.go", [('''			if oneByte == app.miningValue {''', '''			if oneByte == app.miningValue && score < 1 {''')], '''
	for i := 1; i < 1<<20; i++ {
		proof := []byte{byte(i >> 16), byte(i >> 8), byte(i)}
		first := commit(0, 5, "", proof, "x").Mine().Result()
		if first[0] == first[1] {
			if got := commit(first[0], 5, "", proof, "x").Mine().Score(); got < 2 {
				t.Fatal(got)
			}
			return
		}
	}''', "a result that begins with the mining value twice", "the score is always 0 or 1"),
]
