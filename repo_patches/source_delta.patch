From 3b6371c51456bf52d33a485c5857679b26dbb2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 01/41] fix: refuse to build a hashtree without blocks instead
 of panicking

---
 libs/cryptography/domain/hashtrees/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index 03cf611..c776469 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -70,6 +70,10 @@ func (app *builder) Now() (HashTree, error) {
 		return createHashTree(*app.pHead, app.parent), nil
 	}
 
+	if app.blocks != nil && len(app.blocks) <= 0 {
+		app.blocks = nil
+	}
+
 	if app.blocks == nil {
 		return nil, errors.New("the blocks are mandatory in order to build an HashTree instance")
 	}
-- 
2.43.0


From 97d8ed201012dcb0662ee37980b7f1527919fc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 02/41] fix: a commit consumes the pending content of its
 context

---
 libs/databases/infrastructure/files/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index fa98f11..808d654 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -406,6 +406,7 @@ func (app *application) Commit(context uint) error {
 		app.contexts[context].reference = updatedReference
 		app.contexts[context].dataOffset = *pDataOffset
 		app.contexts[context].pConn = pConn
+		app.contexts[context].contentList = []contents.Content{}
 		return nil
 	}
 
-- 
2.43.0


From 54564a6f4496eccf93ae441ec93c6b92e62cee9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 03/41] fix: a commit keeps all earlier content and reports its
 copy and write errors

---
 .../infrastructure/files/application.go         | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 808d654..8532633 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -611,16 +611,19 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 	readOffset := int64(context.dataOffset)
 	writeOffset := int64(writtenAmount)
 	if context.reference != nil {
-		pInfo, _ := context.pConn.Stat()
-		contentSize := pInfo.Size() - int64(context.dataOffset)
-		chunkSize := app.makeChunkSize(uint(contentSize))
+		pInfo, err := context.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
 
-		for {
+		contentSize := pInfo.Size()
+		for readOffset < contentSize {
 			// read the file at offset:
+			chunkSize := app.makeChunkSize(uint(contentSize - readOffset))
 			contentBytes := make([]byte, chunkSize)
 			amountRead, err := context.pConn.ReadAt(contentBytes, readOffset)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			if chunkSize != uint(amountRead) {
@@ -631,7 +634,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 			// write content on destination:
 			err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 			if err != nil {
-				break
+				return nil, err
 			}
 
 			//update the offsets:
@@ -645,7 +648,7 @@ func (app *application) writeDataAndReferenceOnDestinationFile(context *context,
 		contentBytes := oneContent.Data()
 		err = app.saveDataOnDisk(writeOffset, contentBytes, destination)
 		if err != nil {
-			break
+			return nil, err
 		}
 
 		// update the offset:
-- 
2.43.0


From 68a88169587cd0a05eb9029bb4e10a40a8c740f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 04/41] fix: replace the database atomically on commit and keep
 the context usable when it fails

---
 .../infrastructure/files/application.go       | 29 +++++--------------
 1 file changed, 8 insertions(+), 21 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 8532633..3bf0be3 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -541,37 +541,24 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 		return nil, nil, err
 	}
 
-	// close the source connection:
-	err = context.pConn.Close()
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// delete the source database:
-	err = os.Remove(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
-
-	// rename the destination database to source:
+	// open the connection on the destination database:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
 	destinationPath := filepath.Join(app.dirPath, destinationFile)
-	err = os.Rename(destinationPath, sourcePath)
+	pNewConn, err := os.Open(destinationPath)
 	if err != nil {
 		return nil, nil, err
 	}
 
-	// delete the backup file:
-	err = os.Remove(backupPath)
+	// rename the destination database to source, which replaces the source database at once:
+	err = os.Rename(destinationPath, sourcePath)
 	if err != nil {
+		pNewConn.Close()
 		return nil, nil, err
 	}
 
-	// re-open the source connection:
-	pNewConn, err := os.Open(sourcePath)
-	if err != nil {
-		return nil, nil, err
-	}
+	// the new database is in place, so failing to clean up must not fail the commit:
+	context.pConn.Close()
+	os.Remove(backupPath)
 
 	return pNewConn, pDataOffset, nil
 }
-- 
2.43.0


From 7df934cc2826d8a9489172c2dc99e47b766d795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 05/41] fix: opening a database reports read errors and invalid
 reference lengths

---
 .../infrastructure/files/application.go       | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 3bf0be3..46d0aa1 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -166,7 +166,7 @@ func (app *application) Open(name string) (*uint, error) {
 }
 
 func (app *application) makeChunkSize(length uint) uint {
-	if app.readChunkSize > length {
+	if app.readChunkSize <= 0 || app.readChunkSize > length {
 		return length
 	}
 
@@ -185,10 +185,14 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-	if err != nil || refAmount <= 0 {
+	if err == io.EOF && refAmount <= 0 {
 		return nil, 0, nil
 	}
 
+	if err != nil && err != io.EOF {
+		return nil, 0, err
+	}
+
 	if refAmount != expectedReferenceBytesLength {
 		str := fmt.Sprintf("%d bytes were expected to be read when reading the reference length bytes, %d actually read", expectedReferenceBytesLength, refAmount)
 		return nil, 0, errors.New(str)
@@ -197,6 +201,18 @@ func (app *application) retrieveReference(name string) (references.Reference, ui
 	// convert the reference length to uint64:
 	refLength := int(binary.LittleEndian.Uint64(refLengthBytes))
 
+	// the reference must be inside the file:
+	pInfo, err := pConn.Stat()
+	if err != nil {
+		return nil, 0, err
+	}
+
+	maxLength := int(pInfo.Size()) - expectedReferenceBytesLength
+	if refLength <= 0 || refLength > maxLength {
+		str := fmt.Sprintf("the reference length (%d) is invalid, the file contains at most %d bytes for the reference", refLength, maxLength)
+		return nil, 0, errors.New(str)
+	}
+
 	// read the reference data:
 	refAllBytes := []byte{}
 	offset := int64(expectedReferenceBytesLength)
-- 
2.43.0


From 288f2294dd3559fd74f4e62c78c6abfd50086b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 06/41] fix: reading a pointer outside of the data returns an
 error

---
 libs/databases/infrastructure/files/application.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 46d0aa1..75bda5e 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -305,8 +305,20 @@ func (app *application) Commits(context uint) (references.Commits, error) {
 // Read reads a pointer on a context
 func (app *application) Read(context uint, pointer references.Pointer) ([]byte, error) {
 	if pContext, ok := app.contexts[context]; ok {
-		offset := pContext.dataOffset + pointer.From()
+		from := pointer.From()
 		length := pointer.Length()
+		pInfo, err := pContext.pConn.Stat()
+		if err != nil {
+			return nil, err
+		}
+
+		dataSize := uint(pInfo.Size()) - pContext.dataOffset
+		if from > dataSize || length > dataSize-from {
+			str := fmt.Sprintf("the pointer (from: %d, length: %d) exceeds the data (size: %d) of the given context: %d", from, length, dataSize, context)
+			return nil, errors.New(str)
+		}
+
+		offset := pContext.dataOffset + from
 		contentBytes := make([]byte, length)
 		refContentAmount, err := pContext.pConn.ReadAt(contentBytes, int64(offset))
 		if err != nil {
-- 
2.43.0


From 82fd68fe2df993ddf5c2be14dc7742a88009a015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 07/41] fix: an open context keeps its identifier when another
 one is closed

---
 libs/databases/infrastructure/files/application.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 75bda5e..f2513ae 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -150,9 +150,19 @@ func (app *application) Open(name string) (*uint, error) {
 	// create a Lock instance on the path:
 	pLock := fslock.New(path)
 
+	// find the first free identifier:
+	identifier := uint(0)
+	for {
+		if _, ok := app.contexts[identifier]; !ok {
+			break
+		}
+
+		identifier++
+	}
+
 	// create the context:
 	pContext := &context{
-		identifier:  uint(len(app.contexts)),
+		identifier:  identifier,
 		pConn:       pConn,
 		pLock:       pLock,
 		name:        name,
-- 
2.43.0


From 50c8855a62b86b6ec10ad29dd933ff51c8ad3316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 08/41] fix: decoding a malformed hashtree returns an error
 instead of panicking

---
 libs/cryptography/domain/hashtrees/leaf_adapter.go  |  8 +++++++-
 .../cryptography/domain/hashtrees/leaves_adapter.go | 13 +++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/leaf_adapter.go b/libs/cryptography/domain/hashtrees/leaf_adapter.go
index 779dec9..c1b501d 100644
--- a/libs/cryptography/domain/hashtrees/leaf_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaf_adapter.go
@@ -154,7 +154,13 @@ func (app *leafAdapter) ContentToParentLeaf(content []byte) (ParentLeaf, error)
 		return nil, errors.New(str)
 	}
 
-	leftLength := int(binary.LittleEndian.Uint64(content[:8]))
+	leftAmount := binary.LittleEndian.Uint64(content[:8])
+	if leftAmount > uint64(contentLength-8) {
+		str := fmt.Sprintf("the left Leaf of the ParentLeaf instance was expected to contain %d bytes, but the content only contains %d bytes", leftAmount, contentLength)
+		return nil, errors.New(str)
+	}
+
+	leftLength := int(leftAmount)
 	left, err := app.ContentToLeaf(content[8 : 8+leftLength])
 	if err != nil {
 		return nil, err
diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 4a93b61..428e5f3 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -73,9 +73,18 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 	for i := 0; i < length; i++ {
 		lengthBeginsOn := lastEndsOn
 		lengthEndsOn := lengthBeginsOn + 8
-		leafLength := int(binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn]))
+		if contentLength < lengthEndsOn {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the length of a Leaf instance, %d provided", lengthEndsOn, contentLength)
+			return nil, errors.New(str)
+		}
+
+		leafLength := binary.LittleEndian.Uint64(content[lengthBeginsOn:lengthEndsOn])
+		if leafLength > uint64(contentLength-lengthEndsOn) {
+			str := fmt.Sprintf("the Leaf instance was expected to contain %d bytes, but the content only contains %d bytes", leafLength, contentLength)
+			return nil, errors.New(str)
+		}
 
-		endsOn := lengthEndsOn + leafLength
+		endsOn := lengthEndsOn + int(leafLength)
 		ins, err := app.leafAdapter.ContentToLeaf(content[lengthEndsOn:endsOn])
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 768c97489f17a857bc28df988b565e4ee626275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 09/41] fix: decoding malformed contents returns an error
 instead of panicking

---
 libs/databases/domain/contents/adapter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/databases/domain/contents/adapter.go b/libs/databases/domain/contents/adapter.go
index 69ca82a..49e79c9 100644
--- a/libs/databases/domain/contents/adapter.go
+++ b/libs/databases/domain/contents/adapter.go
@@ -59,7 +59,16 @@ func (app *adapter) ToInstance(content []byte) (Contents, error) {
 		}
 
 		sizeDelimiter := 8
+		if len(remaining) < sizeDelimiter {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the size of a Content instance, %d provided", sizeDelimiter, len(remaining))
+			return nil, errors.New(str)
+		}
+
 		size := binary.LittleEndian.Uint64(remaining[:sizeDelimiter])
+		if size > uint64(len(remaining)-sizeDelimiter) {
+			str := fmt.Sprintf("the Content instance was expected to contain %d bytes, but the content only contains %d bytes", size, len(remaining))
+			return nil, errors.New(str)
+		}
 
 		contentDelimiter := sizeDelimiter + int(size)
 		contentIns, err := app.contentAdapter.ToInstance(remaining[sizeDelimiter:contentDelimiter])
-- 
2.43.0


From 5812f1a734bf7954efe18d97324be49c0c6d6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:26 +0000
Subject: [PATCH 10/41] fix: decoding a malformed reference returns an error
 instead of panicking

---
 libs/databases/domain/references/adapter.go        | 14 ++++++++------
 libs/databases/domain/references/commit_adapter.go | 14 ++++++++++++++
 .../databases/domain/references/commits_adapter.go | 14 ++++++++++++--
 .../domain/references/contentkeys_adapter.go       |  8 +++++++-
 4 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/libs/databases/domain/references/adapter.go b/libs/databases/domain/references/adapter.go
index a833b38..db9b0ee 100644
--- a/libs/databases/domain/references/adapter.go
+++ b/libs/databases/domain/references/adapter.go
@@ -61,12 +61,13 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	contentKeysBytesLengthDelimiter := uint64(8)
 	contentKeysBytesLength := binary.LittleEndian.Uint64(content[:contentKeysBytesLengthDelimiter])
-	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
-	if contentLength < contentKeysBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the ContentKeys size of the Reference instance, %d provided", contentKeysBytesDelimiter, contentLength)
+	if contentKeysBytesLength > uint64(contentLength)-contentKeysBytesLengthDelimiter-8 {
+		str := fmt.Sprintf("the ContentKeys of the Reference instance were expected to contain %d bytes, but the content only contains %d bytes", contentKeysBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	contentKeysBytesDelimiter := int(contentKeysBytesLength + contentKeysBytesLengthDelimiter)
+
 	contentKeys, err := app.contentKeysAdapter.ToContentKeys(content[contentKeysBytesLengthDelimiter:contentKeysBytesDelimiter])
 	if err != nil {
 		return nil, err
@@ -74,12 +75,13 @@ func (app *adapter) ToReference(content []byte) (Reference, error) {
 
 	commitBytesLengthDelimiter := uint64(contentKeysBytesDelimiter + 8)
 	commitBytesLength := binary.LittleEndian.Uint64(content[contentKeysBytesDelimiter:commitBytesLengthDelimiter])
-	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
-	if contentLength < commitBytesDelimiter {
-		str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the Commits size of the Reference instance, %d provided", commitBytesDelimiter, contentLength)
+	if commitBytesLength > uint64(contentLength)-commitBytesLengthDelimiter {
+		str := fmt.Sprintf("the Commits of the Reference instance were expected to contain %d bytes, but the content only contains %d bytes", commitBytesLength, contentLength)
 		return nil, errors.New(str)
 	}
 
+	commitBytesDelimiter := int(commitBytesLength + commitBytesLengthDelimiter)
+
 	commits, err := app.commitsAdapter.ToCommits(content[commitBytesLengthDelimiter:commitBytesDelimiter])
 	if err != nil {
 		return nil, err
diff --git a/libs/databases/domain/references/commit_adapter.go b/libs/databases/domain/references/commit_adapter.go
index dd77eed..00d71fa 100644
--- a/libs/databases/domain/references/commit_adapter.go
+++ b/libs/databases/domain/references/commit_adapter.go
@@ -84,6 +84,11 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 	valuesBytesAmountDelimiter := createdOnDelimiter + 8
 	valueBytesAmount := binary.LittleEndian.Uint64(content[createdOnDelimiter:valuesBytesAmountDelimiter])
 
+	if valueBytesAmount > uint64(contentLength-valuesBytesAmountDelimiter) {
+		str := fmt.Sprintf("the values of the Commit instance were expected to contain %d bytes, but the content only contains %d bytes", valueBytesAmount, contentLength)
+		return nil, errors.New(str)
+	}
+
 	valueBytesDelimiter := valuesBytesAmountDelimiter + int(valueBytesAmount)
 	values, err := app.hashTreeAdapter.ToHashTree(content[valuesBytesAmountDelimiter:valueBytesDelimiter])
 	if err != nil {
@@ -96,7 +101,16 @@ func (app *commitAdapter) ToCommit(content []byte) (Commit, error) {
 		if remaining[0:1][0] == 0 {
 			remaining = remaining[1:]
 			proofBytesLengthDelimiter := 8
+			if len(remaining) < proofBytesLengthDelimiter {
+				str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the proof length of the Commit instance, %d provided", proofBytesLengthDelimiter, len(remaining))
+				return nil, errors.New(str)
+			}
+
 			proofBytesLength := binary.LittleEndian.Uint64(remaining[:proofBytesLengthDelimiter])
+			if proofBytesLength > uint64(len(remaining)-proofBytesLengthDelimiter) {
+				str := fmt.Sprintf("the proof of the Commit instance was expected to contain %d bytes, but the content only contains %d bytes", proofBytesLength, len(remaining))
+				return nil, errors.New(str)
+			}
 
 			proofBytesDelimiter := proofBytesLengthDelimiter + int(proofBytesLength)
 			pProof := big.NewInt(int64(0)).SetBytes(remaining[proofBytesLengthDelimiter:proofBytesDelimiter])
diff --git a/libs/databases/domain/references/commits_adapter.go b/libs/databases/domain/references/commits_adapter.go
index 0015a1c..291eba8 100644
--- a/libs/databases/domain/references/commits_adapter.go
+++ b/libs/databases/domain/references/commits_adapter.go
@@ -60,8 +60,18 @@ func (app *commitsAdapter) ToCommits(content []byte) (Commits, error) {
 		}
 
 		lengthDelimiter := index + 8
-		length := int(binary.LittleEndian.Uint64(content[index:lengthDelimiter]))
-		contentDelimiter := lengthDelimiter + length
+		if len(content) < lengthDelimiter {
+			str := fmt.Sprintf("the content was expected to contain at least %d bytes in order to retrieve the length of a Commit instance, %d provided", lengthDelimiter, len(content))
+			return nil, errors.New(str)
+		}
+
+		length := binary.LittleEndian.Uint64(content[index:lengthDelimiter])
+		if length > uint64(len(content)-lengthDelimiter) {
+			str := fmt.Sprintf("the Commit instance was expected to contain %d bytes, but the content only contains %d bytes", length, len(content))
+			return nil, errors.New(str)
+		}
+
+		contentDelimiter := lengthDelimiter + int(length)
 		ins, err := app.adapter.ToCommit(content[lengthDelimiter:contentDelimiter])
 		if err != nil {
 			return nil, err
diff --git a/libs/databases/domain/references/contentkeys_adapter.go b/libs/databases/domain/references/contentkeys_adapter.go
index 4699e79..f9a2c9e 100644
--- a/libs/databases/domain/references/contentkeys_adapter.go
+++ b/libs/databases/domain/references/contentkeys_adapter.go
@@ -53,7 +53,13 @@ func (app *contentKeysAdapter) ToContentKeys(content []byte) (ContentKeys, error
 	}
 
 	list := []ContentKey{}
-	length := int(binary.LittleEndian.Uint64(content[:8]))
+	amount := binary.LittleEndian.Uint64(content[:8])
+	if amount > uint64((len(content)-8)/contentKeySize) {
+		str := fmt.Sprintf("the content was expected to contain %d ContentKey instances, but it only contains %d bytes", amount, len(content))
+		return nil, errors.New(str)
+	}
+
+	length := int(amount)
 	for i := 0; i < length; i++ {
 		beginsOn := 8 + (i * contentKeySize)
 		endsOn := beginsOn + contentKeySize
-- 
2.43.0


From 82dc1fd4b12e1e15114f1edd7f66272a7ff406f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:34 +0000
Subject: [PATCH 11/41] fix: opening a database reads its reference and its
 data from the same file

---
 .../infrastructure/files/application.go       | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index f2513ae..de52a65 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -135,15 +135,17 @@ func (app *application) Open(name string) (*uint, error) {
 		}
 	}
 
-	reference, offset, err := app.retrieveReference(name)
+	// open the connection:
+	path := filepath.Join(app.dirPath, name)
+	pConn, err := os.Open(path)
 	if err != nil {
 		return nil, err
 	}
 
-	// open the connection:
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
+	// retrieve the reference from the same connection:
+	reference, offset, err := app.retrieveReference(pConn)
 	if err != nil {
+		pConn.Close()
 		return nil, err
 	}
 
@@ -183,15 +185,7 @@ func (app *application) makeChunkSize(length uint) uint {
 	return app.readChunkSize
 }
 
-func (app *application) retrieveReference(name string) (references.Reference, uint, error) {
-	path := filepath.Join(app.dirPath, name)
-	pConn, err := os.Open(path)
-	if err != nil {
-		return nil, 0, err
-	}
-
-	defer pConn.Close()
-
+func (app *application) retrieveReference(pConn *os.File) (references.Reference, uint, error) {
 	// read the reference length in bytes:
 	refLengthBytes := make([]byte, expectedReferenceBytesLength)
 	refAmount, err := pConn.ReadAt(refLengthBytes, 0)
-- 
2.43.0


From dae31e54376462a29d07cd4b9cf7c9125e39b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:36 +0000
Subject: [PATCH 12/41] fix: a commit is refused when another process updated
 the database since it was opened

---
 .../infrastructure/files/application.go       | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index de52a65..7e94b99 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -543,6 +543,12 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	// release the lock on closing the method:
 	defer context.pLock.Unlock()
 
+	// the context must still be on the current database, otherwise the commit would drop the content of another context:
+	err = app.verifyCurrent(context)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// write data on the destination file:
 	pDataOffset, err := app.writeDataAndReferenceOnDestinationFile(context, updatedReference)
 	if err != nil {
@@ -595,6 +601,25 @@ func (app *application) updateDatabaseOnFile(context *context, updatedReference
 	return pNewConn, pDataOffset, nil
 }
 
+func (app *application) verifyCurrent(context *context) error {
+	currentInfo, err := os.Stat(filepath.Join(app.dirPath, context.name))
+	if err != nil {
+		return err
+	}
+
+	contextInfo, err := context.pConn.Stat()
+	if err != nil {
+		return err
+	}
+
+	if !os.SameFile(currentInfo, contextInfo) {
+		str := fmt.Sprintf("the database (name: %s) was updated since the context (%d) was opened and therefore cannot be comitted", context.name, context.identifier)
+		return errors.New(str)
+	}
+
+	return nil
+}
+
 func (app *application) writeDataAndReferenceOnDestinationFile(context *context, updatedReference references.Reference) (*uint, error) {
 	// destination path:
 	destinationFile := fmt.Sprintf("%s%s%s", context.name, fileNameExtensionDelimiter, app.dstExtension)
-- 
2.43.0


From 9d2c5918b887de3e52753266aaf5297456f06b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 13/41] fix: ordering data uses every block once, so that empty
 and repeated blocks are ordered

---
 libs/cryptography/domain/hashtrees/adapter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libs/cryptography/domain/hashtrees/adapter.go b/libs/cryptography/domain/hashtrees/adapter.go
index fdd8ca4..9b82513 100644
--- a/libs/cryptography/domain/hashtrees/adapter.go
+++ b/libs/cryptography/domain/hashtrees/adapter.go
@@ -96,7 +96,7 @@ func (app *adapter) ToCompact(ins HashTree) (Compact, error) {
 
 // ToOrder takes an hashtree and mixed data and re-order the data according to the hashTree
 func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range mixed {
 		hsh, err := app.hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -104,7 +104,7 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
@@ -116,8 +116,9 @@ func (app *adapter) ToOrder(ins HashTree, mixed [][]byte) ([][]byte, error) {
 	list := leaves.Leaves()
 	for _, oneLeaf := range list {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if list := hashed[leafHashAsString]; len(list) > 0 {
+			out = append(out, list[0])
+			hashed[leafHashAsString] = list[1:]
 			continue
 		}
 
-- 
2.43.0


From 8150d5028ee48b193e7e250992869413c0be1bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 14/41] fix: building a hashtree of one block does not write
 into the slice of the caller

---
 libs/cryptography/domain/hashtrees/builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/cryptography/domain/hashtrees/builder.go b/libs/cryptography/domain/hashtrees/builder.go
index c776469..626e325 100644
--- a/libs/cryptography/domain/hashtrees/builder.go
+++ b/libs/cryptography/domain/hashtrees/builder.go
@@ -79,7 +79,7 @@ func (app *builder) Now() (HashTree, error) {
 	}
 
 	if len(app.blocks) <= 1 {
-		app.blocks = append(app.blocks, []byte(""))
+		app.blocks = append(app.blocks[:len(app.blocks):len(app.blocks)], []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-- 
2.43.0


From 79c9c0dd8fc9a1fd50fcd69d06c9568b475c23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:39 +0000
Subject: [PATCH 15/41] fix: converting an unpaired list of leaves to a
 hashtree returns an error instead of panicking

---
 libs/cryptography/domain/hashtrees/leaves_adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/cryptography/domain/hashtrees/leaves_adapter.go b/libs/cryptography/domain/hashtrees/leaves_adapter.go
index 428e5f3..4c81dfe 100644
--- a/libs/cryptography/domain/hashtrees/leaves_adapter.go
+++ b/libs/cryptography/domain/hashtrees/leaves_adapter.go
@@ -101,6 +101,11 @@ func (app *leavesAdapter) ToLeaves(content []byte) (Leaves, error) {
 func (app *leavesAdapter) ToHashTree(ins Leaves) (HashTree, error) {
 	list := ins.Leaves()
 	length := len(list)
+	if length < 2 || length&(length-1) != 0 {
+		str := fmt.Sprintf("the amount of leaves (%d) must be a power of two (2) and at least two (2) in order to convert to an HashTree instance", length)
+		return nil, errors.New(str)
+	}
+
 	if length == 2 {
 		left := list[0]
 		right := list[1]
-- 
2.43.0


From fa3de5954bffc89c21abaa0c0a81d38138c4166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 16/41] fix: a compose in a line matches every occurence of its
 values

---
 libs/asts/applications/application.go | 36 +++++++++++++--------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 8c87ccf..f5fd86a 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -743,30 +743,28 @@ func (app *application) line(tokenName string, stackMap map[string]*stack, line
 			elementsList := compose.List()
 			for _, oneElement := range elementsList {
 				grValue := oneElement.Value()
-				value, rem, retStack, err := app.elementValue(tokenName, grValue, stackMap, escape, channels, isReverse, prevData, remaining)
-				if err != nil {
-					return nil, nil, nil, err
-				}
+				occurences := int(oneElement.Occurences())
+				for i := 0; i < occurences; i++ {
+					value, rem, retStack, err := app.elementValue(tokenName, grValue, currentStack, escape, channels, isReverse, previousData, remaining)
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentBuilder := app.treeContentBuilder.Create()
-				if value != nil {
-					contentBuilder.WithValue(value)
-				}
+					if value == nil {
+						str := fmt.Sprintf("the value (name: %s) of the compose (name: %s) does not match the given data", grValue.Name(), compose.Name())
+						return nil, nil, nil, errors.New(str)
+					}
 
-				contentIns, err := contentBuilder.Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
+					contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
+					if err != nil {
+						return nil, nil, nil, err
+					}
 
-				contentsList := []trees.Content{}
-				occurences := int(oneElement.Occurences())
-				for i := 0; i < occurences; i++ {
 					contentsList = append(contentsList, contentIns)
+					currentStack = retStack
+					previousData = remaining
+					remaining = rem
 				}
-
-				currentStack = retStack
-				previousData = remaining
-				remaining = rem
 			}
 
 			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-- 
2.43.0


From 1d75dcf5721c17740033641ab8c53c223ec5874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 17/41] fix: an external grammar keeps the data and the
 channels that follow it

---
 libs/asts/applications/application.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index f5fd86a..c804a1a 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -578,7 +578,16 @@ func (app *application) external(external grammars.External, isReverse bool, pre
 	}
 
 	treeBlock := treeIns.Block()
-	return app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock).Now()
+	treeBuilder := app.treeBuilder.Create().WithGrammar(grammarRoot).WithBlock(treeBlock)
+	if treeIns.HasSuffix() {
+		treeBuilder.WithSuffix(treeIns.Suffix())
+	}
+
+	if treeIns.HasRemaining() {
+		treeBuilder.WithRemaining(treeIns.Remaining())
+	}
+
+	return treeBuilder.Now()
 }
 
 func (app *application) block(token grammars.Token, stackMap map[string]*stack, block grammars.Block, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
-- 
2.43.0


From d439ce2be237c4b09fe968c28955f9a0a46ab14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 18/41] fix: a recursive token can be matched several times in
 a line

---
 libs/asts/applications/application.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index c804a1a..4108dec 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -511,16 +511,28 @@ func (app *application) grammar(grammar grammars.Grammar, isReverse bool, prevDa
 
 func (app *application) token(token grammars.Token, stackMap map[string]*stack, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Tree, map[string]*stack, error) {
 	tokenName := token.Name()
-	if _, ok := stackMap[tokenName]; !ok {
-		stackMap[tokenName] = &stack{
-			token: token,
-			lines: map[int][]byte{},
+	current := &stack{
+		token: token,
+		lines: map[int][]byte{},
+	}
+
+	previous, isNested := stackMap[tokenName]
+	if isNested {
+		// the nested execution must not change the lines of the one that contains it:
+		current.token = previous.token
+		for idx, data := range previous.lines {
+			current.lines[idx] = data
 		}
 	}
 
+	stackMap[tokenName] = current
 	tokenBlock := token.Block()
 	block, remaining, retStackMap, err := app.block(token, stackMap, tokenBlock, escape, channels, isReverse, prevData, currentData)
 	delete(stackMap, tokenName)
+	if isNested {
+		stackMap[tokenName] = previous
+	}
+
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From dbd2b31cbe7c799d2a194cfcd864776d2d1713d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:48 +0000
Subject: [PATCH 19/41] fix: everything except a token stops at any of its
 lines, and survives an escaped exception at the end

---
 libs/asts/applications/application.go | 203 ++++++++++++++------------
 1 file changed, 108 insertions(+), 95 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 4108dec..18cde0e 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -608,6 +608,9 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 	lines := block.Lines()
 	remaining := currentData
 	currentStack := stackMap
+	if isReverse {
+		return app.reverseBlock(tokenName, stackMap, lines, escape, prevData, currentData)
+	}
 
 	for idx, oneLine := range lines {
 		// if we already went through this line, with the same data, in the stack, skip it to avoid infinite loops:
@@ -629,101 +632,6 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 
 		currentStack[tokenName].lines[idx] = remaining
 
-		// if the line is in reverse:
-		if isReverse {
-			previousData := prevData
-			contentsList := []trees.Content{}
-
-			for {
-				if len(remaining) <= 0 {
-					break
-				}
-
-				if escape != nil {
-					escapeTree, _, err := app.token(escape, stackMap, nil, channels, false, previousData, remaining)
-					if err == nil {
-						if escapeTree.Block().HasSuccessful() {
-							if escapeTree.HasRemaining() {
-								escapeRemaining := escapeTree.Remaining()
-								treeLine, rem, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, remaining, escapeRemaining)
-								if err == nil && treeLine.IsSuccessful() {
-									amount := len(escapeRemaining) - len(rem)
-									values := escapeRemaining[:amount]
-									for _, oneValue := range values {
-										value, err := app.treeValueBuilder.Create().WithContent(oneValue).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-										if err != nil {
-											return nil, nil, nil, err
-										}
-
-										contentsList = append(contentsList, contentIns)
-									}
-
-									previousData = escapeRemaining
-									remaining = escapeRemaining[amount:]
-								}
-							}
-						}
-					}
-				}
-
-				_, _, _, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, previousData, remaining)
-				if err == nil {
-					break
-				}
-
-				value, err := app.treeValueBuilder.Create().WithContent(remaining[0]).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
-
-				contentIns, err := app.treeContentBuilder.Create().WithValue(value).Now()
-				if err != nil {
-					return nil, nil, nil, err
-				}
-
-				contentsList = append(contentsList, contentIns)
-				previousData = remaining
-				remaining = remaining[1:]
-			}
-
-			contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
-				elementIns,
-			}).Now()
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			lineIns, err := app.treeLineBuilder.Create().
-				WithIndex(uint(idx)).
-				WithGrammar(oneLine).
-				WithElements(elements).
-				IsReverse().
-				Now()
-
-			if err != nil {
-				return nil, nil, nil, err
-			}
-
-			list = append(list, lineIns)
-			break
-		}
-
-		// the line is NOT in reverse:
 		lineIns, rem, retStack, err := app.line(tokenName, currentStack, oneLine, uint(idx), escape, channels, isReverse, prevData, remaining)
 		if err != nil {
 			continue
@@ -751,6 +659,111 @@ func (app *application) block(token grammars.Token, stackMap map[string]*stack,
 	return blockIns, remaining, currentStack, nil
 }
 
+func (app *application) reverseBlock(tokenName string, stackMap map[string]*stack, lines []grammars.Line, escape grammars.Token, prevData []byte, currentData []byte) (trees.Block, []byte, map[string]*stack, error) {
+	remaining := currentData
+	previousData := prevData
+	contentsList := []trees.Content{}
+	for len(remaining) > 0 {
+		// an escaped exception is part of the content, without its escape:
+		if escape != nil {
+			escapeTree, _, err := app.token(escape, stackMap, nil, nil, false, previousData, remaining)
+			if err == nil && escapeTree.Block().HasSuccessful() && escapeTree.HasRemaining() {
+				escapeRemaining := escapeTree.Remaining()
+				rem, isMatch := app.matchesLine(tokenName, stackMap, lines, remaining, escapeRemaining)
+				if isMatch {
+					amount := len(escapeRemaining) - len(rem)
+					for _, oneValue := range escapeRemaining[:amount] {
+						contentIns, err := app.valueContent(oneValue)
+						if err != nil {
+							return nil, nil, nil, err
+						}
+
+						contentsList = append(contentsList, contentIns)
+					}
+
+					previousData = escapeRemaining
+					remaining = rem
+					continue
+				}
+			}
+		}
+
+		// the exception ends the content:
+		if _, isMatch := app.matchesLine(tokenName, stackMap, lines, previousData, remaining); isMatch {
+			break
+		}
+
+		contentIns, err := app.valueContent(remaining[0])
+		if err != nil {
+			return nil, nil, nil, err
+		}
+
+		contentsList = append(contentsList, contentIns)
+		previousData = remaining
+		remaining = remaining[1:]
+	}
+
+	contents, err := app.treeContentsBuilder.Create().WithList(contentsList).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	elementIns, err := app.treeElementBuilder.Create().WithContents(contents).Now()
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	elements, err := app.treeElementsBuilder.Create().WithList([]trees.Element{
+		elementIns,
+	}).Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	lineIns, err := app.treeLineBuilder.Create().
+		WithIndex(0).
+		WithGrammar(lines[0]).
+		WithElements(elements).
+		IsReverse().
+		Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	blockIns, err := app.treeBlockBuilder.Create().WithLines([]trees.Line{
+		lineIns,
+	}).Now()
+
+	if err != nil {
+		return nil, nil, nil, err
+	}
+
+	return blockIns, remaining, stackMap, nil
+}
+
+// matchesLine returns the data that follows the first line that matches the beginning of the data, if any
+func (app *application) matchesLine(tokenName string, stackMap map[string]*stack, lines []grammars.Line, prevData []byte, currentData []byte) ([]byte, bool) {
+	for idx, oneLine := range lines {
+		treeLine, remaining, _, err := app.line(tokenName, stackMap, oneLine, uint(idx), nil, nil, false, prevData, currentData)
+		if err == nil && treeLine.IsSuccessful() {
+			return remaining, true
+		}
+	}
+
+	return nil, false
+}
+
+func (app *application) valueContent(content byte) (trees.Content, error) {
+	value, err := app.treeValueBuilder.Create().WithContent(content).Now()
+	if err != nil {
+		return nil, err
+	}
+
+	return app.treeContentBuilder.Create().WithValue(value).Now()
+}
+
 func (app *application) line(tokenName string, stackMap map[string]*stack, line grammars.Line, index uint, escape grammars.Token, channels grammars.Channels, isReverse bool, prevData []byte, currentData []byte) (trees.Line, []byte, map[string]*stack, error) {
 	list := []trees.Element{}
 	grContainers := line.Containers()
-- 
2.43.0


From ad77ed7f80ee8b2df594c69a9269ac6f1112b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:41 +0000
Subject: [PATCH 20/41] fix: a line can contain the same element or compose
 name several times

---
 libs/asts/domain/trees/line.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/libs/asts/domain/trees/line.go b/libs/asts/domain/trees/line.go
index 7af697c..04d5595 100644
--- a/libs/asts/domain/trees/line.go
+++ b/libs/asts/domain/trees/line.go
@@ -96,13 +96,7 @@ func (obj *line) IsSuccessful() bool {
 			}
 
 			requestedName := requestedElement.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
-				return false
-			}
-
-			amount := element.Amount()
-			if requestedMin > amount {
+			if !obj.hasElement(requestedName, func(amount uint) bool { return amount >= requestedMin }) {
 				return false
 			}
 		}
@@ -116,13 +110,7 @@ func (obj *line) IsSuccessful() bool {
 			}
 
 			requestedName := compose.Name()
-			element, err := obj.elements.Fetch(requestedName)
-			if err != nil {
-				return false
-			}
-
-			amount := element.Amount()
-			if amount != requestedOccurences {
+			if !obj.hasElement(requestedName, func(amount uint) bool { return amount == requestedOccurences }) {
 				return false
 			}
 		}
@@ -130,3 +118,18 @@ func (obj *line) IsSuccessful() bool {
 
 	return true
 }
+
+// hasElement returns true if an element of that name contains a valid amount, false otherwise
+func (obj *line) hasElement(name string, isValid func(amount uint) bool) bool {
+	for _, oneElement := range obj.elements.List() {
+		if !oneElement.HasGrammar() || oneElement.Grammar().Name() != name {
+			continue
+		}
+
+		if isValid(oneElement.Amount()) {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 0e9f9644b35138f0d861b5cd03b990c7ec386be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 21/41] fix: a grammar without suites has nothing covered
 instead of panicking

---
 libs/asts/applications/application.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 18cde0e..a5112c2 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -154,6 +154,10 @@ func (app *application) Coverages(grammar grammars.Grammar) (coverages.Coverages
 // Covered returns the covered tokens
 func (app *application) Covered(coverages coverages.Coverages) (map[string]map[uint]map[uint]string, error) {
 	coveredElements := map[string]map[uint]map[uint]string{}
+	if coverages == nil {
+		return coveredElements, nil
+	}
+
 	err := app.findCoveraredElements(coverages, &coveredElements)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 60af708a97131d565e0c3fb82ff5696b3b297f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 22/41] fix: the covered elements are identified like the
 elements of the grammar

---
 libs/asts/applications/application.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index a5112c2..1b48a57 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -464,13 +464,21 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 
 	line := block.Successful()
 	index := line.Index()
+	containersList := line.Grammar().Containers()
+	containerIdx := 0
 	elementsList := line.Elements().List()
-	for elIdx, oneElement := range elementsList {
+	for _, oneElement := range elementsList {
 		if !oneElement.HasGrammar() {
 			continue
 		}
 
-		elementName := oneElement.Grammar().Name()
+		// the optional containers that are absent from the line are not covered:
+		container := oneElement.Grammar()
+		for containersList[containerIdx] != container {
+			containerIdx++
+		}
+
+		elementName := container.Name()
 		covered := *pCovered
 		if _, ok := covered[tokenName]; !ok {
 			covered[tokenName] = map[uint]map[uint]string{}
@@ -480,16 +488,22 @@ func (app *application) findCoveraredElementsFromBlock(tokenName string, block t
 			covered[tokenName][index] = map[uint]string{}
 		}
 
-		castedElIdx := uint(elIdx)
+		castedElIdx := uint(containerIdx)
+		containerIdx++
 		if _, ok := covered[tokenName][index][castedElIdx]; !ok {
 			covered[tokenName][index][castedElIdx] = elementName
 		}
 
+		subTokenName := elementName
+		if container.IsElement() && container.Element().Content().IsExternal() {
+			subTokenName = container.Element().Content().External().Grammar().Root().Name()
+		}
+
 		contents := oneElement.Contents().List()
 		for _, oneContent := range contents {
 			if oneContent.IsTree() {
 				subBlock := oneContent.Tree().Block()
-				err := app.findCoveraredElementsFromBlock(elementName, subBlock, &covered)
+				err := app.findCoveraredElementsFromBlock(subTokenName, subBlock, &covered)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From 0299252493f591ca23063aec7c74336bdb1a8e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:11 +0000
Subject: [PATCH 23/41] fix: the bytes of a content include the channels of its
 value

---
 libs/asts/domain/trees/content.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/asts/domain/trees/content.go b/libs/asts/domain/trees/content.go
index 6ff43ed..f3ba951 100644
--- a/libs/asts/domain/trees/content.go
+++ b/libs/asts/domain/trees/content.go
@@ -32,9 +32,12 @@ func createContentInternally(
 // Bytes returns the content's bytes
 func (obj *content) Bytes(includeChannels bool) []byte {
 	if obj.IsValue() {
-		return []byte{
-			obj.Value().Content(),
+		output := []byte{}
+		if includeChannels && obj.Value().HasPrefix() {
+			output = append(output, obj.Value().Prefix().Bytes(includeChannels)...)
 		}
+
+		return append(output, obj.Value().Content())
 	}
 
 	return obj.Tree().Bytes(includeChannels)
-- 
2.43.0


From 13d52cf15ad2daecec570dfac2e6f0867458ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:14 +0000
Subject: [PATCH 24/41] fix: a channel that contains an escaped value is
 skipped entirely

---
 libs/asts/applications/application.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 1b48a57..6c79776 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1069,8 +1069,7 @@ func (app *application) channels(channels grammars.Channels, prevData []byte, cu
 				continue
 			}
 
-			prefixLength := len(tree.Bytes(true))
-			rem := remaining[prefixLength:]
+			rem := tree.Remaining()
 			if len(rem) == len(remaining) {
 				continue
 			}
-- 
2.43.0


From 728dc013c59052647c9e5fdb7f5400791832b8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:16 +0000
Subject: [PATCH 25/41] fix: a channel condition is met only by a token that
 matches

---
 libs/asts/applications/application.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index 6c79776..ba51dac 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -1128,7 +1128,7 @@ func (app *application) channelCondition(condition grammars.ChannelCondition, pr
 			return false, err
 		}
 
-		isPrevMatch = tree != nil
+		isPrevMatch = tree.Block().HasSuccessful()
 	}
 
 	isNextMatch := true
@@ -1139,7 +1139,7 @@ func (app *application) channelCondition(condition grammars.ChannelCondition, pr
 			return false, err
 		}
 
-		isNextMatch = tree != nil
+		isNextMatch = tree.Block().HasSuccessful()
 	}
 	return isPrevMatch && isNextMatch, nil
 }
-- 
2.43.0


From 150f3b6701b59e2c51a09327b863e6a3becc39ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:18 +0000
Subject: [PATCH 26/41] fix: the condition of a channel that follows a token is
 verified against that token

---
 libs/asts/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/asts/applications/application.go b/libs/asts/applications/application.go
index ba51dac..5b66b4f 100644
--- a/libs/asts/applications/application.go
+++ b/libs/asts/applications/application.go
@@ -563,7 +563,7 @@ func (app *application) token(token grammars.Token, stackMap map[string]*stack,
 
 	builder := app.treeBuilder.Create().WithGrammar(token).WithBlock(block)
 	if channels != nil {
-		suffix, rem, err := app.channels(channels, prevData, remaining)
+		suffix, rem, err := app.channels(channels, currentData, remaining)
 		if err == nil {
 			builder.WithSuffix(suffix)
 			remaining = rem
-- 
2.43.0


From e99cd49a47d1140a1466c8e15bc37b93e435b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:50 +0000
Subject: [PATCH 27/41] fix: a query that skips the content of an everything
 does not panic

---
 libs/queries/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index a6f0971..cbd5974 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -80,6 +80,7 @@ func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]t
 			}
 
 			cpt++
+			continue
 		}
 
 		if oneElement.Grammar().Name() != queryElement.Name() {
-- 
2.43.0


From 4c3a537a7d96cdc9a45113eda252c392b70ec9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 28/41] fix: a query on an absent element returns an error
 instead of panicking

---
 libs/queries/applications/application.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index cbd5974..db86f4e 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -145,7 +145,7 @@ func (app *application) insideInstances(inside queries.Inside, contentList []tre
 	if inside.IsFn() {
 		fn := inside.Fn()
 		if fn.IsSingle() {
-			if len(contentList) < 0 {
+			if len(contentList) <= 0 {
 				str := fmt.Sprintf("%d content instances were expected in the Content list, %d were provided", 1, len(contentList))
 				return nil, errors.New(str)
 			}
-- 
2.43.0


From 428b5dbfc30607f4f1775f95557a73c84c21029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:48 +0000
Subject: [PATCH 29/41] fix: a token of all the characters matches every byte
 of its text

---
 instances/grammars/components/tokens/token.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instances/grammars/components/tokens/token.go b/instances/grammars/components/tokens/token.go
index 903c412..a157ee0 100644
--- a/instances/grammars/components/tokens/token.go
+++ b/instances/grammars/components/tokens/token.go
@@ -37,7 +37,7 @@ func createToken(
 // AllCharacters returns the all character token
 func (app *token) AllCharacters(tokenName string, values string) grammars.Token {
 	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
+	for _, oneValue := range []byte(values) {
 		element := app.element.FromValue(byte(oneValue))
 		elementsList = append(elementsList, element)
 	}
@@ -103,7 +103,7 @@ func (app *token) FromBlock(name string, block grammars.Block, suites grammars.S
 
 func (app *token) allCharacterToken(tokenName string, values string) grammars.Token {
 	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
+	for _, oneValue := range []byte(values) {
 		element := app.element.FromValue(byte(oneValue))
 		elementsList = append(elementsList, element)
 	}
-- 
2.43.0


From 1c79c709234c67863c9c77ae17a2c5a324dc88a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:39 +0000
Subject: [PATCH 30/41] fix: a value assignment of the grammar ends at its
 suffix instead of taking all of the script

---
 instances/grammars/grammars/grammar.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instances/grammars/grammars/grammar.go b/instances/grammars/grammars/grammar.go
index fa3751a..a90ae23 100644
--- a/instances/grammars/grammars/grammar.go
+++ b/instances/grammars/grammars/grammar.go
@@ -360,7 +360,8 @@ func (app *grammar) valueAssignmentToken() grammars.Token {
 			app.component.Line().FromElements([]grammars.Element{
 				app.component.Element().FromToken(app.token.VariableName(), app.component.Cardinality().Once()),
 				app.component.Element().FromValue([]byte(assignmentSign)[0]),
-				app.component.Element().FromToken(app.token.AnyByte(), app.component.Cardinality().Cardinality(1, nil)),
+				app.component.Element().FromToken(app.token.AnyNumber(), app.component.Cardinality().Cardinality(1, nil)),
+				app.component.Element().FromValue([]byte(instructionSuffix)[0]),
 			}),
 		}),
 		app.component.Suite().Suites(map[string]bool{
-- 
2.43.0


From 9658603837430a99517ef6cf486662573708fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 31/41] fix: a recursive query is the one that encloses it, not
 one executed before it

---
 libs/queries/applications/application.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index db86f4e..4c28a1d 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -47,8 +47,16 @@ func (app *application) queryFetch(query queries.Query, tree trees.Tree, previou
 		previous = map[string]queries.Query{}
 	}
 
-	previous[query.Token().Name()] = query
-	return app.queryInstance(query, contentsList, previous)
+	// the enclosing query of the same token is the recursive one again once this one is executed:
+	name := query.Token().Name()
+	enclosing, isEnclosed := previous[name]
+	previous[name] = query
+	ins, isValid, err := app.queryInstance(query, contentsList, previous)
+	if isEnclosed {
+		previous[name] = enclosing
+	}
+
+	return ins, isValid, err
 }
 
 func (app *application) queryContents(query queries.Query, tree trees.Tree) ([]trees.Content, error) {
-- 
2.43.0


From bf75db84a51d9d2aca10b9d5d98a796a2ae8a30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 32/41] fix: a token of any character matches characters of
 several bytes

---
 instances/grammars/components/tokens/token.go | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/instances/grammars/components/tokens/token.go b/instances/grammars/components/tokens/token.go
index a157ee0..718733d 100644
--- a/instances/grammars/components/tokens/token.go
+++ b/instances/grammars/components/tokens/token.go
@@ -1,6 +1,8 @@
 package tokens
 
 import (
+	"unicode/utf8"
+
 	components_blocks "github.com/steve-care-software/rodkina/instances/grammars/components/blocks"
 	components_elements "github.com/steve-care-software/rodkina/instances/grammars/components/elements"
 	components_lines "github.com/steve-care-software/rodkina/instances/grammars/components/lines"
@@ -50,16 +52,24 @@ func (app *token) AllCharacters(tokenName string, values string) grammars.Token
 // AnyCharacter returns the any character token
 func (app *token) AnyCharacter(tokenName string, values string) grammars.Token {
 	suitesData := map[string]bool{}
-	elementsList := []grammars.Element{}
-	for _, oneValue := range values {
-		element := app.element.FromValue(byte(oneValue))
-		elementsList = append(elementsList, element)
-		suitesData[string(oneValue)] = true
+	linesList := []grammars.Line{}
+	for len(values) > 0 {
+		// a character can be made of several bytes:
+		_, amount := utf8.DecodeRuneInString(values)
+		elementsList := []grammars.Element{}
+		for _, oneValue := range []byte(values[:amount]) {
+			element := app.element.FromValue(oneValue)
+			elementsList = append(elementsList, element)
+		}
+
+		linesList = append(linesList, app.line.FromElements(elementsList))
+		suitesData[values[:amount]] = true
+		values = values[amount:]
 	}
 
-	return app.AnyElement(
+	return app.FromBlock(
 		tokenName,
-		elementsList,
+		app.block.FromLines(linesList),
 		app.suite.Suites(suitesData),
 	)
 }
-- 
2.43.0


From ad4050d6d08e2a79333e687f125a9d71eae58101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:52 +0000
Subject: [PATCH 33/41] fix: a commit on a deleted database does not create it
 again

---
 libs/databases/infrastructure/files/application.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 7e94b99..d4b9a53 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -534,8 +534,14 @@ func (app *application) updateReference(context uint) (references.Reference, err
 }
 
 func (app *application) updateDatabaseOnFile(context *context, updatedReference references.Reference) (*os.File, *uint, error) {
+	// locking creates a missing file, so a deleted database must be refused before:
+	err := app.verifyCurrent(context)
+	if err != nil {
+		return nil, nil, err
+	}
+
 	// create a lock on the file:
-	err := context.pLock.TryLock()
+	err = context.pLock.TryLock()
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 5e38b24c36c1c7b20131444fbb08b16b2b8729a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:54 +0000
Subject: [PATCH 34/41] fix: creating a database never replaces one that
 another process creates meanwhile

---
 libs/databases/infrastructure/files/application.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index d4b9a53..16dfc67 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -102,7 +102,8 @@ func (app *application) New(name string) error {
 		return errors.New(str)
 	}
 
-	file, err := os.Create(path)
+	// never replace a database that another process creates meanwhile:
+	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 79992c1d8161611a0b4335f24308ac03e4909eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:09 +0000
Subject: [PATCH 35/41] fix: a deletion during a commit is refused instead of
 being undone by it

---
 libs/databases/infrastructure/files/application.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 16dfc67..31eea2c 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -124,6 +124,14 @@ func (app *application) Delete(name string) error {
 		return errors.New(str)
 	}
 
+	// a commit that is under way would bring the deleted database back:
+	pLock := fslock.New(path)
+	err = pLock.TryLock()
+	if err != nil {
+		return err
+	}
+
+	defer pLock.Unlock()
 	return os.Remove(path)
 }
 
-- 
2.43.0


From d94f5e0bc4793953fee869a79b30b4b0ed2a8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:04 +0000
Subject: [PATCH 36/41] fix: written content no longer changes when the caller
 uses its slices again

---
 libs/databases/infrastructure/files/application.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 31eea2c..477237b 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -402,7 +402,10 @@ func (app *application) ReadAllByHashes(context uint, hashes []hash.Hash) ([][]b
 // Write writes data to a context
 func (app *application) Write(context uint, hash hash.Hash, data []byte, kind uint) error {
 	if pContext, ok := app.contexts[context]; ok {
-		contentIns, err := app.contentBuilder.Create().WithHash(hash).WithData(data).WithKind(kind).Now()
+		// the caller may use its slices again before the commit, so copy them:
+		ownHash := append([]byte{}, hash...)
+		ownData := append([]byte{}, data...)
+		contentIns, err := app.contentBuilder.Create().WithHash(ownHash).WithData(ownData).WithKind(kind).Now()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 98d5da54cd8fa97269f560fa8ad0aa78f4ea96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:56 +0000
Subject: [PATCH 37/41] fix: New refuses the names of the files that commits
 work with, which lost the content of such databases

---
 libs/databases/infrastructure/files/application.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 477237b..b926051 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/juju/fslock"
@@ -95,6 +96,14 @@ func (app *application) New(name string) error {
 		}
 	}
 
+	// a commit of another database would write its files over the database:
+	for _, oneExtension := range []string{app.dstExtension, app.bckExtension} {
+		if strings.HasSuffix(name, fmt.Sprintf("%s%s", fileNameExtensionDelimiter, oneExtension)) {
+			str := fmt.Sprintf("the database (name: %s) cannot be created because its extension (%s) is reserved for the files of commits", name, oneExtension)
+			return errors.New(str)
+		}
+	}
+
 	path := filepath.Join(app.dirPath, name)
 	_, err := os.Stat(path)
 	if err == nil {
-- 
2.43.0


From b42e612a36120d3a94651d0817edc6cdfe7f6231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:34 +0000
Subject: [PATCH 38/41] fix: a database is opened once per application, however
 its name is written

---
 libs/databases/infrastructure/files/application.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index b926051..6540f0d 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -146,6 +146,8 @@ func (app *application) Delete(name string) error {
 
 // Open opens a context on a given database
 func (app *application) Open(name string) (*uint, error) {
+	// a database has one name, however it is written:
+	name = filepath.Clean(name)
 	for _, oneContext := range app.contexts {
 		if oneContext.name == name {
 			str := fmt.Sprintf("there is already an open context for the provided name: %s", name)
-- 
2.43.0


From 45861803ba7d74117bfeb4d73ec3a61de5df25b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:52 +0000
Subject: [PATCH 39/41] fix: a query that ended is no longer found by recursive
 fetchers

---
 libs/queries/applications/application.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libs/queries/applications/application.go b/libs/queries/applications/application.go
index 4c28a1d..4cb0721 100644
--- a/libs/queries/applications/application.go
+++ b/libs/queries/applications/application.go
@@ -52,6 +52,7 @@ func (app *application) queryFetch(query queries.Query, tree trees.Tree, previou
 	enclosing, isEnclosed := previous[name]
 	previous[name] = query
 	ins, isValid, err := app.queryInstance(query, contentsList, previous)
+	delete(previous, name)
 	if isEnclosed {
 		previous[name] = enclosing
 	}
-- 
2.43.0


From d4895204fa5593b0f37b48adc141809f65e53a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 40/41] fix: reserved names of databases are refused however
 they are written

---
 libs/databases/infrastructure/files/application.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 6540f0d..0a3b3bb 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -96,15 +96,15 @@ func (app *application) New(name string) error {
 		}
 	}
 
-	// a commit of another database would write its files over the database:
+	// a commit of another database would write its files over the database, however its name is written:
+	path := filepath.Join(app.dirPath, name)
 	for _, oneExtension := range []string{app.dstExtension, app.bckExtension} {
-		if strings.HasSuffix(name, fmt.Sprintf("%s%s", fileNameExtensionDelimiter, oneExtension)) {
+		if strings.HasSuffix(path, fmt.Sprintf("%s%s", fileNameExtensionDelimiter, oneExtension)) {
 			str := fmt.Sprintf("the database (name: %s) cannot be created because its extension (%s) is reserved for the files of commits", name, oneExtension)
 			return errors.New(str)
 		}
 	}
 
-	path := filepath.Join(app.dirPath, name)
 	_, err := os.Stat(path)
 	if err == nil {
 		str := fmt.Sprintf("the database (name: %s) already exists and therefore cannot be created again", name)
-- 
2.43.0


From 53c5ccc95675d0954458c1b6adc0d4d17b959bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:17 +0000
Subject: [PATCH 41/41] fix: a context whose connection fails to close is
 closed nevertheless

---
 libs/databases/infrastructure/files/application.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/databases/infrastructure/files/application.go b/libs/databases/infrastructure/files/application.go
index 0a3b3bb..18079fd 100644
--- a/libs/databases/infrastructure/files/application.go
+++ b/libs/databases/infrastructure/files/application.go
@@ -776,12 +776,13 @@ func (app *application) saveDataOnDisk(offset int64, data []byte, pConn *os.File
 // Close closes a context
 func (app *application) Close(context uint) error {
 	if pContext, ok := app.contexts[context]; ok {
+		// the connection cannot be used again, even when closing it fails:
 		err := pContext.pConn.Close()
+		delete(app.contexts, context)
 		if err != nil {
 			return err
 		}
 
-		delete(app.contexts, context)
 		return nil
 	}
 
-- 
2.43.0

