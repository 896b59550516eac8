# genuine defects of the pinned tree: (property, commit, what failed)
FIXED = [
 ("D05", "3b6371c", "a commit without pending content panicked while it built the hash tree of zero blocks"),
 ("D05", "97d8ed2", "a second commit stored the pending content of the first one again"),
 ("D01", "54564a6", "a later commit lost or corrupted earlier content when the read size was smaller than the data, and ignored copy and write errors"),
 ("D02", "68a8816", "a crash between the two renames of a commit left no database, and a failed commit left the context with a closed file"),
 ("D09", "7df934c", "opening a file with an invalid reference length or a failing read panicked or looped"),
 ("D11", "288f229", "reading a pointer outside of the data panicked or returned garbage"),
 ("D04", "82fd68f", "opening a database after another context was closed reused the identifier of a third, still open context"),
 ("T03", "50c8855", "decoding a malformed hash tree panicked with a slice bounds error"),
 ("R02", "768c974", "decoding malformed contents panicked with a slice bounds error"),
 ("D09", "5812f1a", "decoding a malformed reference, commit or content key list panicked with a slice bounds error"),
 ("D10", "82dc1fd", "a database opened while another process committed mixed the old reference with the new data"),
 ("D10", "dae31e5", "a commit silently dropped the commits another process made since the database was opened"),
 ("T05", "9d2c591", "ordering the blocks of a hash tree lost repeated blocks and refused empty ones"),
 ("T02", "8150d50", "building a hash tree of one block wrote into the spare capacity of the caller's slice"),
 ("T04", "79c9c0d", "building a hash tree from a list of leaves whose length is not a power of two panicked"),
 ("A02", "fa3de59", "a compose in a line was matched only once per value, whatever its occurences"),
 ("A06", "1d75dcf", "an external grammar lost the data and the channels that followed it"),
 ("A07", "d439ce2", "a token that recursed more than once, or on its left, crashed or recursed without end"),
 ("A03", "dbd2b31", "everything ignored the later lines of its exception, and panicked on an escaped exception at the end of the data"),
 ("A02", "ad77ed7", "a line with two elements or composes of the same name matched only one of them"),
 ("A09", "0e9f964", "asking what is covered in a grammar without suites panicked"),
 ("A09", "60af708", "covered elements were numbered differently from the elements of the grammar, so that covered ones were reported as uncovered"),
 ("D08", "ad4050d", "a commit on a database that was deleted created it again, empty"),
 ("D01", "d94f5e0", "a content changed when the caller used the slices it had passed again before the commit, so that its hash named other data"),
 ("D04", "98d5da5", "a commit overwrote a database whose name was that of the file it works with"),
 ("D04", "b42e612", "a database could be opened twice by one application when its name was written in another way"),
 ("D08", "5e38b24", "two processes that created one database at the same time both succeeded, the second one emptying what the first one had committed"),
 ("D08", "79992c1", "a deletion while another process committed succeeded and was undone by the commit"),
 ("A01", "0299252", "the bytes of a content left out the channels before its value"),
 ("A04", "13d52cf", "a channel whose everything contained an escaped value was skipped one byte short"),
 ("A05", "728dc01", "a channel condition was met by a token that did not match"),
 ("A05", "150f3b6", "the condition of a channel after a token was verified against the wrong data"),
 ("Q01", "e99cd49", "a query on a tree with an everything panicked when it skipped its element"),
 ("Q01", "4c3a537", "a single func on an absent element panicked"),
 ("G02", "428b5db", "a token of all the characters of a text truncated characters of several bytes"),
 ("G02", "bf75db8", "a token of any character matched the truncated code point of a character of several bytes, not the character"),
 ("G03", "1c79c70", "a value assignment matched all of the rest of the script, whatever the instruction"),
 ("D04", "d489520", "a database was created under the name of a file of commits, written with another path"),
 ("D03", "53c5ccc", "a context whose connection failed to close could never be closed, nor its database opened again"),
 ("Q03", "4586180", "a recursive fetcher executed a query that ended before it although no query of that name was around it"),
 ("Q03", "9658603", "a recursive fetcher executed a query that ended before it instead of the one around it"),
]
KNOWN = [
 ("D08", "H_DBInterleavedDelete", "a refused commit creates a database deleted meanwhile again", "a database deleted by another process between the verification and the lock of a commit exists again, empty, after the refused commit (the vendored file lock creates a missing file)"),
]  # (property, harness, assertion message, what fails)
