APP = "libs/asts/applications/application.go"
TR = "libs/asts/domain/trees"
GR = "libs/asts/domain/grammars"
AREACH = ["matched", "refused"]

prop(id="A01", title="A tree and its remaining data are exactly the executed data",
  statement="When a grammar is executed on data, the bytes of the tree (channels included) followed by the remaining data are exactly the input, and the input is left unchanged; only a tree that dropped the escape of an escaped exception keeps fewer bytes. Every element and content of the tree likewise returns the bytes it matched with its channels and, without channels, the bytes of its values alone. Data of a sub-token is never lost, repeated or reordered, whatever the channels, cardinalities, composes, externals and recursions around it.",
  over=["inputs"], quant="Grammars of one or two lines of values and composes, of nested tokens, with channels before, between and after contents, and recursive ones; every input of 0 to 4 arbitrary bytes (thorough 5). Runs of up to hundreds of channels and externals with one arbitrary byte; up to 6000 bytes of remaining data.",
  why="Tests of this package check one successful text per grammar and rarely the channels or the bytes.",
  files=[APP, TR + "/tree.go", TR + "/content.go", TR + "/element.go", TR + "/line.go", TR + "/elements.go"], mechanism=[("prefixes, suffixes and remaining data kept while matching", APP), ("bytes collected from contents, prefixes and suffixes", TR)],
  observe=["Execute", "Tree.Bytes", "Tree.Remaining", "Element.Bytes", "Content.Bytes"], assume=[],
  harnesses=[dict(fn="H_AstLong", reach=["matched", "refused"], what="long runs of channels", quick=dict(params={"kind": 2, "counts": 12}), thorough=dict(params={"kind": 2, "counts": 12})),
    dict(fn="H_AstLong", reach=["matched"], what="many externals", quick=dict(params={"kind": 7, "counts": 12}), thorough=dict(params={"kind": 7, "counts": 12})),
    dict(fn="H_AstValues", reach=AREACH, what="values and composes", quick=dict(params={"first": 2, "data": 4}), thorough=dict(params={"first": 2, "second": 1, "data": 5})),
    dict(fn="H_AstTokens", reach=AREACH, what="nested tokens", quick=dict(params={"data": 3}), thorough=dict(params={"data": 5})),
    dict(fn="H_AstChannels", reach=AREACH, what="channels around values, tokens and composes", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6})),
    dict(fn="H_AstFar", reach=["matched"], what="long remaining data", quick=dict(params={"kind": 9, "counts": 8}), thorough=dict(params={"kind": 9, "counts": 8}))])

prop(id="A02", title="The first line that matches in order is used, as often as possible",
  statement="A token matches with its first line whose containers match in order, each element as many times as possible but never more than its maximum and never fewer than its minimum, and each compose with every occurrence of its values in order. An element that matches zero times is left out of the tree; a line that matched nothing does not match; a later line is used only when every earlier one failed, and from the same position. The tree records the index of that line, its elements with their grammar and amount, and data that no line matches is refused. Elements and composes of a line may share a name.",
  over=["inputs"], quant="Up to 3 containers per line and 2 lines, every cardinality among 1, 0+, 2, 0-1 (thorough also 1-2, 1+, 0, 2+, 0-2), composes of 1 or 2 occurrences, one arbitrary value; values, tokens and everythings with any bounds from 0 to 2^64-1; nested tokens with 1 to 3 lines; every input of 0 to 3 arbitrary bytes (thorough 5). Elements, occurrences, lines, containers and levels of up to hundreds (sizes around 8, 16, 64, 256) with one arbitrary byte.",
  why="Tests execute one or two texts per grammar; the interaction of greedy cardinalities, line order and failed lines depends on the data.",
  files=[APP, TR + "/element.go", TR + "/line.go", TR + "/block_builder.go"], mechanism=[("lines tried in order", APP), ("greedy cardinality loop", APP), ("success of an element", TR + "/element.go")],
  observe=["Execute", "Block.Successful", "Line.Index", "Element.Amount"], assume=["matching is greedy and does not backtrack into an element, as in the code"],
  harnesses=[dict(fn="H_AstLong", reach=["matched"], what="large cardinalities", quick=dict(params={"kind": 0, "counts": 15}), thorough=dict(params={"kind": 0, "counts": 15})),
    dict(fn="H_AstLong", reach=["matched"], what="many occurrences", quick=dict(params={"kind": 1, "counts": 15}), thorough=dict(params={"kind": 1, "counts": 15})),
    dict(fn="H_AstLong", reach=["matched", "refused"], what="many lines", quick=dict(params={"kind": 5, "counts": 15}), thorough=dict(params={"kind": 5, "counts": 15})),
    dict(fn="H_AstLong", reach=["matched", "refused"], what="many containers", quick=dict(params={"kind": 6, "counts": 15}), thorough=dict(params={"kind": 6, "counts": 15})),
    dict(fn="H_AstLong", reach=["matched"], what="many levels", quick=dict(params={"kind": 8, "counts": 10}), thorough=dict(params={"kind": 8, "counts": 10})),
    dict(fn="H_AstValues", reach=AREACH, what="one or two lines of values and composes", quick=dict(params={"first": 2, "second": 1, "data": 4}), thorough=dict(params={"first": 3, "second": 1, "cards": 9, "data": 4}, budget=800)),
    dict(fn="H_AstValues", reach=AREACH, what="containers with the same name", quick=dict(params={"first": 2, "data": 5, "samenames": 1}), thorough=dict(params={"first": 3, "data": 5, "cards": 7, "samenames": 1})),
    dict(fn="H_AstBounds", reach=AREACH, what="elements with any bounds", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6})),
    dict(fn="H_AstTokens", reach=AREACH, what="nested tokens", quick=dict(params={"data": 4}), thorough=dict(params={"data": 5, "cards": 7})),
    dict(fn="H_AstFar", reach=["matched"], what="many composes", quick=dict(params={"kind": 8, "counts": 8}), thorough=dict(params={"kind": 8, "counts": 8}))])

prop(id="A03", title="Everything stops at its exception, and escaped exceptions are content",
  statement="An everything matches at least one byte and all the bytes until its exception token first matches, on any of the exception's lines, or until the end of the data. Where its escape token is directly followed by the exception, the exception is content and the escape is dropped; an escape that is not followed by an exception is content itself. The exception that ended it remains to be matched by what follows. Execution never panics, also when the data ends in an escape, an escaped exception or a partial exception.",
  over=["inputs"], quant="5 exceptions (one byte, two lines, two bytes, repeated and optional bytes, one that contains an everything), without escape, with escapes of one and of two lines and with the exception as its own escape, in 3 places of a line, with and without channels; every input of 0 to 4 arbitrary bytes (thorough 6); comments in channels with inputs of 0 to 5 bytes. Everything of up to hundreds of bytes with an arbitrary byte. Seven pairs of exceptions and escapes of several bytes (an escape that begins the exception, nested tokens, an escape with an everything, optional bytes), two everythings in a line, repeated and in repeated tokens, with channels of their bytes and conditional ones; up to 300 escapes and everythings, exceptions and escapes of up to 129 (thorough 300) bytes.",
  why="Tests have one quoted text with one escape in the middle.",
  files=[APP, GR + "/everything.go"], mechanism=[("byte by byte loop with escape and exception", APP)], observe=["Execute"], assume=[],
  harnesses=[dict(fn="H_AstLong", reach=["matched"], what="long contents", quick=dict(params={"kind": 4, "counts": 15}), thorough=dict(params={"kind": 4, "counts": 15})),
    dict(fn="H_AstEverything", reach=AREACH + ["escaped"], what="everything in a line", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6})),
    dict(fn="H_AstComment", reach=["matched", "refused"], what="everything in a channel", quick=dict(params={"data": 5}), thorough=dict(params={"data": 7})),
    dict(fn="H_AstEverythingMore", reach=AREACH, what="escapes of several bytes, several everythings", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6})),
    dict(fn="H_AstEverythingMore", reach=AREACH, what="longer texts of comments", quick=dict(params={"text": 1, "shapes": 2, "chans": 1}), thorough=dict(params={"text": 1})),
    dict(fn="H_AstFar", reach=["matched"], what="many escapes", quick=dict(params={"kind": 0, "counts": 8}), thorough=dict(params={"kind": 0, "counts": 8})),
    dict(fn="H_AstFar", reach=["matched", "refused"], what="long exceptions", quick=dict(params={"kind": 1, "counts": 6}), thorough=dict(params={"kind": 1, "counts": 8, "steps": 200})),
    dict(fn="H_AstFar", reach=["matched"], what="long escapes", quick=dict(params={"kind": 2, "counts": 6}), thorough=dict(params={"kind": 2, "counts": 8, "steps": 200})),
    dict(fn="H_AstFar", reach=["matched"], what="many everythings", quick=dict(params={"kind": 7, "counts": 8}), thorough=dict(params={"kind": 7, "counts": 8}))])

prop(id="A04", title="Channels are skipped around every content and kept in the tree",
  statement="Channels may appear, any number of times and in any order, before every value, between contents and after the content of every token: they never change what a grammar matches. A skipped channel is kept in the tree as the prefix of the value it precedes or the suffix of the tree it follows. The tokens of channels are themselves matched without channels, a channel that does not match skips nothing, and comments (an everything in a channel) are skipped entirely, including their escaped values.",
  over=["inputs"], quant="One or two channels of one or two bytes, channels that may match nothing, and comments with and without escapes; lines of values, tokens of every cardinality and composes; every input of 0 to 4 (comments 5) arbitrary bytes, thorough 6 (7). Runs of up to hundreds of channels; up to 300 kinds of channels; comments of up to 300 bytes.",
  why="Tests place blanks at a few fixed positions.",
  files=[APP, GR + "/channels.go", GR + "/channel.go", TR + "/value.go", TR + "/tree.go"], mechanism=[("channels skipped before values and after tokens", APP)], observe=["Execute", "Value.Prefix", "Tree.Suffix"], assume=[],
  harnesses=[dict(fn="H_AstLong", reach=["matched", "refused"], what="long runs of channels", quick=dict(params={"kind": 2, "counts": 15}), thorough=dict(params={"kind": 2, "counts": 15})),
    dict(fn="H_AstChannels", reach=AREACH, what="channels of values", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6})),
    dict(fn="H_AstComment", reach=AREACH, what="comments", quick=dict(params={"data": 6}), thorough=dict(params={"data": 7})),
    dict(fn="H_AstFar", reach=["matched"], what="many kinds of channels", quick=dict(params={"kind": 3, "counts": 8}), thorough=dict(params={"kind": 3, "counts": 8})),
    dict(fn="H_AstFar", reach=["matched"], what="long channels", quick=dict(params={"kind": 4, "counts": 8}), thorough=dict(params={"kind": 4, "counts": 8}))])

prop(id="A05", title="A conditional channel is skipped only where its condition is met",
  statement="A channel with a condition is skipped only when its previous token matches the data before it (beginning at the content that precedes it) and its next token matches the data directly after it, when they are given; otherwise its bytes are data like any other. At the beginning of the data a previous token is not met. Other channels are unaffected.",
  over=["inputs"], quant="Previous, next and both conditions, whose tokens always or sometimes match something, alone or with an unconditional channel; lines of values and of tokens; every input of 0 to 4 arbitrary bytes (thorough 6). Previous and next tokens of two bytes, of two lines, with repeated and nested tokens, composes and everythings, alone and with another condition on the same blank, also in an external, on inputs of 0 to 2 bytes (thorough 4, and 6 texts with one arbitrary byte). Long contents before the channel; conditions of up to 300 bytes.",
  why="Tests have one conditional channel that is met.",
  files=[APP, GR + "/channelcondition.go", GR + "/channel.go"], mechanism=[("condition verified on the data before and after the channel", APP)], observe=["Execute"], assume=["the previous token is verified from the beginning of the previous content, channels included, as in the code"],
  harnesses=[dict(fn="H_AstLong", reach=["matched", "refused"], what="long contents before the channel", quick=dict(params={"kind": 9, "counts": 15}), thorough=dict(params={"kind": 9, "counts": 15})),
    dict(fn="H_AstConditions", reach=AREACH, what="conditional channels", quick=dict(params={"data": 5}), thorough=dict(params={"data": 7})),
    dict(fn="H_AstConditionsMore", reach=["matched", "refused"], what="conditions of several bytes and lines, several conditions", quick=dict(params={"data": 3}), thorough=dict(params={"data": 5}, budget=400)),
    dict(fn="H_AstConditionsMore", reach=["matched", "refused"], what="longer texts with conditions", quick=dict(params={"text": 1, "others": 1}, skip=True), thorough=dict(params={"text": 1}, budget=300)),
    dict(fn="H_AstFar", reach=["matched"], what="long conditions", quick=dict(params={"kind": 6, "counts": 8}), thorough=dict(params={"kind": 6, "counts": 8}))])

prop(id="A06", title="An external grammar matches like its own root in its place",
  statement="An external grammar in a line matches exactly what its own grammar matches when it is executed on the data at that place, with its own channels, and execution continues after it with the channels of the grammar around it: it has cardinalities like any element, may be nested, and may be followed or repeated. Without channels it matches exactly the data that its root token would match in its place. Its tree has the name of the external.",
  over=["inputs"], quant="Externals of every cardinality alone, between values, in a repeated token, and in another external, with and without channels outside and inside; every input of 0 to 3 arbitrary bytes (thorough 5). Up to hundreds of externals; up to 129 (thorough 300) externals in one another.",
  why="Tests execute one external at the end of the data.",
  files=[APP, GR + "/external.go"], mechanism=[("nested execution of the grammar of an external", APP)], observe=["Execute"], assume=[],
  harnesses=[dict(fn="H_AstLong", reach=["matched"], what="many externals", quick=dict(params={"kind": 7, "counts": 15}), thorough=dict(params={"kind": 7, "counts": 15})),
    dict(fn="H_AstExternal", reach=AREACH, what="externals", quick=dict(params={"data": 4}), thorough=dict(params={"data": 5, "cards": 7})),
    dict(fn="H_AstFar", reach=["matched", "refused"], what="externals in externals", quick=dict(params={"kind": 5, "counts": 6}), thorough=dict(params={"kind": 5, "counts": 8, "steps": 200}))])

prop(id="A07", title="Recursive tokens match to any depth and always terminate",
  statement="A recursive element matches the enclosing token of that name again at the current position, to any depth and as often as its cardinality allows, also through other tokens. Execution always terminates and never panics: a line that recurses into itself without consuming data does not match there, so that left recursion falls through to the other lines, and a recursion into a token that is not around does not match.",
  over=["inputs"], quant="8 shapes of recursion (nested lists, right, left and optional left recursion, through another token, on its left, a token of only recursions, an unknown token), with and without channels; every input of 0 to 5 arbitrary bytes (thorough 8). Recursions of up to hundreds of levels, also through up to 33 (thorough 65) tokens. Names of 2 to 17 (thorough 300) letters that begin with each other.",
  why="Tests recurse once on one text; non-termination depends on the data.",
  files=[APP, "libs/asts/applications/stack.go"], mechanism=[("stack of the tokens in progress", APP)], observe=["Execute"], assume=[],
  harnesses=[dict(fn="H_AstLong", reach=["matched", "refused"], what="many levels", quick=dict(params={"kind": 3, "counts": 9}), thorough=dict(params={"kind": 3, "counts": 9})),
    dict(fn="H_AstLong", reach=["matched", "refused"], what="recursion through many tokens", quick=dict(params={"kind": 10, "counts": 9}), thorough=dict(params={"kind": 10, "counts": 10})),
    dict(fn="H_AstLong", reach=["matched", "refused"], what="names that begin alike", quick=dict(params={"kind": 11, "counts": 8}), thorough=dict(params={"kind": 11, "counts": 15})),
    dict(fn="H_AstRecursion", reach=AREACH, what="recursive tokens", quick=dict(params={"data": 6}), thorough=dict(params={"data": 8})),
    dict(fn="H_AstReuse", reach=["twice"], what="recursive grammar with channels, executed twice", quick=dict(params={"data": 3}), thorough=dict(params={"data": 5}))])

prop(id="A08", title="Composing a token gives exactly the data that token matches",
  statement="Composing a token whose only line is made of composes gives each of their values as many times as it occurs, in order; the token matches exactly that data and nothing else. A token with several lines, or with an element in its line, is refused with an error instead of composed.",
  over=["inputs"], quant="Lines of 1 or 2 composes of 1 or 2 arbitrary values that occur 1 or 2 times (thorough 4), with different names or the same; all other data of the same length. Up to 300 (thorough 600) occurrences, values and composes, one value arbitrary, against data with one other byte, one more or one less.",
  why="Tests compose one fixed token and do not execute it on the result.",
  files=[APP, GR + "/compose.go", GR + "/composeelement.go"], mechanism=[("composition of a line", APP)], observe=["Compose", "Execute"], assume=[],
  harnesses=[dict(fn="H_AstCompose", reach=AREACH, what="composes with different names", quick=dict(params={"times": 3}), thorough=dict(params={"times": 4})),
    dict(fn="H_AstCompose", reach=AREACH, what="composes with the same name", quick=dict(params={"times": 2, "samenames": 1}), thorough=dict(params={"times": 4, "samenames": 1})),
    dict(fn="H_AstComposeLong", reach=AREACH, what="values that occur often, many values and many composes", quick=dict(params={"counts": 6}), thorough=dict(params={"counts": 13}))])

prop(id="A09", title="Coverage reports every suite once and what no suite matched",
  statement="The coverages of a grammar contain every token that has suites once (also in exceptions, escapes, channels and externals), each suite executed once with its validity and with the tree its token gives on the suite's data, or an error. The covered elements are exactly those, by token, line and position, that some suite matched, and the uncovered elements are exactly all the other elements of the grammar. Executions and coverages report an error exactly when one of theirs is an error. A grammar without suites has nothing covered and everything uncovered.",
  over=["inputs"], quant="8 grammars (two lines, nested token, everything with escape, shared exceptions and escapes, external in an exception, external, recursion, composes) with fixed suites on their exceptions, escapes, channels and externals, with and without two channels, and 0 to 2 further suites of 1 to 2 arbitrary bytes (thorough up to 3 bytes) on the root or on a nested token. Also 40 (thorough 300) suites, lines or elements of a token or channels, 40 (100) tokens inside of one another, and suites of 2000 (5000) bytes, with the bytes that decide a match arbitrary.",
  why="Tests compute the coverage of one grammar and check little of it.",
  files=[APP, GR + "/coverages"], mechanism=[("execution of all suites", APP), ("difference of all elements and matched elements", APP)], observe=["Coverages", "Covered", "Uncovered"], assume=["tokens have unique names"],
  harnesses=[dict(fn="H_AstCoverage", reach=["covered", "uncovered"], what="suites and coverage", quick=dict(params={"suites": 3, "data": 2}), thorough=dict(params={"suites": 3, "data": 3, "more": 2}, budget=800)),
    dict(fn="H_AstCoverageLong", reach=["covered"], what="many suites of a token", quick=dict(params={"kind": 0, "n": 40}), thorough=dict(params={"kind": 0, "n": 300})),
    dict(fn="H_AstCoverageLong", reach=["uncovered"], what="many lines of a token", quick=dict(params={"kind": 1, "n": 40}), thorough=dict(params={"kind": 1, "n": 300})),
    dict(fn="H_AstCoverageLong", reach=["uncovered"], what="many elements of a line", quick=dict(params={"kind": 2, "n": 40}), thorough=dict(params={"kind": 2, "n": 300})),
    dict(fn="H_AstCoverageLong", reach=["uncovered"], what="tokens in tokens", quick=dict(params={"kind": 3, "n": 40}), thorough=dict(params={"kind": 3, "n": 100, "steps": 300})),
    dict(fn="H_AstCoverageLong", reach=["covered", "uncovered"], what="long suites", quick=dict(params={"kind": 4, "n": 2000}), thorough=dict(params={"kind": 4, "n": 5000, "steps": 100})),
    dict(fn="H_AstCoverageLong", reach=["uncovered"], what="many channels", quick=dict(params={"kind": 5, "n": 40}), thorough=dict(params={"kind": 5, "n": 300}))])

prop(id="A10", title="The first match of a name is fetched from a tree",
  statement="Fetching a name from a tree returns the tree itself when it has that name, and otherwise the first matched element or tree with that name, from the top and left to right, through all levels; a name that was not matched gives an error, also when the grammar contains it. With an index, the element of that position among the elements of the name in the tree's own line is returned, and an error when the line has fewer.",
  over=["inputs"], quant="A grammar of 3 levels whose token and value occur in several places; every input of 0 to 4 arbitrary bytes (thorough 6); every name of the grammar and an unknown one. A line with 3 elements of one name and 2 of another, each index from 0 to 3. Names 40 (thorough 300) levels deep, in lines of so many elements and elements of so many contents, and the last indexes of so many elements of one name.",
  why="Tests fetch names that are present once.",
  files=[TR + "/tree.go", TR + "/element.go", TR + "/elements.go"], mechanism=[("depth first search", TR + "/tree.go")], observe=["Tree.Fetch", "Element.Fetch"], assume=["the meaning of an index for names inside of other elements is left open"],
  harnesses=[dict(fn="H_AstFetch", reach=["absent", "found"], what="every name of a grammar", quick=dict(params={"data": 5}), thorough=dict(params={"data": 7})),
    dict(fn="H_AstFetchIndex", reach=["absent", "found"], what="elements of one name by their index", quick=dict(params={"data": 4}), thorough=dict(params={"data": 7})),
    dict(fn="H_AstFetchFar", reach=["found", "absent"], what="names deep inside of a tree", quick=dict(params={"kind": 0, "n": 40}), thorough=dict(params={"kind": 0, "n": 300})),
    dict(fn="H_AstFetchFar", reach=["found", "absent"], what="names in a long line", quick=dict(params={"kind": 1, "n": 40}), thorough=dict(params={"kind": 1, "n": 300})),
    dict(fn="H_AstFetchFar", reach=["found", "absent"], what="an element of many contents", quick=dict(params={"kind": 2, "n": 40}), thorough=dict(params={"kind": 2, "n": 300})),
    dict(fn="H_AstFetchFar", reach=["found", "absent"], what="high indexes", quick=dict(params={"kind": 3, "n": 40}), thorough=dict(params={"kind": 3, "n": 300}))])

prop(id="A11", title="Executions are independent of earlier ones",
  statement="One application can execute any grammars, any number of times, also different grammars that use the same names: each execution gives the tree that a new application and a new grammar would give, whatever was executed before and whether it succeeded, and the trees of earlier executions stay as they were.",
  over=["inputs", "histories"], quant="All pairs of inputs of 0 to 3 arbitrary bytes (thorough 5) executed one after the other on a recursive grammar with a channel; three executions of two of 3 grammars that share all their names (lists, an everything with an escape, two channels) on inputs of 0 to 2 arbitrary bytes (thorough 3), the second also on 6 longer texts; three executions of two of 3 grammars whose externals share their names. Forty (thorough 300) executions of grammars that share their names, the first and the last ones with an arbitrary byte.",
  why="Tests build a new application for every execution.",
  files=[APP], mechanism=[("no state between executions", APP)], observe=["Execute"], assume=[],
  harnesses=[dict(fn="H_AstReuse", reach=["twice"], what="two executions", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6})),
    dict(fn="H_AstReuseOthers", reach=["twice"], what="grammars that share their names", quick=dict(params={"first": 1, "data": 3}), thorough=dict(params={"data": 4}, budget=500)),
    dict(fn="H_AstReuseOthers", reach=["twice"], what="externals that share their names", quick=dict(params={"externals": 1, "first": 2, "data": 3}), thorough=dict(params={"externals": 1, "data": 4}, budget=500)),
    dict(fn="H_AstReuseOthers", reach=["twice"], what="longer texts on another grammar", quick=dict(params={"texts": 1, "data": 3}), thorough=dict(params={"texts": 1, "data": 4}, budget=300)),
    dict(fn="H_AstReuseMany", reach=["last"], what="many executions", quick=dict(params={"n": 40}), thorough=dict(params={"n": 300, "steps": 200}))])

prop(id="A12", title="Assembled trees say exactly whether they succeed and return their bytes",
  statement="An element is successful exactly when the amount of its contents is within the bounds of its grammar (for a compose: at least all of its values), and always without grammar. A line is successful exactly when it has elements, all of them are successful and, unless it is reversed, every container of its grammar that may not be absent has an element of its name with enough contents (for a compose: exactly as many as its values). A block uses its first successful line, whatever the lines around it. An element of a line is fetched by its name. Contents, elements, trees and lists of trees return the bytes of their parts in order, with the channels around them or without any channel; the data that remained after a tree is never part of them.",
  over=["inputs"], quant="Lines of 1 or 2 containers (elements with any minimum and any or no maximum, composes of 1 or 2 values with any amounts, also with the same name) and 0 or 1 elements of 1 or 2 contents (thorough 0 to 2 elements of 1 to 3 contents), reversed or not; trees of 1 or 2 elements of 1 or 2 contents of arbitrary bytes (values, values with channels before them, trees with channels after them and remaining data, failed trees).",
  why="The tests only see the trees that the application builds, with one line and small amounts.",
  files=[TR + "/element.go", TR + "/line.go", TR + "/block.go", TR + "/tree.go", TR + "/content.go", TR + "/elements.go"], mechanism=[("amounts compared with the bounds of a container", TR + "/element.go"), ("needed containers looked up by name", TR + "/line.go")], observe=["Element.IsSuccessful", "Line.IsSuccessful", "Block.Successful", "Bytes"], assume=["values of a compose occur less than 2^32 times"],
  harnesses=[dict(fn="H_TreeSuccess", reach=["successful", "failed"], what="lines and blocks with any bounds", quick=dict(params={"elements": 2, "amount": 2}), thorough=dict(params={"elements": 3, "amount": 3})),
    dict(fn="H_TreeBytes", reach=["bytes"], what="bytes of assembled trees", quick=dict(), thorough=dict(params={"contents": 3}))])

TOK = "instances/grammars/tokens/token.go"
prop(id="G01", title="The built-in tokens match exactly their language",
  statement="Each character token matches exactly one byte of its class and no other: any byte, digits, letters, lower case and upper case letters, a to f in either case, hexadecimal characters. A variable name matches a lower case letter and all the letters that follow; a sha512 digest matches exactly 128 hexadecimal characters and nothing shorter.",
  over=["inputs"], quant="All inputs of 0 to 2 arbitrary bytes for the character tokens (variable names 0 to 2, thorough 4); texts of 1, 127, 128, 129 and 130 hexadecimal characters with an arbitrary byte at the first, last or a middle position; a variable name of 40 (thorough 300) letters and an arbitrary byte.",
  why="The suites list some characters of each token.",
  files=[TOK, "instances/grammars/components/blocks/block.go"], mechanism=[("one line per character", "instances/grammars/components/tokens")], observe=["Execute"], assume=[],
  harnesses=[dict(fn="H_TokenOne", reach=AREACH, what="character tokens", quick=dict(), thorough=dict()),
    dict(fn="H_TokenByte", reach=["matched"], what="any byte", quick=dict(), thorough=dict()),
    dict(fn="H_TokenVariable", reach=AREACH, what="variable names", quick=dict(params={"data": 3}), thorough=dict(params={"data": 4})),
    dict(fn="H_TokenDigest", reach=AREACH, what="digests", quick=dict(params={"lens": 3}), thorough=dict(params={"lens": 6})),
    dict(fn="H_ComponentsFar", reach=["matched"], what="long variable names", quick=dict(params={"kind": 7, "n": 40}), thorough=dict(params={"kind": 7, "n": 300}))])

prop(id="G02", title="The component helpers build grammars that match what they say",
  statement="A token of all the characters of a text matches exactly the bytes of that text, a token of any character matches exactly one of its characters, composed data gives that data back, cardinalities have the given bounds and bound how often an element matches, everythings and alternatives of the helpers match what they say, suites keep their texts and whether they are valid, and the built-in channels skip blanks (space, tab, line feed, carriage return) and comments from // to the end of the line, before, between and after values.",
  over=["inputs"], quant="9 texts of 1 to 6 bytes (also repeated characters, control characters and characters of several bytes) and every input of 0 to 4 arbitrary bytes; cardinalities with minimum 0 to 2 and maximum none or 1 to 3; everythings with and without an escape, three alternatives, one or two suites; channels around two values with every input of 0 to 4 arbitrary bytes (thorough 7). Texts, characters, composes, bounds, alternatives, suites, comments and blanks of 40 (thorough 300), with one arbitrary byte.",
  why="Tests only use the helpers with the suites of the built-in grammar.",
  files=["instances/grammars/components/tokens/token.go", "instances/grammars/components/channels/channels.go", "instances/grammars/components/composes/compose.go", "instances/grammars/components/cardinalities/cardinality.go", "instances/grammars/components/elements/element.go"],
  mechanism=[("builders behind a helper", "instances/grammars/components/component.go")], observe=["Execute", "Compose"], assume=[],
  harnesses=[dict(fn="H_Components", reach=["all", "any", "compose", "cardinality"], what="helpers", quick=dict(params={"data": 5}), thorough=dict(params={"data": 6})),
    dict(fn="H_ComponentsMore", reach=["everything", "escape", "alternative", "suites"], what="everythings, alternatives and suites", quick=dict(params={"data": 5}), thorough=dict(params={"data": 7})),
    dict(fn="H_Channels", reach=AREACH, what="built-in channels", quick=dict(params={"data": 5}), thorough=dict(params={"data": 8})),
    dict(fn="H_ComponentsFar", reach=AREACH, what="long texts", quick=dict(params={"kind": 0, "n": 40}), thorough=dict(params={"kind": 0, "n": 300})),
    dict(fn="H_ComponentsFar", reach=AREACH, what="many characters", quick=dict(params={"kind": 1, "n": 40}), thorough=dict(params={"kind": 1, "n": 300})),
    dict(fn="H_ComponentsFar", reach=["matched"], what="composes of long texts", quick=dict(params={"kind": 2, "n": 40}), thorough=dict(params={"kind": 2, "n": 300})),
    dict(fn="H_ComponentsFar", reach=AREACH, what="high bounds", quick=dict(params={"kind": 3, "n": 40}), thorough=dict(params={"kind": 3, "n": 300})),
    dict(fn="H_ComponentsFar", reach=AREACH, what="many alternatives", quick=dict(params={"kind": 4, "n": 40}), thorough=dict(params={"kind": 4, "n": 300})),
    dict(fn="H_ComponentsFar", reach=["matched"], what="many suites", quick=dict(params={"kind": 5, "n": 40}), thorough=dict(params={"kind": 5, "n": 300})),
    dict(fn="H_ComponentsFar", reach=AREACH, what="long comments and many blanks", quick=dict(params={"kind": 6, "n": 40}), thorough=dict(params={"kind": 6, "n": 300}))])

prop(id="G03", title="The built-in grammar accepts its scripts, as what they are, and nothing else",
  statement="A script of the built-in grammar (a root, any channels with or without their conditions, and instructions that assign a value, a compose, an everything, a token or an external token, with valid or invalid suites) is accepted without remaining data and without losing a byte, with blanks and comments between its parts, and each instruction is recognized as what it is and not as another kind. Other text is matched only as far as it is a script, and refused when no script starts it.",
  over=["inputs"], quant="Every kind of instruction with its variants (amounts, escapes, 7 forms of cardinality, 4 forms of suites), 5 forms of channels; an arbitrary digit, and in thorough an arbitrary letter of a name, an arbitrary blank and a comment, and a second instruction. Scripts with one part repeated (once, three times), left out or exchanged with the next (6 scripts, every part; thorough 7 scripts and also 2 or 3 parts); with one byte replaced by an arbitrary one, left out or added, at one position (thorough every other position of 7 scripts). Scripts of 9 channels, 4 instructions, 12 letters of a name or digits of a number, 12 values of a compose, 4 of a suite, 3 lines and elements of a token, 12 comments (thorough 20 to 40 of each), with an arbitrary byte.",
  why="The suites of the grammar are texts nobody executes in the tests, and instructions are never followed by others.",
  files=["instances/grammars/grammars/grammar.go", TOK], mechanism=[("grammar of the grammar language", "instances/grammars/grammars/grammar.go")], observe=["Execute", "Fetch"], assume=[],
  harnesses=[dict(fn="H_Script", reach=["accepted"], what="scripts with one instruction", quick=dict(), thorough=dict(params={"symname": 3, "symgap": 5, "comment": 7})),
    dict(fn="H_Script", reach=["accepted"], what="scripts with two instructions", quick=dict(skip=True), thorough=dict(params={"second": 1})),
    dict(fn="H_ScriptAny", reach=["accepted", "refused"], what="scripts with an arbitrary byte near their start", quick=dict(params={"script": 0, "step": 7, "from": 2}), thorough=dict(params={"step": 2, "ascii": 0}, budget=850)),
    dict(fn="H_ScriptForms", reach=["accepted", "refused", "partly"], what="parts of scripts repeated, left out and exchanged", quick=dict(params={"scripts": 6, "changes": 4}), thorough=dict(budget=400)),
    dict(fn="H_ScriptAny", reach=["accepted", "refused"], what="scripts with an arbitrary byte in a suite", quick=dict(skip=True), thorough=dict(params={"step": 2, "from": 1, "script": 3})),
    dict(fn="H_ScriptFar", reach=["accepted", "refused"], what="many channels", quick=dict(params={"kind": 0, "n": 9}), thorough=dict(params={"kind": 0, "n": 20, "steps": 200})),
    dict(fn="H_ScriptFar", reach=["accepted", "partly"], what="many instructions", quick=dict(params={"kind": 1, "n": 4}), thorough=dict(params={"kind": 1, "n": 20, "steps": 200})),
    dict(fn="H_ScriptFar", reach=["accepted", "refused"], what="long names", quick=dict(params={"kind": 2, "n": 12}), thorough=dict(params={"kind": 2, "n": 40, "steps": 200})),
    dict(fn="H_ScriptFar", reach=["accepted", "refused"], what="long numbers", quick=dict(params={"kind": 3, "n": 12}), thorough=dict(params={"kind": 3, "n": 40, "steps": 200})),
    dict(fn="H_ScriptFar", reach=["accepted", "refused"], what="many values of a suite", quick=dict(params={"kind": 4, "n": 4}), thorough=dict(params={"kind": 4, "n": 20, "steps": 200})),
    dict(fn="H_ScriptFar", reach=["accepted", "refused"], what="tokens of many lines and elements", quick=dict(params={"kind": 5, "n": 3}), thorough=dict(params={"kind": 5, "n": 20, "steps": 200})),
    dict(fn="H_ScriptFar", reach=["accepted", "refused"], what="composes of many values", quick=dict(params={"kind": 6, "n": 12}), thorough=dict(params={"kind": 6, "n": 40, "steps": 200})),
    dict(fn="H_ScriptFar", reach=["accepted", "partly"], what="many comments and blanks", quick=dict(params={"kind": 7, "n": 12}), thorough=dict(params={"kind": 7, "n": 40, "steps": 200}))])

QA = "libs/queries/applications/application.go"
prop(id="Q01", title="A query selects exactly the contents it names",
  statement="A query on a tree selects the contents of the matched element with its element name and index, counting only the elements with that name (elements without grammar, such as that of an everything, are selected when the element name is the reverse name of the query), or only the content with its content index. Its content func receives them: the single func the first content, the multi func all of them in order. A query for another token than the tree's, a content index that is too large, and a single func without content give errors; an absent element selects nothing. The remaining data of the tree is returned with the result.",
  over=["inputs"], quant="Lines of values, a list and an optional element that shares its name with another, and an everything; every element name (also absent and unknown), index 0 to 2, content index none, 0 or 1, single and multi funcs; every input of 0 to 3 arbitrary bytes (thorough 5). Elements and lines with hundreds of contents and elements, contents between channels. Assembled trees of 1 to 3 (thorough 4) elements with and without grammars in any order.",
  why="No test executes a query.",
  files=[QA, "libs/queries/domain/queries"], mechanism=[("selection of an element of the successful line", QA)], observe=["Execute"], assume=[],
  harnesses=[dict(fn="H_QuerySelect", reach=["found", "nothing", "refused"], what="selection in a line", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6, "tokens": 1})),
    dict(fn="H_QueryAssembled", reach=["found", "nothing", "refused"], what="selection in assembled trees", quick=dict(params={"elements": 3}), thorough=dict(params={"elements": 4})),
    dict(fn="H_QueryEverything", reach=["found", "nothing", "refused"], what="selection in an everything", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6})),
    dict(fn="H_QueryLong", reach=["found", "refused"], what="contents far in a long element", quick=dict(params={"kind": 0, "size": 1}), thorough=dict(params={"kind": 0, "size": 1})),
    dict(fn="H_QueryLong", reach=["found", "nothing", "refused"], what="elements far in a long line", quick=dict(params={"kind": 1, "size": 1}), thorough=dict(params={"kind": 1, "size": 1})),
    dict(fn="H_QueryLong", reach=["found", "refused"], what="contents with channels around them", quick=dict(params={"kind": 4, "size": 4}), thorough=dict(params={"kind": 4, "size": 6}))])

prop(id="Q02", title="Nested queries give every valid instance in order, and every error",
  statement="A query with fetchers executes each of them, in order, on each selected content that is a tree (values are skipped) and hands the valid instances to its func in the order of the contents and, within one, of the fetchers: the multi func receives all of them, the single func the first. Instances that a nested query refuses are left out, those that are nil are not; without any instance the query is invalid and its func is not called. An error of a nested query or of any func is the error of the query, never a partial result.",
  over=["inputs"], quant="1 or 2 fetchers in every order, with single and multi funcs that accept, refuse or fail depending on the data, on lists of trees and of values; every input of 0 to 3 arbitrary bytes (thorough 5). 20 fetchers (thorough 70) on 40 contents (thorough 80), one on 600 (thorough 1100), three levels of queries, funcs that fail or give nothing, instances that are nil.",
  why="No test executes a query.",
  files=[QA, "libs/queries/domain/queries"], mechanism=[("fetchers executed on contents", QA)], observe=["Execute"], assume=[],
  harnesses=[dict(fn="H_QueryFetchers", reach=["found", "nothing", "refused"], what="nested queries", quick=dict(params={"data": 4}), thorough=dict(params={"data": 6})),
    dict(fn="H_QueryLong", reach=["found"], what="many fetchers that refuse or fail", quick=dict(params={"kind": 2, "size": 3}), thorough=dict(params={"kind": 2, "size": 5})),
    dict(fn="H_QueryLong", reach=["found", "refused"], what="queries through three levels", quick=dict(params={"kind": 5, "size": 1}), thorough=dict(params={"kind": 5, "size": 1})),
    dict(fn="H_QueryLong", reach=["found", "nothing", "refused"], what="content funcs that fail or give nothing", quick=dict(params={"kind": 6, "size": 1}), thorough=dict(params={"kind": 6, "size": 1})),
    dict(fn="H_QueryNil", reach=["found", "nothing"], what="instances that are nil", quick=dict(params={"data": 3}), thorough=dict(params={"data": 6})),
    dict(fn="H_QueryMany", reach=["found", "refused"], what="many fetchers on many contents", quick=dict(params={"contents": 40, "fetchers": 20}), thorough=dict(params={"contents": 80, "fetchers": 70}, budget=400)),
    dict(fn="H_QueryMany", reach=["found", "nothing", "refused"], what="one fetcher on hundreds of contents", quick=dict(params={"contents": 600, "fetchers": 1}), thorough=dict(params={"contents": 1100, "fetchers": 1}))])

prop(id="Q03", title="A recursive fetcher executes the query that encloses it",
  statement="A recursive fetcher executes the innermost enclosing query with that token name on the content, to any depth, whatever other queries on the same token were executed before it; a name that no enclosing query has gives an error when a content is reached.",
  over=["inputs"], quant="Nested lists queried by a recursive query next to a query of their values, in both orders, with known, outer and unknown names and names of a query that ended before; every input of 0 to 6 bytes among parentheses and one letter (thorough 8). Recursions of up to 8 levels (thorough 14) next to other queries. Up to 5 queries of different tokens (thorough 8), and 20 (thorough 40), around a fetcher that names any of them.",
  why="No test executes a query.",
  files=[QA], mechanism=[("queries in progress by token name", QA)], observe=["Execute"], assume=[],
  harnesses=[dict(fn="H_QueryRecursive", reach=["found", "nothing", "refused"], what="recursive queries", quick=dict(params={"data": 7}), thorough=dict(params={"data": 9})),
    dict(fn="H_QueryLong", reach=["found"], what="deep recursion next to other queries", quick=dict(params={"kind": 3, "size": 8}), thorough=dict(params={"kind": 3, "size": 14})),
    dict(fn="H_QueryChain", reach=["found", "refused"], what="queries of different tokens around a recursive one", quick=dict(params={"tokens": 5}), thorough=dict(params={"tokens": 8})),
    dict(fn="H_QueryChain", reach=["found", "refused"], what="queries of many tokens within each other", quick=dict(params={"exact": 20}), thorough=dict(params={"exact": 40}, budget=400))])

IA = "libs/interpreters/applications/application.go"
IASS = "functions of modules are deterministic"
prop(id="I01", title="A program compiles exactly when its names are declared once before use",
  statement="Instructions compile exactly when every module index exists, every application names a module declared before it, every module, application and parameter name is declared once among its kind (inputs and outputs share their names), every assigned variable value is an input, every attached variable was assigned or is an input, every attached or executed application was declared, and at least one instruction assigns or executes something; all this again in each program inside of a program, which has names of its own. Names are the same when the function for names given to the application says so. Otherwise compiling gives an error and no program.",
  over=["inputs", "histories"], quant="Every sequence of 2 declarations (thorough 3), alone and after others, of modules, applications, inputs and outputs with 2 names each and existing and unknown indexes, followed by any use; every sequence of 1 to 2 assignments, attachments and executions on declared names; programs inside of programs with 4 forms of declarations. Names that are prefixes of each other, and names that are written in a different way at every use.",
  why="No test compiles a program.",
  files=[IA, "libs/interpreters/domain/instructions", "libs/interpreters/domain/programs"], mechanism=[("names in maps per scope", IA)], observe=["Compile"], assume=[],
  harnesses=[dict(fn="H_InterpScope", reach=["executed", "refused"], what="declarations in any order", quick=dict(params={"free": 2}), thorough=dict(params={"free": 3})),
    dict(fn="H_InterpScope", reach=["executed", "refused"], what="names that are written in several ways", quick=dict(params={"free": 1, "declared": 1, "spelled": 1}), thorough=dict(params={"free": 2, "declared": 1, "spelled": 1})),
    dict(fn="H_InterpFlow", reach=["executed", "failed", "refused"], what="uses of names that are written in several ways", quick=dict(params={"free": 1, "spelled": 1}), thorough=dict(params={"free": 2, "spelled": 1})),
    dict(fn="H_InterpScope", reach=["executed", "refused"], what="declarations after a module and an input", quick=dict(params={"free": 2, "declared": 1}), thorough=dict(params={"free": 3, "declared": 1})),
    dict(fn="H_InterpFlow", reach=["executed", "failed", "refused"], what="uses in any order", quick=dict(params={"free": 1}), thorough=dict(params={"free": 2})),
    dict(fn="H_InterpIndex", reach=["executed", "refused"], what="modules of any indexes, in any order", quick=dict(), thorough=dict(params={"size": 4})),
    dict(fn="H_InterpLong", reach=["executed", "refused"], what="names that begin alike", quick=dict(params={"kind": 6}), thorough=dict(params={"kind": 6})),
    dict(fn="H_InterpSub", reach=["executed", "failed", "refused"], what="programs inside of programs", quick=dict(), thorough=dict(params={"free": 2}, budget=800))])

prop(id="I02", title="A program returns the values assigned to its outputs, in order",
  statement="Executing a program returns one value for each assignment to a variable that was declared before it as an output, in the order of the assignments, and nothing else. The value of a variable is the input with the position of that parameter among the inputs; a constant is itself; an execution is what the application's module returns; a program is the list of its own outputs on the same inputs; an input or a returned value that is nil is a value like any other. Every execution calls the module of its application once, in the order of the instructions, up to the first that fails. A missing input or a failing module gives an error and no output. Executing the same program again gives the same result.",
  over=["inputs", "histories"], quant="Every sequence of 2 assignments, attachments and executions (thorough 3) on two applications, two inputs and two outputs declared in turns, with 0 to 2 arbitrary inputs; programs inside of programs. Up to 6 inputs and outputs (thorough 8), programs nested 5 deep (thorough 7), more than 400 (thorough 800) instructions. Any 3 (thorough 4) executions, assigned or not, and programs, of modules that count their calls, any of which fails; inputs and returned values that are nil.",
  why="No test executes a program.",
  files=[IA, "libs/interpreters/domain/programs"], mechanism=[("indexes of the output instructions", IA), ("values resolved at execution", IA)], observe=["Execute"], assume=[IASS, "whether an attachment that is replaced needs its value is left open"],
  harnesses=[dict(fn="H_InterpFlow", reach=["executed", "failed", "refused"], what="instructions in any order", quick=dict(params={"free": 2}), thorough=dict(params={"free": 3, "vars": 4}, budget=800)),
    dict(fn="H_InterpSub", reach=["executed", "failed", "refused"], what="programs inside of programs", quick=dict(), thorough=dict(params={"free": 2}, budget=800)),
    dict(fn="H_InterpLong", reach=["executed", "failed"], what="many inputs and outputs", quick=dict(params={"kind": 0, "size": 6}), thorough=dict(params={"kind": 0, "size": 8})),
    dict(fn="H_InterpLong", reach=["executed"], what="programs in programs in programs", quick=dict(params={"kind": 2, "size": 5}), thorough=dict(params={"kind": 2, "size": 7})),
    dict(fn="H_InterpLong", reach=["executed"], what="longer programs in a program", quick=dict(params={"kind": 8, "size": 3}), thorough=dict(params={"kind": 8, "size": 5})),
    dict(fn="H_InterpLong", reach=["executed"], what="outputs far in a program", quick=dict(params={"kind": 4, "size": 5, "again": 1}), thorough=dict(params={"kind": 4, "size": 8, "again": 1})),
    dict(fn="H_InterpLong", reach=["executed"], what="hundreds of instructions", quick=dict(params={"kind": 7, "size": 300}), thorough=dict(params={"kind": 7, "size": 600})),
    dict(fn="H_InterpCalls", reach=["executed", "failed"], what="modules that count their calls", quick=dict(), thorough=dict(params={"size": 4, "fails": 5})),
    dict(fn="H_InterpNil", reach=["executed"], what="values that are nil", quick=dict(), thorough=dict(params={"size": 4}))])

prop(id="I03", title="An execution receives the attachments made before it, and only those",
  statement="An application is executed with exactly the values that were attached to it before that execution in the program, each at its target, a later one replacing an earlier one at the same target. The attached value is the value that was assigned last to the variable before the attachment, or else the input of that name; later assignments and attachments do not change executions that came before, and attachments to one application do not reach another.",
  over=["inputs", "histories"], quant="Three attachments of inputs, outputs or other variables to any of two targets of two applications, around executions whose values are assigned, attached again and returned; every sequence of 2 instructions (thorough 3); 0 to 2 arbitrary inputs. One application attached and executed up to 4 times (thorough 6), 3 applications of one module (thorough 5), 300 (thorough 600) attachments. Any 3 (thorough 4) targets of 64 bits. Any 3 (thorough 4) executions, assigned or not, of modules that count their calls.",
  why="No test executes a program.",
  files=[IA, "libs/interpreters/domain/programs/application.go"], mechanism=[("application value replaced at each attachment", IA)], observe=["Execute", "the parameters modules receive"], assume=[IASS, "whether an attachment that is replaced needs its value is left open"],
  harnesses=[dict(fn="H_InterpPipeline", reach=["executed", "failed", "refused"], what="values through two applications", quick=dict(), thorough=dict()),
    dict(fn="H_InterpFlow", reach=["executed", "failed", "refused"], what="instructions in any order", quick=dict(params={"free": 2, "vars": 3}), thorough=dict(params={"free": 3, "vars": 4}, budget=800)),
    dict(fn="H_InterpLong", reach=["executed"], what="one application attached and executed again and again", quick=dict(params={"kind": 1, "size": 4, "again": 1}), thorough=dict(params={"kind": 1, "size": 6, "again": 1})),
    dict(fn="H_InterpLong", reach=["executed", "failed"], what="several applications of one module", quick=dict(params={"kind": 3, "size": 3}), thorough=dict(params={"kind": 3, "size": 5})),
    dict(fn="H_InterpLong", reach=["executed"], what="variables assigned again between attachments", quick=dict(params={"kind": 5, "size": 3}), thorough=dict(params={"kind": 5, "size": 4})),
    dict(fn="H_InterpLong", reach=["executed"], what="hundreds of attachments", quick=dict(params={"kind": 7, "size": 300}), thorough=dict(params={"kind": 7, "size": 600})),
    dict(fn="H_InterpTargets", reach=["executed"], what="any targets", quick=dict(params={"size": 3}), thorough=dict(params={"size": 4})),
    dict(fn="H_InterpCalls", reach=["executed", "failed"], what="modules that count their calls", quick=dict(), thorough=dict(params={"size": 4, "fails": 5}))])

PARTS_STATEMENT = "A part that is assembled by its builder is built exactly when its mandatory parts were given - for a choice, one of its alternatives; for a list, at least one element - in whatever order they were given, and otherwise gives an error and no part. What is built says exactly what was given: each part given is returned unchanged, lists in their order, each optional part or alternative that was not given is reported as absent. Create() begins with nothing of an earlier use of the builder, and parts that were built before do not change."
PARTS_ASSUME = ["a choice is given one alternative at most: which of two wins is left open", "the lists given to a builder are not changed afterwards"]

prop(id="A13", title="Grammars and coverages are built of exactly the parts that were given",
  statement=PARTS_STATEMENT + " This holds for grammars, channels, conditions, externals, instances, everythings, tokens, suites, blocks, lines, containers, elements, composes, cardinalities, values, coverages, executions and results; instances, containers and elements bear the name of what they contain, and a value that occurs zero times is no element of a compose.",
  over=["inputs", "histories"], quant="Every subset of the parts, forwards and backwards, alone, after an earlier use and after an earlier part was built; every number and every character that a part holds; lists of 0 to 3 elements.",
  why="Tests build complete parts, once.",
  files=["libs/asts/domain/grammars"], mechanism=[("builders and what they build", "libs/asts/domain/grammars/*_builder.go")], observe=["the builders of grammars and coverages", "what they build"], assume=PARTS_ASSUME,
  harnesses=[dict(fn="H_PartsGrammar", reach=["complete", "incomplete", "list", "empty"], what="parts of grammars and coverages", quick=dict(), thorough=dict())])

prop(id="A14", title="Trees are built of exactly the parts that were given",
  statement=PARTS_STATEMENT + " This holds for trees, blocks, lines, elements, contents and values; remaining data of no bytes is none, and elements are found by the name of their grammar, and by no other.",
  over=["inputs", "histories"], quant="Every subset of the parts, forwards and backwards, alone, after an earlier use and after an earlier part was built; every byte and every index; lists of 0 to 3 elements, in several orders.",
  why="Tests build complete parts, once.",
  files=["libs/asts/domain/trees"], mechanism=[("builders and what they build", "libs/asts/domain/trees/*_builder.go")], observe=["the builders of trees", "what they build"], assume=PARTS_ASSUME,
  harnesses=[dict(fn="H_PartsTree", reach=["complete", "incomplete", "list", "empty", "found", "not found"], what="parts of trees", quick=dict(), thorough=dict())])

prop(id="Q04", title="Queries are built of exactly the parts that were given",
  statement=PARTS_STATEMENT + " This holds for queries, tokens, elements, insides, fetchers and the functions of queries and contents, which are returned as the functions they are.",
  over=["inputs", "histories"], quant="Every subset of the parts, forwards and backwards, alone, after an earlier use and after an earlier part was built; every index; lists of 0 to 3 fetchers.",
  why="No test builds a query.",
  files=["libs/queries/domain/queries"], mechanism=[("builders and what they build", "libs/queries/domain/queries/*_builder.go")], observe=["the builders of queries", "what they build"], assume=PARTS_ASSUME,
  harnesses=[dict(fn="H_PartsQuery", reach=["complete", "incomplete", "list", "empty"], what="parts of queries", quick=dict(), thorough=dict())])

prop(id="I04", title="Instructions and programs are built of exactly the parts that were given",
  statement=PARTS_STATEMENT + " This holds for modules, applications, parameters, variables, attachments, assignments, values and instructions, and for the modules, values, attachments, applications, instructions and outputs of programs; outputs that are none are absent, and modules are found by their index, and by no other.",
  over=["inputs", "histories"], quant="Every subset of the parts, forwards and backwards, alone, after an earlier use and after an earlier part was built; every index and every name of 1 or 2 bytes; lists of 0 to 3 elements; up to 3 modules of arbitrary indexes.",
  why="No test builds an instruction or a program.",
  files=["libs/interpreters/domain/instructions", "libs/interpreters/domain/programs"], mechanism=[("builders and what they build", "libs/interpreters/domain")], observe=["the builders of instructions and programs", "what they build"], assume=PARTS_ASSUME,
  harnesses=[dict(fn="H_PartsInstruction", reach=["complete", "incomplete", "list", "empty"], what="parts of instructions", quick=dict(), thorough=dict()),
    dict(fn="H_PartsProgram", reach=["complete", "incomplete", "list", "empty", "found", "not found"], what="parts of programs", quick=dict(), thorough=dict())])

prop(id="R04", title="References and hash trees are built of exactly the parts that were given",
  statement=PARTS_STATEMENT + " This holds for contents, pointers, content keys, commits and references, and for leaves, parents, compacts and hash trees; data and pointers of no length are refused, and content keys and commits are found by their hash.",
  over=["inputs", "histories"], quant="Every subset of the parts, forwards and backwards, alone, after an earlier use and after an earlier part was built; every hash, kind, location and length, data of 1 or 2 bytes; lists of 0 to 3 elements.",
  why="Tests build complete parts, once.",
  files=["libs/databases/domain", "libs/cryptography/domain/hashtrees"], mechanism=[("builders and what they build", "libs/databases/domain")], observe=["the builders of contents, references and hash trees", "what they build"], assume=PARTS_ASSUME,
  harnesses=[dict(fn="H_PartsReference", reach=["complete", "incomplete", "list", "empty", "no length"], what="parts of references and hash trees", quick=dict(), thorough=dict())])
