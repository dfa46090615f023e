import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if obs: a["observe_at"]=[obs]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","A gathered chain reads back exactly as the node served it",
 "After a complete gather of a Bitcoin Core node's chain (hash phase, index phase, main phase) with any of the documented options (binary or JSON, plain or handle interface, multi-pass or adaptive indexing, any thread count, any block limit), reopening the store read-only yields exactly the blocks served up to the limit: same number and order of blocks, transactions, inputs and outputs, same hashes, satoshi values, sources of inputs, address of every output and every requested statistic. Nothing is lost, duplicated, reordered or invented.",
 ["inputs","configurations"],"every valid chain a node can serve, every combination of run options",
 "the full pipeline test needs a synced Bitcoin Core node and only samples a handful of fields of the real chain; a mistake needs a particular chain shape (repeated addresses, same-block spends, many outputs) or option combination",
 ["jobs/intrinsicparallel.go","chainstorage/concreteappendablechain.go","chainstorage/concretehasheschain.go","chainstorage/concretereadablechain.go","intrinsicobjectscri/chain.go","intrinsicobjectschi/chain.go"],
 [("three phase job","jobs/intrinsicparallel.go RunIntrinsic"),("append of one block with its transactions","chainstorage/concreteappendablechain.go AppendBlock / AppendBlockChi"),("read only chain","chainstorage/concretereadablechain.go")],
 "the read-only chain opened on the finished folder, compared with the served chain")
p("C02","The stored bytes do not depend on threads, formats or timing",
 "The files produced by gathering a given chain are byte for byte the same whatever the number of threads, the order in which blocks arrive from the node, the transfer format (binary or JSON) and the interface used to hand over blocks. The adaptive and the multi-pass indexing produce equivalent indexes.",
 ["schedules","configurations"],"every thread count, every arrival order and delay of block responses, every format/interface choice",
 "a test runs one schedule; a race between fetchers, sequencer, the parallel input/output appends and the index workers shows only under particular interleavings",
 ["jobs/intrinsicparallel.go","corereader2/getparseblocksbinary.go","concurrency/sequencercontainer.go","chainstorage/concreteappendablechain.go"],
 [("parallel fetch and parse feeding a sequencer","corereader2/getparseblocksbinary.go GetAndParseBlocks"),("parallel append of inputs and outputs","chainstorage/concreteappendablechain.go")],
 "digests of all files of the finished folder")
p("C03","Cross links of a stored chain agree with each other",
 "In a stored chain, an input's source is exactly the output it spends; the parent of every transaction, input and output is the one whose list contains it; the outputs listed for an address are exactly the outputs paying to it, in order, each once; and the first-transaction, first-input and first-output positions partition all transactions, inputs and outputs without gap or overlap. Satoshi values and counts are conserved between the chain appended and the chain stored.",
 ["inputs","histories"],"every stored chain, over any sequence of appends and sessions",
 "tests look at a few hand picked links of one fixed chain; the links come from two goroutines writing different files and from read-modify-write of older entries",
 ["chainstorage/concreteappendablechain.go","chainstorage/concretereadablechain.go","chainstorage/transaction.go","chainstorage/address.go"],
 [("sources, parents, address lists","chainstorage/concreteappendablechain.go"),("readers of the links","chainstorage/concretereadablechain.go, transaction.go, address.go")],
 "every object reached through the read-only chain and the parents interface")
p("C04","Copying a chain into a store keeps it, across closes and reopens",
 "Appending the blocks of any source chain to a chain store, on disk or in the in-memory mode, in one session or many with closes in between, gives a store in which every block, transaction, input, output and address can be found by height, by hash where a hash exists (the first of those sharing it), by its parent's list, and by walking next/parent links from genesis to latest, each route giving the same object. Asking for a height outside the stored range, or for a hash not stored, yields an error or the invalid handle, never another object and never a crash.",
 ["inputs","histories","configurations"],"every source chain, every split of its appends into sessions, every store configuration",
 "tests copy one fixed tiny chain once, in one session",
 ["chainstorage/concreteappendablechain.go","chainstorage/concreteappendablechainfactory.go","chainstorage/concretereadablechain.go","chainstorage/handles.go","tinychain/blockchain.go"],
 [("factory and open modes","chainstorage/concreteappendablechainfactory.go"),("navigation","chainstorage/concretereadablechain.go")],
 "all navigation routes of the reopened store")
p("C05","A serialised block parses to exactly its contents",
 "Parsing the network serialisation of any block yields its header fields, the double-SHA256 block hash, and for each transaction its txid (without witness), inputs, outputs, satoshis, scripts, coinbase mark and its size, stripped size, vsize and weight. Legacy and segwit transactions, any compact-size width and empty or long scripts are all handled, and every length prefix is honoured.",
 ["inputs"],"every well formed serialised block",
 "tests parse a few real blocks; the format has several variable width encodings, optional witness parts and boundary lengths (0xfc/0xfd/0xffff/0x10000)",
 ["intrinsicobjects/binaryblock.go","intrinsicobjects/binarytransaction.go"],
 [("block parser","intrinsicobjects/binaryblock.go ParseBinaryBlock"),("transaction parser","intrinsicobjects/binarytransaction.go"),("compact size","intrinsicobjects ReadCompactSize")],
 "the parsed Block struct")
p("C06","The JSON and the binary form of a block parse to the same block",
 "For any block, parsing the JSON that Bitcoin Core serves for it gives the same hashes, header fields, inputs (but for the output number of a coinbase input, which JSON does not have), outputs, satoshi amounts, scripts and sizes as parsing its binary form. Bitcoin amounts are converted to satoshis exactly for every value from 0 to 21 million BTC.",
 ["inputs"],"every block and every amount representable in JSON",
 "amount conversion goes through floating point; tests look at a few amounts",
 ["intrinsicobjects/jsonblock.go","intrinsicobjects/jsontransaction.go","intrinsicobjects/binaryblock.go"],
 [("JSON decode","intrinsicobjects/jsonblock.go ParseJsonBlock"),("amounts","intrinsicobjects/jsontransaction.go")],
 "the two parsed Block structs")
p("C07","Bad JSON from the node never becomes a block",
 "A block response whose JSON is truncated or otherwise not well formed, has a value of the wrong type, a missing or wrongly sized block hash, previous hash, merkle root, txid or input txid, or a non-hex character in a hash or script is reported as an error, and never returned as a successfully parsed block. Parsing never crashes or hangs on any input.",
 ["inputs","fault_sequences"],"every corruption of a JSON block response",
 "tests only ever parse good responses",
 ["intrinsicobjects/jsonblock.go","intrinsicobjects/jsontransaction.go","indexedhashes/hexstring.go"],
 [("JSON decode and validation","intrinsicobjects/jsonblock.go ParseJsonBlock")],
 "error result and parsed struct")
p("C08","Derived block statistics follow Bitcoin's rules",
 "For every block taken in sequence, the median time is the middle of the sorted last (up to) eleven timestamps, the difficulty follows from the compact target, and size, stripped size, weight, vsize of block and transactions match the serialisation; the plain and the handle interface give the same figures. A block whose previous hash is not the current block's, or a first block that is not genesis, is refused.",
 ["inputs","histories"],"every sequence of blocks and timestamps, in or out of order",
 "tests run the real early chain, whose timestamps and targets barely vary",
 ["intrinsicobjectscri/chain.go","intrinsicobjectscri/block.go","intrinsicobjectschi/chain.go","intrinsicobjects/binaryblock.go"],
 [("sliding window median","PostIntrinsicCalculateMedianTime"),("difficulty","intrinsicobjects CalculateDifficulty"),("sequence check","NextBlock")],
 "statistics delivered through both chain interfaces")
p("C09","The sequencer delivers every item once and in order",
 "Items sent into the sequencer in any order, by any number of goroutines, come out in increasing sequence number, each exactly once, none lost, and the output closes only after the last one. A producer that waits for the sequencer not to be bloated always resumes while the consumer keeps consuming and the missing item arrives.",
 ["schedules","inputs"],"every arrival order, every interleaving of producers and consumer",
 "tests use one order; loss, duplication, deadlock and data races need particular interleavings",
 ["concurrency/sequencercontainer.go"],[("heap and bloat wait","concurrency/sequencercontainer.go")],"the output channel; race detector")
p("C10","The worker pool runs each task once and reports its own error",
 "Every task submitted to the worker pool is processed exactly once, its error (or nil) is set after processing and before it is marked done, and no task receives another's error. The number of tasks running at a time never exceeds the number of workers, and waiting for completion returns only after all tasks are done.",
 ["schedules"],"every number of workers, tasks and submitters, every interleaving",
 "needs particular interleavings under load",
 ["concurrency/workerpool.go"],[("pool","concurrency/workerpool.go")],"instrumented tasks; race detector")
p("C11","The multi-pass hash index finds every hash and nothing else",
 "After indexing a file of hashes with the multi-pass indexer, looking up any stored hash gives its position (the first one if repeated), reading a position gives back that hash (a position holding a repeat of an earlier hash may read as zeroes), the count is the number of stored hashes, and looking up a hash that was not stored gives not-found. This holds for any parameters the parameter calculator accepts, memory budget, number of passes, overflowing bins and extreme hash values.",
 ["inputs","configurations"],"every multiset of hashes, parameter set, pass split and thread count",
 "tests index uniformly random hashes with one parameter set; bin overflow, equal truncated hashes and extreme values are measure-zero events",
 ["indexedhashes3/multipasspreloader.go","indexedhashes3/singlepass.go","indexedhashes3/hashstore.go","indexedhashes3/binbytes.go","indexedhashes3/binfiles.go"],
 [("bin building","indexedhashes3/singlepass.go"),("lookup","indexedhashes3/hashstore.go IndexOfHash"),("bin layout","indexedhashes3/binbytes.go")],
 "lookups through the hash store reopened from files")
p("C12","The hash index does not depend on how it was built",
 "The multi-pass and the adaptive-pass indexer, with any thread count, memory budget or number of passes, give indexes that answer every lookup identically, and rebuilding over an older index leaves no trace of it. A failure while indexing is reported, not swallowed.",
 ["schedules","configurations","fault_sequences"],"every thread count, pass split, leftover folder content and injected I/O failure",
 "tests build one way; sharing of buffers between workers and passes shows only under particular schedules and splits",
 ["indexedhashes3/adaptivepass.go","indexedhashes3/adaptivepasspreloader.go","indexedhashes3/multipasspreloader.go","indexedhashes3/singlepass.go"],
 [("adaptive workers","indexedhashes3/adaptivepass.go"),("multi-pass workers","indexedhashes3/singlepass.go")],
 "index files and lookups of differently built indexes; race detector")
p("C13","Hashes appended one at a time are found like preloaded ones",
 "Appending hashes one at a time to a created or preloaded hash index returns consecutive positions, and afterwards every hash, old or new, is found at its (first) position, now and after close and reopen. Absent hashes are not found.",
 ["inputs","histories"],"every sequence of appends, lookups, closes and reopens",
 "tests append a few random hashes; bins growing into overflow files and shared bins need particular hashes",
 ["indexedhashes3/hashstore.go","indexedhashes3/hashstorecreator.go","indexedhashes3/binbytes.go","indexedhashes3/binfiles.go"],
 [("append","indexedhashes3/hashstore.go AppendHash"),("bin save with overflow","indexedhashes3/binfiles.go")],
 "all lookups against a model map after each step")
p("C14","The original hash stores behave as an append-only indexed list",
 "The original hash store, the basic store, the in-memory index and the uniform store give each appended hash the next position, find every stored hash at its position, return the stored hash for a position, count correctly and report absent hashes as not found, before and after close and reopen, whatever hash collisions occur in partial hashes. A store preloaded from a file of hashes answers the same as one built by appending.",
 ["inputs","histories","configurations"],"every hash sequence and legal store geometry",
 "tests use a few random hashes and one or two geometries",
 ["indexedhashes/hashstore.go","indexedhashes/basichashstore.go","indexedhashes/memoryindexed.go","indexedhashes/uniform.go","indexedhashes/preloader.go","indexedhashes/multipasspreloader.go"],
 [("partial hash lookup and collision chains","indexedhashes/hashstore.go"),("uniform bins","indexedhashes/uniform.go")],
 "all lookups against a model list")
p("C15","Word and hash files behave as arrays on disk",
 "A word file or hash file reads back the last value written at every index, counts the highest index written plus one, extends with zeroes, reports reads outside the range, lets a value that does not fit disturb no other word, and keeps all of it across close and reopen. The plain, append-optimised, memory-mapped and memory-shadowed variants are indistinguishable.",
 ["histories","configurations"],"every sequence of operations, every word size and variant",
 "tests perform a few writes and reads per variant",
 ["wordfile/wordfile.go","wordfile/hashfile.go","wordfile/concretewordfilecreator.go","wordfile/memshadowedwordfile.go"],
 [("word files","wordfile/wordfile.go")],"results of every operation against an array model")
p("C16","File wrappers are indistinguishable from the plain file",
 "The append-optimised, size-tracking, read-only mapped and in-memory files give the same bytes, lengths and errors as a plain file for any sequence of positioned reads, writes, appends, whole reads, syncs, closes and reopens, with any buffer boundary. Data is on disk after a sync or close.",
 ["histories"],"every operation sequence and buffer alignment",
 "tests exercise few offsets; buffer boundary and overlap errors need particular lengths and positions",
 ["memfile/appendoptimized.go","memfile/filewithsize.go"],[("append buffer","memfile/appendoptimized.go")],"bytes returned, and bytes on disk, against a byte array model")
p("C17","Integer array stores return exactly the lists put in",
 "A map from index to list of integers, cached or not, on any storage, returns for each index exactly the elements appended to it in order, through any number of evictions, flushes, closes and reopens; the packed array and variable-length integer encodings round-trip every value. Untouched indexes are empty.",
 ["histories","configurations"],"every sequence of appends, reads, evictions and reopens",
 "tests append to a few arrays without reaching the cache limit or folder boundaries",
 ["intarrayarray/intarraymapstore.go","intarrayarray/cachedintarraymapstore.go","intarrayarray/intarrayarray.go","intarrayarray/varint.go"],
 [("map store","intarrayarray/intarraymapstore.go"),("cache","intarrayarray/cachedintarraymapstore.go")],"lists against a model map")
p("C18","Numbered folders give every number its own path",
 "For every folder-digit setting the path and name generated for a number are unique to the number (or to the group that shares the file), stable between calls and sessions, and the number's place in the file is unique within it. No path of one number is a prefix folder of another's file.",
 ["inputs","configurations"],"every number and digit setting",
 "tests look at a few numbers",
 ["numberedfolders/numberedfolders.go"],[("path calculation","numberedfolders/numberedfolders.go")],"paths for dense ranges and boundary numbers")
p("C19","The tiered hash cake finds every hash at its position",
 "In a cake of tiered hash forests, after any sequence of appends and bakings of distinct 32-byte hashes, the hash at every position reads back exactly, every stored hash is found at its own position, and a hash never appended is not found. This holds at every tier and every number of levels, across tree and forest boundaries, and for hashes with shared prefixes.",
 ["inputs","histories"],"every sequence of appended distinct hashes, including shared prefixes, crossing every baking boundary",
 "the repository's three-tier test is random and does not hold; tier boundaries lie at multiples of 65535 hashes and prefix clashes are rare",
 ["weddingcakeback/tiertop.go","weddingcakeback/tierbelow.go","weddingcakeback/donutforestwrite.go","weddingcakeback/donutforestread.go","weddingcakefront/cake.go"],
 [("baking","weddingcakeback/bakingdesigner.go, donutforestwrite.go"),("lookups","weddingcakeback/tiertop.go, tierbelow.go")],"lookups through the cake after each baking")
p("C20","The older cake's chunks and trees never miss a stored hash",
 "A shallow tree or chunk built from any set of distinct hashes with consecutive numbers reports a potential match, with the right number, for every hash in it; an absent hash is reported only as a potential match of a stored hash that agrees with it in the bytes examined. Written chunk files, of one chunk or several, read back the same answers as the chunks in memory. A tier-zero store gives each appended hash its number, finds it by hash and by number, and refuses numbers out of range with an error.",
 ["inputs"],"every set of hashes, including shared prefixes",
 "tests use random hashes; node overflow, shared prefixes and extreme bytes are rare",
 ["weddingcake/chunk.go","weddingcake/shallowtree.go","weddingcake/chunkfiles.go","weddingcake/tierzero.go","weddingcake/nodeformat.go"],
 [("tree build and lookup","weddingcake/shallowtree.go"),("chunk files","weddingcake/chunkfiles.go")],"lookups against the set put in")
p("C21","The fixed-node-size hash tree never misses a stored hash",
 "Looking up a hash in a tree built from any sequence of hashes gives the number stored for it, for every node size format and any first byte; a repeated hash gives its lowest number and is marked as repeated. A hash not in the tree gets the same answer from the tree in memory and from its serialized form, and the bytes reported as examined really tell it apart. With only some levels of a serialized tree loaded, the answer is the full one or that more levels are needed.",
 ["inputs"],"every set of hashes and node format",
 "tests use random hashes of one set size",
 ["indexedhashestree/shallowtree.go","indexedhashestree/multiplefixednodesize.go"],
 [("node formats","indexedhashestree/multiplefixednodesize.go"),("tree","indexedhashestree/shallowtree.go")],"lookups against the set put in", "in-package export through a build overlay")
p("C22","Hash text conversion round-trips and refuses bad text",
 "Converting a hash to hex and back gives the same hash in Bitcoin's byte order, the script and address hashes are the SHA-256 of their input, and text of the wrong length or with non-hex characters is refused with an error, never turned into some hash or a crash.",
 ["inputs"],"every 32-byte value and every string",
 "tests convert one or two good strings",
 ["indexedhashes/hexstring.go","corereader2/utils.go","indexedhashes/hashofbytes.go","indexedhashes/hashofstring.go"],
 [("hex","indexedhashes/hexstring.go")],"conversion results against encoding/hex and crypto/sha256")
p("C23","Fetching from the node survives faults without inventing data",
 "Whatever short reads, resets, non-200 answers, truncated or unparsable bodies or wrong blocks the node gives, the streamed block hashes are a prefix of the node's chain in order, up to the limit asked for, and each fetched block is the node's block of that hash and height, complete and exactly once; a block whose fetch fails is asked for again, so up to two failures in a row go unnoticed. When data cannot be obtained the run stops with a failure instead of continuing with wrong or missing data.",
 ["fault_sequences","schedules"],"every sequence of transport faults and every thread count",
 "tests need a live node and never see a fault",
 ["corereader2/blockhashes.go","corereader2/getparseblocksbinary.go"],
 [("header batches","corereader2/blockhashes.go"),("retry loop","corereader2/getparseblocksbinary.go")],"the two output channels, against the fake node's record of what it served")
p("C24","Memory-pressure waiting is safe and always ends",
 "Goroutines that wait for memory to be available are released once memory use is below the limit and freeing has been announced, however many wait at the same time, and none is blocked while use is below it. The shared state is free of data races.",
 ["schedules"],"any number of concurrent waiters and any pattern of memory use",
 "needs concurrent waiters at the moment the limit is crossed",
 ["memblocker/memblocker.go"],[("wait and wake","memblocker/memblocker.go")],"waiters released; race detector")
p("C25","A write that fails is reported, never passed off as success",
 "When a write to disk fails while a chain is gathered or appended to - the disk is full, a file may not grow, a folder cannot be written - the run or the append ends with an error, it does not hang or crash, and it never reports success with data missing. What an earlier successful run had stored is not turned into something else: unless the damaged store refuses to open, it reads as before.",
 ["fault_sequences","crash_points"],"every point of a run or of an append at which a write can first fail",
 "tests never see a failing disk; buffered writers delay the failure to a flush or close whose error is easily dropped",
 ["jobs/intrinsicparallel.go","chainstorage/concreteappendablechain.go","memfile/appendoptimized.go","indexedhashes3/singlepass.go","indexedhashes3/adaptivepass.go","intarrayarray/cachedintarraymapstore.go"],
 [("phases return their write errors","jobs/intrinsicparallel.go"),("sync and close","chainstorage/concreteappendablechain.go"),("buffered files","memfile/appendoptimized.go")],
 "result of the run, and the data read back whenever it claims success")
p("C26","Gathering and indexing run without data races or leaks",
 "No two goroutines of the fetching, sequencing, indexing and appending stages access the same memory without synchronisation, for any thread count and format. When a run ends, successfully or not, it leaves no goroutine of the store still writing.",
 ["schedules"],"every thread count, chain shape and timing",
 "a race changes results only under rare timings, and the repository's tests do not run these stages concurrently",
 ["jobs/intrinsicparallel.go","chainstorage/concreteappendablechain.go","indexedhashes3/singlepass.go","indexedhashes3/adaptivepass.go","corereader2/getparseblocksbinary.go"],
 [("parallel stages","jobs/intrinsicparallel.go")],"race detector over the whole pipeline; goroutine count")
p("C27","Synced blocks are on disk",
 "After a sync of a chain store that is being appended to, the files on disk contain every block appended so far: a copy of the folder taken at that moment, as a crash would leave it, opens and reads back all of them. Appending after the sync does not disturb them.",
 ["crash_points","histories"],"every point at which a sync happens and a crash follows",
 "tests always close cleanly",
 ["chainstorage/concreteappendablechain.go","memfile/appendoptimized.go","intarrayarray/cachedintarraymapstore.go"],
 [("sync of all files","chainstorage/concreteappendablechain.go Sync")],"a copy of the folder taken right after sync, opened with fresh objects")
p("C28","Closing gives back every file, and so does an open that fails",
 "After Close (or Sync, for what has no Close) of anything opened for writing - chain stores, hash lists, hash indexes, cakes, integer arrays, word files - even if it fails, and after a gathering or indexing job ends, well or badly, no file of its folder is open or mapped by the process any longer and none of its goroutines stays. Opening a folder of which a file is missing, empty, cut short or replaced by a folder, if it fails with an error, leaves nothing open either. The number of open files does not grow with the number of things read or appended.",
 ["fault_sequences","histories"],"every history of opens, uses and closes, and every way an open can fail part of the way",
 "tests close, if at all, and never look at what the process still holds; the garbage collector hides the rest",
 ["chainstorage/concreteappendablechain.go","chainstorage/concreteappendablechainfactory.go","indexedhashes3/hashstore.go","weddingcakeback/tierbelow.go","wordfile/concretewordfilecreator.go"],
 [("Close functions","chainstorage/concreteappendablechain.go Close"),("opening","chainstorage/concreteappendablechainfactory.go")],"the process's list of descriptors and mappings, with garbage collection held back")
p("C29","Reading never changes what is stored, and needs no right to write",
 "Anything opened read only - a chain in any mode, hash lists, hash indexes, cakes, integer arrays, word files - is left exactly as it was by any reading and closing: names, bytes, modes and modification times. No file is opened or mapped for writing. A store that nobody may change is read as well, by an account without privileges, and one that was copied or moved to another folder reads the same. Opening for writing and closing without appending changes no content, and what was read goes on growing as before.",
 ["histories","configurations"],"every history of readings, of everything that can be opened, wherever it lies",
 "tests read as root from folders they may write to, and compare nothing afterwards",
 ["chainstorage/concreteappendablechainfactory.go","indexedhashes/uniform.go","indexedhashes3/hashstorecreator.go","weddingcakefront/cakecreator.go","wordfile/concretewordfilecreator.go"],
 [("opening read only","chainstorage/concreteappendablechainfactory.go OpenReadOnly"),("uniform store","indexedhashes/uniform.go OpenHashStoreReadOnly")],"listings of the folder and of the process's descriptors; the same answers without privileges and from elsewhere")
p("C30","A copy made from a stored chain is as good as the original",
 "The read-only view of a stored chain serves as a source: walked from its genesis block by NextBlock, with its hashes gathered, indexed and its blocks appended to a new store (the hash of each output's address looked up in the view), it gives a store holding exactly the same chain, whatever the modes of either store, over any number of generations and sessions; two made the same way have the same bytes. The built-in tiny chain is copied just so, except for addresses, which it does not have.",
 ["inputs","histories"],"every chain, pair of modes and number of generations",
 "tests copy one chain of a few blocks, once",
 ["chainstorage/concretereadablechain.go","chainstorage/handles.go","chainstorage/transaction.go","chainstorage/concreteappendablechain.go","tinychain/blockchain.go"],
 [("the view","chainstorage/concretereadablechain.go"),("appending","chainstorage/concreteappendablechain.go AppendBlock")],"the model of the first chain, and the bytes of another generation made the same way")
p("C31","Stores in one process do not disturb each other",
 "Any number of chain stores, hash lists, hash indexes, cakes, integer arrays and word files, also several of one kind, can be built, open and in use at once in one process, each in a folder of its own and used by a goroutine of its own: every answer and every file, byte for byte, is as if it were alone there. One thing opened read only several times answers all its readers at once, and closing one of them leaves the others working.",
 ["schedules","histories"],"every set of stores and every interleaving of what is done with them",
 "tests open one store at a time",
 ["chainstorage/concreteappendablechain.go","indexedhashes3/hashstore.go","indexedhashes/hashstore.go","weddingcakefront/cake.go","intrinsicobjects/","wordfile/wordfile.go","intarrayarray/intarraymapstore.go"],
 [("word files","wordfile/wordfile.go ReadWordAt"),("hash indexes","indexedhashes3/hashstore.go IndexOfHash"),("chains","chainstorage/concreteappendablechain.go")],"the bytes of the same life led alone, the model of each store, and the race detector")
p("C32","What is handed over belongs to whoever has it",
 "Lists, bytes, maps, handles and objects which a store or a view has handed out stay as they were whatever is read, appended, synced or closed afterwards, and may be written over without changing what is stored or later answers. Hashes and bytes handed in - to append, to look up, to write, to parse - are not changed, and may be written over as soon as the call returns. (The whole-file read of a mapped file shows the mapping itself, and is excepted.)",
 ["histories"],"every history of calls in between, of everything that can be opened",
 "tests use what they get at once and once",
 ["chainstorage/handles.go","chainstorage/concretereadablechain.go","chainstorage/transaction.go","intarrayarray/intarraymapstore.go","memfile/appendoptimized.go","indexedhashes/memoryindexed.go","weddingcakeback/tiertop.go","intrinsicobjects/binaryblock.go"],
 [("handles","chainstorage/handles.go"),("arrays","intarrayarray/intarraymapstore.go GetArray"),("hashes","weddingcakeback/tiertop.go AppendHash")],"copies of what was handed out compared later, and the model of the store after writing over everything handed over")
p("C33","A read that fails is reported, never taken for an answer",
 "When opening, reading, seeking or listing a file of a store fails, once or from then on - a bad sector, too many open files, no right to read - whoever opened, asked, appended or indexed gets an error, or an answer that is right all the same: never a wrong one, 'not found' for what is there, an empty or shorter list, or success with things left out; and no crash. An open that fails leaves nothing open. When the files can be read again, what was open answers rightly again. This holds for chains in every mode, hash lists, hash indexes, cakes, integer arrays, word files, and for indexing. (Calls that return no error, like whether a store exists or an address's Hash, are excepted.)",
 ["fault_sequences"],"every operation of opening, reading, appending and indexing at which a read can first fail",
 "tests never see a failing read; errors of inner calls are easily dropped, or taken for the end of something",
 ["indexedhashes3/hashstore.go","indexedhashes3/binfiles.go","indexedhashes3/multipasspreloader.go","indexedhashes/uniform.go","indexedhashes/hashstore.go","weddingcakeback/tierbelow.go","chainstorage/concreteappendablechainfactory.go","chainstorage/block.go","memfile/appendoptimized.go","intarrayarray/intarraymapstore.go"],
 [("bins","indexedhashes3/binfiles.go loadBinFromFiles"),("tiers of a cake","weddingcakeback/tierbelow.go ExistsOnDisk"),("lookups","indexedhashes3/hashstore.go IndexOfHash")],"the right answers, known beforehand, compared with those given while operations fail")
p("C34","Failing to write a store is reported and loses nothing stored before",
 "When an operation that writes a file of a store fails - cleanly, or after part of it, once or from then on - while hash lists, hash indexes, cakes, integer arrays, word files, in-memory files or chains are built, appended to, synced or closed, one of these calls reports it, or all is there when the store is opened again; none crashes. If the write failed cleanly, hash lists, indexes, cakes, arrays and word files still give everything that was stored in them before the session in which it failed. After Close, even one that fails, no file of the store stays open. Going on with a hash list, index, cake, map of arrays, word file or append-optimized file after that, what is appended or written and then synced without an error is there (a hash whose appending to an index failed need not be, when it is tried again). (Chains must be synced before they are closed, since closing one reports nothing, and are not appended to after a failed append.)",
 ["fault_sequences","crash_points"],"every operation of building, appending, syncing and closing at which a write can first fail",
 "tests never see a failing write; writes are buffered, and an error at a flush or close is easily dropped, and rewriting in place loses the old with the new",
 ["indexedhashes3/binfiles.go","indexedhashes/hashstore.go","memfile/fixedsize.go","memfile/appendoptimized.go","intarrayarray/intarrayarray.go","weddingcakeback/tiertop.go","wordfile/concretewordfilecreator.go","chainstorage/concreteappendablechain.go"],
 [("overflow files","indexedhashes3/binfiles.go saveBinToFiles"),("collisions","indexedhashes/hashstore.go AppendHash"),("lookup files","memfile/fixedsize.go Close"),("arrays","intarrayarray/intarrayarray.go SaveFile")],"what the calls returned, against the store opened again and everything put into it")
p("C35","Stores are as exact at the size of the real chain as when small",
 "With as much in it as the real chain has and more - a million blocks, 1.1 thousand million transactions, three thousand million inputs, outputs and addresses, files of 130 gigabytes - a store answers as a small one does: chains appended to in either way, lists of hashes, hash indexes with the parameters for sixteen years, original hash stores, maps of arrays, word files and file wrappers count, append, overwrite, look up and read back exactly, below, at and beyond 2^24, 2^31 and 2^32 things or bytes, up to what their formats have room for, also when opened again.",
 ["inputs","histories","configurations"],"every count of things stored before, up to the room the format has, and everything appended or asked after that",
 "tests store a few thousand things; an offset or height that goes through 32 bits is right for all of those",
 ["chainstorage/concreteappendablechain.go","chainstorage/concretehasheschain.go","indexedhashes3/hashstore.go","indexedhashes3/binentrybytes.go","indexedhashes3/sensibleparams.go","indexedhashes/hashstore.go","intarrayarray/intarraymapstore.go","wordfile/wordfile.go","memfile/appendoptimized.go","memfile/filewithsize.go"],
 [("chains","chainstorage/concreteappendablechain.go"),("entries of bins","indexedhashes3/binentrybytes.go"),("words","wordfile/wordfile.go ReadWordAt"),("appending","memfile/appendoptimized.go WriteAt")],"the model of what was appended, every height moved on by what was there before")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,x['id']
print(len(P))
