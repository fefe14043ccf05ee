"""What run.py needs to know about each property's check."""
PROPS = {
    "C01": dict(
        src="C01.cpp",
        title="Every scheduler and engine computes what direct evaluation computes",
        rule="the program has a communicating gate fed by another gate's result and at least two opened or extracted results",
        note="random gate programs on all four schedulers, three wire stores and five tuple sources, against direct evaluation; "
             "1-4 parties, programs up to about 60 steps plus runs past the 100000-gate limit and chains past 65536 levels"),
    "C02": dict(
        src="C02.cpp",
        title="Gate counts and traffic counts are exact and scheduler-independent",
        rule="the program has at least two communicating gates and one of them counts for more than one",
        note="random gate programs with drops; gate counters against the program's own count, traffic counters against the "
             "bytes counted by the network at that moment, also after the engine is released"),
    "C03": dict(
        src="C03.cpp",
        title="Wires live exactly as long as they are referenced",
        rule="a program in which wires are dropped while the program still runs and at least two gates communicate; for frontend "
             "variables, at least two live variables are overwritten",
        note="random programs with interleaved copies and drops on all schedulers, and random histories of frontend variables "
             "(copy, assign, self-assign, move, element write, re-input); wire counters against the model"),
    "C04": dict(
        src="C04.cpp", groups=[],
        title="Allocators behave as a map from live handles to values",
        rule="at least two entries are allocated after others were freed, with three or more live at once",
        note="random histories of allocate, read, write and free in bursts of up to 2500 over three allocators and three "
             "element types, against a map"),
    "C05": dict(
        src="C05.cpp",
        title="Secret shares always add up to the shared value",
        rule="at least three requests are queued and two kinds of request run in one execution",
        note="random histories of engine operations with all parties' shares recombined after every step; 2-5 parties, five tuple sources, immediate operations interleaved with queued ones, batches up to 1000"),
    "C06": dict(
        src="C06.cpp",
        title="Every multiplication tuple is a valid one, for any request pattern",
        rule="at least two requests that together exceed the buffer, so that it is refilled",
        note="random sequences of boolean, composite and integer requests around multiples of the buffer size, 2-4 parties, five tuple sources; shares recombined position by position, repeated tuples detected"),
    "C07": dict(
        src="C07.cpp",
        title="Base oblivious transfer and correlated OT give correlated outputs",
        rule="at least two requests (or eight base transfers) that together exceed one internal block or buffer",
        note="random offsets, choice vectors and sequences of request sizes around block and buffer boundaries; base OT over the real curve, OT extension over a cheap PRG and as shipped, buffered extension with eight parameter shapes"),
    "C08": dict(
        src="C08.cpp",
        title="Point correlated OT and matrix expansion are exact",
        rule="at least two buckets (or levels, or inputs) and a result longer than one internal block",
        note="random offsets, choices, depths, lengths and weights; every position of every bucket compared, matrices compared by linearity, row by row, with one input set at a time"),
    "C09": dict(
        src="C09.cpp",
        title="Bidirectional OT and product shares combine to the cross product",
        rule="at least two successive runs that together cover ten positions",
        note="random sequences of bit and integer transfers and products over one connection, any lengths; each output compared with the message chosen or the cross product"),
    "C11": dict(
        src="C11.cpp", groups=[], variants={"quick": [("asan", 1.0), ("tsan", 0.3)], "thorough": [("asan", 1.0), ("tsan", 0.3)]},
        title="A background buffer delivers its generator's stream unchanged",
        rule="at least two reads cross the end of a buffer, or a generator failure reaches a reader after some data",
        note="random read-size sequences, buffer sizes, thread timings, kinds of future and failing chunks; every item compared with the stream"),
    "C10": dict(
        src="C10.cpp",
        title="Random streams and AES helpers match their mathematical definition",
        rule="a request crosses the end of a buffer, or an input has two or more blocks, more than one machine word, or (keys, words) is not zero",
        note="random keys, block counts, request sequences and buffer sizes; AES against OpenSSL, streams against the same stream read at once, 128-bit helpers against integers, moduli against schoolbook reduction"),
    "C12": dict(
        src="C12.cpp", variants={"quick": [("asan", 1.0), ("tsan", 0.2)], "thorough": [("asan", 1.0), ("tsan", 0.3)]},
        title="Messages between parties arrive complete, in order and accounted",
        rule="at least two messages are queued at once, messages are received both in parts and together, or two exchanges are not empty",
        note="random typed messages and byte groupings in both directions on the in-memory channel, meshes of 2-4 parties in threads, and the engine's exchange of shares and keys; every element and every traffic counter compared with the model"),
    "C13": dict(
        src="C13.cpp",
        title="Socket channels carry every message intact, with and without TLS",
        rule="messages cross in both directions, two or more connections are open, something was sent before the peer left, or a cut is reported by a connected end",
        note="random conversations over loopback, plain and TLS, also through a wire that delivers in arbitrary pieces and may cut the connection; meshes of 2-4 parties built by the factory; peers that leave mid-message"),
    "C14": dict(
        src="C14.cpp", parts=8, cflags="-O0",
        title="Fixed-width integers follow two's-complement arithmetic",
        rule="at least five steps, two of which compute on a secret integer",
        note="random programs over integers of every width 1-64, signed and unsigned, single and batched, secret and public operands mixed, against 64-bit arithmetic reduced to the width; out-of-range inputs and elements must be refused"),
    "C15": dict(
        src="C15.cpp",
        title="Bits and bit strings follow boolean logic, also when regrouped",
        rule="at least five steps, two of which AND secret bits",
        note="random programs over bits and strings of 0-20 positions, single and batched, secret and public mixed, joined and split again, against boolean logic; operands of different lengths must be refused"),
    "C16": dict(
        src="C16.cpp", cflags="-O0",
        title="Shares exported from a computation re-import to the same value",
        rule="the values exported have more than one bit in all and are shared by two or more parties (rejections: the rows really differ in size)",
        note="random batches of bits, strings and integers of all widths extracted to shares on plaintext, networked, eager and lazy schedulers of 1-4 parties, recombined, and imported into the same and a different computation; ragged share lists must be refused"),
    "C17": dict(
        src="C17.cpp", cflags="-O0", groups=["core","std"],
        title="Oblivious permutation applies exactly the secret order",
        rule="three or more records, some of which move (rejections: the order is not a permutation)",
        note="random records and orders of every length 1-40 on four schedulers and five tuple sources against the order itself, every order of small lengths in one computation, the Waksman network alone against all settings, and orders that are no permutation"),
    "C18": dict(
        src="C18.cpp", cflags="-O0", groups=["core","std"],
        title="Shuffling only reorders: it neither loses nor invents records",
        rule="three or more records that are not all equal",
        note="random lists with duplicates and records of several fields on every scheduler: multisets compared; each party's generator fixed in turn, to see that both contribute; all orders of small lengths must occur"),
    "C19": dict(
        src="C19.cpp", cflags="-O0", groups=["core","std"],
        title="Compaction keeps exactly the labelled records",
        rule="three or more records some of which are labelled, or none or all of them",
        note="random lists and label patterns (none, all, alternating, single) on every scheduler; output multiset and labels compared"),
    "C20": dict(
        src="C20.cpp", cflags="-O0", groups=["core","std"],
        title="Oblivious memory behaves as an array of accumulators",
        rule="two or more cells, and some cell is added to more than once",
        note="random histories of batched additions, public and secret reads over both memories, sizes around powers of two, on every scheduler and over real tuples; against an array of modular counters"),
    "C31": dict(
        src="C31.cpp", cflags="-O0", groups=["core","std"],
        title="Generic value types behave as modular integers and round-trip",
        rule="operands other than 0, or a batch of two or more values",
        note="random operands of every width and signedness against 128-bit arithmetic, all value adapters (also nested tuples) single and batched through bits, secret values and back; block conversions"),
    "C21": dict(
        src="C21.cpp", cflags="-O0", groups=["core","std"],
        title="Single-point arrays and their helpers have exactly one hot position",
        rule="arrays longer than 1; two or more offsets; differences of both signs",
        note="random indexes, batch sizes and array lengths for both generators on every scheduler; shares recombined position by position; deltas and differences recomputed from all shares"),
    "C22": dict(
        src="C22.cpp", cflags="-O0", groups=["core","std","io"],
        title="Breakdown encoding is a lossless renumbering",
        rule="two or more different tuples, some of which repeat or are filtered; filters of a column the tuple has",
        note="random tuple sequences with repeats, filters over any columns, export in several batches, decoding against the list of first appearances"),
    "C30": dict(
        src="C30.cpp", groups=["core","std"],
        title="Random permutations are permutations, and every one can occur",
        rule="three or more elements; any sampling of a seed",
        note="random sizes and generators, fixed-seed determinism, counted frequencies of every permutation and position; the joint seed with honest, lagging and cheating peers (commitment and opening altered in any byte)"),
    "C24": dict(
        src="C24.cpp", groups=["core", "std"],
        title="Message authentication follows its published standard",
        rule="a message whose length is within two bytes of a block boundary; padding: a last block that is not full",
        note="random keys and messages, lengths around block ends, against an independent CMAC (and OpenSSL's) and S2V of RFC 5297; messages that look like padded ones; published vectors"),
    "C23": dict(
        src="C23.cpp", groups=["core", "std"],
        title="The AES circuit equals AES, and counter mode inverts itself",
        rule="at least one block; secret bits: several blocks or records; sizes: a wrong one",
        note="random keys and blocks through encryption and decryption circuits, in the clear and on secret bits, against OpenSSL; counter mode of many blocks and counters that carry; wrong sizes"),
    "C26": dict(
        src="C26.cpp", groups=["core", "std", "io"],
        title="Encrypted data sets survive batching, files and sharding unchanged",
        rule="three or more rows encrypted; files: two or more rows; shards: two or more rows and shards",
        note="random batches, row indexes beyond 32 bits, repeated exchanges, against decryption with the key of record; files and shards round-tripped through scratch folders; protocol calls out of order"),
    "C25": dict(
        src="C25.cpp", groups=["core", "std", "io"],
        title="Joining one party's data under encryption returns the chosen rows",
        rule="two or more rows; decryption: two or more batches",
        note="random rows, widths and index lists through both roles of the real processors on eager and lazy engines and over real tuples; several exchanged batches decrypted in one call"),
    "C27": dict(
        src="C27.cpp", cflags="-O0", groups=["core", "std"],
        title="Union maps are converted to exactly the intersection, aligned for both",
        rule="a union of three or more",
        note="random union maps with any overlap (none, all), over dummy and real tuples; pairs compared as sets and their order between parties; maps with repeats, ranges and sizes wrong"),
    "C28": dict(
        src="C28.cpp", cflags="-O0", groups=["core", "std", "io"],
        title="Row serialisation round-trips every column type",
        rule="two or more columns; joined: two or more rows; any mismatch",
        note="random schemas and rows through serialiser, dummy and real UDP processor, and back to columns; every kind of mismatch"),
    "C29": dict(
        src="C29.cpp", cflags="-O0", groups=["core", "std"],
        title="Secret label-weighted sums equal the true sums plus the noise",
        rule="two or more records some of which are labelled; three or more transfers; a divisor above 1",
        note="random features, labels, noise and divisors through both protocol variants against 128-bit sums; chosen messages of COT with random messages; wrong roles and sizes; metrics against the traffic counted"),
    "C32": dict(
        src="C32.cpp", groups=["io"],
        title="Buffered reading and writing is transparent",
        rule="at least two reads or writes of more than one chunk in total; for whole files, at least two bytes",
        note="random contents with line ends around chunk boundaries and arbitrary bytes, chunk sizes 1-64 and the default, mixed reads of bytes and lines over four kinds of source (also one that returns short reads), random writes over three kinds of target with failing writes; against a position in the content"),
    "C33": dict(
        src="C33.cpp", groups=["io"],
        title="File helpers read, write and slice files faithfully",
        rule="at least three operations of which two compare contents; for tables, at least two rows of two or more columns",
        note="random histories of write, read, stream, slice and copy over relative, absolute and bare paths with arbitrary bytes against a map, missing files, bad ranges and a full device; random comma-separated lines and tables against the fields they were composed from"),
    "C34": dict(
        src="C34.cpp", groups=["io"],
        title="Cloud paths are recognised and decomposed into their true parts",
        rule="a nested key or a bucket name of several parts; for options, at least two of them given; for clients, more uses than regions",
        note="paths composed from random regions, buckets and keys in all seven forms against the parts they were composed from, and read through the service of a stand-in; local paths and incomplete forms; client options from random options and environments; client cache from several threads"),
    "C35": dict(
        src="C35.cpp", groups=["io"],
        title="Cloud upload and download preserve content under service failures",
        rule="an upload of more than 20 bytes with more than four requests, two or more successful reads of more than ten bytes, or two or more successful operations of a manager",
        note="up to three interleaved uploads in random parts through uploader, writer and buffered writer, reads of whole objects and ranges, and histories of the file managers, against in-memory stand-ins of S3 and GCS with random failures of every kind of request; after every step the objects at the service are compared with a model"),
    "C36": dict(
        src="C36.cpp", cflags="-O1", groups=["core","io","edit"],
        title="The edit-distance example computes the true distance",
        rule="two or more rows (or two or more operations on strings)",
        note="complete games of two parties from generated input files over plaintext, eager and lazy engines, and the application over the real engine; threshold at, just above and just below the distance or half of it; histories of operations on fixed-capacity strings against std::string"),
    "C37": dict(
        src="C37.cpp", groups=["core"], variants={"quick": [("asan", 1.0), ("tsan", 0.3)], "thorough": [("asan", 1.0), ("tsan", 0.3)]},
        title="Collected metrics report every recorder's current values",
        rule="a report of two or more recorders, two or more threads of five or more updates, or two or more requests",
        note="histories of registrations, updates and reports over several collectors and shared recorders; recorders updated by up to six threads while reports are taken; what tuple generators, engines and socket factories report about generated work"),
    "C39": dict(
        src="C39.cpp", groups=["mpc"], variants={"quick": [("asan", 1.0), ("tsan", 0.3)], "thorough": [("asan", 1.0), ("tsan", 0.3)]},
        title="Garbled-circuit apps compute the plain function of both inputs",
        rule="two different inputs, a vector of two or more values, two or more bytes each way, or two or more apps",
        note="EMP is replaced by a functional stand-in, so the games, apps, vectors, queue channel and executor built on it are decided, not EMP; "
             "random inputs, vectors added in parts, recipients, byte streams cut at random on both sides, pairs of apps and concurrency limits; failing and meeting apps"),
    "C42": dict(
        src="C42.cpp", cflags="-O2", variants={"quick": [("plain", 1.0)], "thorough": [("plain", 1.0)]},
        title="Ready-made schedulers and engines compute what direct evaluation computes",
        rule="a program has a communicating gate fed by another gate's result and at least two opened or extracted results",
        note="every helper function and factory that hands an application a scheduler or an engine, as shipped, under random gate programs"),
    "C41": dict(
        src="C41.cpp", groups=[],
        title="Collection and call helpers do exactly what the plain loop does",
        rule="two or more elements or calls, or two inputs of different lengths",
        note="random vectors of up to 70000 numbers, strings, bits and modular integers under map, reduce, apply, Add and Xor with functions that tell "
             "every order and grouping apart; decorated functions with value, reference, move-only and failing arguments and results"),
    "C40": dict(
        src="C40.cpp", cflags="-O2", variants={"quick": [("plain", 1.0)], "thorough": [("plain", 1.0)]}, groups=["core", "std", "io"],
        title="Library protocols reveal nothing but their results",
        rule="every case but memories of one cell and single blocks (secrets are random and at least 128 bits long)",
        note="transcripts of permutations, shuffles, compactions, oblivious memories, matrix multiplications, encrypted data sets, joins and union maps whose inputs are shared at random, tested for independence of every secret as in C38; order of outputs against order of inputs; every key stream block and nonce against all others; shares of every memory cell after every addition"),
    "C38": dict(
        src="C38.cpp", cflags="-O2", variants={"quick": [("plain", 1.0)], "thorough": [("plain", 1.0)]}, groups=["core"],
        title="Secret inputs leave a party only under fresh masks",
        rule="every case (secrets are random and at least 128 bits long)",
        note="transcripts of engines, oblivious transfers and product shares with random secrets; every window of what a party sees, alone and combined with what it sent and holds, is tested for independence of each secret, within a step and between steps; everything opened in repeated gates, and all parts of tuples, are searched for linear relations"),
}
NOT_APPLICABLE = {}
