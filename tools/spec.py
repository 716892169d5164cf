TECH = "contracts on the real C++ (LLVM IR), VCs by symbolic execution with havoc and invariants, discharged by z3; bounded whole-path checks beside them"
PROPS = {
    "C01": {"level": "proof", "technique": TECH,
            "note": "Contracts: statistics invariant per row (inductive, any number of rows), selection + encode + decode for every state the invariant allows, every codec by itself in both byte orders and both integer representations; all discharged for all inputs. The row loop around them is C03's. Whole-path bounded checks (1 to 4 rows fully or partly symbolic, 150 rows with one symbolic cell) stand beside them and find replayable inputs. Trusts odcv, z3, clang, the eckit and libstdc++ models.",
            "assumptions": ["rows of a column reach gatherStats and encode one by one through encodeFrame (contract of encodeFrame, C03)", "eckit, libstdc++.so out-of-line parts and the C library are models"]},
}
TECHB = "contracts on the real C++ (LLVM IR) stated as pre/postconditions of the public functions; VCs by symbolic execution of the whole path for tables of stated size, discharged by z3"
def B(note, **k):
    d = {"level": "other", "technique": TECHB, "note": note + " Trusts odcv, z3, clang, the eckit and libstdc++ models.", "assumptions": ["eckit, libstdc++.so out-of-line parts and the C library are models"]}
    d.update(k)
    return d
PROPS.update({
    "C02": B("Postcondition of encode followed by decode for string tables with symbolic bytes (1 to 4 rows, widths 8 to 24, all storage forms incl. more than 255 distinct strings)."),
    "C03": B("Loop contracts for any number of rows: StridedData::fill, and the row loop of Table::decode with the row marker, the codecs and fill entered through their contracts (tables of two and three columns, every subset asked for); with them every row of a decoded column holds the last value encoded at or before it. Also encodeFrame's statistics and row loops for any number of rows: every row is given to the statistics and to the codecs in order, and after each a reader has exactly that row. Wide tables and whole round trips: postcondition of encode and decode over tables with symbolic change patterns between rows and columns, up to 258 columns."),
    "C04": B("Postcondition of decode and of the header reader for frames in the other byte order, which an independent writer of the format (fmt.h) emits, against the same table in native order."),
    "C05": B("Postcondition of encode against an independent parser of the format (fmt.h shares no code with odc); postcondition of opening frames which an independent writer emits, and of every one-byte change of magic, version, digest and header."),
    "C07": B("Postcondition and frame condition of decode: exactly the requested elements of guarded caller memory change, for every subset and order of columns, element size and spacing explored."),
    "C08": B("Contract of ReaderImpl::next for any number of frames of any sizes, any compatibility and any row limit: every frame once, in order, groups compatible, within the limit and as long as they can be (list of tables entered through its contract). Postcondition of frame iteration over streams of up to four frames, plain and aggregated with every row limit."),
    "C09": B(native="sched", note="Postcondition of the threaded decode of aggregated frames over all schedules with a bounded number of preemptions, with every access checked for data races."),
    "C10": B("Contract of the slicing loop for any number of rows, any maximum and any spacing of the columns: the frames get consecutive rows, each once, none empty or larger than the maximum (encodeFrame entered through its contract, C03). Postcondition of encode with every maximum of rows per frame for tables of up to six rows."),
    "C13": B("Contract of Table::decodeSpan for any number of rows with any markers and values: every value decoded enters the set of its column converted as its type says, once, the missing value stands for what the first row leaves out, nothing else is added (codecs, marker reads and std::set::insert entered through their contracts). Postcondition of the span of frames with symbolic values, all types and storage forms."),
    "C14": B("Postcondition of column resolution over every table of two or three names from a list of confusable names and every request."),
    "C19": B(native="sched", note="Contract of the shared handle's seek and read for any position, length and short read of the handle below. Shared handle: invariant that it is used by one task at a time under its lock, and that each reader sees the bytes at its own position, in all schedules with a bounded number of preemptions; every access is checked for data races."),
    "C11": B("Postconditions of the functions of the C interface: error code, description, failure handler and no escaping exception for every argument out of range and every failure injected below, and agreement with the C++ interface where they succeed."),
    "C12": B("Postcondition and frame condition of the C interface's encoder and decoder against an address model of the configured layout (row-major, column-major, custom strides and element sizes, caller-supplied and library-allocated)."),
    "C21": B("Postcondition of encode and frame iteration on names, types, element sizes, bitfields and properties, with symbolic bytes in names and properties."),
    "C22": B("Postcondition of encode and decode for symbolic missing values of integers, doubles and reals, with the settings changed before decoding, and for parts with different settings, column-wise and row-wise.", extra=("tools",)),
    "C20": B("Contracts: the writer's flush and row loop for any number of rows (every row written in order, once, a reader has exactly it, codecs and stream entered through their contracts), the copying loop for any rows and changes of columns, writeRow for any filling of the buffer, and the reader's step for any state and marker. Postcondition of the row-wise writer against the column-wise reader and the row-wise reader, and of the row-wise reader on frames of the column-wise writer in both byte orders: value domains one cell at a time, change patterns, strings, missing values of one's own, several frames, copying.", extra=("tools",)),
    "C06": B("Contracts for a stream of any length with any bytes: the reads of the stream, every codec with any parameters, the tables of strings of any size, the row loop of Table::decode for any rows, markers and failures, the frame header, the step from frame to frame and the read of its data. Memory safety and termination as obligations of every path: reading, decoding, spanning, stepping and the C interface over every truncation, every value of every byte of the rows (six storage forms), every value of the three sizes in the header and every value of single header bytes with the digest made right again."),
})
NA = {f"C{i:02d}": "not claimed yet" for i in range(1, 23) if f"C{i:02d}" not in PROPS}
PROPS.update({
    "C16": B("Postcondition of the import, read back through the decoder: integer, bitfield and real cells for every number (what is no integer of 32 bits is refused), strings with a free byte in any length class, and menus of number texts, growing and missing strings, quotes, NULLs, ends of lines, delimiters, headers; malformed headers and rows throw.", extra=("tools",)),
    "C17": B("Contract of the splitting loop for any number of rows and any changes of columns: every row is dispatched once, in order, with the columns it comes with. Postcondition of the dispatching writer: the outputs, read back, hold exactly the rows that name them, in order, for every history of four rows over three values under every limit of open files, and for menus of longer histories, texts, numbers, pairs of columns, files from before, changing columns and rows put cell by cell.", extra=("tools",)),
    "C18": B("Contract of the comparison's row loop for any number of rows on either side and any changes of columns. Postcondition of the comparison of one cell (integers and bitfields over their whole domain in both representations, equal doubles over the whole domain, unequal ones, tolerance and missing values from menus, strings with free bytes) and of whole data sets: equal rows cut differently, one cell, row count or column description changed, exclusions.", extra=("tools",)),
})
PROPS["C15"] = B("Postcondition of a query (odc's table adaptors, row iterators and outputs) over the assumed contract of eckit's query engine: rows by Select, by filter and into a writer for chosen and renamed columns, conditions on free values and on missing ones, frames that change, two tables combined, statements repeated, row buffers, delimited texts.", extra=("tools", "sql"))
NA = {k: v for k, v in NA.items() if k not in PROPS}
