ORACLE = " An executable oracle over the same source runs beside it (bounded) to supply failing inputs."
_TESTS = "The only tests that run here are 14 documentation examples with one or two literal values each; "
prop("P01", "Bit writer appends exactly the requested bits, in order",
     "After any sequence of single-bit, byte and multi-bit writes, the writer's byte image is the concatenation of the written bits, most significant bit first, "
     "padded with zero bits to a whole byte. A multi-bit write of width 0 to 64 appends exactly that many low bits of its value whatever the current alignment, "
     "and bits written earlier never change.",
     ["inputs", "histories"], "every sequence of writes, every value, every width 0..=64, every alignment, directly or through a mutable reference",
     _TESTS + "alignment times width times history is unbounded.",
     ["ebi/src/io/bit_write.rs"], [("representation invariant: bits past the cursor are zero", "BufferedBitWriter"), ("default multi-bit write on top of byte and bit writes", "BitWrite::write_bits")],
     [("buffer, bit_pos", "bytes written and position inside the last byte", "BufferedBitWriter")], ["as_slice", "close", "number_of_bits_written"],
     note="Every write of the real writer is proved to append exactly its bits to the abstract bit sequence, for all inputs and histories. Assumed: vstd's Vec contracts, into_boxed_slice." + ORACLE,
     theorems=["BitWrite::write_bits", "BufferedBitWriter::write_bit", "BufferedBitWriter::write_byte", "BufferedBitWriter::as_slice", "BufferedBitWriter::close"])
prop("P02", "Moving or resetting the write cursor truncates or zero-extends exactly",
     "Setting the write cursor to bit n leaves exactly the first n bits of what was written, extended with zero bits when n lies beyond the end, and every later write continues there with no trace of the removed bits. "
     "Resetting leaves an empty writer that behaves like a new one. The reported number of bits always equals the number of bits in the stream.",
     ["inputs", "histories"], "every history of writes, cursor moves and resets; every cursor position",
     _TESTS + "they move the cursor in one two-byte buffer.",
     ["ebi/src/io/bit_write.rs"], [("masking of the last kept byte", "BufferedBitWriter::set_cursor_at_in_bit"), ("reset", "BufferedBitWriter::reset")],
     [("buffer, bit_pos", "bytes written and position inside the last byte", "BufferedBitWriter")], ["as_slice", "number_of_bits_written"],
     note="Proved for all states satisfying the writer's invariant, which every operation is proved to keep. Assumed: usize::div_ceil, vstd's Vec contracts; bit counts below 2^60." + ORACLE,
     theorems=["BufferedBitWriter::set_cursor_at_in_bit", "BufferedBitWriter::reset", "BufferedBitWriter::number_of_bits_written"])
prop("P03", "Bit reader returns exactly the addressed bits and never a partial read",
     "Reading one bit, a byte or n bits returns exactly the next bits of the buffer, most significant first, and advances the cursor by exactly that many; peeking returns the same and leaves the cursor. "
     "When fewer bits are left than asked for, the read returns nothing and the cursor stays where it is, also after the cursor was skipped past the end.",
     ["inputs", "histories"], "every buffer, every history of reads, peeks, skips and resets, every width",
     _TESTS + "they read from buffers of at most four bytes.",
     ["ebi/src/io/bit_read.rs"], [("bounds check before the unchecked reads", "BufferedBitReader::read_bits"), ("cursor restore", "BufferedBitReader::peak_bits")],
     [("byte_pos, bit_pos", "read cursor", "BufferedBitReader")], ["read_bit", "read_byte", "read_bits", "peak_bits", "skip_bits"],
     note="Proved for every buffer shorter than 2^60 bytes and every cursor. Assumed: as_ref of the buffer type always returns the same bytes." + ORACLE,
     theorems=["BufferedBitReader::read_bit", "BufferedBitReader::read_byte", "BufferedBitReader::read_bits", "BufferedBitReader::peak_bits", "BufferedBitReader::skip_bits"])
prop("P04", "What the bit writer wrote, the bit reader reads back",
     "For any list of words with widths 0 to 64, writing them in order and then reading the same widths from the produced bytes gives back the same words, in the same order, without ever running out of data. "
     "What follows the last word is fewer than eight zero bits.",
     ["inputs", "histories"], "every list of (word, width) pairs of any length",
     _TESTS + "no test reads back what it wrote.",
     ["ebi/src/io/bit_write.rs", "ebi/src/io/bit_read.rs"], [("shared bit order of writer and reader", "BitWrite, BitRead2")],
     [], ["write_bits", "read_bits"],
     note="A lemma over the proved contracts of writer and reader, plus a client function (in the overlay) that writes and reads a list of any length and is verified against those contracts." + ORACLE,
     theorems=["rt::word_read_back", "rt::write_all", "rt::read_all"])
prop("P05", "Packed-bit writer sets exactly the requested bits and refuses what does not fit",
     "The packed-bit writer of the fixed-width codec puts the low n bits of a value (n from 1 to 32) least significant bit first at its position, changes no other bit and advances by exactly n. "
     "A write of more than 32 bits, or one that does not fit a borrowed buffer, returns the width as the error and changes no bit and no position. "
     "The growing writer extends its buffer with zero bytes as needed, appends whole bytes unchanged, and continues bit writes after the last byte.",
     ["inputs", "histories"], "every buffer, position, value and width; every history of bit and byte writes",
     "No test that runs here touches the bit packer; alignment times width times value is too large to sample.",
     ["ebi/src/compression_common/buff.rs"], [("masking and splitting across bytes", "BitPack<&mut [u8]>::write"), ("growth with zero bytes", "BitPack<Vec<u8>>::write")],
     [("cursor, bits", "write position", "BitPack")], ["sum_bits", "into_vec"],
     note="Every writer function is proved against a per-bit specification for all buffers, positions, values and widths. Positions below 2^43 bits." + ORACLE,
     theorems=["BitPack<&mut [u8]>::write", "BitPack<&mut [u8]>::write_bits", "BitPack<Vec<u8>>::write", "BitPack<Vec<u8>>::write_bits", "BitPack<Vec<u8>>::finish_write_byte"])
prop("P06", "Packed-bit reader reads back exactly what was packed",
     "Reading n bits (1 to 32) from a packed buffer returns exactly those bits, least significant first, and advances by n; more than 32 bits or too few bits left gives the width as the error and leaves the position. "
     "Byte-wise, 32-bit and skipping reads address and advance exactly the bytes they name, also right after a bit-wise read that ended on a byte boundary. "
     "Any list of values packed with their widths is read back as the same values cut to those widths.",
     ["inputs", "histories"], "every buffer and position; every list of (value, width) pairs of any length",
     "No test that runs here touches the bit packer; a mismatch shows only for particular alignments.",
     ["ebi/src/compression_common/buff.rs"], [("bit order shared by writer and reader", "BitPack<&[u8]>::read")],
     [("cursor, bits", "read position", "BitPack")], ["read", "read_bits", "read_u32", "read_byte", "read_n_byte", "skip"],
     note="Reader functions proved per bit; the round trip is a client verified against the proved contracts. Assumed: u32::from_le_bytes and slice-to-array conversion (rewritten to wrappers)." + ORACLE,
     theorems=["BitPack<&[u8]>::read", "BitPack<&[u8]>::read_bits", "BitPack<&[u8]>::read_u32", "prt::pack_all", "prt::unpack_all"])
prop("P07", "Fixed-point conversion truncates toward zero and keeps order",
     "Converting a double v to fixed point with f fractional bits gives exactly v * 2^f rounded toward zero, with the sign of v, whenever the result fits 63 bits; the conversion keeps order and maps -v to the negated result. "
     "The fractional bits chosen for d decimals keep any two values with d decimals apart (2^bits > 2 * 10^d). "
     "Flipping the sign bit of a byte is its own inverse and turns the signed order of bytes into the unsigned one.",
     ["inputs"], "every double whose result fits, every number of fractional bits",
     "No test that runs here converts a double; 2^64 bit patterns.",
     ["ebi/src/compression_common/buff.rs"], [("shift of the 64-bit significand", "into_fixed_representation"), ("number of fractional bits per decimal digit", "PRECISION_MAP"), ("sign-bit flip", "flip")],
     [], ["into_fixed_representation_with_fractional_part_bits_length", "flip"],
     note="Proved over bit patterns as integer arithmetic. Assumed: f64::to_bits is the bit pattern, transmute from u64 to i64 is the two's complement cast." + ORACLE,
     theorems=["fx::into_fixed_representation_with_fractional_part_bits_length", "fx::mag_monotone", "fx::mag_truncates", "fx::precision_map_separates", "fx::flip_twice"])
prop("P08", "ELF decimal helpers are exact, so erased decimals come back",
     "For 1e-10 <= v < 1e9 the decimal exponent helper returns the s with 10^s <= v < 10^(s+1), and exactly the negative powers of ten are flagged as such. "
     "The bit length for alpha decimals is the least r with 2^r >= 10^alpha, and the power-of-ten tables hold the nearest doubles. "
     "For a decimal of at most 15 significant digits, zeroing the low bits that its decimals do not need and rounding up again gives back the identical double.",
     ["inputs"], "every double in the stated range; alpha up to 20 for the tables; decimals of up to 15 digits for the last part",
     "No test that runs here touches these helpers; an off-by-one at one power of ten loses data only there.",
     ["ebi/src/compression_common/elf.rs"], [("comparison tables", "get_sp, get_sp_and_10i_n_flag"), ("F table", "get_f_alpha"), ("erase and restore", "get_alpha_and_beta_star, round_up")],
     [], ["get_sp", "get_f_alpha", "get_10i_n", "get_alpha_and_beta_star", "round_up"],
     note="Exponent, flag, bit length and tables are proved with Kani for every double in the range and every table index (constant loops, unwinding assertions on). Erase and restore (floating-point multiplication and division) and the fallbacks outside the tables are bounded: executable oracle.",
     theorems=["elf::h::sp_is_decimal_exponent", "elf::h::sp_and_flag_agree", "elf::h::f_alpha_is_ceil_log2", "elf::h::ten_powers"], technique="contract harnesses over the full input domain (Kani/CBMC) on the real source; bounded executable oracle for the floating-point part")

_KANI = "inductive contract proofs (Kani/CBMC, full domain, no bound on the history) on the whole crate's real source; executable oracle for failing inputs"
_XV = ("Verus, whole series: compress and prepare leave exactly the codes of the records and the end code for a series of any length (loop invariant over the real loop), total_bytes_in and total_bytes_buffered are exact, the iterator and decompress give back exactly that series and then end, from a reader in any position, any number of times; the step of each coder and decoder is under contract and a lemma over those contracts gives the round trip. "
       "Kani repeats the single step on compiled code: from every state pair satisfying the coupling of encoder and decoder, every 64-bit value comes back from exactly the bits written. The bit writer and reader have the contracts proved as P01 and P03.")
_VK = "deductive verification (Verus) of the real source, function by function, over series of any length; inductive Kani/CBMC step on compiled code; executable oracle for failing inputs"
def _xor(i, name, title, extra, files, anchors, theorems, note=_XV, technique=_VK, reserved="other than the reserved end marker (the canonical NaN, bits 0x7ff8000000000000)"):
    prop(i, title,
         f"For any series of doubles {reserved}, decoding what {name} encoded gives back exactly the same bit patterns, in order, and then ends. " + extra,
         ["inputs", "histories"], "every series of 64-bit patterns of any length, every capacity, repeated use after reset",
         "No test that runs here touches the codecs; a fault shows only for particular leading/trailing-zero patterns of neighbouring values.",
         files, anchors, [("stored value, leading and trailing zeros", "what encoder and decoder must agree on", "encoder and decoder state")], ["compress", "decompress", "decompress_iter", "materialize"],
         note=note + ORACLE, theorems=theorems, technique=technique)
_SZ = "The size in bits reported for a value and for closing equals the number of bits actually written. A chunk reader yields the same values however often it is iterated or decompressed, also after a partly consumed iteration."
_xor("P09", "Gorilla", "Gorilla coding is lossless and reports its exact size", _SZ, ["ebi/src/compressor/gorilla.rs", "ebi/src/decoder/chunk_reader/gorilla.rs", "ebi/src/compressor/general_xor.rs", "ebi/src/decoder/chunk_reader/general_xor.rs"],
     [("control bits and window reuse", "GorillaFloatEncoder, GorillaDecoder")], ["xs::round_trip", "gg::gorilla_round_trip", "gorilla_first", "gorilla_step", "gorilla_close", "gorilla_close_empty"])
_xor("P10", "Chimp", "Chimp coding is lossless and reports its exact size", _SZ, ["ebi/src/compressor/chimp.rs", "ebi/src/decoder/chunk_reader/chimp.rs", "ebi/src/compressor/general_xor.rs", "ebi/src/decoder/chunk_reader/general_xor.rs"],
     [("flag cases and leading-zero rounding", "ChimpEncoder, ChimpDecoder")], ["xs::round_trip", "ch::chimp_round_trip", "chimp_first", "chimp_step", "chimp_close", "chimp_close_empty"])
_xor("P11", "ELF (on its own XOR coder or on Chimp)", "ELF coding is lossless for every double that is not NaN", "Bits are erased only where the decoder restores the identical double. A chunk reader yields the same values however often it is iterated or decompressed, also after a partly consumed iteration.",
     ["ebi/src/compressor/elf.rs", "ebi/src/decoder/chunk_reader/elf.rs", "ebi/src/compression_common/elf.rs"],
     [("erasing and restoring", "ElfEncoderWrapper::add_value, ElfDecoderWrapper::next_value"), ("XOR layer", "ElfXorEncoder, ElfXorDecoder")], ["xs::round_trip", "ew::elf_round_trip", "ew::elf_on_chimp_round_trip", "elf_first", "elf_step", "elf_close", "elf_wrap_step", "elf_wrap_close"],
     note=_XV + " The decimal analysis is replaced by an arbitrary result and the restoring arithmetic by an arbitrary function, so losslessness does not rest on floating-point arithmetic.", reserved="none of which is NaN")
_xor("P12", "Chimp128", "Chimp128 coding is lossless across its window of previous values", "This includes values that repeat or resemble any of the last 128, and wrap-around of that window. A chunk reader yields the same values however often it is iterated or decompressed, also after a partly consumed iteration.",
     ["ebi/src/compressor/chimp_n.rs", "ebi/src/decoder/chunk_reader/chimp_n.rs"],
     [("ring of previous values and index by low bits", "ChimpNEncoder, ChimpNDecoder")], ["xs::round_trip", "cn::chimp128_round_trip", "chimp128_first", "chimp128_step", "chimp128_close"],
     note=_XV + " In the Kani step the ring of previous values and the hash index are replaced by tables with named slots (array semantics); in Verus they are the real vectors.")

_SYS = "No test that runs here writes or reads a file; "
_MIX = "contract harnesses (Kani/CBMC) on the whole crate's real source, callees replaced by their contracts; bounded executable oracle for failing inputs and for what the harnesses do not reach"
_VK = "contract-based deductive verification of the extracted real code (Verus) and contract harnesses (Kani/CBMC); bounded executable oracle for failing inputs and for what the contracts do not reach"
_LL = "a lossless codec (uncompressed, run-length, zstd, gzip, snappy, Gorilla, Chimp, Chimp128, ELF)"
prop("P13", "A file gives back exactly the records written, in order",
     "For any sequence of doubles written with " + _LL + " and any chunking, decoding the whole file gives back exactly the same bit patterns in the same order (the XOR codecs excluding the reserved canonical NaN, ELF excluding NaN), including no records at all. "
     "The result does not depend on how the input, the file or the output hands out or takes its bytes: short reads, short writes and interrupted reads lose and duplicate nothing. "
     "Decoding the same file or chunk again gives the same records.",
     ["inputs", "histories"], "every series of records, codec, chunk option (of at least one record), and every splitting of the input, file and output streams",
     _SYS + "chunk boundaries times codec times stream behaviour is unbounded.",
     ["ebi/src/encoder.rs", "ebi/src/decoder.rs", "ebi/src/api/encoder.rs", "ebi/src/api/decoder.rs", "ebi/src/compressor.rs", "ebi/src/decoder/chunk_reader.rs"],
     [("reading records up to the chunk's share", "read_less_or_equal"), ("chunk loop", "FileWriter::chunk_writer_with_compressor, ChunkWriter::write"), ("decoding every chunk", "Decoder::materialize")],
     [("bytes_read, buffer of records", "what was taken from the input and not yet written", "FileWriter")], ["Encoder::encode", "Decoder::materialize", "GeneralChunkReader::decompress"],
     note="Kani: one chunk step from every writer state hands the codec exactly the records read (codec replaced by a stand-in; the codecs are P09-P12, P21, P22), and the record reader takes exactly the bytes there are whatever the pieces and interruptions (up to 16 bytes in 3 pieces: bounded). Verus: the decoder writes the records of all chunks in order, for any number of chunks." + ORACLE,
     theorems=["chunk_step", "records_in_pieces", "records_interrupted", "full_chunk", "dq::Decoder::materialize", "dq::whole_file_picked"], technique=_VK)
prop("P14", "The file layout is fixed: every field is written and read at its place",
     "A written file starts with the magic number, the configuration (field type, scheme, chunk option and its value), the footer offset and the version, and ends with record count, chunk count, chunk table, compressor configuration, times and checksum field, all little-endian at their documented offsets and sizes. "
     "Every such field is read back as it was written, for every value it can hold, and a file assembled by hand in this layout opens with exactly those values. "
     "Bytes that stand for no field type, compression scheme or chunk option are rejected.",
     ["inputs"], "every value of every field, every compressor configuration",
     _SYS + "a swapped or truncated field shows only for particular values.",
     ["ebi/src/format.rs", "ebi/src/format/serialize.rs", "ebi/src/format/deserialize.rs", "ebi/src/format/native.rs", "ebi/src/compressor.rs"],
     [("field order and sizes", "format.rs"), ("conversion to and from little-endian bytes", "serialize.rs, deserialize.rs"), ("configuration bytes", "CompressorConfig::serialize, from_le_bytes")],
     [], ["Decoder::header", "Decoder::footer", "the bytes of the file"],
     note="Kani over every value of every field: header, chunk table entry, record and chunk counts, every compressor configuration, bytes to typed values and back. Bounded: the footer as a whole (one chunk in the proof; any number in the oracle)." + ORACLE,
     theorems=["kani unit format"], technique=_MIX)
prop("P15", "The chunk directory describes exactly the chunks in the file",
     "After writing, the directory lists the chunks in order: record offsets start at 0, grow strictly and partition the records; byte offsets start right after the header, grow strictly and end at the footer; and the file ends where the footer ends. "
     "Every chunk but the last holds the number of records asked for, and the recorded totals equal what was written. "
     "A chunk opened by its number has exactly the records of its directory entry, also when chunks are opened in any order or repeatedly.",
     ["inputs", "histories"], "every series of records, codec, chunk option and order of access",
     _SYS + "an off-by-one shows only at particular record counts.",
     ["ebi/src/encoder.rs", "ebi/src/decoder.rs", "ebi/src/api/decoder.rs"],
     [("recording a chunk's offsets", "ChunkWriter::write"), ("looking up a chunk and its end", "GeneralChunkHandle, FileMetadataLike")],
     [("chunk footers", "(byte offset, record offset) per chunk", "FileWriter, NativeFileFooter")], ["Decoder::chunk_footers", "Decoder::footer", "Metadata::chunks_iter", "Decoder::chunk_reader"],
     note="Kani: writing a chunk, from every writer state, records exactly its offsets and advances the totals by exactly its records and bytes (inductive, codec replaced by a stand-in with any output); every accessor of a chunk handle is proved for a directory of three chunks with any offsets (bounded in the number of chunks); the footer is found at the offset of any header." + ORACLE,
     theorems=["chunk_step", "chunk_none", "handle", "footer_found"], technique=_MIX)
prop("P16", "An unfinished or cut file is rejected, never misread",
     "A file cut off at any byte, or whose writing stopped before the footer offset was in place, is rejected on opening with an error, never a panic and never as a shorter file. "
     "Writing puts the footer offset in place only after every chunk and the whole footer. "
     "When the output refuses bytes, encoding returns an error.",
     ["inputs", "crash points"], "every file, every length it can be cut to, every number of bytes the output accepts before it fails (the eight bytes of the footer offset itself written as a unit)",
     _SYS + "no test stops in the middle of one.",
     ["ebi/src/api/encoder.rs", "ebi/src/encoder.rs", "ebi/src/decoder.rs"],
     [("footer offset written last", "Encoder::encode"), ("zero or impossible footer offset refused", "FileReader::seek_to_footer"), ("exact reads", "FileReader::fetch_header, fetch_footer")],
     [("footer_offset", "zero until the file is complete", "file header")], ["Encoder::encode", "Decoder::new"],
     note="Kani: for every header, a footer offset of zero or inside the header is an error; every cut of header and of a footer with one chunk is an error (bounded: one chunk); encoding writes the footer offset only after the footer (one chunk, stand-in codec)." + ORACLE,
     theorems=["footer_found", "header_cut", "footer_cut", "footer_offset_last"], technique=_MIX)
prop("P17", "Filtering selects exactly the matching records",
     "Filtering a file or a chunk of " + _LL + " by equality, inequality or any open, closed or half-open range selects exactly the positions whose record satisfies the predicate under IEEE comparison and which lie in the given bitmask and chunk, numbered across the whole file. "
     "Filtered materialization writes exactly those records in order, materialization with a bitmask exactly the selected ones. "
     "Using one filter's result as the next one's bitmask gives the conjunction.",
     ["inputs", "histories"], "every series of fewer than 2^32 records, predicate, bitmask (also with positions beyond the file), chunk and sequence of queries",
     _SYS + "no test that runs here filters anything.",
     ["ebi/src/decoder/query.rs", "ebi/src/decoder/chunk_reader.rs", "ebi/src/api/decoder.rs", "ebi/src/decoder.rs"],
     [("evaluation of a predicate", "PredicateImpl::eval, RangeImpl::eval"), ("offset of a chunk's records in the bitmask", "QueryExecutor::filter, default_filter")],
     [], ["Decoder::filter", "Decoder::filter_materialize", "Decoder::materialize", "GeneralChunkReader::filter"],
     note="The generic query loops of a chunk and the chunk loops of the decoder are proved (Verus) for any records, mask, predicate and number of chunks, and lemmas lift them to the whole file; predicate evaluation is proved (Kani) for every double and 64-bit integer. Assumed: RoaringBitmap is a set, chunk readers give their chunk's records." + ORACLE,
     theorems=["q::default_filter", "q::default_filter_materialize", "q::default_materialize", "dq::Decoder::filter", "dq::Decoder::filter_materialize", "dq::Decoder::materialize", "dq::whole_file_picked", "dq::whole_file_hits", "eval_doubles", "eval_integers", "map_constants"], technique=_VK)
prop("P18", "Sum, minimum and maximum cover exactly the selected records",
     "Minimum and maximum over a file or a chunk of " + _LL + " are those of exactly the records in the given bitmask and chunk; over no record they are plus and minus infinity. "
     "The sum is that of the same records up to rounding, exact where every partial sum is an integer below 2^53, and zero over none. "
     "Results do not depend on chunking or on earlier queries of the same reader.",
     ["inputs", "histories"], "every series of fewer than 2^32 records, bitmask, chunk and sequence of queries",
     _SYS + "no test that runs here aggregates anything.",
     ["ebi/src/decoder/query.rs", "ebi/src/decoder/chunk_reader.rs", "ebi/src/api/decoder.rs"],
     [("selection of a chunk's records", "QueryExecutor::sum, min, max, default_*"), ("combination over chunks", "Decoder::sum, min, max")],
     [], ["Decoder::sum", "Decoder::min", "Decoder::max", "GeneralChunkReader::sum"],
     note="The generic loops of a chunk and the chunk loops of the decoder are proved (Verus): sum, minimum and maximum are the folds over exactly the selected records, chunk by chunk. Floating-point operations are uninterpreted in the proof." + ORACLE,
     theorems=["q::default_sum", "q::default_min", "q::default_max", "dq::Decoder::sum", "dq::Decoder::min", "dq::Decoder::max"], technique=_VK)
prop("P19", "Distances, nearest vector and matrix products are those of the records",
     "The squared distance and the dot product of a chunk from an offset with a target are taken over exactly the overlapping records. "
     "The nearest-vector search returns the least distance over all whole vectors of the target's length, and a vector at that distance, wherever chunk boundaries fall; matrix multiplication returns, for every matrix in the file, its product with the target given column by column, and refuses shapes that do not fit. "
     "For records that are small integers the results are exact.",
     ["inputs"], "every file of " + _LL + ", chunking, offset, target length and matrix shape",
     _SYS + "boundaries between vectors and chunks meet only for particular lengths.",
     ["ebi/src/decoder/query.rs", "ebi/src/api/decoder.rs", "ebi/src/decoder/chunk_reader.rs"],
     [("pairing of records and target", "default_distance_squared, default_dot_product"), ("vectors across chunks", "Decoder::knn1, Decoder::matmul")],
     [], ["Decoder::knn1", "Decoder::matmul", "GeneralChunkReader::distance_squared", "GeneralChunkReader::dot_product"],
     note="Distance and dot product of a chunk are proved (Verus) to be the fold over exactly the overlapping records; nearest vector and matrix product across chunks: bounded executable oracle." + ORACLE,
     theorems=["q::default_distance_squared", "q::default_dot_product"], technique=_VK)
prop("P20", "Expressions over columns compute row by row and aggregate exactly once",
     "An arithmetic expression over the columns of several files with the same chunking yields, for every selected row in order, the value of the expression on that row, and its sum, minimum, maximum or the values themselves aggregate every selected row exactly once. "
     "Partial results of consecutive parts combine to the result of the whole, with the empty result neutral; combining results of different kinds is an error. "
     "Computing several aggregations together gives the same results as one by one.",
     ["inputs", "histories"], "every expression, bitmask, number of rows and chunks; every splitting into parts",
     _SYS + "no test that runs here evaluates an expression.",
     ["ebi/src/decoder/expr.rs", "ebi/src/api/decoder.rs"],
     [("evaluation chunk by chunk", "Expr::compute_chunk"), ("combining parts", "AggregationResult::concat, AggregationResult::zero")],
     [], ["Expr::compute_chunk", "Aggregation::compute", "Aggregation::compute_multiple", "AggregationResult::concat"],
     note="Kani: neutral element, combination of sums, minima and maxima, and refusal of mismatched kinds for every double; joining arrays and partial results for short arrays (bounded). Expression evaluation: bounded oracle." + ORACLE,
     theorems=["neutral_and_combine", "sums_combine", "mismatches_are_errors"], technique=_MIX)
_HIST = "After any history of compressing, appending, rewinding, preparing and resetting, "
prop("P21", "Run-length coding holds exactly the appended records, whatever the history",
     _HIST + "the run-length chunk expands to exactly the records appended and not rewound or reset since, bit for bit, in runs of at most 255, and the reported input and output sizes are those of these records. "
     "Rewinding removes exactly the asked number of last records, and refuses without change what is more than there is. "
     "The reader expands the same records however often and however far it is iterated.",
     ["inputs", "histories"], "every series of 64-bit patterns of any length, every history of operations",
     "No test that runs here touches the codec; runs at exactly 255 or rewinds over several runs are rare.",
     ["ebi/src/compressor/run_length.rs", "ebi/src/decoder/chunk_reader/run_length.rs"],
     [("pending run", "RunLengthCompressor::append_compress"), ("removing runs", "RunLengthCompressor::rewind"), ("expanding", "RunLengthReader::decompress, RunLengthIterator")],
     [("previous_value, previous_run_count, number_of_fields", "run not yet written", "RunLengthCompressor")], ["buffers", "total_bytes_in", "total_bytes_buffered", "rewind", "decompress"],
     note="Every operation of the compressor (compress, append, rewind, prepare, reset, sizes) is proved (Verus) against the sequence of records for all histories and lengths; the reader's expansion and iterator deliver exactly those records. Assumed: to_le_bytes/from_le_bytes of a double are inverse, exact reads deliver the next bytes." + ORACLE,
     theorems=["rl::RunLengthCompressor::compress", "rl::RunLengthCompressor::append_compress", "rl::RunLengthCompressor::rewind", "rl::RunLengthCompressor::prepare", "rd::RunLengthReaderImpl::decompress", "rd::RunLengthIteratorImpl::next"])
prop("P22", "Uncompressed and block codecs hold exactly the records, whatever the history",
     _HIST + "the uncompressed chunk is exactly the little-endian bytes of the records appended and not rewound or reset since; rewinding removes exactly the asked number of last records or refuses without change. "
     "zstd, gzip and snappy chunks decode to exactly the compressed records, also when one compressor is used for several chunks. "
     "All report the input size of the current chunk and the exact output size, and readers yield the same records however often and however far they are iterated.",
     ["inputs", "histories"], "every series of 64-bit patterns of any length, every history of operations, every compression level",
     "No test that runs here touches these codecs; leftovers show only when a compressor is used again.",
     ["ebi/src/compressor/uncompressed.rs", "ebi/src/decoder/chunk_reader/uncompressed.rs", "ebi/src/compressor/zstd.rs", "ebi/src/compressor/gzip.rs", "ebi/src/compressor/snappy.rs", "ebi/src/decoder/chunk_reader/zstd.rs", "ebi/src/decoder/chunk_reader/gzip.rs", "ebi/src/decoder/chunk_reader/snappy.rs"],
     [("appending and cutting records", "UncompressedCompressor"), ("reuse of buffers", "ZstdCompressor, GzipCompressor, SnappyCompressor")],
     [("buffer, total_bytes_in", "bytes of the chunk", "compressors")], ["buffers", "total_bytes_in", "total_bytes_buffered", "rewind", "decompress"],
     note="Every operation of the uncompressed compressor is proved (Verus) against the sequence of records, for all histories. Assumed: the byte view of a slice of doubles, f64::to_le_bytes. zstd, gzip, snappy: external C and Rust libraries, bounded oracle." + ORACLE,
     theorems=["UncompressedCompressor::compress", "UncompressedCompressor::append_compress", "UncompressedCompressor::rewind", "UncompressedCompressor::reset"],
     technique="contract-based deductive verification of the extracted real code (Verus) for the uncompressed codec; bounded executable oracle for the external libraries")
_BF = "d decimals (scale 10^d, d from 0 to 10, values whose fixed-point form fits 62 bits)"
prop("P23", "BUFF stores every decimal to within its precision",
     "For any series of values with " + _BF + ", decoding a BUFF chunk gives each value truncated toward zero to the fractional bits kept for d decimals, which rounds back to the original decimal. "
     "This holds whatever the smallest and largest value of the chunk, for constant chunks, chunks of rarely differing values and no records, and when a compressor is used again. "
     "The reported sizes are those of the chunk.",
     ["inputs", "histories"], "every series and length, every number of decimals 0..=10, every chunking",
     "No test that runs here touches the codec; the layout depends on minimum, maximum and how often values repeat.",
     ["ebi/src/compressor/buff.rs", "ebi/src/decoder/chunk_reader/buff.rs", "ebi/src/compression_common/buff.rs"],
     [("fixed point and offset to the minimum", "BUFFCompressor::compress"), ("dense and sparse byte columns", "compression_common/buff.rs"), ("decoding", "BUFFReader::decompress")],
     [("header of five 32-bit fields", "base, lengths and count of the chunk", "BUFF chunk")], ["compress", "decompress", "materialize"],
     note="The compressor, its precalculation, the chunk layout it writes and the decoder are proved (Verus) over the packed-bit and fixed-point contracts (P05-P07) for every series, any length; log10 of the scale and the final division by a power of two are assumed." + ORACLE,
     theorems=["be::buff_simd256_encode", "be::BUFFCompressor::compress", "bd::buff_simd256_decode", "bl::unique", "BitPack<Vec<u8>>::write", "BitPack<&[u8]>::read", "fx::into_fixed_representation_with_fractional_part_bits_length"])
prop("P24", "Queries on BUFF chunks agree with the stored values",
     "Filtering a BUFF file by values within its precision selects exactly the records that satisfy the predicate, respecting bitmask and chunk, also for predicates outside the chunk's range. "
     "Minimum and maximum are those of the stored selected values, the sum up to rounding (while the scaled sum fits 63 bits), zero over none. "
     "Materialization, filtering and aggregation in any order on one reader give the same results as on a fresh one.",
     ["inputs", "histories"], "every series of values with " + _BF + ", predicate, bitmask, chunk and sequence of queries",
     "No test that runs here queries a chunk; byte-wise comparison fails only for particular digits.",
     ["ebi/src/decoder/chunk_reader/buff.rs", "ebi/src/compression_common/buff.rs"],
     [("byte-wise filters", "compression_common/buff.rs"), ("queries on encoded data", "BUFFReader QueryExecutor")],
     [("decompressed values kept", "cache shared by the queries", "BUFFReader")], ["filter", "min", "max", "sum", "materialize"],
     note="The equality and comparison filters (scalar and vectorised passes), the extremes and the sum on byte columns and on the last bits, and BUFFReader's filter, max, min and sum are proved (Verus) for every chunk, mask, offset and predicate over the packed-bit and fixed-point contracts (P06, P07); bitmaps and vector instructions by assumed contracts." + ORACLE,
     theorems=["bg::buff_simd256_equal_filter", "bi::buff_simd256_cmp_filter", "bx::max_with_bitmask", "bx::max_without_bitmask", "bx::min_without_bitmask", "bq::sum_with_bitmask", "bw::BUFFReader::filter", "bw::BUFFReader::sum", "BitPack<&[u8]>::read", "fx::mag_monotone"])
prop("P25", "Reading BUFF with less precision stays within the asked precision",
     "Reading a BUFF chunk or file with a precision of p decimals gives each stored value at or below it by less than the fractional step of p decimals, and exactly the stored value when p covers all stored decimals. "
     "Lowering or raising the precision on a reader affects later reads accordingly and never a filter's result.",
     ["inputs", "histories"], "every series of values with " + _BF + ", precision p from 0 to 12, sequence of reads",
     "No test that runs here sets a precision.",
     ["ebi/src/decoder/chunk_reader/buff.rs", "ebi/src/compression_common/buff.rs", "ebi/src/decoder/chunk_reader.rs"],
     [("bytes left out", "BUFFReader::decompress with controlled precision")],
     [], ["with_precision", "decompress", "materialize"],
     note="decode_with_precision is proved (Verus) for every chunk and precision 0..=12, and the reader's cache is proved never coarser than the precision asked for; the hand-down of the precision through the file reader: bounded executable oracle." + ORACLE,
     theorems=["br::BUFFReader::decompress", "br::BUFFReader::with_controlled_precision", "bd::decode_with_precision", "bd::less_precision", "BitPack<&[u8]>::read", "fx::precision_map_separates"])
prop("P26", "Delta-Sprintz stores every value as its nearest multiple of 1/scale",
     "For any series of values v and scale s below 2^32 with |v * s| below 2^50, decoding a Sprintz chunk gives round(v * s) / s for each, so values with the scale's decimals come back exactly, for any length including none, and when a compressor is used again. "
     "The zig-zag mapping of differences is a bijection on 64-bit integers that keeps small magnitudes small. "
     "The reported sizes are those of the chunk.",
     ["inputs", "histories"], "every series and length, every scale below 2^32, every chunking",
     "No test that runs here touches the codec; the bit width depends on the largest difference.",
     ["ebi/src/compressor/sprintz.rs", "ebi/src/decoder/chunk_reader/sprintz.rs"],
     [("quantization, differences, zig-zag", "DeltaSprintzCompressor::compress"), ("running sum", "DeltaSprintzReader, DeltaSprintzIterator")],
     [("width", "bits per difference, from the largest one", "Sprintz chunk")], ["compress", "decompress", "materialize"],
     note="Verus, for every series and length: the compressor (zigzag, width, differences, header) writes exactly the bits of the chunk that holds the rounded values, the bytes determine the records (unique), and the iterator and the reader's decompress return each of them in order (round_trip). Rounding and division by the scale stay uninterpreted. Kani, besides: zig-zag bijection and one record through the real bit code; bounded streams of two records." + ORACLE,
     theorems=["image_chunk", "unique", "width_fits", "round_trip", "DeltaSprintzCompressorImpl::compress", "DeltaSprintzDecompressIteratorImpl::next", "default_decompress", "zigzag_inverse"], technique=_VK)
prop("P27", "Queries on Sprintz chunks agree with the stored values",
     "Filtering a Sprintz file by values with the scale's decimals selects exactly the records that satisfy the predicate, respecting bitmask and chunk. "
     "Minimum and maximum are those of the stored selected values, the sum up to rounding (while the scaled sum fits 63 bits), zero over none. "
     "Materialization, filtering and aggregation in any order on one reader give the same results as on a fresh one.",
     ["inputs", "histories"], "every series of values v with |v * scale| below 2^49 and scale below 2^32, predicate, bitmask, chunk and sequence of queries",
     "No test that runs here queries a chunk.",
     ["ebi/src/decoder/chunk_reader/sprintz.rs"],
     [("queries on the quantized values", "DeltaSprintzReader QueryExecutor")],
     [("decompressed values kept", "cache shared by the queries", "DeltaSprintzReader")], ["filter", "min", "max", "sum", "materialize"],
     note="Verus, for every chunk, mask and offset: filter, sum, min, max and materialize of DeltaSprintzReader with their loops over the stored integers return exactly what their meaning on the selected records says, and leave the reader's records as they were (before and after decompression). Kani: integer predicates and their mapping." + ORACLE,
     theorems=["filter", "sum", "min", "max", "min_max", "win_agrees", "eval_integers", "map_constants"], technique=_VK)
