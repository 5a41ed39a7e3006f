"""Which units decide which property."""

# unit -> overlay file, verus arguments, least number of functions the verifier has to accept on the unchanged tree
UNITS = {
    "bitwrite_a": {"mods": ["tr"], "min": 1},
    "bitwrite_b": {"mods": ["imp", "fwd"], "min": 10},
    "bitread": {"mods": None, "min": 10},
    "bitio_rt": {"mods": ["rt", "ext", "bits"], "min": 10},
    "bitpack": {"mods": None, "min": 60},
    "fixedpoint": {"mods": None, "min": 25},
    "elf_tables": {"kani": True, "covers": ["compression_common/elf.rs::get_sp", "compression_common/elf.rs::get_sp_and_10i_n_flag", "compression_common/elf.rs::get_f_alpha (alpha <= 20)", "compression_common/elf.rs::get_10i_n (i <= 20)", "compression_common/elf.rs::get_10i_p (i <= 20)"]},
    "xor_gorilla": {"kani": True, "crate": True, "inductive": True, "covers": ["compressor/gorilla.rs::GorillaFloatEncoder (compress_float, close, simulate_close, reset)", "decoder/chunk_reader/gorilla.rs::GorillaDecoder (decompress_float, reset)"]},
    "xor_chimp": {"kani": True, "crate": True, "inductive": True, "covers": ["compressor/chimp.rs::ChimpEncoder (compress_float, close, simulate_*, reset)", "decoder/chunk_reader/chimp.rs::ChimpDecoder (decompress_float, reset)"]},
    "xor_elf": {"kani": True, "crate": True, "inductive": True, "covers": ["compressor/elf.rs::ElfXorEncoder (compress_float, close, simulate_*, reset)", "decoder/chunk_reader/elf.rs::ElfXorDecoder (decompress_float, reset)"]},
    "elf_wrap": {"kani": True, "crate": True, "inductive": True, "args": ["-Z", "stubbing"], "covers": ["compressor/elf.rs::ElfEncoderWrapper (compress_float, add_value, close, simulate_close, reset)", "decoder/chunk_reader/elf.rs::ElfDecoderWrapper (decompress_float, next_value, recover_v_by_beta_star, reset)"]},
    "xor_chimp128": {"kani": True, "crate": True, "inductive": True, "covers": ["compressor/chimp_n.rs::ChimpNEncoder<128> (add_value, close, simulate_close, reset)", "decoder/chunk_reader/chimp_n.rs::ChimpNDecoder<128> (read_value, next, next_value)"]},
    "xor_g": {"mods": ["xs", "gx", "gg"], "min": 68},
    "xor_c": {"mods": ["xs", "gx", "ch"], "min": 74},
    "xor_e": {"mods": ["xs", "gx", "ch", "ex", "ew"], "min": 150},
    "xor_n": {"mods": ["xs", "cn"], "min": 86},
    "format": {"kani": True, "crate": True, "covers": ["format/serialize.rs, format/deserialize.rs, format/native.rs (conversions of every header and footer field)", "compressor.rs::CompressorConfig (serialize, serialized_size, from_le_bytes)"]},
    "predicate": {"kani": True, "crate": True, "covers": ["decoder/query.rs::PredicateImpl (eval, map)", "decoder/query.rs::RangeImpl (eval, map)"]},
    "aggregate": {"kani": True, "crate": True, "covers": ["decoder/expr.rs::AggregationResult (zero, concat, scalar)", "decoder/expr.rs::AggregationKind::dispatch_on_vec (3 values)"]},
    "sprintz": {"kani": True, "crate": True, "inductive": True, "args": ["-Z", "stubbing"], "covers": ["compressor/sprintz.rs (zigzag, compress)", "decoder/chunk_reader/sprintz.rs (unzigzag, header, DeltaSprintzIterator::next)"]},
    "files_w": {"kani": True, "crate": True, "inductive": True, "args": ["-Z", "stubbing"], "covers": ["encoder.rs::FileWriter (new, chunk_writer_with_compressor, write_footer)", "encoder.rs::ChunkWriter::write", "encoder.rs::read_less_or_equal", "api/encoder.rs::Encoder::encode"]},
    "files_r": {"kani": True, "crate": True, "covers": ["decoder.rs::FileReader (fetch_header, seek_to_footer, fetch_footer)", "decoder.rs::GeneralChunkHandle (all accessors)"]},
    "plain": {"mods": ["pl"], "min": 8},
    "rle_v": {"mods": ["rl", "rd"], "min": 25},
    "buff_v": {"mods": ["be", "bl"], "min": 40},
    "buffd": {"mods": ["bd", "br"], "min": 30},
    "buffq": {"mods": ["mk", "bq", "bx", "bf", "bg", "bc", "bh", "bi", "bw"], "min": 170},
    "sprintz_v": {"mods": ["sp", "se", "sd"], "min": 75},
    "query": {"mods": ["q"], "min": 20},
    "decq": {"mods": ["cr", "dq"], "min": 30},
}

_BITW = ["bitwrite_a", "bitwrite_b"]
_XORV = ["construction of the chunk reader from the bytes of a file: executable oracle (series of up to 420 records)"]
_XA = ["to_bits and from_bits are inverse on every pattern", "the default of an encoder or decoder is its new()", "a bit writer or reader passed by value to one step is passed as the mutable reference it always is (signatures rewritten)", "fewer than 2^52 records in one call", "writing and reading of bits by the contracts of P01 and P03", "after an iterator is dropped its reader holds the same bytes (every read leaves them as they are; the end of the borrow is not tracked)"]
_QA = ["number of records below 2^32 (positions are 32 bits)", "every chunk reader gives the records of its chunk and their number equals the directory's (codec properties, P15)", "RoaringBitmap is a set of 32-bit positions", "floating-point addition, multiplication, min and max are uninterpreted functions: the result is stated as the fold of those operations over exactly the selected records"]
_BA = ["(scale as f32).log10() as usize is d for a scale of 10^d (oracle: d <= 10)", "x as f64 / 2^f is an uninterpreted function of x and f (exact for |x| < 2^53: IEEE division by a power of two)", "a chunk has fewer than 2^32 records"]
_SQ = ["filter", "materialize", "max", "min", "sum", "sum_without_bitmask", "min_max", "min_max_without_bitmask"]
_SA = ["round(v * scale) and x / scale are uninterpreted functions quant and unq (the oracle compares bits)", "scale below 2^32 and |round(v * scale)| below 2^61", "mem::transmute between i64 and u64 is the two's complement cast", "the two raw-pointer lines of zigzag_delta_num_bits write within the reserved capacity of the vector (capacity and written prefix are tracked; the pointer operations themselves are assumed)", "writing and reading of bits by the contracts of P01 and P03"]
PROPS = {
    "P01": {"units": _BITW, "native": "s_bitio", "fns": ["write_bit", "write_byte", "write_bits", "as_slice", "close", "number_of_bits_written", "new", "with_capacity", "from_vec", "default"]},
    "P02": {"units": _BITW, "native": "s_bitio", "fns": ["set_cursor_at_in_bit", "number_of_bits_written", "as_slice", "reset", "close"]},
    "P03": {"units": ["bitread"], "native": "s_bitio"},
    "P04": {"units": _BITW + ["bitread", "bitio_rt"], "native": "s_bitio", "fns": ["write_bit", "write_byte", "write_bits", "as_slice", "close", "new", "read_bit", "read_byte", "read_bits", "peak_bits", "read_bit_unchecked", "read_byte_unchecked"]},
    "P05": {"units": ["bitpack"], "native": "s_buff", "fns": ["new", "sum_bits", "write", "write_bits", "write_byte", "finish_write_byte", "into_vec", "with_capacity", "default"]},
    "P06": {"units": ["bitpack"], "native": "s_buff"},
    "P07": {"units": ["fixedpoint"], "native": "s_buff"},
    "P08": {"units": ["elf_tables"], "native": "s_buff",
            "bounded": ["get_alpha_and_beta_star, round_up and the fallbacks through log10 and format!/parse: executable oracle only (decimals of up to 15 digits, 1e-10 <= |v| < 1e15)"]},
    "P09": {"stepwise": [("xor_g", r"/gorilla\.rs::", ["xor_gorilla"])], "units": ["xor_g", "xor_gorilla"], "native": "s_xor", "assumptions": _XA, "bounded": _XORV},
    "P10": {"stepwise": [("xor_c", r"/chimp\.rs::", ["xor_chimp"])], "units": ["xor_c", "xor_chimp"], "native": "s_xor", "assumptions": _XA, "bounded": _XORV},
    "P11": {"stepwise": [("xor_e", r"/(elf|chimp)\.rs::", ["xor_elf", "elf_wrap", "xor_chimp"])], "units": ["xor_e", "xor_elf", "elf_wrap", "xor_chimp"], "native": "s_xor", "bounded": _XORV, "assumptions": _XA + ["comparison with zero, is_infinite, is_nan and == mean on bit patterns what IEEE 754 says", "mem::transmute between i32 and u32 is the two's complement cast", "restore, get_alpha_and_beta_star and get_f_alpha terminate without panicking and restore depends on its arguments only"]},
    "P12": {"stepwise": [("xor_n", r"/chimp_n\.rs::.*ChimpN(En|De)coder", ["xor_chimp128"])], "units": ["xor_n", "xor_chimp128"], "native": "s_xor", "bounded": _XORV, "assumptions": _XA + ["one call takes fewer than 2^25 records (the encoder counts bits in 32 bits)", "the boxed slices of previous values and of positions are vectors of the same length; slice::fill and vec![x; n] fill", "128 as the window: the const parameter is replaced by 128 and its logarithm by 7"]},
    "P13": {"units": ["files_w", "decq"], "native": "s_sys", "fns": None, "bounded": ["read_less_or_equal: up to 16 bytes in 3 pieces (Kani), any in the oracle", "the choice of codec: executable oracle"]},
    "P14": {"units": ["format"], "native": "s_codec", "bounded": ["the footer as a whole: executable oracle (any number of chunks)"]},
    "P15": {"units": ["files_w", "files_r"], "native": "s_sys", "bounded": ["chunk handles: directory of 3 chunks with any offsets (Kani)"]},
    "P16": {"units": ["files_w", "files_r"], "native": "s_sys", "bounded": ["cut footer and order of writing: one chunk (Kani)"]},
    "P17": {"units": ["predicate", "query", "decq"], "native": "s_sys", "assumptions": _QA, "bounded": ["reading of chunk bytes (GeneralChunkReader construction): executable oracle (up to 600 records)"]},
    "P18": {"units": ["query", "decq"], "native": "s_sys", "assumptions": _QA, "bounded": ["reading of chunk bytes (GeneralChunkReader construction): executable oracle (up to 600 records)"]},
    "P19": {"units": ["query"], "native": "s_sys", "assumptions": _QA, "bounded": ["knn1 and matmul across chunks: executable oracle (up to 600 records, small integers)"]},
    "P20": {"units": ["aggregate"], "native": "s_sys", "bounded": ["expression evaluation: executable oracle (up to 600 rows, 3 columns, depth 3)", "joined arrays of 2 and 2, partial results of 3 values (Kani)"]},
    "P21": {"units": ["rle_v"], "native": "s_codec", "bounded": ["construction of the reader from a file (header bytes): executable oracle"]},
    "P22": {"units": ["plain"], "native": "s_codec", "bounded": ["zstd, gzip, snappy and the readers: executable oracle (up to 900 records)"]},
    "P23": {"skip": ["decode_with_precision", "with_controlled_precision", "precision", "is_full_precision"], "units": ["bitpack", "fixedpoint", "buff_v", "buffd"], "native": "s_codec", "assumptions": _BA, "bounded": ["construction of the reader from a file: executable oracle (up to 600 records)"]},
    "P24": {"skip": ["decode_with_precision", "with_controlled_precision", "precision", "is_full_precision"], "units": ["bitpack", "fixedpoint", "buffd", "buffq"], "native": "s_codec", "assumptions": _BA + [
        "RoaringBitmap is a set of 32-bit positions, iterates in increasing order, and |, &, - and from_lsb0_bytes mean what they say", "the AVX2 instructions (load, compare, movemask) act lane by lane; only the x86_64 branch of cfg_if is verified",
        "the base and the predicate as fixed-point numbers lie within 2^62, the scaled sum within 63 bits, records * 7 and offset + records below 2^32", "a value satisfies a predicate when its fixed-point number compares so with that of the bound (order of fixed point: P07)"],
        "bounded": ["construction of the reader from a file, filter_materialize and the default queries on decompressed records: executable oracle (up to 600 records; proved for any reader in unit query)"]},
    "P25": {"units": ["bitpack", "fixedpoint", "buffd"], "native": "s_codec", "assumptions": _BA, "bounded": ["handing the precision down from the file to its chunk readers: executable oracle (up to 600 records)"]},
    "P26": {"units": ["sprintz_v", "sprintz"], "native": "s_codec", "skip": _SQ, "assumptions": _SA, "bounded": ["chunks in a file, chunk size and record count handed to the reader: executable oracle (up to 600 records); with Kani also whole streams of up to 2 records through the real bit writer and reader"]},
    "P27": {"units": ["sprintz_v", "predicate"], "native": "s_codec", "skip": ["zigzag", "zigzag_delta_num_bits", "delta_sprintz_compress_impl", "compress", "total_bytes_in", "total_bytes_buffered", "buffers", "reset", "prepare"], "assumptions": _SA + ["predicate.map(..) means on the stored integers what the predicate means on the stored values, for thresholds with the scale's decimals (eval and map of integer predicates: Kani unit predicate; the rounding: oracle)", "the integer sum of the selected records does not overflow", "the default queries on decompressed records (proved in unit query, for every reader)", "RoaringBitmap is a set of 32-bit positions and iterates in increasing order"], "bounded": ["chunks in a file and the rounding of sums: executable oracle (up to 600 records)"]},
}
