COMMON = 'Trusted: clang-18 and the listed LLVM clean-up passes, the VC generator in vc/, the SMT solvers. '
NOT_APPLICABLE = {}
PROPS = [
 dict(id='C01', title='Delta transform round trip',
      statement='Applying the delta transform to an integer sequence and then inverting it restores every element, for every length including zero and for every value. The forward transform leaves element 0 in place and replaces each later element by its difference (modulo 2^32) to its predecessor in the original sequence. Neither operation touches memory outside the sequence.',
      over=['inputs'], qtext='every length and every content of the array',
      why='No existing test exercises the delta transform; a test samples a few arrays, while the claim quantifies over all lengths and all 32-bit contents, including lengths 0 and 1 and differences that overflow.',
      files=['src/hzip_core/preprocessor/delta.cpp', 'src/hzip_core/preprocessor/delta.h'],
      mech=[('in-place difference loop from the end, in-place prefix sum from the start', 'DeltaTransformer::transform / invert')],
      observe=['DeltaTransformer::transform', 'DeltaTransformer::invert'],
      note=COMMON + 'Proof, all lengths below 2^60 and all contents: contracts on transform and invert with loop invariants inferred from templates, memory safety, termination, and a lemma composing both contracts.'),
 dict(id='C02', title='ZigZag order visits every cell of the grid exactly once',
      statement='Iterating a width x height grid in zigzag order yields every cell exactly once, in diagonal order (increasing x+y, even diagonals with x growing, odd ones with y growing), starting at (0,0), and then compares equal to the end position; an empty grid yields nothing. Pre-increment yields the new position, post-increment the old one.',
      over=['inputs'], qtext='every width and height up to 2^32-1, every cell of the grid',
      why='The tests cover four fixed grids of at most 32x32; the claim is for every width and height, including 0, 1 and sizes whose coordinate sums overflow 32 bits.',
      files=['src/hzip_core/preprocessor/zigzag.h'],
      mech=[('successor function on coordinates', 'ZigZagTransformer::zigzag_pair::next'), ('iterator', 'ZigZagTransformer::const_iterator, begin(), end()')],
      observe=['ZigZagTransformer::begin/end', 'const_iterator operators'],
      note=COMMON + 'Proof for all 32-bit widths and heights: next() is the immediate successor in diagonal order, the iterator operators are contracts over it, and the traversal claim follows by the lemmas (injective order, minimal first cell, one new cell per step, bounded above).'),
 dict(id='C16', title='Path validation accepts exactly the well-formed archive paths',
      statement='Archive path validation accepts a path if and only if it is non-empty, starts with a slash, contains no NUL, backslash or space anywhere, and has no two adjacent slashes. Every other path is rejected with a validation error, and the path itself is never modified.',
      over=['inputs'], qtext='every byte string of any length',
      why='No existing test covers validation; a test can only sample strings, while the claim is an exact characterisation of the accepted set.',
      files=['src/hzip_core/utils/validation.h', 'src/hzip_core/errors/utils.h'],
      mech=[('three scans over the path', 'hz_validate_path')], observe=['hz_validate_path'],
      note=COMMON + 'Proof for strings of every length below 2^62; libstdc++ string accessors are compiled and verified with the code, construction of the exception message is an assumed no-effect contract.'),
 dict(id='C20', title='Counting semaphore grants exactly its permits and loses no wake-up',
      statement='A semaphore created with n permits lets at most n acquire() calls be outstanding: every completed acquire() takes exactly one permit that existed, every release() adds exactly one. The count is only touched with the mutex held, acquire() sleeps only while no permit is available, and a release() that makes a permit available wakes a sleeping waiter, so nobody sleeps forever while permits remain. Both calls return with the mutex released.',
      over=['schedules', 'inputs'], qtext='every number of permits, threads and calls, every interleaving of acquire and release and every spurious wake-up',
      why='A test observes a few schedules of a few threads; over-admission and lost wake-ups depend on where a thread is pre-empted between the check, the wait and the notification.',
      files=['src/hzip_core/utils/semaphore.cpp', 'src/hzip_core/utils/semaphore.h'],
      mech=[('mutex, condition variable and count', 'Semaphore::acquire, Semaphore::release')],
      state=[('_count', 'permits available', 'Semaphore')], observe=['Semaphore::acquire', 'Semaphore::release'],
      note=COMMON + 'Proof by monitor reasoning: the protected count is unknown whenever the mutex is taken or a wait returns; each critical section is judged when the mutex is given up; std::unique_lock etc. are verified from their compiled bodies, pthread/condition_variable are assumed contracts. acquire() carries no termination claim. A count of 2^64-1 is outside the claim. Replay runs real threads under TSan.'),
 dict(id='C21', title='Socket transfers are framed, complete or reported',
      statement='A message send transmits one success byte and then exactly the caller\'s bytes; a receive first transmits one success byte when asked to synchronise, then waits for exactly the requested number of bytes and delivers them to the caller without writing anything else. Any transfer that fails or falls short raises a connection error instead of returning. Error and success texts are framed as status byte, 16-bit length, then that many bytes of text.',
      over=['inputs', 'fault_sequences'], qtext='every message length and content, every result (short count or -1) of every send and recv call',
      why='Faults at particular transfers (a -1, a short count) are not produced by unit tests; the framing claim is over all lengths and contents.',
      files=['src/hzip_network/api/handlers/socket_class.cpp', 'src/hzip_network/api/handlers/socket_class.h', 'src/hzip_network/errors/api.h'],
      mech=[('send/recv wrappers with handshake', 'SocketInterface::t_send, t_recv, t_recv_sync'), ('status messages', 'SocketInterface::error, success')],
      observe=['SocketInterface::*', 'bytes on the socket'],
      note=COMMON + 'Proof for all lengths below 2^62 and all contents; send()/recv() are assumed contracts allowing every short count and failure; the sequence of transfers is ghost state compared at every exit. The length field is 16 bits: only the first (length mod 65536) bytes of a longer text are framed, which the contract states as is.'),
 dict(id='C07', title='Move-to-front round trip',
      statement='For every sequence of symbols drawn from the configured alphabet, the move-to-front transform replaces each symbol by its current position in the recency list, and inverting restores the sequence exactly. The list starts as the alphabet in order and moves each processed symbol to the front. Neither operation reads or writes outside the data or the list.',
      over=['inputs'], qtext='every alphabet size the symbol type can hold, every length and content of the data',
      why='The tests transform a few fixed strings; the claim is for every alphabet, length and content, which is a relation between two loops over evolving lists.',
      files=['src/hzip_core/preprocessor/move_to_front.h'],
      mech=[('recency list searched and rotated per symbol', 'MoveToFrontTransformer::transform / invert')],
      observe=['MoveToFrontTransformer::transform', 'MoveToFrontTransformer::invert'],
      note=COMMON + 'Proof for 8-bit and 32-bit symbols (16-bit too in the thorough tier), alphabets up to the type and lengths below 2^60: the list history is ghost state defined by recursion on the symbols, both functions are proved against it, permutation lemma by induction. std::vector and rainman::ptr are assumed contracts. Symbols outside the alphabet are outside the claim.'),
 dict(id='C09', title='rANS coding steps are inverse and keep the state in range',
      statement='For every coder state in [2^31, 2^63), scale up to 31 and symbol interval within 2^scale, one encode step yields a state again in [2^31, 2^63) while spilling at most one 32-bit word, and the decode step with the same interval restores the previous state exactly, taking a word back precisely when one was spilled. Flushing and loading the final state preserve it, and the word count always equals the words produced or consumed.',
      over=['inputs'], qtext='every state, scale, interval start and length, word value',
      why='The relation involves 64-bit division and range renormalisation at exact thresholds; samples hit the off-by-one states with negligible probability.',
      files=['src/hzip_core/kernel/hzrans/hzrans64.cpp', 'src/hzip_core/kernel/hzrans/hzrans64.h'],
      mech=[('encode step with spill', 'hzrans64_encode_s'), ('decode step with refill', 'hzrans64_decode_s'), ('initial and final state', 'hzrans64_codec_init, hzrans64_enc_flush, hzrans64_dec_load_state')],
      state=[('hzrans64_t::x', 'coder state', 'hzrans64.h'), ('hzrans64_t::count', 'words produced / consumed', 'hzrans64.h')],
      observe=['hzrans64_encode_s', 'hzrans64_decode_s', 'hzrans64_enc_flush', 'hzrans64_dec_load_state', 'hzrans64_codec_init'],
      note=COMMON + 'Proof over mathematical integers with exact 64-bit wrap conditions, all 32 scales at once (2^scale symbolic with 2^scale * 2^(31-scale) = 2^31); nonlinear facts about division are separate discharged lemmas, given to the step proofs as instances. HZ_Stack::push is used through its contract (C12).'),
 dict(id='C10', title='rANS frequency tables give every symbol a share of exactly 2^scale',
      statement='Normalising any counts (whose total, scaled, fits in 64 bits) yields a table in which every symbol has at least one share and all shares add up to exactly 2^scale, also when the counts are stored in the table itself. The interval computed for a symbol starts at the sum of the shares before it and is as long as its share, and looking up any point below the total returns the symbol whose interval contains it.',
      over=['inputs'], qtext='every alphabet size up to 2^scale, every scale up to 31, every counts vector with (sum + size) * (2^scale - size) below 2^64',
      why='Rounding residues and extreme skews occur only for particular count vectors; the sum must be exact for every one of them or decoding derails.',
      files=['src/hzip_core/kernel/hzrans/hzrans64.cpp'],
      mech=[('three-layer normalisation', 'hzrans64_create_ftable_nf'), ('interval lookup', 'hzrans64_add_to_seq, hzrans64_inv_bs')],
      observe=['hzrans64_create_ftable_nf', 'hzrans64_add_to_seq', 'hzrans64_inv_bs'],
      note=COMMON + 'Proof over mathematical integers with exact wrap conditions; the table sum is ghost state updated by every store (sum-after-store lemma by induction); products and quotients of two unknowns are uninterpreted with facts from discharged lemmas. Alphabets below 2^31 in the interval lookup (int loop counter).'),
 dict(id='C12', title='Word stack is last in, first out',
      statement='For every history of pushes and pops, top() is the element pushed last and not yet popped, size() is the number of elements held and empty() tells whether there is none, across the buffer boundaries and also after the stack was emptied and used again. A pop of an empty stack does nothing, pushes and pops leave all other elements unchanged, and no operation touches memory outside the buffers or one that was released.',
      over=['histories'], qtext='every depth, every buffer fill level, every element value, so by induction every history',
      why='The stack spans linked 65536-element buffers; errors sit at buffer boundaries and after emptying, which small tests never reach.',
      files=['src/hzip_core/utils/stack.h'],
      mech=[('linked buffers with an index into the current one', 'HZ_Stack::push, pop, top, size, empty')],
      state=[('buffer, index', 'current buffer and number of elements in it; lower buffers are full', 'HZ_Stack')], observe=['HZ_Stack operations'],
      note=COMMON + 'Proof of each operation against the representation invariant (full buffers below, 1..capacity elements on top, or no buffer and index 0), unbounded in depth: the chain of lower buffers is one ghost array of nodes of symbolic length. Element type uint32_t, the only instantiation in the repository. Destruction (each buffer released once) is checked by execution under the address sanitizer only (bounded).'),
 dict(id='C13', title='Byte and word packing is exact and reversible',
      statement='Writing a 64-bit number to bytes puts the least significant byte first and reading the bytes back gives the number. Packing n bytes into words yields ceil(n/4) words holding the bytes in order, most significant first and padded with zeros; unpacking w words yields exactly their 4*w bytes in that order. Packing and unpacking are therefore inverse, and neither touches memory outside its blocks.',
      over=['inputs'], qtext='every length and every content, every 64-bit number',
      why='Compressed streams go through these conversions; lengths that are no multiple of four and extreme bytes are rare in samples, and no existing test covers them.',
      files=['src/hzip_core/utils/utils.h'],
      mech=[('header numbers', 'hz_u64_to_u8buf, hz_u8buf_to_u64'), ('word streams', 'hz_u8_to_u32ptr, hz_u32_to_u8ptr')],
      observe=['the conversion functions'],
      note=COMMON + 'Proof for all lengths below 2^60 and all contents; composition of packing and unpacking is a lemma over the two contracts. rainman::ptr is an assumed contract (fresh block of n elements).'),
 dict(id='C14', title='Universal integer codes are exact, self-delimiting and reversible',
      statement='The gamma code of a number n is as many ones as n has binary digits, a zero, and those digits; its length is reported exactly, and reading it gives n back after consuming exactly the code word. The unary code of n >= 1 is n-1 ones and a zero, and reading it gives n back after consuming exactly n bits. The binary logarithm is exact for every 64-bit number.',
      over=['inputs'], qtext='every number whose gamma code fits the 64-bit container (below 2^31), every unary value, every 64-bit argument of the logarithm',
      why='Code words differ in length for each power of two; an off-by-one at one digit count, or a writer that does not end, shows only for particular numbers, and no existing test covers the codes.',
      files=['src/hzip_core/utils/utils.h'],
      mech=[('gamma code', 'hz_elias_gamma, hz_elias_gamma_inv, hz_u64log2'), ('unary code', 'hz_unary_write, hz_unary_read')],
      observe=['code words, bits consumed'],
      note=COMMON + 'Proof: gamma code and logarithm by complete path exploration over all digit counts, unary code by loop invariants for all 64-bit values. The reader and writer callbacks are assumed contracts over a ghost bit stream. Numbers from 2^31 on do not fit the 64-bit code container and are outside the claim.'),
 dict(id='C15', title='Handshake token scrambling is reversible and depends on the password alone',
      statement='Scrambling a 64-bit token with a password combines it (exclusive or) with a key made of the password characters only, character j going into byte j mod 8. Applying it twice with the same password gives the token back, and distinct tokens stay distinct. The password is not modified.',
      over=['inputs'], qtext='every password length and content, every token',
      why='Server and client must agree for every password, including empty ones, ones longer than eight characters and bytes above 127; no existing test covers it.',
      files=['src/hzip_core/utils/utils.h'],
      mech=[('byte-wise exclusive or over the token', 'hz_enc_token')], observe=['hz_enc_token'],
      note=COMMON + 'Proof for passwords of every length below 2^31 (the loop counter is an int) and all contents; involution is a lemma over the contract. std::string copying is an assumed contract.'),
 dict(id='C11', title='rANS streams decode to exactly what was encoded',
      statement='Encoding N symbols, each given as an interval by the caller, and decoding the words produced, with the caller mapping states back to the same intervals, returns the N symbols in order after consuming exactly the words produced. The stream is the final state followed by the spilled words, last one first, and the reported word count is its length. This also holds for empty streams and for coder objects used repeatedly, and scales above 31 act as 31 on both sides.',
      over=['inputs', 'histories'], qtext='every number of symbols below 2^60, every sequence of intervals, every earlier use of the coder objects',
      why='Symbols are encoded backwards and words come back through a stack; a slip shows only at particular spill patterns or on reuse, and no existing test covers the stream codec.',
      files=['src/hzip_core/kernel/hzrans/hzrans64_codec.cpp', 'src/hzip_core/kernel/hzrans/hzrans64_codec.h'],
      mech=[('encoding in reverse through a word stack', 'hzrans64_encoder::encode, set_header, set_size'), ('decoding', 'hzrans64_decoder::decode, set_header')],
      state=[('state', 'coder state, shared with the caller\'s callbacks', 'hzrans64_encoder, hzrans64_decoder'), ('index', 'symbols still to encode', 'hzrans64_encoder')],
      observe=['hzrans64_encoder::encode', 'hzrans64_decoder::decode'],
      note=COMMON + 'Proof for all N by loop invariants over a ghost history (states, word counts, spilled words defined by recursion on the intervals); the coding steps are used through the contracts verified in C09 and the word stack through those of C12; the callbacks are assumed to set the interval of the symbol at hand.'),
 dict(id='C03', title='Colour transform is lossless',
      statement='Converting planar RGB samples to luma and chroma and back restores every sample that fits the bit depth, for every bit depth from 1 to 16; the converted samples fit the same depth. Each pixel is converted from its own three samples only, by the integer lifting steps. In place or into a new block the result is the same, the input of an out-of-place conversion and samples past the three planes of an in-place one are left alone. A freshly built transformer always runs the conversion.',
      over=['inputs'], qtext='every image size, bit depth, sample content and pixel position',
      why='The steps wrap modulo the bit depth and halve differences; an error shows only at particular sample triples and depths, and no existing test covers the transform.',
      files=['src/hzip_core/preprocessor/color.cpp', 'src/hzip_core/preprocessor/color.h'],
      mech=[('planar conversion on the CPU', 'LinearU16XColorTransformer::cpu_rgb_to_ycocg, cpu_ycocg_to_rgb, forward_lift, reverse_lift'), ('choice of executor', 'LinearU16XColorTransformer constructor, rgb_to_ycocg, ycocg_to_rgb'), ('single pixels', 'RGBColorTransformer::transform')],
      observe=['rgb_to_ycocg', 'ycocg_to_rgb', 'RGBColorTransformer::transform'],
      note=COMMON + 'Proof of both conversions and the pixel transformer against the lifting steps for an arbitrary pixel of an image of any size; losslessness is a lemma over the two step functions for all depths and samples. The product width * height is taken as one number (below 2^58), rainman::ptr is an assumed contract. The OpenCL branch is C04; dispatch is checked by execution only (bounded).'),
 dict(id='C04', title='OpenCL kernels compute the same values as the CPU code',
      statement='Whatever the number of work items and the length of the segment each one gets, the Paeth and colour kernels write to every cell of their segment exactly the value the CPU code computes, write nowhere else and stay inside the buffers; every cell belongs to the segment of exactly one work item index. The host code launches enough work items, passes the matching arguments and returns the result as the CPU code would.',
      over=['inputs', 'schedules'], qtext='every image size, bit depth, sample content, work item index and segment length; kernels and work group sizes of the host code (bounded)',
      why='OpenCL devices are absent in tests, and segment boundaries and surplus work items depend on the image size and configuration.',
      files=['src/hzip_core/models/paeth.cl', 'src/hzip_core/models/paeth.cpp', 'src/hzip_core/preprocessor/rgb_ycocg.cl', 'src/hzip_core/preprocessor/color.cpp', 'src/hzip_core/opencl/common/types.cl', 'src/hzip_core/opencl/common/extended_types.cl'],
      mech=[('colour kernels', 'u16x_rgb_to_ycocg, u16x_ycocg_to_rgb'), ('Paeth kernel', 'paeth_differential16'), ('segments and launch', 'LinearU16XColorTransformer::opencl_*, LinearU16PaethDifferential::opencl_filter')],
      observe=['kernel output buffers', 'opencl_rgb_to_ycocg', 'opencl_ycocg_to_rgb', 'opencl_filter'],
      note=COMMON + 'Proof of the three kernels (compiled as C from the kernel text, wrapper dropped) for an arbitrary work item and cell, against the same specification functions as C03 and C05; get_global_id is an assumed contract. The host code that launches them runs against a stand-in OpenCL runtime and is compared with the CPU code (bounded, not proved).'),
 dict(id='C05', title='Paeth differential is exact, decodable and the same in place',
      statement='Every sample becomes its difference, modulo 2^depth, to the prediction made from the original samples to the left, above and above left in the same channel (zero for the first sample, the left one in the first row, the one above in the first column). The difference fits the bit depth and the sample follows from it and the earlier samples, so the filter can be undone in reading order. Filtering in place gives the same differences as filtering into a new block, which leaves the input unchanged.',
      over=['inputs'], qtext='every width, height and channel count below 2^31, every bit depth up to 16, every sample content and position',
      why='In-place filtering is right only because samples are visited backwards; borders, channel offsets and wrap-around differences show up for particular shapes and contents, and no existing test covers the filter.',
      files=['src/hzip_core/models/paeth.cpp', 'src/hzip_core/models/paeth.h'],
      mech=[('backward pass over rows and columns of each channel', 'LinearU16PaethDifferential::cpu_filter'), ('choice of executor', 'LinearU16PaethDifferential::filter')],
      observe=['LinearU16PaethDifferential::cpu_filter', 'LinearU16PaethDifferential::filter'],
      note=COMMON + 'Proof for an arbitrary sample of an image of any shape by invariants of the three nested loops; facts about products of two unknowns (row and channel offsets) are separate discharged lemmas, given to the loop proof as instances; decodability is a lemma over the contract. Width and height below 2^31 (the loops count with 32-bit integers). The OpenCL branch is C04.'),
 dict(id='C18', title='Stored data is kept byte for byte',
      statement='The store codec returns a blob of the same size, original size, model state and bytes, in a block of its own and not marked as compressed, in both directions, and refuses training. Evaluating a compressed blob marks it compressed and leaves it alone when it is smaller than the original; otherwise the blob afterwards holds the original data with its size, no model state and is not marked. No other blob or buffer changes.',
      over=['inputs'], qtext='every blob size, original size, content and model state',
      why='The fall back to stored data decides whether incompressible input survives; equal sizes and empty data are its boundary cases, and no existing test covers it.',
      files=['src/hzip_codec/uncompressed/uncompressed.cpp', 'src/hzip_core/blob/blob.cpp', 'src/hzip_core/blob/blob.h'],
      mech=[('store codec', 'hzcodec::Uncompressed::compress, decompress, train'), ('fall back to stored data', 'HZ_Blob::evaluate')],
      observe=['Uncompressed::compress, decompress, train', 'HZ_Blob::evaluate'],
      note=COMMON + 'Proof for all sizes and contents. rainman::ptr is an assumed contract.'),
 dict(id='C23', title='Archive entries are read back as written',
      statement='Whatever was stored in an archive - files with their blobs (header, data, sizes, model state id) in order, model states with algorithm and data, under a path or not - is read back unchanged, in the session that wrote it and after closing, reopening and loading the archive, whatever else was added or removed in between. Loading finds every block of the file exactly once, whatever its kind and order. Unknown ids and paths are reported as such, an existing path is never overwritten, an archive of another version is refused, and closing marks the end of the file and writes it out before the lock is given back.',
      over=['inputs', 'histories'], qtext='every blob, header and model state size and content, every path, every state of the free list and sequence of blocks on file',
      why='No existing test touches the archive; each block is laid out by one function and read by two others, and a disagreement in a length or an offset shows only for particular contents after particular removals or a reload.',
      files=['src/hzip_storage/archive/archive.cpp', 'src/hzip_storage/archive/archive.h', 'src/hzip_storage/archive/archive_trie.h'],
      mech=[('block writers', 'hza_write_blob, hza_write_mstate, hza_create_metadata_file_entry, install_mstate, hza_init, close'), ('block readers', 'hza_read_blob, hza_read_mstate, hza_scan and its segment functions')],
      state=[('metadata', 'path, blob and model state tables, end of file', 'HZ_Archive')],
      observe=['read_file', 'read_blob', 'read_mstate', 'load'],
      note=COMMON + 'Proof: the archive file is ghost state (tokens at bit positions); writers are proved to leave the exact layout the readers and the loader are proved to accept, for an arbitrary byte of an arbitrary block, any free list and any other contents. Loading is proved by an invariant over the block sequence for an arbitrary block. bitio::stream, std::unordered_map, std::vector and HZ_ArchiveTrie are assumed contracts; data and header sizes below 2^31 (loops count with int), one call at a time. Whole histories with reopen on real files are checked by execution (bounded).'),
 dict(id='C24', title='Archive space is never given out twice',
      statement='At any time the blocks of an archive tile the file from the start to its end: every free fragment is exactly one free block of the file with that length, free fragments overlap neither each other nor any live block, and new blocks are written only into space that was free or beyond the end. Removing something frees exactly its own block; an allocation fails only when no fragment fits (exactly, or with room for a header of the rest), leaves a well-formed rest, and never touches live data.',
      over=['inputs', 'histories'], qtext='every free list, block size, end of file and position of live data',
      why='Overlap needs particular fragment sizes (a rest smaller than a block header, an exact fit, ties) after several removals; no existing test touches the archive.',
      files=['src/hzip_storage/archive/archive.cpp', 'src/hzip_storage/archive/archive.h'],
      mech=[('best fit over free fragments', 'hza_alloc_fragment'), ('freeing', 'hza_rm_blob, hza_rm_mstate, remove_file, uninstall_mstate'), ('block writers', 'hza_write_blob, hza_write_mstate, hza_create_metadata_file_entry, install_mstate')],
      state=[('metadata.fragments', 'free list', 'HZ_Archive'), ('metadata.eof', 'end of the last block', 'HZ_Archive')],
      observe=['the file as a sequence of blocks', 'metadata.fragments'],
      note=COMMON + 'Proof: each operation preserves the invariant (fragments lie in the file, have their header on file, are disjoint from each other and from an arbitrary piece of live data) for any free list; allocation is proved on the real vector and used elsewhere through its contract. Loading rebuilds exactly the free blocks of the file. bitio::stream, std::vector, std::unordered_map and HZ_ArchiveTrie are assumed contracts. Tiling over whole histories is also checked by walking real files (bounded).'),
 dict(id='C25', title='Model states in use are never removed',
      statement='The archive counts, for every model state, the blobs that use it; writing a blob adds one, removing it takes one away, and loading an archive restores the counts and the marks of model states with a path. Removing or uninstalling a model state some blob uses fails and changes nothing; one nobody uses is removed. When the last blob using it goes, a model state without a path goes with it and one with a path stays.',
      over=['inputs', 'histories'], qtext='every set of blobs, model states and counts, every history of adding, removing and reloading',
      why='Losing a model state makes other files unreadable; it takes a shared model state, several removals and a reload to notice, and no existing test touches the archive.',
      files=['src/hzip_storage/archive/archive.cpp', 'src/hzip_storage/archive/archive.h'],
      mech=[('dependency counts', 'hza_increment_dep, hza_decrement_dep, hza_check_mstate_deps'), ('removal', 'hza_rm_mstate, hza_rm_blob, uninstall_mstate'), ('reload', 'hza_scan_blob_segment, hza_scan_metadata_segment')],
      state=[('metadata.dep_counter', 'blobs per model state', 'HZ_Archive'), ('metadata.mstate_inv_aux_map', 'model states with a path', 'HZ_Archive')],
      observe=['uninstall_mstate', 'remove_file', 'hza_check_mstate_deps'],
      note=COMMON + 'Proof for an arbitrary model state: each operation changes its count by exactly the blobs it adds or removes, removal is refused while it is counted, and after loading the count equals the number of blob blocks on file that name it (invariant over the block sequence). Containers and bitio::stream are assumed contracts. Whole histories are checked against a model (bounded).'),
 dict(id='C17', title='Victini blocks decompress to the original bytes',
      statement='Compressing a block with Victini and decompressing the result gives back the original bytes, whatever they are, with a new model state, a trained one, or any model state whose row sums are below 2^64 / 16776960 (blocks below 2^31 bytes); compression and decompression leave an existing model state unchanged, and a new one holds exactly the first-order counts of the data (1 to start with, 32 per occurrence), further training adds those of the new data, so it can be stored and used by another reader. For every such model the normalised table gives every symbol a share of at least one after every symbol, the shares after a symbol add up to exactly 2^24, and each interval starts where the one before ends, so that both sides agree on the symbol for every slot.',
      over=['inputs', 'histories'], qtext='every block, every table of counts, every symbol after every symbol',
      why='Rounding in the shares depends on the counts (2^24 slots, 256 rows), a wrong interval shows only when a particular symbol pair occurs with a particular coder state; no existing test runs the codec.',
      files=['src/hzip_codec/victini/victini.cpp', 'src/hzip_core/models/first_order_context.cpp', 'src/hzip_core/kernel/hzrans/hzrans64_codec.cpp'],
      mech=[('normalisation', 'Victini::_normalize'), ('model state', 'Victini::_model_transform'), ('contexts', 'cross_encoder / cross_decoder in compress, decompress')],
      state=[('mstate->data', '65536 counts and padding', 'HZ_MState'), ('dict, cdict', 'shares and interval starts', 'Victini')],
      observe=['Victini::compress', 'Victini::decompress', 'Victini::train'],
      note=COMMON + 'Proof of the normalisation for an arbitrary row of an arbitrary table (row sums below 2^64/16776960): positive shares, exact total, adjacent intervals, termination. The closures that choose contexts, model training and whole round trips are checked by execution (bounded); the coder, move-to-front and block-sorting steps they rely on are C11, C07 and C08.'),
 dict(id='C08', title='Block sorting is undone exactly',
      statement='The block-sort transform of any data over an alphabet of K symbols (all below K, K < 2^15 - 1 for 16-bit symbols, fewer than 2^31 - 8 symbols, the empty block included) leaves exactly the symbols that stand before each suffix of the terminated text, in the lexicographic order of the suffixes, and returns the row of the text itself; inverting the result with that row gives back the original data, element for element. The suffix array it uses lists every suffix exactly once, in order. No access leaves its buffer and every loop ends.',
      over=['inputs'], qtext='every block of symbols, every length (including 0, 1 and lengths of every residue modulo 3), every alphabet size',
      why='The sort recurses differently on periodic data and on each length modulo 3, and a wrong row or a jump out of order only shows on particular repetitions; the existing test transforms a few fixed texts.',
      files=['src/hzip_core/preprocessor/burrows_wheeler.h'],
      mech=[('counting sort', 'radix_pass'), ('suffix sorting', 'suffix_array'), ('transform', 'transform'), ('inverse', 'invert')],
      state=[('data', 'the block, transformed in place', 'BurrowsWheelerTransformer')],
      observe=['BurrowsWheelerTransformer::transform', 'BurrowsWheelerTransformer::invert'],
      note=COMMON + 'Proof: radix_pass is a stable counting sort; transform leaves the last column of the sorted rotations and its row index; invert restores the data from them (last-to-first mapping, ranks and jumps by symbol); the mathematical facts about ranks and rotations are lemmas. suffix_array itself is an assumed contract in transform (its counting sorts are proved) and is checked by execution against sorting (bounded: all texts of up to 7 symbols over 3 letters, random texts of up to 3000 symbols); std::vector is an assumed contract. Instance verified: 16-bit symbols with 32-bit ranks (the one the codecs use).'),
 dict(id='C28', title='Sessions serve nothing before the handshake',
      statement='A session sends exactly the scrambled 8-byte token, reads exactly 8 bytes, and goes on only if they are the secret token itself; otherwise no command is read, no handler runs, no success is reported and the session ends. After the handshake each command byte runs exactly the handler it names, with the connection, processor and archive table of the server; an unknown command or a failed one is answered with an error (the message of the failure) and the session goes on; it ends only when the client asks for it or the connection is lost, at whatever transfer. Every session closes its connection and gives its permit back exactly once, does nothing afterwards, and no exception leaves it.',
      over=['inputs', 'histories', 'fault_sequences'], qtext='every token, answer, sequence of commands, outcome of each handler, and loss of the connection at every transfer',
      why='A leaked or doubled permit and a command served after a failed transfer show only for particular failures at particular steps; no existing test opens a session.',
      files=['src/hzip_network/api/api.cpp', 'src/hzip_network/api/api.h', 'src/hzip_network/api/api_enums.h'],
      mech=[('challenge and answer', 'ApiInstance::handshake'), ('command loop', 'ApiInstance::start'), ('end of session', 'ApiInstance::end')],
      state=[('_semaphore', 'permits of the server', 'ApiInstance'), ('_sock', 'connection of the session', 'ApiInstance')],
      observe=['what is sent and received', 'handlers started', 'Semaphore count'],
      note=COMMON + 'Proof: the order of events is a protocol automaton in ghost state, invariant of the unbounded command loop, over every outcome of every transfer and handler. Transfers (C21), scrambling (C15) and the semaphore (C20) enter by their contracts; the stream and query handlers (queries: C32) are assumed to return or throw a std::exception; std::string is an assumed contract. How sessions are accepted is C31.'),
 dict(id='C29', title='One archive object per path',
      statement='Asking the archive table for a path gives the archive that is open under that path if there is one, and otherwise opens, loads and remembers a new one, so that there is never more than one per path, and never one that could not be opened and loaded. Closing the table closes every archive in it once. The table is used only under its lock, and the lock is free again after every request, also one that fails.',
      over=['histories', 'fault_sequences', 'schedules'], qtext='every table, every path, every failure to open, load or close an archive, every interleaving of requests',
      why='A failed load in the middle of a request shows only in the requests after it (a stuck lock, an archive without its entries); no existing test touches the table.',
      files=['src/hzip_network/api/providers/archive_provider.cpp', 'src/hzip_network/api/providers/archive_provider.h'],
      mech=[('lookup, opening and remembering under the lock', 'ArchiveProvider::provide'), ('closing', 'ArchiveProvider::close')],
      state=[('arch_map', 'archives by path', 'ArchiveProvider'), ('mutex', 'lock of the table', 'ArchiveProvider')],
      observe=['ArchiveProvider::provide', 'ArchiveProvider::close', 'the lock after a failed request'],
      note=COMMON + 'Proof for any table and any path, over every outcome of opening, loading and closing; schedules by the lock discipline (every access to the table happens under the lock, which is free on every exit). std::unordered_map, std::mutex and its guards, std::string are assumed contracts; opening and loading an archive enter as "may fail" (loading itself is C23). Paths are compared as text. Repaired defect: the lock stayed held when an archive could not be opened or loaded.'),
 dict(id='C30', title='Codec jobs do exactly what they ask for',
      statement='An encoding job compresses its blob with the codec of its algorithm, after taking over the model state at its address if it has one, falls back to stored data where that is smaller, stores the result in its archive if it has one, under the id of the model state it was made with (its own one is kept first if there is no address), reports that id and hands the blob to its callback. A decoding job decompresses its blob, with the model state at its address if the blob is compressed, and hands out the result. A training job replaces the model state at its address by the trained one, and only once training has succeeded, so that a failed training leaves the archive as it was. Jobs without the archive, address or callback they need are refused and change nothing. Whatever fails, every job takes one permit of the processor and gives it back once, reports success or an error, never both, and completion last.',
      over=['inputs', 'fault_sequences'], qtext='every combination of job type, algorithm, archive, address, callbacks, existing model state and blob state, and a failure at every step',
      why='A leaked permit, a lost model state or a blob stored under another id needs a particular combination of options with a failure at a particular step; no existing test runs a job.',
      files=['src/hzip_codec/processor/processor.cpp', 'src/hzip_codec/processor/processor.h', 'src/hzip_codec/processor/job.h'],
      mech=[('job thread', 'HZ_Processor::run'), ('dispatch', 'HZ_Processor::hzp_run_codec_job'), ('jobs', 'hzp_encode, hzp_decode, hzp_train')],
      state=[('_semaphore', 'permits', 'HZ_Processor')],
      observe=['archive operations', 'callbacks of the job', 'permits of the processor'],
      note=COMMON + 'Proof: every path of a job over all options and every outcome of every archive operation, codec and blob callback, against a specification of the sequence of effects (2760 obligations). The thread of a job is run in place (macro in the driver). Archive (C23 to C25), codecs (C17, C18), evaluate (C18) and the semaphore (C20) enter by contract or as "may fail"; std::function, std::string and the codec table are assumed contracts; on_success, on_error and on_completed are assumed not to throw. Repaired defect: a model state was removed before training, and lost when training failed.'),
 dict(id='C31', title='Every accepted connection gets a session or is closed',
      statement='A server has as many permits as sessions it was configured for, and never runs more sessions than that at a time. Every connection it accepts becomes exactly one session, which gets a permit of its own before it starts, the processor, password, permits and archive table of the server, and, if a time limit is configured, the time limit for receiving and for sending, set before it starts; a connection whose time limit cannot be set is closed and gets no session. No permit is lost or made up by accepting connections, and the server goes on accepting: it stops only if it cannot bind or listen.',
      over=['histories', 'fault_sequences', 'schedules'], qtext='every number of permits, time limit, sequence of connections and of failures to set a limit, every time at which sessions end',
      why='A session too many, a lost permit or a session without its limit shows only with more connections than permits, or when a system call fails; no existing test starts a server.',
      files=['src/hzip_network/api/api.cpp', 'src/hzip_network/api/api.h'],
      mech=[('accept loop', 'Api::start'), ('configuration', 'Api::Api, Api::process, Api::protect, Api::timeout')],
      state=[('_semaphore', 'permits of the server', 'Api'), ('time_out', 'time limit of a transfer', 'Api')],
      observe=['sessions running at a time', 'socket options set', 'descriptors closed', 'Semaphore count'],
      note=COMMON + 'Proof: the unbounded accept loop keeps, for the connection at hand, a ghost record (permit taken, limits set, session started, closed) and a balance of permits; each round ends with exactly one session or a closed connection. The session thread is run in place (macro in the driver) and its body is checked to be a session made with the data of the server; what a session does is C28, the semaphore is C20. The socket system calls are assumed contracts (setsockopt may fail, bind and listen may fail); a failing accept() is treated by the code as a connection like any other, and so it is here. std::string and std::thread are assumed contracts. Repaired defect: a connection whose time limit could not be set was dropped without being closed.'),
 dict(id='C32', title='Queries act on the archive and path they name',
      statement='A query reads one command at a time and nothing else than a 2-byte length and that many bytes after an archive or target command. Looking for a file, listing files or model states and deleting a file or model state act on the archive named last and the target named last, each exactly as sent (up to its first NUL), and only on a target that passed validation; they happen exactly once, only when asked for, and only if an archive and a target were named (and piggyback was asked for, where an answer carries data). The answer is the result itself: one byte, or the number of entries and then, for every entry in order, its length in 2 bytes, its name and its flag; or the memory in use. A query ends with its answer and reads nothing after it; an unknown command, a missing archive, target or piggyback is refused and changes nothing, and a failure of the connection or the archive ends the query.',
      over=['inputs', 'histories', 'fault_sequences'], qtext='every sequence of commands, length and content of paths, list of entries, outcome of every operation, and loss of the connection at every transfer',
      why='An operation on the archive or target named before, or a command taken from the rest of the session, needs a particular sequence of commands; no existing test runs a query.',
      files=['src/hzip_network/api/handlers/query.cpp', 'src/hzip_network/api/handlers/query.h', 'src/hzip_network/api/api_enums.h'],
      mech=[('command loop', 'Query::start')],
      state=[('archive, target, piggy_back', 'what the client has named so far', 'Query::start')],
      observe=['operations on the archive', 'what is sent and received'],
      note=COMMON + 'Proof: the command loop is explored once per shape of its state (archive, target, piggyback named or not) with every length and path forgotten at each command, which covers every sequence of commands; the loops that send the entries are proved by invariant for any list. Transfers (C21), validation (C16), the archive table (C29) and archive operations (C23 to C25) enter by contract or as "may fail"; std::string and the listing itself are assumed contracts. Names of 65536 bytes or more are sent with their length modulo 65536 (as in the code).'),
]
