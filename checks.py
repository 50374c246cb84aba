"""What each check runs: harness entry, parameters, engine options and the bounds they mean."""
ASSUMPTIONS = [
    'The code is checked as LLVM IR produced by the installed rustc (opt-level 2, overflow checks on, panics abort), the same compiler and std the program is built with.',
    'Allocation never fails; the C library and the kernel are replaced by models (heap, files, futexes, threads) in symx/src/ext.rs.',
    'Lookups of a byte string in a HashMap<Vec<u8>, usize> with a concrete key and table are computed natively; the first 100 of every worker and every 5003rd are executed from the IR too and compared (a difference stops the check).',
    'char case and class lookups of symbolic characters use the std tables of the compiler that built the engine (the same toolchain).',
]
def R(name, entry, params, bounds, covers=(), opts=(), **k):
    return dict(name=name, entry=entry, params=','.join(map(str, params)), bounds=bounds, covers=list(covers), opts=[str(x) for x in opts], **k)

NOT_APPLICABLE = {}

CHECKS = {
    'P01': dict(harness='p01', outside='texts of more than 5 characters (quick) or 7 (thorough), and of 2-3 characters outside the stated intervals', runs=[
        R('one', 'h01_interval', (1, 0, 0x10ffff), 'texts of 1 character, all Unicode scalar values but the markers', [1, 3]),
        R('two', 'h01_interval', (2, 0, 0x1ffff), 'texts of 2 characters from U+0000..U+1FFFF but the markers', [1, 2, 3, 4]),
        R('three', 'h01_interval', (3, 0, 0x5ff), 'texts of 3 characters from U+0000..U+05FF but the markers', [1, 2, 3, 4], quick_only=True),
        R('classes', 'h01_classes', (5, 12), 'texts of 5 characters, one representative for each of 12 classes', [1, 2, 3, 4], quick_only=True),
        R('three_wide', 'h01_interval', (3, 0, 0x24ff), 'texts of 3 characters from U+0000..U+24FF but the markers', [1, 2, 3, 4], thorough=True),
        R('four', 'h01_interval', (4, 0, 0x24f), 'texts of 4 characters from U+0000..U+024F but the markers', [1, 2, 3, 4], thorough=True),
        R('classes_long', 'h01_classes', (7, 12), 'texts of 7 characters, one representative for each of 12 classes', [1, 2, 3, 4], thorough=True),
    ]),
    'P02': dict(harness='p01', outside='texts of more than 5 characters (quick) or 7 (thorough), and of 2-3 characters outside the stated intervals', runs=[
        R('one', 'h02_interval', (1, 0, 0x10ffff), 'texts of 1 character, all Unicode scalar values', [1, 3]),
        R('two', 'h02_interval', (2, 0, 0x1ffff), 'texts of 2 characters from U+0000..U+1FFFF', [1, 2, 3]),
        R('three', 'h02_interval', (3, 0, 0x5ff), 'texts of 3 characters from U+0000..U+05FF', [1, 2, 3, 5], quick_only=True),
        R('classes', 'h02_classes', (5, 12), 'texts of 5 characters, one representative for each of 12 classes', [1, 2, 3, 5], quick_only=True),
        R('three_wide', 'h02_interval', (3, 0, 0x24ff), 'texts of 3 characters from U+0000..U+24FF', [1, 2, 3, 5], thorough=True),
        R('four', 'h02_interval', (4, 0, 0x24f), 'texts of 4 characters from U+0000..U+024F', [1, 2, 3, 5], thorough=True),
        R('classes_long', 'h02_classes', (7, 12), 'texts of 7 characters, one representative for each of 12 classes', [1, 2, 3, 5], thorough=True),
    ]),
    'P03': dict(harness='p03', outside='more faults or longer texts than stated; carriage returns; blocking streams', runs=[
        R('short', 'h03_faults', (3, 2, 2, 0, 0), 'texts of 3 characters of {a,B,space,newline}, up to 2 read faults and 2 write faults', [1, 2, 3, 4, 5, 6, 7, 8, 10, 11]),
        R('long', 'h03_faults', (1, 0, 3, 8188, 8193), 'a line of 8188..8193 letters (across the buffer size) and 1 character, up to 3 write faults', [4, 5, 6, 7, 8, 10, 11]),
        R('longread', 'h03_faults', (1, 2, 1, 8188, 8193), 'a line of 8188..8193 letters and 1 character, up to 2 read faults and 1 write fault', [1, 2, 3, 4, 5, 6, 7, 8, 10, 11]),
        R('bytes', 'h03_bytes', (6, 1), 'texts of 6 bytes of {a,newline,C3,89,FF}, up to 1 read fault', [20, 21]),
        R('command', 'h03_command', (0, 5, 2), 'the process command: files of up to 5 characters of {a,B,space,newline}; no output file, a shorter or a longer one', [30, 31, 32]),
        R('more', 'h03_faults', (4, 2, 3, 0, 0), 'texts of 4 characters, up to 2 read faults and 3 write faults', [1, 2, 3, 4, 5, 6, 7, 8, 10, 11], thorough=True),
        R('multi', 'h03_faults', (3, 1, 2, 16375, 16385), 'a line of 16375..16385 letters and 3 characters, up to 1 read fault and 2 write faults', [1, 4, 5, 6, 7, 8, 10, 11], thorough=True),
    ]),
    'P04': dict(harness='p04', outside='longer texts, other token sets than those stated', runs=[
        R('fixed', 'h04_fixed', (4, 0, 4, 0, 7), 'all texts of 4 bytes; bits1, bits2, bits4, bytes and frequency-coded sets, each with 8 choices of up to 5 more tokens', [1], ['--split', 40], quick_only=True),
        R('symbolic', 'h04_symbolic', (4, 0, 0, 2, 3, 2), 'all texts of 4 bytes; bits1 with any 2 more tokens of 2-3 letters of {a,b}', [], ['--split', 40], quick_only=True),
        R('fixed_long', 'h04_fixed', (5, 0, 4, 0, 7), 'all texts of 5 bytes; bits1, bits2, bits4, bytes and frequency-coded sets, each with 8 choices of up to 5 more tokens', [], ['--split', 40], thorough=True),
        R('symbolic_kinds', 'h04_symbolic', (5, 0, 4, 2, 3, 2), 'all texts of 5 bytes; sets of 5 types with any 2 more tokens of 2-3 letters of {a,b}', [], ['--split', 40], thorough=True),
        R('symbolic_three', 'h04_symbolic', (6, 0, 0, 3, 4, 2), 'all texts of 6 bytes; bits1 with any 3 more tokens of 2-4 letters of {a,b}', [], ['--split', 40], thorough=True),
    ]),
    'P05': dict(harness='p05', outside='longer texts, other token sets than those stated', runs=[
        R('three', 'h05_account', (3, 0, 0, 0, 7, 0), 'all texts of 3 bytes; bits1 with 8 choices of more tokens', [1, 2], ['--split', 40]),
        R('bytes', 'h05_account', (3, 3, 3, 0, 7, 0), 'all texts of 3 bytes; bytes with 8 choices of more tokens, any pair of tokens', [1, 2], ['--split', 40]),
        R('twice', 'h05_account', (2, 4, 4, 1, 2, 1), 'all texts of 2 bytes, then of 1 byte; frequency-coded sets with 2 choices of more tokens', [1, 2], ['--split', 40]),
        R('four', 'h05_account', (4, 0, 4, 0, 7, 0), 'all texts of 4 bytes; 5 types with 8 choices of more tokens', [2], ['--split', 40], thorough=True),
        R('twice_long', 'h05_account', (3, 0, 4, 0, 7, 2), 'all texts of 3 bytes, then of 2 bytes; 5 types with 8 choices of more tokens', [2], ['--split', 40], thorough=True),
    ]),
    'P06': dict(harness='p06', outside='more samples, workers or preemptions than stated (switches where a thread blocks are not counted as preemptions); other texts in the samples', runs=[
        R('workers', 'h06_threads', (0, 5, 0, 0, 2, 1), '0-5 samples (channel capacity 4), 1-3 workers, up to 1 preemption; two symbolic ASCII bytes', [0, 1, 2, 3, 4, 5], ['--split', 40, '--cpus', '1,3', '--preempt', 1], quick_only=True),
        R('preempt', 'h06_threads', (1, 3, 0, 0, 2, 1), '1-3 samples, 2 workers, up to 2 preemptions; two symbolic ASCII bytes', [1, 2, 3], ['--split', 40, '--cpus', '2,2', '--preempt', 2], quick_only=True),
        R('tokens', 'h06_threads', (5, 7, 0, 1, 2, 1), '5-7 samples, 1-4 workers, no preemption; longer tokens, two symbolic ASCII bytes', [5, 6, 7], ['--split', 40, '--cpus', '1,4', '--preempt', 0]),
        R('limit', 'h06_threads', (0, 2, 0, 1, 1, 0), '0-2 samples, data size just below and at the limit for using workers', [0, 1, 2], ['--split', 40, '--cpus', '1,2', '--preempt', 0]),
        R('workers_many', 'h06_threads', (0, 7, 0, 0, 2, 1), '0-7 samples, 1-4 workers, up to 1 preemption; two symbolic ASCII bytes', [0, 1, 2, 3, 4, 5, 6, 7], ['--split', 40, '--cpus', '1,4', '--preempt', 1], thorough=True),
        R('preempt_three', 'h06_threads', (1, 6, 0, 0, 2, 1), '1-6 samples, 1-3 workers, up to 2 preemptions; two symbolic ASCII bytes', [1, 2, 3, 4, 5, 6], ['--split', 40, '--cpus', '1,3', '--preempt', 2], thorough=True),
        R('preempt_more', 'h06_threads', (1, 5, 0, 0, 2, 1), '1-5 samples, 2 workers, up to 3 preemptions; two symbolic ASCII bytes', [1, 2, 3, 4, 5], ['--split', 40, '--cpus', '2,2', '--preempt', 3], thorough=True),
    ]),
    'P07': dict(harness='p07', outside='longer data, chunk sizes smaller than a character', runs=[
        R('memory', 'h07_memory', (0, 6, 6, 4, 6), 'data of up to 6 characters (any ASCII character, newline, any 2-, 3- or 4-byte character), chunk sizes 4-6', [1, 2, 3]),
        R('file', 'h07_memory_file', (0, 5, 5, 4, 6), 'the same read from a file, up to 5 characters', [1, 2, 3]),
        R('newlines', 'h07_memory', (5, 9, 2, 4, 7), 'data of 5-9 ASCII characters, chunk sizes 4-7', [1, 2, 3]),
        R('long', 'h07_memory', (7, 7, 5, 4, 8), 'data of 7 characters, chunk sizes 4-8', [1, 2, 3], thorough=True),
        R('newlines_long', 'h07_memory', (10, 13, 2, 4, 9), 'data of 10-13 ASCII characters, chunk sizes 4-9', [1, 2, 3], thorough=True),
    ]),
    'P08': dict(harness='p07', outside='longer files, sample sizes smaller than a character, random samples, reads of a regular file that return less than is there', runs=[
        R('file', 'h08_file', (0, 6, 5, 4, 6), 'files of up to 6 characters (any ASCII character, newline, any 2-, 3- or 4-byte character), sample sizes 4-6', [1, 2, 3]),
        R('newlines', 'h08_file', (5, 9, 2, 4, 7), 'files of 5-9 ASCII characters, sample sizes 4-7', [1, 2, 3]),
        R('page', 'h08_long', (4090, 4100, 4, 5, 4096), 'files of 4090-4100 letters and 4 characters, samples of 4096 bytes', [1, 2, 3]),
        R('long', 'h08_file', (7, 7, 5, 4, 8), 'files of 7 characters, sample sizes 4-8', [1, 2, 3], thorough=True),
        R('newlines_long', 'h08_file', (10, 13, 2, 4, 9), 'files of 10-13 ASCII characters, sample sizes 4-9', [1, 2, 3], thorough=True),
    ]),
    'P09': dict(harness='p07', outside='longer files; targets larger than the file', runs=[
        R('chars', 'h09_subsample', (7, 3, 40), 'files of up to 7 parts (any ASCII character, newline, 5 times the same character), every target up to the size of the file', [1, 2]),
        R('paragraphs', 'h09_paragraphs', (4, 3, 60), 'files of 4 paragraphs of 1-3 characters and 2-3 newlines, every target up to the size of the file', [1, 2]),
        R('chars_long', 'h09_subsample', (9, 3, 60), 'files of up to 9 parts, every target up to the size of the file', [1, 2], thorough=True),
        R('paragraphs_long', 'h09_paragraphs', (5, 5, 60), 'files of 5 paragraphs of 1-5 characters and 2-3 newlines, every target up to the size of the file', [1, 2], thorough=True),
    ]),
    'P10': dict(harness='p10', outside='counts other than stated; more bytes whose counts vary independently', runs=[
        R('initial', 'h10_initial', (0, 3), 'the sets optimization starts from: bits1, bits2, bits4, bytes; both kinds of processing, with and without split paragraphs, any byte'),
        R('simple', 'h16_simple', (0, 2, 0, 7, 2, 1000, 1, 1, 0, 4), 'frequent-byte choice: 3 types, 8 choices of more tokens, 0-4 bytes, 2 bytes with any counts up to 1000', [1, 2], ['--eager', '--split', 40]),
        R('huff', 'h10_huff', (0, 0, 0, 1, 300, 0, 3, 3, 6), 'frequency-based encoding with 3-6 tokens: any count up to 300 of one byte, 4 patterns of counts of the others', [3, 4, 5, 6], ['--eager', '--split', 16], quick_only=True),
        R('huff_again', 'h10_huff', (1, 0, 7, 1, 60, 1, 1, 4, 5), 'the same starting from a frequency-based set with 8 choices of more tokens', [4, 5], ['--eager', '--split', 16]),
        R('huff_large', 'h10_huff', (0, 0, 7, 1, 500, 0, 3, 254, 258), 'frequency-based encoding with 254-258 tokens (some to all of the bytes have their own)', [254, 255, 256, 257, 258], ['--eager', '--split', 16]),
        R('huff_mid', 'h10_huff', (0, 0, 0, 1, 20, 1, 1, 12, 13), 'frequency-based encoding with 12-13 tokens (the greatest number of extension tokens)', [12, 13], ['--eager', '--split', 16], quick_only=True),
        R('huff_all', 'h10_huff', (0, 0, 1, 1, 3000, 0, 3, 3, 24), 'frequency-based encoding with 3-24 tokens: any count up to 3000 of one byte', [3, 4, 12, 13, 24], ['--eager', '--split', 16], thorough=True),
        R('huff_two', 'h10_huff', (0, 0, 0, 2, 8, 0, 3, 3, 5), 'frequency-based encoding with 3-5 tokens: any counts up to 8 of two bytes', [3, 4, 5], ['--eager', '--split', 16], thorough=True),
    ]),
    'P11': dict(harness='p11', outside='longer histories of edits, longer tokens; removing tokens that encodings use (asserted against by the code)', runs=[
        R('any', 'h11_edit', (1, 3, 0, 2), '3 edits (add any token of 1-2 bytes, remove any token, sort) of a set of 5 tokens and 2 encodings', [1, 2, 3, 4, 5, 6], ['--split', 40]),
        R('letters', 'h11_edit', (2, 4, 8, 2), '4 edits of a set of 5 tokens and 4 encodings, tokens of 1-2 letters', [1, 2, 3, 4, 5, 6], ['--split', 40]),
        R('bits4', 'h11_edit', (12, 2, 0, 1), '2 edits of a bits4 set with 5 more tokens, any one-byte token', [1, 2, 3, 4, 6], ['--split', 40], quick_only=True),
        R('bits1', 'h11_edit', (10, 2, 6, 2), '2 edits of a bits1 set with 5 more tokens', [1, 2, 3, 4, 6], ['--split', 40]),
        R('huff', 'h11_edit', (14, 2, 4, 2), '2 edits of a frequency-based set with 5 more tokens', [1, 2, 3, 4, 6], ['--split', 40]),
        R('any_long', 'h11_edit', (2, 4, 0, 2), '4 edits of a set of 5 tokens and 4 encodings, any tokens of 1-2 bytes', [1, 2, 3, 4, 5, 6], ['--split', 40], thorough=True),
        R('letters_long', 'h11_edit', (1, 5, 6, 2), '5 edits of a set of 5 tokens and 2 encodings, tokens of 1-2 letters', [1, 2, 3, 4, 5, 6], ['--split', 40], thorough=True),
        R('bits4_long', 'h11_edit', (12, 2, 0, 2), '2 edits of a bits4 set with 5 more tokens, any tokens of 1-2 bytes', [1, 2, 3, 4, 6], ['--split', 40], thorough=True),
    ]),
    'P12': dict(harness='p12', outside='longer tokens than stated; JSON files not written by the program', runs=[
        R('fixed', 'h12_fixed', (0, 4, 0, 7), '5 types with 8 choices of more tokens, as built, sorted or with a token removed, both kinds of processing, with and without split paragraphs', [0, 1, 2, 3, 4], ['--split', 40]),
        R('file', 'h12_file', (0, 4), '5 types written with statistics to a file and read from it, with one token of any ASCII or other byte', [0, 1, 2, 3, 4], ['--split', 40]),
        R('any', 'h12_symbolic', (3, 1, 1, 3, 0), 'bytes with any token of 1-3 bytes', [1, 2], ['--split', 40], quick_only=True),
        R('limits', 'h12_symbolic', (3, 1, 3, 4, 1), 'bytes with a token of 3-4 of the 21 bytes at the limits of UTF-8', [1, 2], ['--split', 40]),
        R('escapes', 'h12_symbolic', (3, 1, 2, 3, 2), 'bytes with a token of 2-3 of 14 bytes that JSON escapes or not', [1, 2], ['--split', 40]),
        R('codes', 'h12_symbolic', (5, 1, 1, 1, 0), 'a frequency-based set with any one-byte token and 2 encodings that use it, of 5 bytes, in any order', [1, 2], ['--split', 40], quick_only=True),
        R('codes_long', 'h12_symbolic', (5, 1, 1, 2, 0), 'a frequency-based set with any token of 1-2 bytes and 2 encodings that use it, of 5 bytes, in any order', [1, 2], ['--split', 40], thorough=True),
        R('codes_two', 'h12_symbolic', (5, 2, 1, 1, 1), 'a frequency-based set with two tokens of one of 21 bytes and 2 encodings that use them, in any order', [1, 2], ['--split', 40], thorough=True),
        R('two', 'h12_symbolic', (3, 2, 1, 2, 2), 'bytes with two tokens of 1-2 of 14 bytes', [1, 2], ['--split', 40], thorough=True),
        R('bits4', 'h12_symbolic', (2, 1, 1, 1, 0), 'bits4 with any one-byte token', [1, 2], ['--split', 40], thorough=True),
    ]),
    'P13': dict(harness='p13', outside='more than 3 queries, other token sets, longer texts, data of 32 MB or more (tokenized by threads: see P06)', runs=[
        R('pairs', 'h13_cache', (2, 0, 12, 1, 2, 2, 1), '2 queries (with or without pair counts) for the same set or for two that differ in one thing, of 13; any text of 2 letters of 2', [0, 1], ['--split', 9], quick_only=True),
        R('again', 'h13_cache', (3, 0, 1, 1, 1, 3, 0), '3 queries for any of 2 listings of the same set; one letter of 3', [1, 2], ['--split', 9]),
        R('pairs_long', 'h13_cache', (2, 0, 13, 2, 2, 3, 0), '2 queries for any of 14 sets; any two texts of 2 letters of 3', [0, 1], ['--split', 40], thorough=True),
        R('three', 'h13_cache', (3, 0, 3, 1, 2, 3, 0), '3 queries for any of 4 sets; any text of 2 letters of 3', [0, 1, 2], ['--split', 40], thorough=True),
    ]),
    'P14': dict(harness='p14', outside='longer data, larger alphabets, more added tokens, other initial sets; frequencies of a frequency-coded set other than those of the data stated', runs=[
        R('digits', 'h14_optimize', (0, 2, 0, 2, 0, 3, 0, 1, 0, 0), 'bits1, bits2, bits4; 0-2 tokens more than the digits; any data of up to 3 letters of {a,b,newline}', [2], ['--split', 9]),
        R('bytes', 'h14_optimize', (3, 3, 1, 3, 3, 4, 1, 1, 0, 5), 'bytes; 6 initial sets; up to 3 tokens added; any data of 3-4 letters of {a,newline}', [2, 3, 4, 8], ['--split', 9], quick_only=True),
        R('samples', 'h14_optimize', (3, 3, 2, 2, 0, 2, 1, 2, 0, 3), 'bytes; 4 initial sets; two samples of up to 2 letters of {a,newline}', [2, 8], ['--split', 9]),
        R('huff', 'h14_optimize', (4, 4, 0, 2, 0, 3, 1, 1, 0, 0), 'frequency-coded; 3-5 tokens; any data of up to 3 letters of {a,newline}', [], ['--eager', '--split', 9]),
        R('digits_more', 'h14_optimize', (0, 2, 2, 6, 3, 4, 1, 1, 0, 5), 'bits1, bits2, bits4; 6 initial sets; 2-6 tokens more than the digits; any data of 3-4 letters of {a,newline}', [2, 3, 8], ['--split', 9, '--max-steps', 10000000000], thorough=True),
        R('bytes_more', 'h14_optimize', (3, 3, 1, 3, 3, 4, 0, 1, 0, 5), 'bytes; 6 initial sets; up to 3 tokens added; any data of 3-4 letters of {a,b,newline}', [2, 3, 4, 8], ['--split', 9, '--max-steps', 10000000000], thorough=True),
        R('huff_more', 'h14_optimize', (4, 4, 0, 4, 0, 4, 0, 1, 0, 0), 'frequency-coded; 3-7 tokens; any data of up to 4 letters of {a,b,newline}', [2], ['--eager', '--split', 9, '--max-steps', 10000000000], thorough=True),
    ]),
    'P15': dict(harness='p14', outside='longer data, larger alphabets, other initial sets; termination means within 6*10^8 instructions (thorough: 10^10)', runs=[
        R('types', 'h15_completes', (0, 4, 0, 2, 0, 2, 1, 1, 0, 0), 'all five types; from the smallest size to 2 more; any data of up to 2 letters of {a,newline}', [1, 2], ['--eager', '--split', 9]),
        R('large', 'h15_completes', (0, 2, 253, 258, 0, 2, 1, 1, 6, 6), 'bits1, bits2, bits4 with 253 bytes given a token; sizes around the largest that can be used; any data of up to 2 letters of {a,newline}', [1, 2], ['--split', 9]),
        R('bytes', 'h15_completes', (3, 3, 0, 4, 0, 3, 1, 1, 0, 5), 'bytes; 6 initial sets; up to 4 more tokens; any data of up to 3 letters of {a,newline}', [1, 2], ['--split', 9]),
        R('growing', 'h15_increasing', (3, 3, 0, 2, 0, 3, 1, 2), 'bytes; growing sample from 0-2 bytes; any data of up to 3 letters of {a,newline}', [1, 2], ['--split', 9]),
        R('growing_types', 'h15_increasing', (0, 4, 0, 2, 0, 3, 1, 3), 'all five types; growing sample from 0-3 bytes; any data of up to 3 letters of {a,newline}', [1, 2], ['--eager', '--split', 9, '--max-steps', 10000000000], thorough=True),
        R('types_more', 'h15_completes', (0, 4, 0, 4, 0, 3, 0, 1, 0, 0), 'all five types; from the smallest size to 4 more; any data of up to 3 letters of {a,b,newline}', [1, 2], ['--eager', '--split', 9, '--max-steps', 10000000000], thorough=True),
    ]),
    'P16': dict(harness='p10', outside='more than three bytes whose counts vary independently, counts above 2^40', runs=[
        R('few', 'h16_simple', (0, 2, 0, 7, 3, 1000000, 0, 3, 0, 2), '3 types, 8 choices of more tokens, 0-2 bytes asked for; 3 bytes with any counts up to 1000000, 4 patterns for the others', [1, 2], ['--eager', '--split', 40]),
        R('some', 'h16_simple', (0, 2, 0, 1, 2, 1 << 40, 0, 3, 3, 9), '3-9 bytes asked for; 2 bytes with any counts up to 2^40', [1, 2], ['--eager', '--split', 40]),
        R('all', 'h16_simple', (0, 2, 0, 0, 2, 40, 1, 1, 254, 260), '254-260 bytes asked for; 2 bytes with any counts up to 40', [], ['--eager', '--split', 40]),
        R('more', 'h16_simple', (0, 2, 0, 7, 3, 1000000, 0, 3, 0, 12), '0-12 bytes asked for; 3 bytes with any counts up to 1000000', [1, 2], ['--eager', '--split', 40], thorough=True),
        R('four', 'h16_simple', (0, 2, 0, 1, 4, 1000000, 0, 3, 0, 4), '0-4 bytes asked for; 4 bytes with any counts up to 1000000', [1, 2], ['--eager', '--split', 40], thorough=True),
    ]),
    'P17': dict(harness='p17', outside='longer data, other sets, files of sets in other forms, I/O errors, data of 16 MB or more', runs=[
        R('sets', 'h17_convert', (0, 4, 0, 7, 0, 1, 2, 1, 1), 'five types with 8 choices of up to 5 more tokens; data of up to 1 letter; unprocessed and processed; with and without a processed file; a set or a set with statistics of other data', [1, 2, 3, 4], ['--split', 9]),
        R('texts', 'h17_convert', (0, 0, 5, 5, 0, 2, 6, 1, 2), 'bits1 with 3 more tokens; data of up to 2 characters of 6; also onto the file the set was read from', [1, 2, 3, 4], ['--split', 9]),
        R('longer', 'h17_convert', (3, 3, 5, 5, 3, 3, 4, 1, 0), 'bytes with 3 more tokens; data of 3 letters of 4', [1, 2, 3], ['--split', 9]),
        R('all', 'h17_convert', (0, 4, 0, 7, 0, 2, 4, 1, 2), 'five types with 8 choices of more tokens; data of up to 2 letters of 4', [1, 2, 3, 4], ['--split', 9], thorough=True),
        R('long', 'h17_convert', (3, 4, 5, 5, 4, 4, 6, 1, 0), 'bytes and frequency-coded sets with 3 more tokens; data of 4 characters of 6', [1, 2, 3], ['--split', 9], thorough=True),
    ]),
    'P18': dict(harness='p18', outside='files other than stated, more than 10^9 characters (progress lines), files that are not UTF-8', runs=[
        R('classes', 'h18_classes', (0, 4, 12, 0), 'files of up to 4 characters, each of 12 classes', [0, 1, 2, 3, 4], ['--print', '--split', 40]),
        R('many', 'h18_classes', (3, 3, 16, 300), 'files of 300 equal letters and 3 characters of 16 classes', [3], ['--print', '--split', 40]),
        R('buffer', 'h18_classes', (2, 2, 16, 8189), 'a line of 8189 letters (up to the buffer size) and 2 characters of 16 classes', [2], ['--print', '--split', 40]),
        R('mixed', 'h18_mixed', (0, 300, 5), 'any character of U+0000..U+012C once or twice among 2 characters of 5 classes', [1], ['--print', '--split', 40]),
        R('alone', 'h18_interval', (0, 4095, 0), 'any character of U+0000..U+0FFF', [1, 2], ['--print']),
        R('among', 'h18_interval', (0, 1023, 1), 'any character of U+0000..U+03FF among 9 others', [1, 2], ['--print']),
        R('surrogates', 'h18_interval', (55040, 57600, 1), 'any character of U+D700..U+E100 among 9 others', [2], ['--print']),
        R('planes', 'h18_interval', (65520, 65552, 1), 'any character of U+FFF0..U+10010 among 9 others', [2], ['--print']),
        R('last', 'h18_interval', (1114096, 1114111, 1), 'any character of U+10FFF0..U+10FFFF among 9 others', [2], ['--print']),
        R('classes_long', 'h18_classes', (5, 6, 9, 0), 'files of 5-6 characters, each of 9 classes', [5, 6], ['--print', '--split', 40], thorough=True),
        R('mixed_all', 'h18_mixed', (0, 511, 16), 'any character of U+0000..U+01FF once or twice among 2 characters of 16 classes', [1], ['--print', '--split', 40], thorough=True),
    ]),
    'P19': dict(harness='p14', outside='longer data, larger alphabets, other sets of 256 byte tokens with multi-byte tokens', runs=[
        R('sets', 'h19_greedy', (0, 5, 0, 3, 0, 1), '6 sets; any data of up to 3 letters of {a,b,newline}', [1, 2, 3, 4], ['--split', 9]),
        R('blank_lines', 'h19_greedy', (0, 3, 4, 5, 1, 1), '4 sets; any data of 4-5 letters of {a,newline}', [1, 2, 3, 4], ['--split', 9]),
        R('samples', 'h19_greedy', (0, 1, 1, 3, 1, 2), '2 sets; two samples of 1-3 letters of {a,newline}', [2, 3], ['--split', 9]),
        R('long', 'h19_greedy', (0, 5, 4, 4, 0, 1), '6 sets; any data of 4 letters of {a,b,newline}', [1, 2, 3, 4], ['--split', 9, '--max-steps', 10000000000], thorough=True),
        R('longer', 'h19_greedy', (0, 3, 6, 7, 1, 1), '4 sets; any data of 6-7 letters of {a,newline}', [1, 2, 3, 4], ['--split', 9, '--max-steps', 10000000000], thorough=True),
    ]),
    'P21': dict(harness='p14', outside='longer data, larger alphabets, other initial sets, sizes with more tokens to add; data of 16 MB or more (where a growing sample may stop early)', runs=[
        R('digits', 'h21_optimize', (0, 0, 0, 1, 0, 1, 3, 0, 1, 1, 0, 3), 'bits1; 0-1 tokens more than the digits; data of up to 1 letter of {a,A,1,newline}; unprocessed and processed; with and without a processed file; growing sample from 0-1 bytes; from a given set', [1, 2, 3, 4, 5, 6], ['--split', 9]),
        R('bytes', 'h21_optimize', (3, 3, 1, 1, 1, 2, 3, 0, 1, 1, 0, 3), 'bytes; 1 more token; data of 1-2 letters of {a,A,1,newline}', [1, 2, 3, 4, 5, 6], ['--split', 9]),
        R('huff', 'h21_optimize', (4, 4, 0, 0, 0, 1, 1, 0, 1, 1, 0, 1), 'frequency-coded; 3 tokens; data of up to 1 letter of {a,newline}', [1, 2, 5, 6], ['--split', 9, '--eager']),
        R('more', 'h21_optimize', (0, 3, 0, 2, 0, 2, 3, 0, 1, 2, 0, 3), 'bits1, bits2, bits4, bytes; up to 2 more tokens; data of up to 2 letters of 4', [1, 2, 3, 4, 5, 6], ['--split', 9, '--max-steps', 10000000000], thorough=True),
    ]),
    'P20': dict(harness='p20', outside='longer texts; counters above 2^60; sets of other sizes for the merging of arbitrary counters', runs=[
        R('merge', 'h20_merge', (0,), 'three records with any counters up to 2^60 (4 tokens, 3 encodings, 16 pairs), 6 orders and groupings', [0, 1, 2, 3, 4, 5]),
        R('parts', 'h20_parts', (0, 2, 0, 7, 3, 3, 3), 'two texts of 3 letters each; bits1, bits2, bits4 with 8 choices of more tokens', [0, 1, 2], ['--split', 40]),
        R('parts_bytes', 'h20_parts', (3, 4, 1, 2, 3, 3, 3), 'two texts of 3 letters each; bytes and frequency-based sets with 2 choices of more tokens', [3, 4], ['--split', 40]),
        R('ratio', 'h20_ratio', (20, 20), 'token totals 1-20 and sizes 0-20, scaled by 4 factors up to 2^53+1, with and without original size', [1, 2], ['--split', 40]),
        R('parts_any', 'h20_parts', (0, 0, 0, 7, 1, 1, 0), 'two texts of 1 byte each; bits1 with 8 choices of more tokens', [0], ['--split', 40], thorough=True),
        R('parts_long', 'h20_parts', (0, 0, 0, 7, 5, 3, 4), 'texts of 5 and 3 letters; bits1 with 8 choices of more tokens', [0], ['--split', 40], thorough=True),
        R('ratio_more', 'h20_ratio', (150, 60), 'token totals 1-150 and sizes 0-60, scaled by 4 factors up to 2^53+1', [1, 2], ['--split', 40], thorough=True),
    ]),
}
