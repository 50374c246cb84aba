#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

p("P01", "Caps/words processing is lossless",
  "Processing a text with the caps-words stage and decoding the result by the documented rules (end-of-word between two letters, with or without a case marker, is a space and otherwise nothing; the capitalized marker upper-cases the next letter; the all-caps marker upper-cases the whole word) gives back exactly the original text. This holds for every Unicode text that does not itself contain the three marker characters.",
  ["inputs"], "every text of Unicode scalar values other than U+0014..U+0016",
  "One unit test samples eleven ASCII strings and never decodes anything; case mappings that do not round-trip, titlecase letters and space runs are never touched.",
  ["src/processing.rs", "README.md"],
  [("process", "src/processing.rs"), ("add_word", "src/processing.rs")], observe=["processing::process return value"])
p("P02", "Processed text has the documented canonical form",
  "In processed text every maximal run of letters is followed by exactly one end-of-word marker, exactly one space that stands alone between two words is removed and every other character outside words is kept in place. A word with a capital first letter and the rest lower case is the capitalized marker plus its lower-case form, an all-capitals word is the all-caps marker plus its lower-case form (a single capital letter counts as capitalized), whenever that can be undone, and every other word is kept as it is.",
  ["inputs"], "every Unicode text",
  "The tests sample eleven ASCII strings; mixed-case words, non-ASCII letters, titlecase letters, runs of spaces and texts ending in spaces are not quantified over.",
  ["src/processing.rs", "README.md"],
  [("process state machine", "src/processing.rs"), ("add_word", "src/processing.rs")], observe=["processing::process return value"])
p("P03", "Processing a file is complete, or reports an error",
  "Processing a stream writes, for every input line, the processed line followed by one newline, in order, and nothing else. If any read or write of the underlying streams fails, or accepts only part of the data, then either the complete output has still been delivered or an error is returned: success is never reported with output missing.",
  ["inputs", "fault_sequences"], "every input text and every sequence of short reads, short writes, interruptions and I/O errors of the two streams",
  "No test calls the file-processing function at all, let alone with a failing or short-writing output.",
  ["src/processing.rs", "src/main.rs"],
  [("process_file", "src/processing.rs"), ("BufReader/BufWriter use", "src/processing.rs")], observe=["processing::process_file result and the bytes received by the writer"])
p("P04", "Tokenization uses the fewest possible tokens",
  "The token count reported for a text is the minimum, over all ways of splitting the text into strings of the token set, of the total number of tokens (1 for a token, the length of the encoding for a byte encoded by a token sequence).",
  ["inputs", "configurations"], "every byte string and every well-formed token set",
  "Two unit tests tokenize one string each; minimality over all segmentations of all texts is not sampled.",
  ["src/tokenizer2.rs"],
  [("suffix automaton construction", "src/tokenizer2.rs: create_spans, create_suffix_states"), ("dynamic programming", "src/tokenizer2.rs: process_slice")], observe=["TokenStats.total_tokens"])
p("P05", "Token statistics account exactly for one segmentation",
  "After tokenizing texts, the statistics describe an actual segmentation: the bytes counted equal the text length, the per-token counts add up to the total number of tokens, and expanding every counted token and encoded byte gives exactly the bytes of the text. Each adjacent pair counted is a pair of neighbouring string tokens of that segmentation, and statistics accumulate over calls.",
  ["inputs", "configurations", "histories"], "every byte string, every sequence of texts and every well-formed token set",
  "The unit tests only look at the total of one call; per-token, per-sequence and pair counts are never checked.",
  ["src/tokenizer2.rs", "src/stats2.rs"],
  [("back-tracking and counting", "src/tokenizer2.rs: update_stats"), ("TokenStats", "src/stats2.rs")],
  state=[("token_counts/seq_counts/pair_counts", "how often every token, encoded byte and adjacent pair was used", "src/stats2.rs")], observe=["TokenStats fields"])
p("P06", "Multi-threaded tokenization equals sequential tokenization",
  "Tokenizing a data set with worker threads terminates and yields the same statistics as tokenizing its samples one after another, however many workers there are, however the samples are spread over them and in whatever order the threads run and the results arrive.",
  ["schedules", "inputs"], "every interleaving of the producer and the workers, every number of workers and every sequence of samples",
  "The threaded path only runs for data of at least 32 MiB; no test reaches it, and a test would see one schedule.",
  ["src/batch_tokenize.rs", "src/stats2.rs"],
  [("job and result channels", "src/batch_tokenize.rs: tokenize_file, worker"), ("merging", "src/stats2.rs: merge")], observe=["batch_tokenize::tokenize_file result"])
p("P07", "In-memory sampling delivers the data exactly once, unmodified",
  "Iterating an in-memory sampler over valid UTF-8 data yields non-empty samples whose concatenation is exactly the data, for every chunk size that fits a character; iterating again yields the same. No sample is longer than the chunk size, and a sample that is cut before the end of the data and contains a blank line ends right after one.",
  ["inputs", "configurations"], "every valid UTF-8 text and every chunk size of at least four bytes",
  "No test covers any sampler.",
  ["src/input/memory_sampler.rs", "src/input/util.rs", "src/input/sample.rs"],
  [("MemoryIterator::next", "src/input/memory_sampler.rs"), ("find_paragraph_end", "src/input/util.rs")], observe=["the sequence of samples"])
p("P08", "File sampling delivers the file exactly once, unmodified",
  "Iterating a full-file sampler over a file of valid UTF-8 text yields non-empty samples whose concatenation is exactly the file, for every sample size that fits a character; no sample is longer than the sample size, and a sample that is cut before the end of the file and contains a blank line ends right after one. Iterating never crashes and terminates.",
  ["inputs", "configurations"], "every valid UTF-8 file and every sample size of at least four bytes",
  "No test covers any sampler; a character straddling a sample boundary needs a specific file and size.",
  ["src/input/file_sampler.rs", "src/input/util.rs", "src/input/sample.rs"],
  [("FileIterator::next", "src/input/file_sampler.rs"), ("find_paragraph_end", "src/input/util.rs")], observe=["the sequence of samples"])
p("P09", "Sub-sampling takes whole paragraphs, about the requested amount",
  "Sub-sampling a file to a target size gives a concatenation, in file order, of distinct whole paragraphs of that file (a paragraph extends to the end of the blank lines after it). The amount of data taken differs from the target by no more than the length of the longest paragraph.",
  ["inputs", "configurations"], "every file and every target size not larger than the file",
  "No test covers any sampler.",
  ["src/input/memory_sampler.rs"],
  [("sample_from_file", "src/input/memory_sampler.rs")], observe=["the data delivered by the sampler"])
p("P10", "Every byte keeps exactly one, uniquely decodable encoding",
  "Every token set the program builds or re-optimizes, of every type, gives each of the 256 byte values exactly one encoding: its own one-byte token or one sequence of existing tokens. All encodings are pairwise distinct and can be decoded unambiguously: no concatenation of encodings reads as another, because bit/digit sequences spell the byte value in the documented base and frequency-based sequences are one string token followed by one or more extension tokens.",
  ["inputs", "configurations"], "every token type, every budget of byte tokens and every table of byte frequencies",
  "The tests build four concrete sets and never look at byte coverage or at the frequency-based encoder.",
  ["src/tokenset.rs", "src/optimize_bytes.rs"],
  [("new_bits1/2/4, new_bytes", "src/tokenset.rs"), ("HuffOptimizer, SimpleBytesOptimizer", "src/optimize_bytes.rs")], observe=["TokenSet.tokens and TokenSet.sequences"])
p("P11", "Editing a token set preserves the meaning of what is left",
  "Adding, removing and sorting tokens, in any order, never changes what any remaining token or encoding stands for: the set of token strings is the old one plus or minus the edited token, every remaining encoding still names the same tokens in the same order, and a byte that gets its own token loses its old encoding. Sorting orders extension tokens before strings, strings and encodings by their bytes.",
  ["histories", "inputs"], "every sequence of add, remove and sort operations on every token set",
  "One test sorts one set and one removes one token of one set; sequences of operations are never combined.",
  ["src/tokenset.rs"],
  [("add_token, remove_token, sort", "src/tokenset.rs")], observe=["TokenSet.tokens and TokenSet.sequences"])
p("P12", "Token sets survive a JSON round trip",
  "Writing a token set as JSON text and reading it back gives an equivalent token set: same type, processing, paragraph flag, tokens in the same order and the same byte encodings, each present once, so that it tokenizes every text alike. This holds for all types and for tokens of arbitrary bytes.",
  ["inputs", "configurations"], "every sorted token set of every type, with tokens of arbitrary bytes",
  "The one round-trip test discards the set it reads back.",
  ["src/tokenset.rs", "src/main.rs"],
  [("to_json, from_json, parse_token, bytes_to_json", "src/tokenset.rs")], observe=["TokenSet fields after the round trip"])
p("P13", "Caching never changes statistics",
  "A query of the statistics cache for a token set returns what tokenizing the data afresh with that token set returns (pair counts, when asked for, included), whatever was queried before and in whatever order the set lists its tokens. The set described by the answer is the queried one in sorted order.",
  ["histories", "inputs"], "every sequence of queries with and without pair counts, over every data and token sets",
  "No test uses the cache.",
  ["src/batch_tokenize.rs"],
  [("TokenizerCache", "src/batch_tokenize.rs")], state=[("cache", "statistics per serialized token set", "src/batch_tokenize.rs")], observe=["TokenStats returned"])
p("P14", "Optimization yields a valid token set with true statistics",
  "A token set produced by optimization has at most the requested number of tokens, no two equal tokens, a unique encoding of every byte, and no token in which a non-newline byte follows a blank line; every new multi-byte token occurs in the data. The statistics returned with it are those of tokenizing the data with it, and it never needs more tokens for the data than the initial set of its type.",
  ["inputs", "configurations"], "every data, token type, requested size and pretrained set",
  "No test runs the optimizer.",
  ["src/optimize.rs", "src/optimize_bytes.rs", "src/batch_tokenize.rs"],
  [("optimization_step, remove_add_token, add_token, add_token_bpe, is_valid_token", "src/optimize.rs")], observe=["Optimizer::optimize result"])
p("P15", "Optimization completes for every supported request",
  "For every token type and every requested size not below that type's documented minimum, on any data, optimization terminates without crashing. This includes sizes larger than the data can make use of, empty data, and optimization with a growing data sample of any initial size.",
  ["inputs", "configurations"], "every data, token type, requested size from the documented minimum up, and initial sample size",
  "No test runs the optimizer.",
  ["src/optimize.rs", "src/optimize_bytes.rs", "src/main.rs"],
  [("optimize_tokenset_impl", "src/optimize.rs"), ("optimize_bytes", "src/optimize_bytes.rs"), ("optimize_with_increasing_data", "src/main.rs")], observe=["return of Optimizer::optimize and of the optimize command"])
p("P16", "Own tokens go to the most frequent bytes",
  "Re-optimizing the byte tokens of a bit- or digit-based token set with a budget gives exactly that many bytes (never more than 256) a token of their own, and no byte left without one is more frequent than a byte that has one. Type, processing and all multi-byte tokens are kept, and under the given frequencies no other choice of that many bytes needs fewer tokens.",
  ["inputs", "configurations"], "every table of byte frequencies, every budget, every mix of existing one-byte and multi-byte tokens",
  "No test calls a byte optimizer.",
  ["src/optimize_bytes.rs"],
  [("SimpleBytesOptimizer", "src/optimize_bytes.rs")], observe=["TokenSet returned by optimize_bytes"])
p("P17", "convert-tokens reports the true statistics of the given set",
  "The convert-tokens command writes a JSON file, named after the token set, that contains the same token set as its input and statistics (token total, bytes scanned, original size, bytes per token) equal to those of tokenizing the given data, processed first if the set asks for it, with that set.",
  ["inputs", "configurations"], "every data file and every token-set file of every type the program writes",
  "No test runs any command.",
  ["src/main.rs", "src/stats2.rs", "src/tokenset.rs"],
  [("load_save_tokens, maybe_process_file", "src/main.rs"), ("TokenStats::to_json", "src/stats2.rs")], observe=["the output file"])
p("P18", "count-chars counts every character",
  "The count-chars command prints the number of characters in the file, then for every character below U+0100 that occurs its exact number of occurrences in code-point order, and the largest character above that range (or U+0000 if there is none).",
  ["inputs"], "every UTF-8 file",
  "No test runs any command.",
  ["src/main.rs"],
  [("count_chars", "src/main.rs")], observe=["standard output"])
p("P19", "A new token is the most frequent admissible neighbour pair",
  "When optimization of a set with all 256 byte tokens has room for one more token, the token added joins two neighbouring tokens of the data whose join is admissible (no non-newline byte after a blank line), and no other admissible pair of neighbours is more frequent in the tokenized data. If no admissible pair exists, none is added.",
  ["inputs"], "every data set",
  "No test runs the optimizer.",
  ["src/optimize.rs"],
  [("add_token_bpe, is_valid_token", "src/optimize.rs")], observe=["Optimizer::optimize result"])
p("P20", "Merging statistics is exact addition",
  "Merging the statistics of separately tokenized parts gives, field by field, the statistics of tokenizing the parts in one go, in any merge order and grouping; a copy made without pair counts keeps every other figure. The reported bytes per token is the bytes scanned (or the original size, in the written file) divided by the token total.",
  ["inputs", "histories"], "every counter content and every order and grouping of merges",
  "No test calls merge.",
  ["src/stats2.rs"],
  [("merge, clone_without_pairs, to_json", "src/stats2.rs")], observe=["TokenStats fields"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
