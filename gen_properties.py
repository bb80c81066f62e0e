#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe,hook_needed=None)))
p("C01","Compressing and then decompressing gives back exactly the input",
  "For every input and every supported combination of entropy coder, BWT algorithm, number of starting points, memory limit and precompression string, decompressing what the compressor wrote yields exactly the original bytes and reports their number. This includes the empty input, one-byte inputs, every byte value, and inputs split into several blocks.",
  ["inputs","configurations"],"every byte string, every documented option combination, every way the memory limit splits the input into blocks",
  "The tests compress a few dozen random or periodic strings with two of the coders ('B', 'H'); coders m, M, u, b, single-byte blocks, tiny last blocks and precompression combined with several blocks are never run.",
  ["Compressor.cpp","Decompressor.cpp","PrecompressorBlock.cpp","BWTBlock.cpp","EntropyCoders.cpp","WaveletCoders.cpp","HuffmanCoders.cpp","preprocessors/Precompressor.cpp","preprocessors/Postprocessor.cpp"],
  [("block loop of the compressor","Compressor.cpp: Compressor::compress"),("block loop of the decompressor","Decompressor.cpp: Decompressor::decompress"),("coder choice is stored in the first byte","Compressor.cpp: writeGlobalHeader / Decompressor.cpp: readGlobalHeader")],
  ["bytes given to the decompressor's output stream","return value of decompress"])
p("C02","The Huffman entropy coder is lossless for every block",
  "For every BWT-transformed block, decoding the block that the Huffman encoder wrote yields the same bytes, the same length and the same starting points, and consumes exactly the bytes that were written, so that any following block is decoded correctly too. This holds for any run structure: one symbol only, all 256 symbols, arbitrarily long runs, and code words of any length the frequencies can force.",
  ["inputs","histories"],"every byte sequence of a block, every distribution of symbols and of run lengths, every sequence of blocks on one coder",
  "The tests feed random blocks, whose Huffman codes stay short and whose runs stay short; skewed frequency distributions, section boundaries and long runs occur in a vanishing fraction of inputs.",
  ["HuffmanCoders.cpp","HuffmanCoders.hpp","Utils.cpp","Utils.hpp"],
  [("section split, code length serialization, run and character coding","HuffmanCoders.cpp: HuffmanEncoder"),("table-driven decoding","HuffmanCoders.cpp: HuffmanDecoder::decodeBlock")],
  ["decoded block bytes","stream position after decoding"])
p("C03","The wavelet entropy coder is lossless for every block and model choice",
  "For every BWT-transformed block and every selectable probability model, decoding what the wavelet encoder wrote yields the same bytes, length and starting points, and leaves the stream at the first byte after the block. This holds for every run structure and for every sequence of blocks handled by the same encoder and the same decoder object.",
  ["inputs","histories","configurations"],"every byte sequence of a block, every model option, every sequence of blocks on one coder pair",
  "Only model 'B' is run end to end, on random and periodic strings; the others are untested, and particular run-length distributions (equal frequencies, many distinct lengths, very long runs) select different code shapes.",
  ["WaveletCoders.cpp","WaveletCoders.hpp","WaveletTree.hpp","probmodels/ProbabilityModel.cpp","BitCoders.cpp"],
  [("tree shape and integer codes serialized ahead of the data","WaveletTree.hpp"),("tree written/read breadth first with per-node models","WaveletTree.hpp: encodeTreeBF/decodeTreeBF and friends"),("section structure","WaveletCoders.cpp")],
  ["decoded block bytes","stream position after decoding"])
p("C04","The binary arithmetic coder decodes every bit sequence exactly",
  "For every sequence of bits and every sequence of probabilities in the legal range used to code them, decoding with the same probabilities returns the same bits in the same order, however long carries or runs of improbable bits last. After the encoder is finished and the decoder has read all bits, both agree on the number of bytes of the code.",
  ["inputs","histories"],"all bit sequences, all probability sequences between 0 and the scale that assign the coded bit nonzero probability",
  "Tests reach the coder only through the probabilities some model happens to produce; interval underflow needs specific combinations of bits and extreme probabilities.",
  ["BitCoders.cpp","BitCoders.hpp"],
  [("interval split and byte output","BitCoders.hpp: BitEncoder::encode / split"),("interval tracking","BitCoders.hpp: BitDecoder::decode"),("termination","BitCoders.cpp: BitEncoder::finish")],
  ["decoded bits","bytes on the stream"])
p("C05","The Burrows-Wheeler transform is inverted exactly for every block",
  "For every non-empty block, either forward algorithm and every permitted number of starting points, applying the inverse transform to the transformed block with its starting points restores the original bytes. Neither direction changes memory outside the block and the one byte behind it, and the forward transform restores that byte.",
  ["inputs","configurations"],"every block content and length, both algorithms, every number of starting points from 1 to 256",
  "Tests use random strings and one text file with a few starting-point counts; periodic, single-symbol and very short blocks combined with each starting-point count are sampled only.",
  ["bwtransforms/BWTransform.cpp","bwtransforms/Divsufsorter.hpp","bwtransforms/SA-IS-bwt.cpp","bwtransforms/sais.hxx","bwtransforms/divsufsort.c","bwtransforms/InverseBWT.cpp","bwtransforms/MtlSaInverseBWT.cpp","BWTBlock.cpp"],
  [("forward transforms","bwtransforms/divsufsort.c, bwtransforms/sais.hxx"),("inverse transforms with several starting points","bwtransforms/MtlSaInverseBWT.cpp, bwtransforms/InverseBWT.cpp")],
  ["block bytes after forward and inverse transform","byte behind the block"])
p("C06","Both BWT algorithms compute the same, mathematically defined transform",
  "For every block, both forward algorithms produce the last column of the sorted suffixes of the reversed block with its terminator, and the character counts they report are the counts of the block's bytes. The starting points they report are the positions that repeated last-to-first mapping reaches at equal distances, the first being the terminator's position.",
  ["inputs","configurations"],"every block, both algorithms, every number of starting points",
  "The suite compares suffix arrays on random strings; sorting corner cases (long repeats, equal runs, tandem repeats, deep recursion) need specific inputs.",
  ["bwtransforms/divsufsort.c","bwtransforms/sssort.c","bwtransforms/trsort.c","bwtransforms/sais.hxx","bwtransforms/SA-IS-bwt.cpp","bwtransforms/Divsufsorter.hpp"],
  [("suffix sorting","bwtransforms/divsufsort.c, bwtransforms/sais.hxx"),("starting point extraction","construct_BWT in divsufsort.c, computeBWT in sais.hxx")],
  ["transformed bytes","starting points","frequency table"])
p("C07","Huffman code lengths are complete and of minimum total cost",
  "For every frequency table, the code lengths computed for the symbols that occur form a complete prefix code (a lone symbol gets length 1) whose total weighted length is minimal, with more frequent symbols never getting longer codes. The code words derived from any such lengths are distinct, have the requested lengths and are prefix-free.",
  ["inputs"],"every table of nonzero 64-bit counts whose sum does not overflow, every alphabet size; every set of lengths satisfying Kraft with equality",
  "Unit tests check three or four hand-made tables; optimality is a statement about all tables, and ties decide which branch is taken.",
  ["Utils.cpp"],[("in-place minimum redundancy lengths","Utils.cpp: calculateCodeLengths / calculateHuffmanLengths"),("canonical code words","Utils.cpp: computeHuffmanCodes")],
  ["code lengths","code words"])
p("C08","Every integer code decodes to the integer that was coded",
  "For every integer in the documented range, packing followed by unpacking or reading returns it and uses the announced number of bytes or bits; the same holds for unary codes and for the bit patterns pushed into and read back from bit vectors. The logarithm and most-significant-bit helpers return the exact mathematical value for every argument.",
  ["inputs"],"all 64-bit (packing: below 2^56) or 32-bit arguments",
  "Tests try a handful of values; boundary values of each byte count and sign-bit issues lie between them.",
  ["Utils.cpp","Utils.hpp"],[("packed integers","Utils.cpp: packInteger, unpackInteger, writePackedInteger, packAndWriteInteger, readAndUnpackInteger; Utils.hpp: readPackedInteger, readPackedIntegerRev"),("unary code, pushBits, logFloor, logCeiling, mostSignificantBit","Utils.hpp, Utils.cpp")],
  ["decoded integer","bytes or bits used"])
p("C09","Binary interpolative coding is lossless and reports its exact length",
  "For every strictly increasing list of integers within any range, decoding the interpolative code with the same range and element count yields the same list, and the reported number of bits equals the number of bits that were written and read. A single bounded integer coded with the range-limited binary code is likewise recovered, using no bits when the range has one value.",
  ["inputs"],"every strictly increasing list, every enclosing range",
  "Tests use a few fixed lists; the short/long code word split depends on the range size in every recursion step.",
  ["Utils.hpp"],[("range-limited binary code","Utils.hpp: binaryCode/binaryDecode"),("interpolative recursion","Utils.hpp: binaryInterpolativeCode/Decode")],
  ["decoded list","bit count"])
p("C10","A grammar written to a stream is read back identically",
  "For every grammar that precompression can build, reading what was written reproduces all rules (left sides, right sides, order), all special symbols and all freed symbols, so that expansion with the read grammar equals expansion with the original. The number of bytes reported by the writer equals what was written and the reader consumes exactly those bytes.",
  ["inputs","histories"],"every sequence of rule additions, special-symbol additions and freeings",
  "GrammarTest writes two or three hand-made grammars; special pairs, freed symbols and long rules across several update rounds are not combined.",
  ["preprocessors/Grammar.cpp","preprocessors/Grammar.hpp"],
  [("writer","preprocessors/Grammar.cpp: writeGrammar and helpers"),("reader","preprocessors/Grammar.cpp: readGrammar and helpers")],
  ["rules, special symbols and freed symbols after reading","bytes written and consumed"])
p("C11","Pair-replacing precompression is undone exactly and never enlarges a block",
  "For every block and every number of replacement rounds, expanding the precompressed block with its (written and re-read) grammar restores the original block, and the precompressed block is never longer than the original. Blocks of any length, also one or two bytes, are accepted.",
  ["inputs","configurations"],"every block content and length, every number of rounds",
  "Tests run a handful of texts; freeing of symbols, special pairs and replacements across the last byte depend on exact frequency relations.",
  ["preprocessors/PairReplacer.cpp","preprocessors/Precompressor.cpp","preprocessors/Postprocessor.cpp","preprocessors/Grammar.cpp","preprocessors/FrequencyTable.cpp"],
  [("choice of pairs, variables and special symbols","preprocessors/PairReplacer.cpp"),("symbol frequencies kept sorted","preprocessors/FrequencyTable.cpp"),("expansion","preprocessors/Postprocessor.cpp")],
  ["expanded bytes","precompressed length"])
p("C12","File streams deliver exactly the bytes and bits that were written",
  "For every sequence of writes (single bytes, blocks, later overwriting of a 48-bit field) the file finally holds exactly the written bytes in order with the field patched, and reported positions are exact. For every sequence of reads (bits, bytes, blocks, 48-bit fields, buffer flushes) the input stream delivers the file's content in order, whatever the position of internal buffer boundaries. A block read is short only at the end of the file; the end is signalled there, and never while two or more bytes remain.",
  ["inputs","histories"],"every interleaving of operations and every alignment to the internal buffer",
  "RawStreamTest performs a few fixed sequences; buffer-boundary alignments are numerous and mostly unvisited.",
  ["Streams.cpp","Streams.hpp"],[("output buffering","Streams.cpp: RawOutStream"),("input buffering and bit reader","Streams.cpp, Streams.hpp: RawInStream")],
  ["file content","values returned by reads and getPos"])
p("C13","Blocks are sliced without gaps and their headers are read back unchanged",
  "For every block size limit, the slices of a precompressed block are non-empty, contiguous, in order, within the limit and cover the block exactly. Every block header and slice header (sizes, slice count, 1 to 256 starting points of 31 bits) is read back as written, consuming exactly the bytes written, and the end marker is recognised as such.",
  ["inputs","configurations"],"every block length, limit, starting point count and value",
  "Round-trip tests only pass through the few sizes they use; large starting-point values and counts are never produced on small test data.",
  ["PrecompressorBlock.cpp","PrecompressorBlock.hpp","BWTBlock.cpp","BWTBlock.hpp"],
  [("slicing","PrecompressorBlock.cpp: sliceIntoBlocks"),("headers","PrecompressorBlock.cpp: writeBlockHeader/readBlockHeader; BWTBlock.cpp: writeHeader/readHeader/prepareLFpowers")],
  ["slices","header fields after reading"])
p("C14","Reported compressed sizes equal the bytes actually written",
  "For every input and configuration, the size returned by compression, by each entropy coder for one block and by each header writer equals the number of bytes that reached the output stream. The length field stored in front of each encoded block equals the number of bytes that follow it in that block.",
  ["inputs","configurations"],"every input, every coder and option",
  "The suite checks returned sizes for few random inputs only; padding and section boundaries make the count depend on exact bit lengths.",
  ["Compressor.cpp","WaveletCoders.cpp","HuffmanCoders.cpp","BWTBlock.cpp","PrecompressorBlock.cpp","preprocessors/Grammar.cpp"],
  [("byte counters and back-patched 48-bit length","WaveletCoders.cpp: finishBlock/encodeData; HuffmanCoders.cpp: finishBlock/encodeData")],
  ["returned sizes","bytes on the stream"])
p("C15","Compression and decompression stay within their memory and terminate",
  "For every input and every supported configuration, compressing it and decompressing the result never accesses memory outside live objects, never divides by zero, never trips an internal consistency check, and terminates.",
  ["inputs","configurations"],"every byte string and option combination",
  "A stray access rarely changes the visible result of a test run, and the tests are not run under a memory checker.",
  ["Compressor.cpp","Decompressor.cpp","WaveletTree.hpp","WaveletCoders.cpp","HuffmanCoders.cpp","probmodels/BitPredictors.hpp","probmodels/FSM.hpp","preprocessors/FrequencyTable.cpp","preprocessors/PairReplacer.cpp","bwtransforms/MtlSaInverseBWT.cpp"],
  [("array sizes match the index ranges used","all anchors"),("internal assertions","all anchors")],
  ["memory errors, failed assertions, crashes, hangs"])
p("C16","Compressed output is a function of the input and options alone",
  "For every input and configuration, the bytes written by the compressor and by the decompressor do not depend on the previous content of memory, on addresses, or on what the process compressed before with other objects: the same input and options always give the same output.",
  ["inputs","configurations"],"every input and option combination, every content of uninitialised memory",
  "A test that reads uninitialised memory usually sees the same values every time, so it passes.",
  ["Compressor.cpp","WaveletTree.hpp","WaveletCoders.cpp","HuffmanCoders.cpp","preprocessors/Grammar.hpp","preprocessors/PairReplacer.cpp","bwtransforms/MtlSaInverseBWT.cpp"],
  [("all state is initialised before use","constructors in the anchored files")],
  ["output bytes"])
p("C17","Probability models always give a legal estimate and stay in lockstep",
  "For every history of coded bits, every selectable probability model returns an estimate the arithmetic coder can code both bit values with exactly, and two model objects fed the same history return the same estimates, also after being reset at the same point. No history makes a model access memory outside itself.",
  ["histories","configurations"],"every bit history, every model, resets at any point",
  "Model states are reached through coded data only; saturation and rare state transitions need long, specific histories.",
  ["probmodels/ProbabilityModel.cpp","probmodels/ProbabilityModel.hpp","probmodels/BitPredictors.hpp","probmodels/FSM.hpp"],
  [("model construction","probmodels/ProbabilityModel.cpp: giveProbabilityModel"),("saturating updates","probmodels/BitPredictors.hpp, probmodels/FSM.hpp")],
  ["probabilityOfOne","decoded bits"])
p("C18","Run and symbol statistics are exact",
  "For every byte sequence, the run statistics helpers report, per symbol and per length, exactly the maximal runs of that sequence, and the stored runs expand to the sequence. The symbol frequency table keeps its symbols ordered by frequency and answers queries exactly under any sequence of increases, decreases, additions and removals; the circular buffer is first-in first-out.",
  ["inputs","histories"],"every byte sequence, every sequence of table or buffer operations",
  "Unit tests cover fixed strings; run boundaries at the end of the sequence and ties in the table need specific cases.",
  ["Utils.cpp","Utils.hpp","preprocessors/FrequencyTable.cpp"],
  [("run statistics","Utils.cpp: calculateRunFrequencies, calculateRunsAndCharacters, calculateRunFrequenciesAndStoreRuns"),("ordered table","preprocessors/FrequencyTable.cpp"),("ring buffer","Utils.hpp: CircularBuffer")],
  ["returned statistics","table queries","consumed elements"])
p("C19","The command line programs restore every file under every documented option",
  "For every documented combination of options (encoding, BWT algorithm, starting points, memory limit, precompression string, verbosity, input and output by position, by option or by standard input and output), compress followed by uncompress succeeds and restores the input file byte for byte, and so does preprocess followed by postprocess for every block size and number of rounds. Defaults apply to the options that are left out, and what goes to standard output is the same as what would go to a file.",
  ["configurations","inputs"],"every documented option combination, every file content, every way to name input and output",
  "No test starts the programs.",
  ["compress.cpp","uncompress.cpp","preprocess.cpp","postprocess.cpp"],
  [("option handling","main in compress.cpp, uncompress.cpp, preprocess.cpp, postprocess.cpp"),("block loops of the stand-alone preprocessor","preprocess.cpp: preprocess; postprocess.cpp: postprocess")],["output file","exit status"])
p("C20","Memory and files are given back",
  "Compressing or decompressing keeps nothing allocated or open once the objects that did it are destroyed: doing the same work again and again, with any coder, transform, precompression and kind of stream, leaves the same amount of memory in use as doing it once. While it works, the memory in use does not grow with the number of blocks in the stream.",
  ["inputs","histories","configurations"],"every input, option combination, number of repetitions and number of blocks",
  "A leak does not change any result, and the tests are not run under a memory checker; only large inputs with many blocks show it.",
  ["Compressor.cpp","Decompressor.cpp","WaveletTree.hpp","WaveletCoders.cpp","HuffmanCoders.cpp","PrecompressorBlock.cpp","Streams.cpp","bwtransforms/MtlSaInverseBWT.cpp","bwtransforms/sais.hxx","bwtransforms/BWTManager.cpp"],
  [("blocks, coders and streams are owned and deleted","Compressor.cpp, Decompressor.cpp: destructors and block loops"),("trees and tables of a block","WaveletTree.hpp: ~WaveletTree, readShape; HuffmanCoders.cpp: encodeData, decodeBlock"),("buffers and files of the streams","Streams.cpp: constructors and destructors")],
  ["memory in use","open files"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
