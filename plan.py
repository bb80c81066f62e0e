"""What each check runs.

Fields: h harness file, e entry point, p parameters (bounds), pt parameters that differ in the thorough tier,
t/tt time limit in seconds (quick/thorough), b the bounds in words, jobs parallel paths (less than 8: shares the machine),
mux 1 merges symbolic table look-ups instead of splitting the path, undef also reports control flow on uninitialised
memory, only: regular expression on "kind message" - which failed assertions belong to this property,
thorough_only: not part of the quick check."""

LEVEL_RULE = ("Bounded symbolic execution of the LLVM bitcode that clang 18 makes of /repo's current sources. Inputs are "
  "bit-vector variables; every branch, memory access and assertion that depends on them is decided for all values of the "
  "variables within the stated bounds, by Z3 or, where all variables involved have small finite domains, by an exact "
  "finite-domain procedure in the engine. Every assertion that can fail yields concrete inputs, which are replayed on a "
  "native build of the same sources before anything is reported. Structural sizes (lengths, counts, choice of option) are "
  "split into separate paths; 'exhausted' says per harness whether every path within the bounds was finished.")

ASSUMPTIONS = [
  "the bitcode of clang 18 at -O1 (asserts on, as in the repository's own build) has the meaning of the program g++ builds; counterexamples, but not absences of counterexamples, are cross-checked on the native build",
  "C library file functions and memory allocation behave as modelled in runtime/libc.c and the engine (allocation never fails, files are seekable, no I/O errors)",
  "the C++ library code is the installed libstdc++ compiled along, except vector<bool> storage, which is zero-filled on allocation",
  "C19 only: boost::program_options parses command lines as modelled in runtime/boost/program_options.hpp",
  "nothing is claimed outside the bounds listed per harness",
]

def I(h, e, b, t=60, **k):
    p = {}; opts = {}
    for a, v in k.items():
        if a in ("pt", "tt", "jobs", "mux", "undef", "only", "thorough_only", "budget"): opts[a] = v
        else: p[a] = v
    d = dict(h=h, e=e, p=p, b=b, t=t); d.update(opts); return d

CRASH = r"^(memory|assert|unreachable|div|stack|budget|abort|exit|exception)"
SIZE = r"report|stored length|^(memory|assert|unreachable|div|stack|budget|abort|exit|exception)"
LIVE = r"stays allocated|more blocks do not"
DET = r"^undef|same (bytes|length) every time|same bytes every time|depend on"

CODER = {0: "Huffman", 1: "wavelet 'B'", 2: "wavelet 'b'", 3: "wavelet 'u'", 4: "wavelet 'm'", 5: "wavelet 'M'", 6: "wavelet, any other option"}

def coder_items(c):
    n = CODER[c]; L = []
    L.append(I("coders", "h_code_small", n + ": every block of up to 6 bytes over 3 letters, 2 placements of the letters in the byte range, any 31-bit starting point", t=120, coder=c, n=6 if c else 6, k=3 if c else 2, alphs=2, pt=dict(n=8, k=3), tt=900))
    if c == 0: L.append(I("coders", "h_code_small", n + ": every block of up to 5 bytes over 3 letters", t=120, coder=c, n=5, k=3, alphs=1, pt=dict(k=4, n=6), tt=900))
    L.append(I("coders", "h_code_runs", n + ": 3 runs of 2 symbols, lengths 1,2,3,4,5", coder=c, runs=3, syms=2, lens=5, pt=dict(runs=5), tt=900))
    L.append(I("coders", "h_code_runs", n + ": 2 runs of 3 symbols, lengths from a list of 24 around powers of two and the section limit, up to 65536", t=120, coder=c, runs=2, syms=3 if c < 2 else 2, lens=24, tt=600))
    L.append(I("coders", "h_code_blocks", n + ": 2 blocks of up to 3 bytes through one encoder and one decoder, 1 or 2 starting points of any 31-bit value", coder=c, pt=dict(blocks=3, points=6), tt=900))
    L.append(I("coders", "h_code_alphabet", n + ": alphabets of 1..256 symbols in 4 frequency shapes", t=120, coder=c, tt=600))
    L.append(I("coders", "h_code_deep", n + ": 4 alphabets with code words of up to 11 bits and several ones at the end, at 8 distances from the byte boundary, every choice of 3 last symbols out of 4", coder=c, rares=4, rots=8, tail=3 if c == 0 else 1, tails=4, pt=dict(tail=4, levels=8), tt=900))
    L.append(I("coders", "h_code_fib", n + ": Fibonacci frequencies with code words of up to %d bits, 2 placements, 3 endings" % (26 if c == 0 else 24), coder=c, depths=5 if c == 0 else 4))
    L.append(I("coders", "h_code_runs", n + ": 2 runs of 2^20 - 1, 2^20, 2^21 bytes", t=120, coder=c, runs=2, lo=24, lens=3, syms=2, pt=dict(runs=3), tt=900))
    L.append(I("coders", "h_code_runs", n + ": a run of 2^24 bytes", coder=c, runs=1, lo=27, lens=1, syms=2, budget=30000000000, pt=dict(runs=2), tt=600))
    L.append(I("coders", "h_code_lengths", n + ": 6 backgrounds of up to 250 different run lengths and 2 lengths out of 8 that occur 10 or 100 times", t=90, coder=c, pt=dict(mults=4, groups=2), tt=900))
    L.append(I("coders", "h_code_sequence", n + ": every sequence of 3 blocks of %d kinds (256 symbols, one byte, long run, long codes, many run lengths, ...), 1 or 256 starting points" % (9 if c == 0 else 6), t=120, coder=c, blocks=3, kinds=9 if c == 0 else 6, pt=dict(kinds=9), tt=900))
    L.append(I("coders", "h_code_sections", n + ": blocks split into 1..256 sections, 4 lengths of the rest", t=120, coder=c, counts=6, extras=4))
    return L

PLAN = {
 "C01": [
  I("pipe", "h_pipe_small", "all six coders, both algorithms, 1 and 8 starting points, memory limits giving blocks of 1, 2, 3 bytes and one block, every input of 0..4 bytes over 2 letters", t=150, coders=6, pt=dict(n=6, sps=3), tt=1800),
  I("pipe", "h_pipe_small", "default and Huffman coder, one block, every input of up to 6 bytes over 2 letters", coders=2, n=6, mems=1, algs=1, sps=1, pt=dict(n=9), tt=1200),
  I("pipe", "h_pipe_small", "default and Huffman coder, every input of up to 3 bytes over 4 letters including 0 and 255", t=60, coders=2, n=3, k=4, alphs=2, mems=2, algs=1, sps=1, pt=dict(n=4), tt=1200),
  I("pipe", "h_pipe_text", "inputs of 600 bytes of 7 shapes with 2 free bytes, in 1 to 5 blocks", t=100, pats=7, syms=1, pt=dict(pats=18, syms=2, coders=6, sps=5), tt=3600),
  I("pipe", "h_pipe_text", "inputs of 3000 bytes, all six coders, 256 starting points", t=60, pats=4, len=3000, syms=1, coders=6, sp=3, mems=1, algs=1, pt=dict(pats=12), tt=1200),
  I("pipe", "h_pipe_pre", "precompressed inputs of 2800..7000 bytes, 0..2 rounds, one and several precompression blocks", t=120, pre=2, sps=1, pt=dict(sps=2, mems=4, coders=6), tt=3600),
  I("pipe", "h_pipe_text", "inputs of 200000 bytes of 17 shapes, 2 blocks", t=100, len=200000, pats=17, syms=1, k=1, algs=1, sps=1, mems=1, pt=dict(coders=6, algs=2), tt=3600),
  I("pipe", "h_pipe_far", "40 bytes in 1 or 3 blocks to a standard output that continues a file of any length below 2^40", coders=6, pt=dict(len=700), tt=600),
  I("pipe", "h_pipe_slices", "300 bytes in 300 and 100 blocks", t=100, algs=1, sps=1, mems=2, pt=dict(coders=6, algs=2), tt=1800),
  I("pipe", "h_pipe_files", "through files of 0, 1, 3, 65535 bytes", t=60, pt=dict(sizes=6), tt=600),
 ],
 "C02": coder_items(0) + [
  I("codetext", "h_code_text", "Huffman: text in, text out: every text of up to 4 bytes over 2 letters, both algorithms", coder=0, algs=2, pt=dict(n=7, k=3), tt=900),
 ],
 "C03": coder_items(1) + [
  I("coders", "h_code_small", "the five other model choices: every block of up to 4 bytes over 2 letters, 2 placements", t=100, first=2, coders=5, n=4, alphs=2, pt=dict(n=6, k=3), tt=1800),
  I("coders", "h_code_runs", "the five other model choices: 3 runs of 2 symbols, lengths 1..5", t=100, first=2, coders=5, runs=3, syms=2, lens=5, pt=dict(runs=4), tt=1800),
  I("coders", "h_code_runs", "the five other model choices: runs of 2^20 - 1 to 2^24 bytes", t=100, first=2, coders=5, runs=1, lo=24, lens=4, syms=2, budget=30000000000, tt=600),
  I("coders", "h_code_fib", "the five other model choices: Fibonacci frequencies, code words of up to 17 bits", first=2, coders=5, depths=2, pt=dict(depths=4), tt=600),
  I("coders", "h_code_runs", "the five other model choices: 2 runs, lengths from the list up to 65536", t=100, first=2, coders=5, runs=2, syms=2, lens=24, tt=1200),
  I("coders", "h_code_blocks", "the five other model choices: 2 blocks through one encoder and one decoder", t=100, first=2, coders=5, pt=dict(blocks=3), tt=1800),
  I("coders", "h_code_sequence", "the five other model choices: every sequence of 2 blocks of 9 kinds", t=100, first=2, coders=5, pt=dict(blocks=3), tt=1800),
  I("coders", "h_code_alphabet", "the five other model choices: alphabets of 1..256 symbols, 2 shapes", t=100, first=2, coders=5, shapes=2, sizes=11, pt=dict(sizes=21, shapes=4), tt=1800),
  I("codetext", "h_code_text", "text in, text out, all wavelet models: every text of up to 4 bytes over 2 letters", t=60, first=1, coders=6, algs=2, pt=dict(n=7), tt=900),
 ],
 "C04": [
  I("c04i", "h_coder_ends", "one coding step from any interval state, at the ends of the probability range", jobs=2),
  I("c04i", "h_coder_step", "one coding step: any 32-bit interval the coder can be in, probability 0, any code value in the interval", jobs=2, fixedp=0),
  I("c04i", "h_coder_step", "one coding step: any 32-bit interval, probability 4096", jobs=2, fixedp=4096),
  I("c04i", "h_coder_step", "one coding step: any 32-bit interval, probability 2048", t=150, jobs=2, fixedp=2048),
  I("c04i", "h_coder_step", "one coding step: any 32-bit interval, probability 1", t=150, jobs=2, fixedp=1),
  I("c04i", "h_coder_step", "one coding step: 21 intervals, any probability", t=90, w=0, lows=3, widths=7, pt=dict(lows=9, widths=30), tt=1200),
  I("c04", "h_coder_edges", "5 free bits, each probability one of 4 kinds", k=5, modes=4, pt=dict(k=6, modes=6), tt=1200),
  I("c04", "h_coder_long", "2 stretches of 300 bits of 6 kinds and 4 patterns with 2 free bits behind each", parts=2, rep=300, k=2, pt=dict(rep=3000), tt=1200),
  I("c04", "h_coder_long", "stretches with 4 free bits behind", t=90, k=4, patterns=2, parts=2, pt=dict(parts=3, k=2), tt=1200),
  I("c04", "h_coder_seqs", "3 sequences of 0..1 bits one after the other on the same objects", k=2, seqs=3, pt=dict(k=3, seqs=4), tt=1200),
  I("c04", "h_coder_free", "1 free bit with a free probability (thorough: 2)", k=1, t=60, pt=dict(k=2), tt=1800),
 ],
 "C05": [
  I("bwt", "h_bwt_small", "every block of up to 8 bytes over 2 letters, 2 placements, both algorithms, with inverse", t=90, n=8, k=2, alphs=2, canon=0, pt=dict(n=10, alphs=3), tt=1800),
  I("bwt", "h_bwt_small", "every block of up to 6 bytes over 3 letters, with inverse", t=90, n=6, k=3, alphs=2, canon=0, mux=1, pt=dict(n=8, alphs=3), tt=1800),
  I("bwt", "h_bwt_small", "every block of up to 9 bytes over 2 letters, the table-based inverse", t=90, n=9, k=2, alphs=1, canon=0, inv=2, mux=1, pt=dict(n=11), tt=1800),
  I("bwt", "h_bwt_scaffold", "blocks of 300 bytes of 10 shapes with 2 free bytes, 0..300 starting points requested", t=90, mux=1, len=300, syms=2, k=3, canon=0, pt=dict(pats=18), tt=900),
  I("bwt", "h_bwt_scaffold", "blocks of 257 bytes of 17 shapes, 0..300 starting points requested", t=60, mux=1, len=257, syms=1, k=3, pats=17, canon=0, tt=600),
  I("bwt", "h_bwt_scaffold", "blocks of 150000 bytes of 17 shapes", t=90, mux=1, len=150000, syms=1, k=1, sps=1, pats=17, canon=0, budget=30000000000, pt=dict(len=1200000, sps=2), tt=1800),
  I("bwt", "h_bwt_points", "every number of starting points 1..256 (thorough) or 64 of them, blocks of 257, 300, 515 bytes", t=60, mux=1, pt=dict(all=1), tt=600),
  I("bwt", "h_bwt_scaffold", "a block of 16777400 equal bytes, the table-based inverse", t=120, mux=1, len=16777400, pat=0, syms=1, k=1, sps=1, canon=0, inv=2, budget=30000000000, tt=600),
  I("bwt", "h_bwt_scaffold", "a block of 16777400 equal bytes", t=120, mux=1, len=16777400, pat=0, syms=1, k=1, sps=1, canon=0, budget=30000000000, pt=dict(k=2, syms=2), tt=900),
  I("bwt", "h_bwt_special", "20 texts of 3000..6000 bytes made for the rarely taken branches of the sorters, unchanged and with a free last byte", mux=1, canon=0, pt=dict(frees=4, sps=3), tt=900),
  I("bwt", "h_bwt_scaffold", "blocks of 20000 bytes of 17 shapes, 1 and 2 starting points", t=90, mux=1, len=20000, syms=2, k=2, sps=2, pats=17, canon=0, pt=dict(sps=7), tt=1200),
 ],
 "C06": [
  I("bwt", "h_bwt_small", "every block of up to 10 bytes over 2 letters against the definition by last-to-first mapping", t=90, n=10, k=2, alphs=2, inv=0, mux=1, pt=dict(n=12, alphs=3), tt=1800),
  I("bwt", "h_bwt_small", "every block of up to 6 bytes over 3 letters", t=90, n=6, k=3, alphs=3, inv=0, mux=1, pt=dict(n=8), tt=1800),
  I("bwt", "h_bwt_small", "every block of up to 3 bytes over 8 letters", t=90, n=3, k=8, alphs=3, inv=0, pt=dict(n=4), tt=1800),
  I("bwt", "h_bwt_small", "every block of up to 6 bytes over 2 letters against sorted suffixes", t=90, n=6, k=2, alphs=3, inv=0, canon=1, pt=dict(n=9), tt=1800),
  I("bwt", "h_bwt_small", "as above without asking for frequencies", t=60, n=7, k=2, alphs=1, inv=0, freqs=0, mux=1),
  I("bwt", "h_bwt_scaffold", "blocks of 300 bytes of 10 shapes with 2 free bytes, 0..300 starting points requested", t=90, mux=1, len=300, syms=2, k=3, inv=0, pt=dict(pats=18), tt=900),
  I("bwt", "h_bwt_scaffold", "blocks of 150000 bytes of 17 shapes", t=90, mux=1, len=150000, syms=1, k=1, sps=1, pats=17, inv=0, budget=30000000000, pt=dict(len=1200000, sps=2), tt=1800),
  I("bwt", "h_bwt_special", "20 texts of 3000..6000 bytes made for the rarely taken branches of the sorters, unchanged and with a free last byte", mux=1, inv=0, pt=dict(frees=4, sps=3), tt=900),
  I("bwt", "h_bwt_scaffold", "blocks of 20000 bytes of 17 shapes with 2 free bytes", t=90, mux=1, len=20000, syms=2, k=2, sps=2, pats=17, inv=0, pt=dict(sps=7), tt=1200),
 ],
 "C07": [
  I("c07", "h_huff_lengths", "up to 4 symbols with any 40-bit frequencies", t=100, m=4, w=40, pt=dict(m=5, w=16), tt=3600),
  I("c07", "h_huff_lengths", "up to 5 symbols with any 6-bit frequencies", t=150, m=5, w=6, pt=dict(m=5, w=10), tt=3600),
  I("c07", "h_huff_lengths", "up to 3 symbols with any 60-bit frequencies", m=3, w=60),
  I("c07", "h_huff_lengths", "up to 3 symbols at any place of the alphabet", m=3, names=1),
  I("c07", "h_huff_inplace", "the in-place variants, up to 3 symbols", m=3, pt=dict(m=4), tt=1200),
  I("c07", "h_huff_large", "256 symbols in 5 shapes (flat, ascending, Fibonacci, powers, mixed) with 2 free frequencies", t=90),
  I("c07", "h_huff_codes", "every complete set of up to 5 lengths", m=5, pt=dict(m=7), tt=600),
  I("c07", "h_huff_codes_deep", "code words of up to 60 bits in three arrangements", t=60),
 ],
 "C08": [
  I("c08", "h_pack", "every 48-bit integer: packed and unpacked", jobs=2), I("c08", "h_packwrite", "every integer written and read", jobs=2), I("c08", "h_packwrite0", "zero", jobs=2),
  I("c08", "h_logs32", "every 32-bit argument", jobs=2), I("c08", "h_logs64", "every 64-bit argument", jobs=2), I("c08", "h_unary", "unary codes", jobs=2), I("c08", "h_pushbits", "bit patterns pushed and read back", jobs=2),
 ],
 "C09": [
  I("c09", "h_binary", "one value in any range of up to 2^40", max=40, pt=dict(max=47)),
  I("c09", "h_binary_prefix", "two values of any range of up to 2^8: neither code is a prefix of the other", max=8, pt=dict(max=12), tt=900),
  I("c09", "h_interp_byte", "any list of up to 3 bytes below 32, any maximum", t=90, k=3, w=5, pt=dict(k=4, w=5), tt=1800),
  I("c09", "h_interp_byte", "any list of up to 2 bytes, any maximum", t=90, k=2, w=8, pt=dict(k=3, w=6), tt=1800),
  I("c09", "h_interp_u32", "any list of up to 2 integers below 256", t=120, k=2, w=8, pt=dict(w=14), tt=1800),
  I("c09", "h_interp_wide", "maxima 255 to 2^32 - 1 from a list, lists of up to 3 integers near the ends and the middle of the range", t=90, pt=dict(k=4, w=4), tt=1800),
  I("c09", "h_interp_set", "lists of up to 256 bytes of 6 shapes with 6 free memberships", pt=dict(syms=9), tt=900),
 ],
 "C10": [
  I("c10", "h_grammar_sym", "one round of up to 4 freed and 2 free symbols, all symbols and right sides any bytes", t=120, freed=4, free=3, pt=dict(freed=6), tt=1800),
  I("c10", "h_grammar_sym", "two rounds with one freed symbol each, 16 byte values, variables freed again or made special", t=60, rounds=2, freed=1, free=1, bits=4, pt=dict(freed=2, free=2), tt=3600),
  I("c10", "h_grammar_rhs", "up to 8 rules with any right sides", jobs=8),
  I("c10", "h_grammar", "two rounds of up to 3 freed and 1 free symbols: written, read, and expanded against the replaced strings", t=90, rounds=2, freed=3, free=2, orders=1, pt=dict(freed=5, free=3, orders=3), tt=3600),
  I("c10", "h_grammar_big", "one and two rounds with up to 230 freed and 200 free symbols", t=120, orders=1, pt=dict(orders=2, rounds=3), tt=3600),
 ],
 "C11": [
  I("c11", "h_pre_small", "every block of 1..5 bytes over 2 letters, 1 and 2 rounds", t=90, n=5, k=2, pt=dict(n=7), tt=1200),
  I("c11", "h_pre_small", "blocks of 6..20 equal bytes, up to 6 rounds", t=60, lo=6, n=15, k=1, opts=5, pt=dict(n=60), tt=600),
  I("c11", "h_pre_texts", "16 texts that exercise every way replacements are chosen, 4 last bytes, 1..3 rounds", t=120, pt=dict(tail=2, letters=8, drops=2, opts=5), tt=3600),
  I("c11", "h_pre_inplace", "texts whose growing symbols stand where the in-place buffer fills up, 6 distances, 3 places", t=60, pt=dict(shifts=40, sizes=3, opts=3), tt=1800),
  I("c11", "h_pre_large", "texts of 60000 bytes of 5 kinds (words, words and binary, records, four letters, zero bytes), 1..9 rounds", t=120, tails=1, pt=dict(tails=4, len=400000, rounds=12), tt=3600),
  I("c11t", "h_pre_both", "in place and out of place, every text of 2..7 symbols over 4 letters that does not get longer, one table", t=60, n=6, pt=dict(n=7), tt=1800),
  I("c11t", "h_pre_both", "in place and out of place, every text of 2..6 symbols over 5 letters, 4 tables", t=90, n=5, k=5, texts=4, pt=dict(n=6), tt=1800),
  I("c11t", "h_pre_table", "replacement tables of 8 training texts applied to every text of 2..4 symbols over 8 letters", t=120, pt=dict(n=4), tt=1800),
  I("c11t", "h_pre_table", "as above after a second round", t=120, rounds=2, n=2, pt=dict(n=4), tt=1800),
 ],
 "C12": [
  I("c12", "h_out", "2 write operations (bytes, blocks, field reserved, field patched, flush), sizes around the buffer", t=60, ops=2, sizes=4, pt=dict(ops=3, sizes=8), tt=1800),
  I("c12", "h_out", "3 write operations", t=60, ops=3, sizes=3, pt=dict(ops=4, sizes=3), tt=1800),
  I("c12", "h_out_field", "a 48-bit field patched with any value after up to 200000 bytes, before and between from a list of 12 sizes", t=90, sizes=12, pt=dict(sizes=14), tt=900),
  I("c12", "h_out_far", "standard output that continues a file of any length below 2^40: positions, and a field patched with any value", pt=dict(sizes=14), tt=600),
  I("c12", "h_in", "4 read operations (bits, bytes, blocks, 48-bit fields, flush, end test) near the buffer and file ends, 14 free bytes", t=120, ops=4, pt=dict(ops=5, files=10, starts=5), tt=3600),
  I("c12", "h_stdio", "copying files of 5 sizes", t=30, pt=dict(sizes=12)),
 ],
 "C13": [
  I("c13", "h_slices", "blocks of up to 12 free bytes, any limit up to 32, sliced twice", n=12, pt=dict(n=24), tt=600), I("c13", "h_read_blocks", "inputs of up to 9 bytes, any limit up to 10", pt=dict(n=20), tt=600),
  I("c13", "h_block_header", "block sizes and slice counts at the boundaries of the packed integers", pt=dict(sizes=12, limits=9), tt=900), I("c13", "h_block_header2", "headers with compressed size"),
  I("c13", "h_points", "20 counts of starting points (thorough: all 256), each any 31-bit value", pt=dict(all=1), tt=900), I("c13", "h_prepare", "any block length, any requested number below 1024"),
 ],
 "C14": [
  I("pipe", "h_pipe_small", "all six coders, every input of 0..3 bytes over 2 letters, several blocks", t=90, coders=6, n=3, sps=1, only=SIZE, pt=dict(n=5), tt=1200),
  I("pipe", "h_pipe_text", "inputs of 600 bytes, 4 shapes, 2 free bytes, 1 to 5 blocks", t=60, pats=4, syms=1, only=SIZE, pt=dict(pats=12, coders=6), tt=1800),
  I("pipe", "h_pipe_pre", "precompressed inputs", t=90, pre=2, sps=1, algs=1, texts=2, only=SIZE, pt=dict(texts=3, coders=6), tt=1800),
  I("pipe", "h_pipe_far", "blocks written at any file position below 2^40", t=60, coders=2, only=SIZE),
  I("codetext", "h_code_text", "size reported per block, all coders, up to 4 bytes over 2 letters, 2 blocks", t=60, first=0, coders=7, blocks=2, n=3, only=SIZE, pt=dict(n=5), tt=1200),
  I("coders", "h_code_alphabet", "stored length field, Huffman, alphabets of 1..256 symbols", coder=0, only=SIZE), I("coders", "h_code_alphabet", "stored length field, wavelet", coder=1, sizes=11, only=SIZE),
  I("coders", "h_code_runs", "stored length field, long runs, Huffman and wavelet", first=0, coders=2, runs=2, syms=2, lens=24, only=SIZE, t=60),
  I("c13", "h_block_header", "size of block headers", only=SIZE), I("c13", "h_block_header2", "size of the other block headers", only=SIZE), I("c13", "h_points", "size of slice headers", only=SIZE),
  I("c10", "h_grammar_sym", "size of grammars, one round, any bytes", freed=3, free=2, only=SIZE, t=60), I("c10", "h_grammar_big", "size of grammars, large", orders=1, rounds=1, only=SIZE, t=60),
  I("c08", "h_packwrite", "size of packed integers", only=SIZE), I("c08", "h_packwrite0", "size of a packed zero", only=SIZE),
 ],
 "C15": [
  I("pipe", "h_pipe_small", "all six coders, both algorithms, every input of 0..3 bytes over 2 letters in blocks of 1, 2, 3 bytes", t=90, coders=6, n=3, only=CRASH, pt=dict(n=5), tt=1200),
  I("pipe", "h_pipe_text", "inputs of 1000 bytes of 12 shapes, 256 starting points", t=90, len=1000, pats=12, syms=1, sp=3, mems=2, only=CRASH, pt=dict(coders=6, pats=18), tt=1800),
  I("pipe", "h_pipe_pre", "precompressed inputs", t=90, pre=2, sps=1, algs=1, only=CRASH, pt=dict(coders=6, mems=4), tt=1800),
  I("coders", "h_code_sections", "1..256 sections of the Huffman coder", t=60, coder=0, counts=6, only=CRASH),
  I("coders", "h_code_runs", "long runs, all coders", t=60, first=0, coders=6, runs=2, syms=2, lens=18, only=CRASH, tt=900),
  I("coders", "h_code_alphabet", "alphabets of 1..256 symbols, Huffman", t=60, coder=0, only=CRASH), I("coders", "h_code_alphabet", "alphabets, wavelet", t=60, coder=1, only=CRASH),
  I("bwt", "h_bwt_scaffold", "transforms of 20000 bytes, 17 shapes", t=60, mux=1, len=20000, syms=1, k=2, sps=2, pats=17, canon=0, only=CRASH), I("bwt", "h_bwt_small", "both inverses on every block of up to 7 bytes over 2 letters", t=60, mux=1, n=7, k=2, alphs=1, canon=0, inv=2, only=CRASH),
  I("c11", "h_pre_texts", "precompression of 16 texts", t=90, letters=2, opts=2, only=CRASH, pt=dict(letters=8, opts=5), tt=1800), I("c11", "h_pre_small", "precompression of 1..4 bytes", t=60, n=4, opts=2, only=CRASH),
  I("c17", "h_model_bits", "probability models, every history of 10 bits", k=10, only=CRASH), I("c12", "h_in", "input stream, 3 operations", t=60, ops=3, only=CRASH), I("c12", "h_out", "output stream, 2 operations", t=60, ops=2, sizes=4, only=CRASH),
 ],
 "C16": [
  I("pipe", "h_pipe_small", "all six coders, every input of 0..4 bytes over 2 letters; no branch or output byte depends on uninitialised memory", t=90, coders=6, sps=1, defined=1, undef=1, only=DET, pt=dict(n=6), tt=1200),
  I("pipe", "h_pipe_text", "inputs of 400 bytes, 8 shapes", t=60, len=400, syms=1, mems=2, defined=1, undef=1, only=DET, pt=dict(pats=18, coders=6), tt=1800),
  I("pipe", "h_pipe_pre", "precompressed inputs", t=90, pre=2, sps=1, algs=1, texts=2, defined=1, undef=1, only=DET, pt=dict(texts=3, coders=6), tt=1800),
  I("pipe", "h_pipe_twice", "every input of 0..2 bytes over 2 letters compressed three times with other work in between", t=90, n=2, only=DET, pt=dict(n=4, coders=6), tt=1800),
  I("pipe", "h_pipe_twice", "inputs of 300 bytes, 4 shapes, 1 free byte", t=90, len=300, syms=1, mems=3, coders=2, undef=1, only=DET, pt=dict(coders=6, pats=8), tt=1800),
  I("pipe", "h_pipe_twice", "precompressed inputs of 2800 bytes, 0..2 rounds, compressed three times with other precompressed work in between", t=90, pre=2, sps=1, algs=1, pair=2, mems=1, betweens=1, undef=1, only=DET, pt=dict(betweens=2, mems=2, pair=3, coders=6), tt=3600),
 ],
 "C17": [
  I("c17", "h_model_bits", "every history of 10 bits, five models", k=10, pt=dict(k=13), tt=900), I("c17", "h_model_bits", "every history of 5 bits with resets, all seven models", k=5, ops=3, models=7, pt=dict(k=7), tt=900),
  I("c17", "h_model_runs", "a run of up to 400 bits and every 4 bits behind it", parts=1, models=5, k=4, pt=dict(k=8), tt=900), I("c17", "h_model_runs", "two runs", t=60, parts=2, lens=3, k=1, models=5, pt=dict(lens=6, k=2), tt=900),
  I("c17", "h_model_runs", "runs in the 16-bit history model", first=5, models=1, parts=1, k=4), I("c17", "h_model_runs", "runs in the seventh model", first=6, models=1, parts=1, k=4),
  I("c17i", "h_predictors", "one update of each predictor from any state it can be in", jobs=8),
 ],
 "C18": [
  I("c18", "h_runs", "every sequence of up to 4 bytes", n=4, pt=dict(n=5), tt=900), I("c18", "h_runs2", "every sequence of up to 9 bytes over 0 and 255", n=9, pt=dict(n=14), tt=900), I("c18", "h_runs_long", "two runs with lengths from a list up to 70000, any bytes", parts=2, pt=dict(parts=3), tt=900),
  I("c18", "h_freqtable", "2 keys with any 4-bit frequencies, others 0, 3 or 2^32 - 2, one operation", keys=2, ops=1, bases=3), I("c18", "h_freqtable_long", "5 tables, 0 or 60 operations in front, every 2 operations on 6 symbols with 6 amounts up to 5000000000", t=90, pt=dict(ops=3, amounts=4), tt=1800), I("c18", "h_freqtable", "3 keys with any 3-bit frequencies, 2 operations", t=90, keys=3, ops=2, w=3, bases=1, pt=dict(ops=3), tt=1800),
  I("c18", "h_circular", "buffers of 1..4 elements, every sequence of 5 operations", t=90, len=4, ops=5, pt=dict(ops=6), tt=900), I("c18", "h_isprefix", "prefix test"),
 ],
 "C19": [
  I("cli", "h_cli", "compress and uncompress: 7 encodings, 4 BWT choices, 4 numbers of starting points, 4 memory limits, every input of up to 2 bytes over 2 letters", t=100, n=2, starts=4, mems=4, pt=dict(n=4, k=3), tt=1800),
  I("cli", "h_cli", "input and output by file names, by options, by standard input and output (seekable), in all 36 combinations", t=60, n=1, encs=2, bwts=1, mems=1, ios=6, pt=dict(encs=7, bwts=4), tt=900),
  I("cli", "h_cli", "verbosity 0..3 of both programs, output to files and standard output", t=60, n=1, encs=2, bwts=1, mems=1, starts=1, verbs=4, ios=4, pt=dict(encs=7), tt=900),
  I("cli", "h_cli", "precompression 0..2 rounds, inputs of 2900 bytes", t=100, len=300, pairs=1, preprs=3, encs=2, bwts=3, starts=1, mems=1, pt=dict(encs=7, starts=4, pats=6), tt=1800),
  I("cli", "h_cli_pre", "preprocess and postprocess: every input of up to 2 bytes over 2 letters, 4 block sizes of 1 kB to 4 GB, 0..2 rounds, 36 combinations of input and output", t=60, n=2, ios=6, blocks=4, pt=dict(n=3, k=3), tt=1200),
  I("cli", "h_cli_pre", "preprocess and postprocess: inputs of 4100 bytes in 1 to 5 blocks, verbosity 0..1, output to files and standard output", t=60, len=1500, pairs=1, pats=1, verbs=2, ios=4, pt=dict(pats=8, verbs=4), tt=1200),
  I("cli", "h_cli_pipe", "standard output is a pipe: every input of up to 2 bytes over 2 letters", t=60, n=2),
 ],
 "C20": [
  I("pipe", "h_live_again", "all six coders, every input of 0..3 bytes over 2 letters, compressed and decompressed three times", t=60, coders=6, sps=1, only=LIVE, pt=dict(n=5, sps=3), tt=1200),
  I("pipe", "h_live_again", "inputs of 300 bytes, 4 shapes, in 1 to 6 blocks; with precompression that finds nothing to replace also in several slices of a block", t=60, coders=6, sps=1, len=300, mems=3, pre=1, only=LIVE, pt=dict(pats=17), tt=1200),
  I("pipe", "h_live_again", "precompressed inputs of 2800 bytes, 0..2 rounds", t=120, coders=2, sps=1, algs=1, pair=2, pre=2, only=LIVE, pt=dict(coders=6, pair=3), tt=1800),
  I("pipe", "h_live_blocks", "4 and 8 equal blocks of 111 bytes, 4 shapes, all six coders: the largest amount of memory in use while the streams are used is the same", t=60, coders=6, sps=1, only=LIVE, pt=dict(pats=17, sps=3), tt=1200),
  I("pipe", "h_live_blocks", "4 and 8 equal precompressed blocks of 2960 bytes in several slices", t=90, coders=2, sps=1, algs=1, pair=1, pre=1, only=LIVE, pt=dict(coders=6, pre=2), tt=1800),
  I("pipe", "h_live_files", "through files, 3 and 70000 bytes", t=60, coders=6, sps=1, algs=1, only=LIVE, pt=dict(algs=2, pre=1), tt=900),
  I("bwt", "h_live_bwt", "both algorithms and both inverses on the 20 texts made for rarely taken branches", t=60, mux=1, only=LIVE, pt=dict(), tt=600),
  I("bwt", "h_live_bwt", "the same on 17 shapes of 3000 bytes", t=60, mux=1, len=3000, only=LIVE, pt=dict(len=20000), tt=900),
  I("cli", "h_live_cli", "each pair of programs run three times in one process", t=60, only=LIVE),
 ],
}
