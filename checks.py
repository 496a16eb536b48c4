"""What each property's check runs."""
DOM2='Every case compresses one 2D vector field with the real code, decompresses the stream and judges the output. Cases are all digit assignments of small value alphabets to 2x2, 2x3, 3x2 (thorough: 3x3) grids, and every grid shape up to a bound x 25 field families x bounds, several kinds of noise, for 8 codecs x 2 element types; the build "small" uses 128 quantization intervals so that every interval limit is reached, "plain" the shipped 65536. '
DOM3='Every case compresses one 3D vector field with the real code, decompresses the stream and judges the output. Cases are all two-valued assignments of U and V on a 2x2x2 grid with fixed patterns of W, all assignments on one and two tetrahedra, every grid shape up to a bound x 19 field families x bounds, several kinds of noise, and meshes (boxes, renumbered, with isolated vertices). '
ANY='Every case runs one of the 33 compressor/decompressor pairs on one input: all shapes up to a bound and selected larger ones x field families x bounds x block options. '
DOMB='Every case compresses one scalar field with the real block compressor, decompresses the stream and judges the output. Cases are all assignments of small value alphabets to small shapes x block sizes x bounds x independence flag, and every shape up to a bound x 21 field families x bounds x block sizes. '
MARGIN='cells whose critical-point test is within rounding of changing are not judged (relative margin 1e-9 double, 1e-5 float, 1e-4 float logarithms); they are counted'
LOGS='codecs that work on logarithms have 1.2e-5 (float) or 2e-13 (double) relative slack for the rounding of the logarithm; float results have half the smallest float for the rounding of subnormals'
def two(explorer,prop): return [dict(explorer=explorer,variant='small',defs=['-DPROP=%d'%prop]),dict(explorer=explorer,variant='plain',defs=['-DPROP=%d'%prop])]
CHECKS={
 'P01':dict(level='exploration',runs=two('p_block',1),rule=DOMB+'Non-trivial: the decompressed field differs from the original.',assumptions=['finite values; bounds larger than 0']),
 'P02':dict(level='exploration',runs=two('p_block',2),rule=DOMB+'Each element has its own bound. Non-trivial: the decompressed field differs from the original.',assumptions=['finite values']),
 'P03':dict(level='exploration',runs=two('p_block',3),rule=DOMB+'Relative bounds, global or per element. Non-trivial: the decompressed field differs from the original.',assumptions=['bounds of at least 1e-3, with 1e-4 relative slack and 3e-5 for single-precision logarithms, and half the smallest float for the rounding of subnormals']),
 'P04':dict(level='exploration',runs=two('p_2d',2),rule=DOM2+'Non-trivial: some cell changed.',assumptions=[MARGIN]),
 'P05':dict(level='exploration',runs=two('p_2d',3),rule=DOM2+'Non-trivial: some cell changed.',assumptions=[MARGIN,'types within 10 times the margin of changing are not judged']),
 'P06':dict(level='exploration',runs=two('p_2d',4),rule=DOM2+'Non-trivial: some cell changed.',assumptions=[MARGIN]),
 'P07':dict(level='exploration',runs=two('p_2d',1),rule=DOM2+'Non-trivial: the decompressed field differs from the original.',assumptions=[LOGS]),
 'P08':dict(level='exploration',runs=two('p_3d',1),rule=DOM3+'Non-trivial: the output is lossy and some changed cell was judged.',assumptions=[MARGIN,'FTK, which is not installed, is replaced by a stub of the one routine the 3D compressor calls']),
 'P09':dict(level='exploration',runs=two('p_3d',2),rule=DOM3+'Non-trivial: the decompressed field differs from the original.',assumptions=[LOGS,'FTK is replaced by a stub of the one routine the 3D compressor calls']),
 'P10':dict(level='exploration',runs=[dict(explorer='p_bilinear',variant=v) for v in ('small','plain')],rule='Every case compresses one 2D vector field with the bilinear codec and compares, in every quad, number and types of the zeros of the bilinear interpolant, found from the definition in long double. Fields as for the other 2D codecs. Non-trivial: some quad changed.',assumptions=['quads whose zeros are within a relative margin of 1e-4 of changing number, place or type are not judged; they are counted']),
 'P11':dict(level='exploration',runs=[dict(explorer='p_huffman',variant='plain')],rule='Every case encodes one symbol sequence and decodes it: all sequences up to a length over small alphabets, all count vectors of 6 symbols, all numbers of different symbols up to a bound and around the 1-, 2- and 4-byte node limits, Fibonacci counts, all lengths up to a bound. Non-trivial: more than one symbol occurs.',assumptions=[]),
 'P12':dict(level='exploration',runs=[dict(explorer='p_lossless',variant='plain',defs=['-DPART=%d'%k],optional=True) for k in (1,2,3,4)],rule='Every case passes one input through one exact stage and back: all bit strings up to a length, all lengths x contents x levels of the lossless stage, all coefficient assignments of two regression blocks, all triples of truncated values x bit counts. Non-trivial: not empty.',assumptions=['zstd itself is trusted to be deterministic']),
 'P13':dict(level='exploration',runs=[dict(explorer='p_any',variant=v,defs=['-DPROP=13'],**k) for v,k in (('small',{}),('plain',{}),('asan_small',{}),('asan',{'tiers':['thorough']}))],rule=ANY+'Heap blocks carry canaries (plain, small) or are watched by AddressSanitizer with array bounds checks (asan builds); the decompressor reads from a block of exactly the reported size. Every case is non-trivial.',assumptions=['accesses that stay inside another live block are seen only by the asan builds, reads outside only there']),
 'P14':dict(level='exploration',runs=two('p_any',14),rule=ANY+'The stream is decompressed from where it was made, alone in an exact block, followed by zeros or by 0xFF, at an odd address, and after the lossless stage; all outputs must be equal. Non-trivial: the pair has a decompressor.',assumptions=[]),
 'P15':dict(level='exploration',runs=[dict(explorer='p_state',variant='small',shared=True)]+two('p_any',15),as_states={'states':'states','transitions':'transitions'},technique='explicit-state exploration of call histories on the real library, and bounded exhaustive enumeration of executions under controlled memory contents',rule='Histories: every operation is one compression or decompression by one of the 33 pairs; each history runs in a process of its own and its last operation must give what it gives in a fresh process; the hidden state (static and thread-local storage of the library, rounding mode, heap balance) is hashed after every operation. Memory contents: '+ANY+'Compression and decompression are repeated with fresh heap memory and the unused stack holding 0xA5, 0x00 and 0xFF; streams and outputs must be equal bit for bit and the inputs untouched. Every case is non-trivial.',assumptions=['contents of registers are not controlled']),
 'P16':dict(level='exploration',runs=[dict(explorer='p_sched',variant='small',instrument=True),dict(explorer='p_race',variant='tsan')],technique='stateless model checking of two real threads: all schedules within a preemption bound, basic blocks as steps; data-race detection in a separate free run',rule='Every case is a pair of calls on two threads; every schedule within the preemption bound is executed on the real code by threads that hand over to each other, and both results are compared with those of the call alone (counted: schedules, preemption points). In one space every schedule runs in a process of its own that has not executed the library before. The second explorer runs pairs freely under ThreadSanitizer, also as the first calls of a process. Non-trivial: both calls exist.',assumptions=['steps inside a basic block are not interleaved; two threads; sequentially consistent memory (races are reported by ThreadSanitizer)','zstd is not instrumented']),
 'P17':dict(level='exploration',runs=two('p_2d',5)+two('p_3d',3),rule=DOM2+DOM3+'Non-trivial: the output is lossy and some cell holds a critical point.',assumptions=[MARGIN]),
 'P18':dict(level='exploration',runs=two('p_any',19),rule=ANY+'Live heap blocks are counted before and after the second of two identical calls, and around a decompression whose result pointers hold the arrays of an earlier call. Every case is non-trivial.',assumptions=['one-time set-up in the first call is allowed']),
 'P19':dict(level='exploration',runs=[dict(explorer='p_any',variant='plain',defs=['-DPROP=20'])],rule='Every case compresses one field and compares the size of the stream with that of the data: fields without zeros (affine ones with all gradients over a 3-valued alphabet, and the same with sines or quadratic forms added) x shapes x bounds for the upper bound on smooth data, and the standard sweep for the bound on expansion. Every case is non-trivial.',assumptions=['smooth means at least 4000 points, non-degenerate gradient, waves as long as half the grid or longer, bounds 0.1 and 0.01','half of the data for every codec except 3d_offline (three quarters, affine fields only) and the bilinear one (exempt)']),
 'P20':dict(level='exploration',runs=[dict(explorer='p_lossless',variant='plain',defs=['-DPART=5'])],rule='Every case writes a file in a private scratch directory, reads it back whole and into a buffer: all sizes up to a bound x contents x element types, with and without a partial last element, and a missing file. Non-trivial: at least one element.',assumptions=['the file system does not fail']),
 'P21':dict(level='exploration',runs=[dict(explorer='p_report',variant='raw')],rule='Every case calls verify() on one pair of arrays, captures what it prints and compares every figure with its definition computed in long double. Non-trivial: the arrays differ.',assumptions=['finite values; PSNR, relative figures and correlation are judged only where they are defined and well conditioned','labels and order of magnitude of printed digits as in the pinned commit']),
}
NOT_APPLICABLE=[]
