"""Per property: what is specified, against which oracle, within which bounds, what is left outside.
Used for the evidence files, MANIFEST.json and the per-property section of DESIGN.md."""
TABLES = ("'real' = the shipped coefficient tables; 'small' = 7-10 entry tables, SRC_MAX_RATIO 256, history buffer sized by the code itself; "
          "'tiny' = the small tables with SRC_MAX_RATIO 2 and the 4096-sample floor lowered to 16, so that the history buffer wraps after 30-60 frames")
M = {}


def m(pid, method, oracle, bounds, outside, why):
    M[pid] = dict(method=method, oracle=oracle, bounds=bounds, outside=outside, why=why)


m('C01',
  'acct.c makes a sequence of processing calls; the frame counts (including negative ones and NULL pointers with a count of zero), end_of_input and the ratio are symbolic; the executor '
  'checks the return code, both counts, and by a byte-level shadow of the output block that exactly the reported frames were written. stream.c drives the documented loop with symbolic '
  'block sizes and compares the stream with the one-call stream, which fails if a reported count is not what was consumed or produced.',
  'the counts in the request; the written-bytes map of the output block; the one-call stream',
  'linear/ZOH: 2 calls, 1-2 (thorough 1-3) input frames, 0-2 (3) output frames, ratio any double of [1/256,256] per call, 1-3 channels. Sinc: small tables, 2-3 calls, block sizes -1..9 and 2..9, '
  'ratio pairs {1, 0.6, 1.7}; tiny tables 3 calls of 20-36 frames across buffer wraps, 1 and 3 channels; ratio ends 1/256 and 256 with 300-2000 frame blocks; blocks of 2^31 and 2^32 samples +- 3 frames (contents abstracted).',
  'longer call sequences, larger blocks of the linear/ZOH converters with symbolic ratio; sinc at ratios not listed (their control flow is covered for a symbolic ratio in C02 fastr).',
  'a count wrong by one frame needs a particular alignment of position, ratio and block size that a test with a few ratios does not hit')
m('C02',
  'mem.c gives the converter input and output blocks that are heap objects of exactly the requested size (symbolic size) and processes; every load, store, memcpy/memmove/memset, pointer '
  'comparison, signed operation, float->int conversion and branch of the encoded code carries an obligation (bounds, lifetime, initialisedness, overflow, alignment, shift range) and the '
  "library's own assert()s are obligations as well.",
  "the C abstract machine: object bounds, lifetimes, initialisation shadow, signed overflow; the code's assertions",
  'as C01, plus a fully symbolic ratio in [0.5,2] for one sinc call (small tables, 1 and 2 channels, opaque samples), all five channel variants (1,2,3,4,6) across buffer wraps with tiny tables and at the ratio ends; the ratio dropping to 0.15 or 0.01 over or between the first three calls (1-6 channels); callback reading.',
  'the SSE2/psf_lrint intrinsics are replaced by their documented meaning; uninitialised padding bytes; more than 6 channels except C15/C08',
  'an out of bounds read by one frame is silent in an ordinary test and needs one-frame blocks, wraps or extreme ratios')
m('C03',
  'reject.c interleaves rejected requests (bad ratio, overlap, NULL data with a count, NULL request, wrong mode) with valid ones on one converter and compares every later result with a twin that never saw them; '
  'acct.c compares input samples, all request fields and the output tail after each call.',
  'a twin converter without the rejected requests; copies of the inputs and of the request',
  'small/tiny tables for sinc, 1,2,3,4,6 channels; 2-3 calls; block sizes as listed in the evidence; linear/ZOH with a symbolic ratio in [0.25,4]',
  'requests rejected for reasons not listed', 'whether state is disturbed by a rejected call shows only in later output')
m('C04',
  'stream.c converts n frames in one call and again through K symbolically chosen input blocks and output capacities, then default blocks to the end; lengths are compared exactly and samples by '
  'normal-form equality of the symbolic linear combinations (bit-exact order for linear/ZOH, tolerance 5e-5 for sinc, whose fixed point phase depends on the split by rounding).',
  'the one-call conversion by the same code',
  'all samples symbolic in [-1,1]; linear/ZOH 1-6 frames, 2 (thorough 3) arbitrary splits out of {0,1,2,4}x{0,1,2,5} at 4 ratios, and any ratio in [0.25,4] away from ties for 1-2 frames; sinc 12-14 frames (small), 10 further ratios between 0.1 and 10, 66-72 frames '
  'with buffer wraps for 1,2,3,4,6,7 and 128 channels (tiny), 44 frames real tables; ratio ends 1/256 and 256',
  'ratios within 1e-9 of a tie (where rounding legitimately moves a frame); more than 3 free splits; BEST converter (not built here)',
  'the product of split points, capacities and ratio is the input space; tests use a handful')
m('C05',
  'zoh.c runs K calls with a symbolic ratio and symbolic block sizes and asserts that output j is the input frame at floor(j/r)-1 (case split by the solver on the real-arithmetic position with an error term for double rounding)',
  'index computed in exact real arithmetic with rounding tolerance 1e-9',
  '1-3 calls, up to 6 (12) input and 4 (8) output frames per call, ratio any double in [1/256,256] (K=3: [0.25,256] or [0.25,4]); 1,2,3,6 channels; without any tolerance at the dyadic ratios 1/8..8 (3 calls of up to 5 and 2 calls of up to 9 frames); samples in [-64,64] in one job, in [-1,1] in the others',
  'longer streams (position error growth beyond 12 steps)', 'the index depends on ratio and history together; wrong by one at block joins')
m('C06',
  'lin.c as C05, asserting that output j is the exact linear interpolation at j/r-1 of symbolic samples within float precision',
  'real-arithmetic interpolation, tolerance one float rounding plus 1e-9 position error', 'as C05; further 3 calls at fixed ratios with samples in [-64,64]', 'longer streams', 'interpolation weights at block joins and with last_value history')
m('C07',
  'sinc.c lets the real code compute each output as an exact linear combination of symbolic samples and compares every coefficient (sum of absolute differences) with a real-arithmetic evaluation of the coefficient table at time j/r; '
  'gain.c adds the response to constant input with the real tables (1 +- 2e-4 away from the ends); smooth.c bounds the third difference of the impulse response of the real tables (6e-6), which a single wrong table entry exceeds.',
  'kern.h: linearly interpolated published table, stretched by 1/min(1,r), scaled by min(1,r), silence outside',
  'FAST and MED tables real: 60-150 input frames, ratios {1,1.5,0.6,...}, 1-6 channels; small tables at ten more ratios between 0.1 and 10 for 1-6 channels; small tables at 1/256 and 256 with 2500 frames; tiny tables with wraps for every channel variant. For all sample values in [-1,1], in [-64,64] for the ten-ratio jobs.',
  'ratios not listed; the BEST table (not enabled in this build)', 'an error confined to one tap, one phase or one channel is below SNR test thresholds')
m('C08',
  'chan.c converts the interleaved stream and each channel with a mono converter under the same request sequence and compares samples channel by channel.',
  'mono converters running the same code', 'channels 2-7, 33 and 128; 2-3 calls with chosen sizes, ratio changes between calls; linear/ZOH with any ratio in [0.5,2]; tiny tables with wraps (2,3,4,6 channels); the ratio dropping from 1 to 0.15 in the first two calls',
  'channel counts other than those', 'per-channel-count code (stereo, quad, hex, generic) is separate source')
m('C09',
  'flush.c feeds n frames in symbolic blocks, sets end_of_input on the last, offers room until nothing more comes and compares counts with n*r.',
  'n*r +- 2 frames (real arithmetic), at least one frame, further flushes empty',
  'linear/ZOH: 1-2 (5) frames, ratio any of [0.25,4], and 1-5 frames at 0.004..3.7; sinc: 1-14 frames small tables; 20-68 frames tiny tables with the end of input at every buffer position, 1,2,3,4,6,7,128 channels; 1-40 frames at ten more ratios; ratio ends',
  'streams longer than the bounds', 'the tail depends on where the end falls in the history buffer')
m('C10',
  'prog.c puts a step bound on every call (a loop that does not end exceeds it on some path) and asserts progress; cb.c does the same for callback reading.',
  'step counter of the executor; frame counts', '2-3 calls, sizes and ratios as C01 incl. both ratio ends; 90 calls of the documented loop with blocks of 1-5 frames across several wraps of the history buffer (tiny tables, 1-6 channels) before a symbolic call; steps bounded by 40 calls of inner functions/20000-600000 instructions',
  'unbounded histories', 'a stall needs a particular fill level of the history buffer')
m('C11',
  'clone.c/cbclone.c bring a converter into a symbolically chosen state (blocks, end of input, ratio change, recorded error, set_ratio), clone it, and run equal suffixes (including a refused request) on both or after '
  'deleting/resetting the other one; a twin built by the same history checks the original.',
  'the other handle and a twin; bit-identical results', 'prefix 0-2 calls (also reset just before cloning), suffix 3-4 calls; linear with any r1 in [0.5,2]; FAST/MED small and tiny tables, 1,2,3,4,6 channels; callback mode incl. pending data; 150 frames of history at ratios 0.4 and 0.25 for 1-6 channels',
  'longer prefixes', 'aliasing of history or saved data shows only in later output of the right handle')
m('C12',
  'reset.c/cbclone.c: symbolic prefix (incl. end of input, refused call, set_ratio, double reset), reset, then a suffix compared with a fresh converter.',
  'a freshly created converter; bit-identical results', 'as C11', 'longer prefixes', 'state that survives a reset shows only for particular prefixes')
m('C13',
  'vari.c feeds a ramp so that the linear converter outputs its read position (ZOH brackets it) and follows the documented glide; sincv.c compares every sinc output under varying ratio with the kernel at the glided position.',
  'position recurrence pos += 1/(r0+i(r1-r0)/m), real arithmetic; kern.h', '2-3 calls of 1-3 output frames, ratio steps 1<->2<->0.5, explicit set_ratio (of the requested or of another ratio, on fresh and used handles) or glide chosen per call, process and callback mode; small tables for sinc, channel variants 1,2,3,4,6; fine steps 1->1.0009 over 150 (sinc) and 24 (linear, ZOH) outputs; glides 0.15<->1 over 30 outputs with small input blocks (filter starved) for 1-6 channels; a drop from 1 to 0.15 near the start of a stream for 1-6 channels; steps 1/256<->1<->256',
  'other ratio pairs; symbolic ratio pairs (the position is nonlinear in both)', 'a wrong glide is a small drift; tests only look at totals')
m('C14',
  'b_ratio.c (CBMC, bit-precise doubles) takes any 64-bit pattern as ratio and compares src_is_valid_ratio with src_set_ratio, src_process, src_callback_read, src_simple and the interval test.',
  'IEEE comparison with 1/256 and 256', 'every double incl. NaN, infinities, denormals; linear, ZOH and FAST handles in fresh and used state', 'none for the predicate; state afterwards only through one more call',
  'boundary and NaN bit patterns')
m('C15',
  'args.c: symbolic converter type and channel count (any int), every combination of NULL arguments, wrong mode calls, with error pointers NULL or not (also in every refusing and succeeding constructor call); checks codes, NULL results and unchanged state.',
  'the documented error numbers', 'any int converter type and channels; three handle kinds', 'allocation sizes above the 128-channel limit are not executed', 'the whole int range of two arguments')
m('C16',
  'overlap.c places input and output at symbolic offsets of one array with symbolic counts; the executor decides the overlap condition for all placements; overhuge.c does so for arrays of 2^31 and 2^32 samples (+-3 frames) within two samples of exact adjacency.',
  'interval intersection of the two arrays', 'array of 16-40 samples, up to 4 frames each, 1,2,3,6 channels; every placement; counts >= 1',
  'overlap with empty arrays (the code rejects an empty output placed inside the input; the statement is read for non-empty arrays)', 'exact adjacency for each order, count and channel number')
m('C17',
  'fault.c lets each allocation fail or succeed (symbolic choice, up to NF failures), for new, callback_new, clone and simple, and checks the result, the error code, the live allocation count and the later behaviour of the original.',
  'allocation ledger of the executor; twin converter', 'every subset of allocations; linear, ZOH, FAST, MED', 'allocation failure inside process (the library makes none: checked by C18 ledger)', 'failure of a particular allocation')
m('C18',
  'life.c runs a symbolic sequence of create/clone/process/reset/read/delete operations and then checks the ledger; double free, use after free and free of foreign pointers are obligations everywhere.',
  'allocation ledger', 'sequences of 3 operations (2 for MED and three channels) over up to 3 handles, also with wrapped history buffers', 'longer sequences', 'operation order')
m('C19',
  'iso.c interleaves symbolically chosen operations on two handles and compares each with a solo run; in addition any store to a library global is an obligation (a data race or shared state needs one); confirmed natively with ThreadSanitizer.',
  'solo runs; no writes to globals', '2 operations per handle, all five sinc variants and linear/ZOH; blocks of 14 and 70 frames', 'thread schedules are not enumerated: absence of writes to shared objects makes them irrelevant; races through caller-shared buffers are excluded by the API',
  'a static temporary is invisible to single-handle tests')
m('C20',
  'cb.c reads through a callback with symbolic block and read sizes, each block an object of its own, and compares with src_process on the concatenation; discipline of the callback is asserted in the callback itself; cbhuge.c passes blocks and read sizes of 2^31 and 2^32 samples.',
  'process interface', '2-3 blocks of 1-31 frames, 1-2 free reads; ratios listed; tiny tables with wraps; blocks of 40-91 frames at 0.25 and 1.3 for 1,2,4,5,6 channels; ratios 1/256, 0.01, 200, 256 for linear and ZOH', 'more blocks', 'product of block sizes and read sizes')
m('C21',
  'cbfail.c makes reads fail part-way (a callback that supplies an overlapping, NULL or negative block) and cberr.c makes a symbolic failing call (bad ratio, wrong interface, NULL data, failing process) at a chosen point of a callback or process stream and compares the continuation with a twin.',
  'twin without the failing call; documented codes', '2 calls before, failing call, 2 calls after; linear, ZOH, FAST 1 and 3 channels', 'several failing calls in sequence', 'state after an error')
m('C22', 'b_f2i.c (CBMC, bit-precise): N symbolic float bit patterns and a symbolic length through src_float_to_short_array/src_float_to_int_array.',
  'nearest integer of the scaled value by exact comparison in double, saturation at the type limits', 'every float bit pattern (NaN excluded from the value claim), length -2..2; arrays of up to 12 elements (arr.c, all values) and 70000 elements (symbolic at 6 positions): each element is converted as if alone', 'other lengths', 'all 2^32 inputs')
m('C23', 'b_i2f.c (CBMC, bit-precise): N symbolic integers through the int->float conversions and back.', 'value/2^15, value/2^31 correctly rounded; round trip', 'every 16 and 32 bit value, length -2..2; six windows of 512 32-bit values, in case the full range is out of the solver\'s reach; arrays of up to 12 and 70000 elements as C22', 'other lengths', 'all 2^32 inputs')
m('C24', 'names.c: symbolic int through src_get_name/src_get_description/src_strerror; all table entries and the default decided by the solver; writes to globals are obligations.', 'NULL exactly outside the known numbers; distinct non-empty messages', 'every int', 'text quality', 'whole int range')
m('C25', 'simple.c: src_simple against new/process(end_of_input)/delete, including error requests, with the allocation ledger.', 'the three-call sequence', 'block sizes -1..15, ratios listed or any of [0.25,4] (linear), 1-3 channels; 150-frame blocks for 1-6 channels; 600-frame blocks at 1/256 and 256', 'larger blocks', 'error codes and counts together')
m('C26',
  'loc.c runs two converters with equal requests on inputs that are equal except in one frame (both values symbolic); counts must agree on every path (a comparison of samples, should the code make one, is a solver branch) and every output frame outside the reach of that frame must be the same expression; '
  'with SPECIAL the one frame holds a NaN, an infinity, a huge or a denormal number in one channel and the other channels must agree as well. '
  'nonf.c (CBMC, bit-precise floats) takes every bit pattern for one channel and compares counts and the other channel with a run on silence.',
  'the twin run; reach = table length / increment / min(1,r) + 1 frames for sinc, two frames for linear, one for ZOH', 'linear/ZOH 9 frames (3 with any ratio in [0.5,2]) with 1-2 free splits; FAST and MED real tables 70-120 frames, small tables 150 frames with 1-6 channels, tiny tables with wraps; every changed position from a list of 1-4; '
  'nonf: 3 frames of 2 channels, linear and ZOH, 2 ratios each, all 2^32 values', 'other positions; bit patterns other than five special values for sinc; special values in several frames', 'data-dependent shortcuts need particular data')
m('C27',
  'query.c and cbquery.c insert all queries after every step of a symbolic sequence (process, reset, clone, set_ratio, refused call, reads) on one handle and compare every result with a twin that is never queried; values are asserted against the history (after a failed read followed by a good one the cause may or may not be forgotten).',
  'the twin; the channel count given at creation; the last cause', '2 steps (callback: 3), linear 2, ZOH 7, sinc 1-6 channels, small tables, wraps with tiny tables', 'longer sequences', 'needs queries at every point of every history')
