ALLF = [F + 'ta_*.c (165 indicators)', 'ta-lib-rt/c/include/ta_func.h', F + 'ta_utility.h']
TECH = 'contracts on every batch function, deductive verification (own VC generator over clang IR, inferred+checked loop invariants, z3)'
PN = 'Proof for all inputs of every listed function (double and float variants plus internal helpers): no bound on lengths or iterations. Trusts clang/opt translation, the VC generator and z3; assumes endIdx <= 1e9, unstable periods <= 1e6, x86 double-to-int conversion.'

prop('C01', 'Batch calls report and fill exactly the promised output range',
     'For every indicator and every valid call, the call succeeds, the reported first bar is the larger of startIdx and the lookback for the given options, the reported count is the number of bars from there to endIdx (first bar 0 and count 0 when there are none), and every output array has all of its first count elements written by the call.',
     ['inputs', 'configurations'], 'all 165 indicators in double and float form, every option value in the documented ranges incl. defaults, every startIdx/endIdx, every unstable period, compatibility mode and candle setting, all data',
     'The regression tests call each function with a handful of periods and ranges on one 252-bar series; the guarantee must hold for every period, range, unstable period and their relation.',
     ALLF, [('lookback computation and startIdx adjustment', F + 'ta_*.c'), ('TA_X_Lookback', F + 'ta_*.c')], observe=['outBegIdx', 'outNBElement', 'output arrays', 'return code'])
claim('C01', TECH, PN)
prop('C02', 'Batch calls are memory safe and free of undefined integer arithmetic',
     'No call of an indicator, valid or rejected, reads an input outside the bars from (first output bar - lookback) to endIdx (for the exponential family in Metastock compatibility mode: from bar 0), writes an output beyond the promised count, reads uninitialised memory, overflows an int, divides an int by zero, uses a null or freed pointer, or writes any global setting or input array.',
     ['inputs', 'configurations', 'fault_sequences'], 'all calls of the 165 indicators in double and float form, all options, ranges, settings and data including NaN and infinities, each allocation failing or not',
     'Tests use short periods and one data set and no memory checker; overflow and overrun appear only at large periods, particular start indices or settings.',
     ALLF + ['ta-lib-rt/c/src/ta_common/ta_memory.h'], [('circular buffers', 'ta-lib-rt/c/src/ta_common/ta_memory.h'), ('loop bounds derived from lookback', F + 'ta_*.c')], observe=['memory accesses'])
claim('C02', TECH, PN)
prop('C03', 'Invalid batch arguments are rejected with the documented code',
     'A batch call returns the start-range error when startIdx is negative, otherwise the end-range error when endIdx is negative or smaller than startIdx, otherwise the bad-parameter error when an option lies outside its documented range (and is not the default marker) or an array pointer is null; a rejected call writes no output array. The default marker behaves as a valid value.',
     ['inputs'], 'every startIdx, endIdx, option value and combination of null pointers for the 165 indicators in double and float form',
     'Only a few functions have tests that pass an invalid argument, and never the combinations or the exact range limits.',
     ALLF, [('generated parameter checks', F + 'ta_*.c, GENCODE SECTION 4')], observe=['return code', 'output arrays'])
claim('C03', TECH + '; documented ranges from a committed table', PN)
prop('C04', 'Allocation failure is reported cleanly and no batch call leaks',
     'When memory runs out during a valid batch call, at whichever of its allocations, the call returns the allocation-error code without touching a null or freed block; and no batch call, successful, rejected or failed, leaves any temporary block allocated on return or frees a block twice.',
     ['inputs', 'fault_sequences'], 'every subset of allocation failures in every call of the 165 indicators in double and float form, for all arguments',
     'No test injects an allocation failure or counts allocations.',
     ALLF + ['ta-lib-rt/c/src/ta_common/ta_memory.h'], [('ARRAY_ALLOC / ARRAY_FREE / CIRCBUF_DESTROY on every exit path', F + 'ta_*.c')], observe=['return code', 'allocator calls'])
claim('C04', TECH, PN)
prop('C05', 'Output arrays may be the input arrays (in-place operation)',
     'For every indicator and every pair of one real input and one real output, passing the same array for both gives the same return code, range and outputs as passing separate arrays.',
     ['inputs', 'configurations'], 'every (input, output) pair of the double functions, all options, ranges and settings',
     'Tests run in place only for some functions with a few periods and startIdx values; a read after overwrite appears only for particular offsets between output and read positions.',
     ALLF, [('outputs written behind the read position; temporary buffers when not', F + 'ta_*.c')], observe=['output arrays'])
claim('C05', TECH + ': no element of the shared array is read after its slot was written', PN + ' One known finding: MAVP with outReal == inReal.')
prop('C12', 'Single-precision variants compute what the double variants compute',
     'For every indicator, the single-precision variant called on given prices takes the same decisions and performs the same operations in the same order as the double variant called on those prices widened to double: same return code, reported range, integer outputs and real outputs, except for the rounding of arithmetic between raw prices that C performs in single precision. No running value is kept in single precision.',
     ['inputs', 'configurations'], 'all 165 double/float pairs and the internal helper pairs, all data, options, ranges and settings',
     'The regression tests call the float variants hardly at all, although each is a separate textual copy of the algorithm.',
     ALLF, [('generated TA_S_ copies of each algorithm', F + 'ta_*.c, /* Generated */ section')], observe=['return code', 'outBegIdx', 'outNBElement', 'output arrays'])
claim('C12', 'relational (lock-step) contract TA_S_X = TA_X over clang IR of both functions: every paired operation, branch, load, store and call is an obligation',
      'Proof without bounds for 158 indicator pairs and 4 helper pairs; 7 indicators (BBANDS CMO RSI WMA DEMA STOCH STOCHF) whose variants differ textually (block copy, temporary buffers) are only compared on concrete cases (bounded). Single-precision arithmetic between raw prices is permitted and listed in the evidence.')

AB = 'ta-lib-rt/c/src/ta_abstract/'
PWT = 'path-wise contracts (own symbolic executor over clang IR, bit-vector integers, IEEE comparisons, z3)'
PWN = ' Trusts clang/opt translation, the executor and z3.'
prop('C13', 'Calling an indicator through the abstract interface equals calling it directly',
     'For every indicator, a parameter holder whose inputs, options and outputs are set makes TA_CallFunc, TA_GetLookback, TA_InitNewState, TA_CallFuncState, TA_CallFuncBatchState, TA_FreeState, TA_SaveState and TA_LoadState call exactly the matching function of that indicator, once, with each input array, option value, output array and state in its own position (documented default for an option never set), and hand back its result unchanged; so do the function pointers handed out for streaming.',
     ['inputs', 'configurations'], 'all 165 indicators, the six calls and six function pointers, every option value (also after defaults), every index range, arrays and samples',
     'The tests call each function through the abstract layer with default options on one series and look at the return code only; swapped arguments of equal type stay unseen.',
     [AB + 'ta_abstract.c', AB + 'frames/ta_frame.c', AB + 'ta_frame_priv.h'], [('generated frame functions', AB + 'frames/ta_frame.c'), ('TA_CallFunc and relatives', AB + 'ta_abstract.c')], observe=['arguments and result of the called function'])
claim('C13', PWT + '; TA_X entry points replaced by a contract that records arguments and returns any result', 'Proof for every value of every argument, option and sample, for each of the 165 indicators.' + PWN)
prop('C14', 'Function and parameter descriptions are complete, consistent and correct',
     'Every indicator is found by its exact name and by no other, is visited once by TA_ForEachFunc and listed once in exactly its own group table; its description gives its group, flags and the number, order, type, name and flags of its inputs, options and outputs as in its C signature, and for every option the documented default and range that the function itself enforces. Invalid handles, indices and null arguments get the documented error; tables are released completely and refused by the wrong release function.',
     ['inputs', 'fault_sequences'], 'all 165 indicators, all parameter indices, all name and group strings, allocation failures in table building',
     'Tests check a few names; the descriptions of hundreds of parameters are hand-maintained in tables apart from the functions they describe.',
     [AB + 'ta_abstract.c', AB + 'ta_def_ui.c', AB + 'ta_group_idx.c', AB + 'tables/table_*.c'], [('description tables', AB + 'tables/'), ('lookup and enumeration', AB + 'ta_abstract.c')], observe=['descriptions', 'return codes', 'allocator calls'])
claim('C14', PWT + '; expected descriptions from a committed table cross-checked with the C signatures and ta_func_api.xml', 'Proof over all 165 description records, all indices, all name strings (string comparison abstracted by its result) and each allocation failing or not.' + PWN)
prop('C15', 'Parameter holders accept exactly valid parameters and never run incomplete',
     'A setter accepts a parameter exactly when the holder is genuine, the index exists, the type matches and no required array is null, else it returns the documented error and changes nothing but possibly arrays of a still unset input; on success it stores the value for that parameter only and marks exactly that one as set. Calls are refused with the code naming what is missing until every input and output was set, in any order and history. Allocation failure is reported without leaks and freeing releases everything.',
     ['inputs', 'histories', 'fault_sequences'], 'holders of all 165 indicators in any record of set parameters, all indices and values, null arguments, foreign holders, allocation failures',
     'Tests set every parameter correctly once; wrong order, wrong type, partial and repeated setting and foreign holders are not tried.',
     [AB + 'ta_abstract.c', AB + 'ta_frame_priv.h'], [('TA_SetInputParam*, TA_SetOutputParam*, TA_SetOptInputParam*', AB + 'ta_abstract.c'), ('TA_ParamHolderAlloc/Free', AB + 'ta_abstract.c')], observe=['return codes', 'holder contents', 'allocator calls'])
claim('C15', PWT, 'Proof for an arbitrary record of set parameters (hence any history), any index, any value; all 64 combinations of given price arrays for each kind of price input, 8 for the others.' + PWN)
prop('C16', 'Global settings are stored, selected, defaulted and restored exactly',
     'TA_Initialize and the restore call give every candle setting its documented default and zero unstable periods; setting an unstable period or candle setting changes exactly the selected one (or all, with the ALL identifier) and nothing else, unknown identifiers are refused without effect, the getters return what was stored; shutting down twice is reported; every return code has its own name.',
     ['inputs', 'histories'], 'any previous settings, any identifier and value, all return codes',
     'Tests set a few unstable periods and no candle setting; the effect on other settings and on invalid identifiers is not examined.',
     ['ta-lib-rt/c/src/ta_common/ta_global.c', 'ta-lib-rt/c/src/ta_common/ta_retcode.c', F + 'ta_utility.c'], [('settings block TA_Globals', 'ta-lib-rt/c/src/ta_common/ta_global.c'), ('TA_SetUnstablePeriod, TA_SetCompatibility', F + 'ta_utility.c')], observe=['settings', 'return codes'])
claim('C16', PWT, 'Proof from an arbitrary earlier content of the settings block, for every identifier and value.' + PWN)

ST = [F + 'ta_*.c (StateInit, StateFree, StateSave, StateLoad)', 'ta-lib-rt/c/include/ta_defs.h', 'ta-lib-rt/c/src/ta_common/ta_memory.h']
prop('C10', 'Saving and loading a streaming state restores exactly that state',
     'For every indicator, StateSave writes a state without changing it and StateLoad of the written record, into an empty slot, yields an independent state equal to the saved one in every field, memory element, circular buffer and nested state, consuming exactly the record; a null state is restored as null. A short write, short read or failed allocation is never reported as success, and loading into an occupied slot is refused leaving the old state in place.',
     ['inputs', 'histories', 'fault_sequences'], 'all 165 indicators, all options, any history of values fed before saving, every point at which a write, read or allocation may fail',
     'The regression tests save and load a state once per function with one parameter set and compare a few outputs; a field that is not saved shows only after particular histories, a swallowed short write never.',
     ST, [('generated field-by-field StateSave/StateLoad', F + 'ta_*.c, GENCODE'), ('circular buffer save and load', 'ta-lib-rt/c/src/ta_common/ta_memory.h')], observe=['loaded state', 'return codes', 'stream position'])
claim('C10', PWT + '; two-state contract StateLoad(StateSave(s)) = s per function, sub-states by their own contract', 'Proof for every indicator over all options and an arbitrary content of the state (any history), any block size, each fwrite/fread short or not and each calloc failing or not.' + PWN)
prop('C11', 'Streaming states are created, refused and released without leaks',
     'For every indicator, StateInit with valid options (or default markers) and enough memory succeeds with a zeroed memory of the recorded size, the effective options recorded and no value consumed; an option outside its range or a null slot is refused with the bad-parameter code and allocates nothing; a failed allocation gives the allocation-error code. After any StateInit or StateLoad, complete, failed or partial, StateFree releases every block exactly once and resets the pointer to null; it accepts a null state and refuses a null slot.',
     ['inputs', 'fault_sequences'], 'all 165 indicators, every option value, every subset of allocation and read failures in StateInit and StateLoad',
     'Tests create and free states with valid options only and never run out of memory or feed a truncated file.',
     ST, [('StateInit and StateFree of each indicator with its nested states', F + 'ta_*.c')], observe=['return codes', 'allocator calls', 'state structure'])
claim('C11', PWT + '; ghost ownership of every block, sub-states by their own contract', 'Proof for every indicator over all option values and every combination of failing allocations, short reads and failing sub-states.' + PWN)
