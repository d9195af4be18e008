"""technique, level and assurance of each check, for MANIFEST.json"""
TABLE = 'evaluation of the decision DAG extracted from compiler IR (gated SSA, translated, not run) over a complete finite set of abstract states, compared with the specification'
META = {
'P01':('decision table over compiler IR: '+TABLE,'Decides the table for every combination of own set, direction and up to three other edges of either set; trusts clang\'s translation and the extractor. Counts beyond three edges enter the decisions only through comparisons with zero and parity.'),
'P02':('decision table and loop-feeding dataflow rule over compiler IR','Complete over the order types of three other edges; the feeding rule is a dominance and origin argument for every loop in calc_line_bal.'),
'P03':('decision table over compiler IR','Exact geometry on all pairs of edges of a 4x3 (thorough: 4x4) lattice; the deciding expressions are sign comparisons of polynomials of degree two. Assumes no coordinate overflow.'),
'P04':('decision table over compiler IR','All order types of two events (x, kind, endpoint indices) and all forms of a segment.'),
'P05':('decision table over compiler IR','All pairs of non-crossing segments of a 4x3 (thorough: 4x4) lattice, both argument orders; the tie-break for the second sweep over all index triples.'),
'P06':('decision table over compiler IR','All pairs of segments on a 4x3 (thorough: 4x4) lattice with every sharing of endpoint indices and both random bits; crossings inside both segments also for longer ones.'),
'P07':('canonical polynomial of compiler IR','An algebraic identity for all coordinates, for 0 to 5 points; assumes no overflow.'),
}
SCAN = 'scan of the compiler IR of every instantiated public member (call sites, globals, instructions) with call-graph reachability'
META.update({
'P08':(SCAN+'; dataflow over extracted decision expressions','All functions reachable from the engine for 32 bit coordinates; trusts that the api witnesses instantiate what users instantiate.'),
'P12':(SCAN+'; effect summary of constructors','Allocations are found through the call graph down to operator new; containers created by inlined standard library code are followed through their constructors.'),
'P13':(SCAN,'All variables with static or thread storage that the instantiated library defines or uses.'),
'P14':(SCAN,'Deny list of ambient sources plus a rule against turning addresses into numbers or ordering by address; a source missing from the list would not be seen.'),
'P15':('purity of each assertion condition in optimised compiler IR (write effects traced to the object written); comparison of the instruction sequences with and without NDEBUG','All assertions in functions the api witnesses instantiate; memory a condition allocates itself is undecided, not an alarm.'),
'P20':('type-level witnesses: programs using every public member for every supported configuration must be accepted by g++ and clang','Decides that use compiles, for the configurations instantiated by the witnesses.'),
'P21':('linkage of every definition in compiler IR; acceptance of every ordered pair of headers by the compiler','Complete over the headers and ordered pairs of them.'),
'P22':('type-level witnesses: static assertions on range and iterator concepts','Semantic requirements of the concepts are not decided here (see P49).'),
'P54':('call graph and landing pads over compiler IR with exceptions (from each call that can throw to where its exception ends up)','Calls of virtual functions and of functions outside of the library whose source is not seen are undecided; so is a vector that is given a size.'),
})
FLOW = 'effect summary of the flattened function over compiler IR (guarded calls and stores, dominance)'
META.update({
'P16':(FLOW+'; '+TABLE,'Order, arguments and coverage of the tracker calls of split_segment for every combination of directions; tracker implementations by users are not looked at.'),
'P43':(FLOW+'; '+TABLE,'Every state of the segment that is split and of the split point relative to its ends.'),
'P44':(FLOW+'; '+TABLE,'Every combination of event, deletion, direction of the sweep and neighbours, for one round of the loop; that the sweep structure itself is ordered is P05 and P65.'),
'P51':(FLOW+'; '+TABLE,'One step of events_t::next and one round of the loop from every abstract state.'),
'P52':(FLOW+'; '+TABLE,'Every combination of the two classifications and of the answer of the crossing test (itself P06).'),
})
META.update({
'P17':(FLOW+'; '+TABLE,'An inductive argument over all states of a loop being added; every step is decided for 0 to 4 and 7 stored points, and larger numbers take the same decisions. Trackers that change the clipper from inside a notification are not considered.'),
'P19':(FLOW+'; '+TABLE,'As P17; how many points a dropped loop takes out is decided from the counting loop around the removal.'),
})
META.update({
'P18':(FLOW+'; '+TABLE,'Every kind of line, runs of 0 to 3 points and every pattern of temporary points, followed round by round; longer runs repeat the same rounds.'),
'P45':(FLOW+'; '+TABLE,'As P18; how the lists are matched afterwards is P46.'),
})
META.update({
'P46':(FLOW+'; '+TABLE,'One to three candidates on a ring of 16 directions, with and without temporary points, in every order; more candidates repeat the same comparison. That the candidates are the right ones is P45.'),
'P47':(TABLE,'One loop inside of up to three others; more repeat the same comparison. Three loops and up to three edges below a point; the counts of loops are independent. That the samples list the edges below a point is P01.'),
'P65':(TABLE,'Rounds of rebalancing are decided one by one in all surroundings and hold for trees of any size by induction; linking, unlinking, stepping and searching on red-black trees of up to seven nodes.'),
'P23':(TABLE,'Addresses are polynomials of low degree of strides and numbers, so the values tried stand for all (up to overflow); a difference of iterators is only defined a whole number of strides apart. Strides of zero are not covered: a range of them is empty.'),
'P24':(TABLE,'Sets of up to three elements stand for all: the code compares elements and hands ranges to the algorithms of the standard library, which are taken to be right. Insertion from single-pass iterators, which the library does not use, is not decided.'),
'P39':(TABLE,'Integers of two and three words; corner values of each word stand for all. The variant for MSVC intrinsics is not analysed.'),
'P68':(TABLE,'Integers of two and three words at corner values. The inline assembly GCC gets for shifts across words and the variant for MSVC intrinsics are not analysed.'),
'P69':(TABLE,'Integers of one to three words at corner values. The long division of unsigned integers by more than one word is taken as given (P64), as is the division instruction.'),
'P48':(TABLE,'Displacement and turning are identities of terms over the reals: the rounding of floating-point arithmetic is not modelled. Lines of up to five points of three places; longer lines repeat the same round.'),
'P25':(TABLE,'The number of steps is taken to be any integer from -6 to 8; larger ones behave alike. Numbers of steps that do not fit the coordinate type are outside.'),
'P49':(FLOW+'; '+TABLE,'Collecting a loop of up to four points with every pattern of temporary points; the iterator is decided as an identity of its operations for every state.'),
})
META.update({
'P26':(FLOW+'; '+TABLE,'Winding numbers -9 to 9 and the extremes of the type stand for all; the loop around the scan lines is decided from one round.'),
'P27':(FLOW+'; '+TABLE,'Positions of segments relative to the canvas by exact integer evaluation at every boundary; runs and rows from one step of the scan in every state. That neighbours in the sweep are in order is P29 and P50.'),
'P28':(FLOW+'; '+TABLE,'Every field a drawing reads is shown to be set anew or to hold what was added; edges of rings of up to four points, longer ones repeat the same rounds.'),
'P29':(FLOW+'; exact integer '+TABLE,'Comparisons of fractions over all combinations of corner words; events and segments over all pairs from a lattice. Assumes no coordinate overflow.'),
'P41':(FLOW+'; '+TABLE,'Every step from every state of a loop of up to four stored points; longer ones take the same decisions.'),
'P50':(FLOW+'; exact integer '+TABLE,'Every kind of event with every presence of neighbours, for one round; crossings over all pairs from a lattice (thorough: a larger one).'),
'P40':('interprocedural dataflow over compiler IR: facts (value, vector, fresh or stale) along every control flow path, with function summaries','Follows pointers through local values and variables, calls, parameters and results; references kept in objects on the heap are not followed, and the point tracker is not instantiated. Paths are not checked for feasibility.'),
})
META.update({
'P09':('effect summary of the flattened functions over compiler IR (sequence of calls and their arguments)','Every one-call function and every adding variant, for one instantiation each; what the clipper does then is the subject of the other properties.'),
'P10':(FLOW+'; '+TABLE,'Every field an operation reads, for clippers before and after an operation; fields are found from the debug information, so a field added later is not looked at unless it is one of those named.'),
'P11':('effect summary of the flattened functions over compiler IR (ownership: which object holds each buffer at the end, and which buffer each part of the result points into)','Every way to execute, with every kind of tracker; vectors are modelled (a move takes the buffer along).'),
})

CY='enumeration of the paths through the Cython syntax tree, with abstract values for arguments, arrays and dtypes (every test that is not determined is taken both ways)'
NG='enumeration of the paths through the native functions over compiler IR with exceptional edges'
META.update({
'P30':(CY,'Each function and method with up to two arrays, for the numbers around and between the documented constants and something that is not a number; values between them behave like their neighbours.'),
'P31':(CY+'; '+NG,'Calls with none, one or two arrays; loops over more repeat the same step. That the library adds and runs what it is told is P09 and P10.'),
'P32':(NG+' (typestate of the interpreter lock)','Loops are followed twice. A function pointer obtained from NumPy counts as needing the lock only if NumPy says so. The drawing test module is not looked at.'),
'P33':(NG+'; call graph','What can throw is decided over the call graph: operator new, throw, memory resources. A vector given a size may throw only if it is smaller, which is not decided.'),
'P34':(NG+' (ownership of references, exception state)','Loops are followed twice; every call of the Python API that can fail is followed both ways. NpyIter_Deallocate is taken to succeed where its result is ignored.'),
'P35':(CY+'; '+NG+'; comparison with the stubs','Every combination of the flags, for functions and both classes.'),
'P36':(CY+'; '+NG,'Histories of two calls by enumeration and longer ones by induction over the state of a clipper; each call with up to two arrays, failing at each of them.'),
'P37':(CY,'Every function and method, arrays of zero to three dimensions with every number of columns around two, step sizes around one.'),
'P38':('comparison of the syntax tree of the stubs and of the documented signatures with the syntax tree of the Cython module','Names, order and kinds of parameters, defaults where they are given; types are not compared.'),
'P53':('native glue paths with polynomial values over compiler IR (addresses, tests for the end of a run, offsets)','Two-column arrays whose runs hold whole points, unbuffered; loops are followed a few times; for results, the paths on which nothing fails.'),
})
