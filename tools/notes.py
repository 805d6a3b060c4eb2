NOTES.update({
 "C09": ("exhaustive enumeration of ordered ray sets and camera sets on the real crate", "All ordered tuples of rays up to the length bound x common points x signs/lengths x offsets, all sets of cameras. Nearly parallel sets (smallest eigenvalue below 1e-5 per ray) are outside the domain; accuracy is judged to 1e-6 of the coordinates, the implementation's solver tolerance."),
 "C10": ("exhaustive enumeration of ordered ray tuples on the real crate", "All ordered tuples over a 24-ray alphabet (length 2-3, and 4 over 12), each rescaled, reversed and moved; the first-order optimality condition is evaluated with the reference model."),
 "C11": ("exhaustive enumeration of hostile input words on the real crate, with panic capture and a hang watchdog", "All rays of all kinds for the too-few case, all small-integer 3x3 blocks, and all placements of NaN, infinities, zeros and extreme magnitudes into the cells of every fallible operation's input."),
 "C12": (T, "Exhaustive over poses (including centers at the origin and principal planes through it) x intrinsics x homogeneous points, with the documented pinhole model as oracle."),
 "C13": ("exhaustive enumeration of camera matrices on the real crate", "All matrices of the listed families x scales of either sign whose row-normalised condition is in range; oracle is the matrix itself (projection, null point) and an independent decomposition."),
 "C14": ("exhaustive enumeration of all subsets of deviating cells on the real crate", "Every non-empty subset of the seven required cells x deviation values including NaN, infinities and opposite signs, over several parameter sets."),
 "C15": (T, "Exhaustive over poses x intrinsics x points; every order of points through one cache; oracle is the analytic derivative in double-double."),
 "C16": ("exhaustive enumeration of operations x storages x row counts x poison placements on the real crate", "Every row is compared bit for bit with the same row computed alone; poison (NaN, infinities) is put at every row of the small batches."),
})
NOTES.update({
 "C18": ("exhaustive enumeration of serializable values x format behaviours x serialize/deserialize chains on the real crate", "A scripted serde format (map or sequence, every order of the fields, by name or by index) drives the visitors; every observable operation of the revived value is compared bit for bit with the original."),
 "C19": ("exhaustive enumeration of serde event streams and injected format errors on the real crate", "All field streams up to the length bound (missing, duplicated, unknown, short and long sequences, malformed and non-finite values) and, for each, a format error at every event."),
 "C20": ("exhaustive enumeration of call histories and of interleavings up to two preemptions at arithmetic-operation granularity, on the real crate under a controlled scheduler", "Every history up to the depth bound in a fresh process; the scheduler preempts at each scalar operation, clone and comparison, so shared state written between two such points only is not split."),
 "C21": ("exhaustive enumeration of operations x static shapes x values on the real crate under a counting allocator", "The allocator counts per thread; operations documented to need the heap (multi-ray intersection, dynamic storage) are excluded."),
 "C22": ("exhaustive enumeration of model faults (pixel x coordinate x size) and grids on the real crate", "All grids up to 6x6 (8x8 thorough) with all steps up to 3 and borders that fit, one fault anywhere in or around the grid, all pairs of faults on two grids."),
 "C23": ("exhaustive enumeration of user-supplied intrinsic models x poses x batches on the real crate", "A recording model plays the environment: what it is given and what it answers are both observed; the rays are judged at three distances."),
})
NOTES.update({
 "C17": ("exhaustive enumeration of build configurations x a lattice of operation traces on the real crate", "Twelve configurations (five feature sets and the default, debug and release; three more in thorough) of one client program, which is a true no_std program without std; every output of every operation is compared with the std release build."),
})
NOTES.update({
 "C24": ("exhaustive enumeration of typed client programs of one and two operations, checked by rustc against a typing model", "All applications over the type universe that are right or one argument away from right, all result annotations, all two-operation compositions; the deciding run is the real compiler on the real crate."),
})
