prop('C01', 'Same data and calls give the same results on every platform and build',
     'Loading, querying and running jobs on the same data with the same settings gives the same results on every platform, in every build configuration (target, cargo features, debug assertions) and every run. '
     'All floating point computation uses operations whose result IEEE 754 fixes (+ - * / sqrt, comparisons, rounding, conversions, bit operations) in a fixed order; none goes through the platform: no fused multiply-add, powers, logarithms or trigonometry of std, approximate or machine-specific instructions. '
     'No result depends on the width of usize, the byte order of the machine, the order or seed of a hash map, an address (other than whether two animations are the same one), the clock, the environment, threads, source positions, uninitialised memory or state left by earlier calls outside the objects given. '
     'Apart from opening files, a function does the same in every configuration; debug assertions can only panic.',
     ['inputs', 'schedules', 'histories'], 'for all inputs, all targets, feature combinations and build profiles',
     'Tests run on one machine in one configuration; a platform library call or a configuration-dependent branch gives the same there.',
     ['src/*.rs', 'Cargo.toml'], [('all functions', 'src/*.rs'), ('DeterministicState', 'src/base.rs')],
     technique='whole-crate effect analysis of MIR: classification of every external callee, cast and static; flow of addresses; call-graph reachability of hash-map walks; structural comparison of the MIR of all build configurations',
     note='All functions, constants and statics. Trusted: the compiler, std::simd, glam with core-simd and libm. The sign of min/max of two zeros and NaN bit patterns are outside.')
prop('C03', 'Archives are read in exactly the ozz 0.16 layout',
     'Loading a skeleton, animation or track archive (and reading skeleton or animation metadata) consumes exactly the values of the ozz-animation 0.16 format: the same fields, widths, order and repeat counts, 8-bit ratios exactly when there are at most 255 timepoints, the track step bits as ceil(keys/8) bytes, and nothing after the last field. '
     'Every value read lands in its own destination: element i of each array is the i-th value of that array in the file, joint i gets the i-th name, names are the exact bytes of the file, and counts and durations reported are the stored ones. Archives with zero joints, keys or an empty name load.',
     ['inputs'], 'for every well-formed archive: all counts, names, ratio widths, keyframe values and track types',
     'The repository tests load a dozen fixture files; field order, count arithmetic, width switches (255/256 timepoints, key counts not divisible by 8) and empty assets are never all sampled.',
     ['src/archive.rs', 'src/skeleton.rs', 'src/animation.rs', 'src/track.rs', 'src/math.rs'],
     [('from_archive / read_meta', 'src/skeleton.rs, src/animation.rs, src/track.rs'), ('ArchiveRead impls', 'src/archive.rs, src/animation.rs, src/math.rs')],
     technique='abstract interpretation of MIR: the read structure of each loader (a regular term over read/branch/loop) matched against a grammar of the file format; compile-time layout witnesses',
     note='All paths of the ten loaders, every read and every destination element; loops are matched inductively, so all counts are covered. Trusts the written-down layout, rustc\'s MIR, read_exact and the models of Vec/String/BiHashMap insertion; count arithmetic is over mathematical integers.')

prop('C04', 'A load that cannot succeed returns the matching error',
     'Loading reports success only if every read succeeded in full, the tag and version are the documented ones for that asset type, and every name is valid UTF-8. The first failing step ends the load with its own error: the I/O error kind for a short or failing read, the position of the first bad byte for invalid UTF-8, InvalidTag for a foreign tag, InvalidVersion for another version. '
     'No other condition rejects an archive, the constructors that open and load in one go pass the first error on unchanged, and each error predicate holds for exactly its own variant.',
     ['inputs', 'fault_sequences'], 'for every archive content, truncation point and failing read, and for each asset type',
     'Tests load valid files and one or two wrong ones; the guarantee ranges over every truncation point and every read in the loaders.',
     ['src/archive.rs', 'src/base.rs', 'src/skeleton.rs', 'src/animation.rs', 'src/track.rs', 'src/nodejs.rs'],
     [('error propagation', 'from_archive, read_meta, ArchiveRead::read'), ('OzzError', 'src/base.rs')],
     technique='abstract interpretation of MIR: error-arm analysis on the loaders\' read structure, path enumeration of constructors and predicates',
     note='Every read and conversion in the ten loaders on all paths. Allocation failure and panics on absurd counts are outside (see DESIGN.md).')

prop('C10', 'Archive byte order never changes a loaded value',
     'An archive starting with byte 0 is big-endian, with any other byte little-endian; when that differs from the machine\'s order every multi-byte value in the archive (counts, versions, ratios, keys, floats, indices) is byte-swapped exactly once, otherwise none is, and single bytes, booleans and text never change. A boolean is true for every non-zero byte.',
     ['inputs'], 'for every archive of either byte order, every primitive type and every value read by a loader',
     'All fixtures are little-endian: the swapping paths are never executed by the tests.',
     ['src/endian.rs', 'src/archive.rs'],
     [('Archive::new, endian_swap', 'src/archive.rs'), ('SwapEndian', 'src/endian.rs')],
     technique='abstract interpretation of MIR: byte-order typing of every value read, per primitive and per loader, under both values of the swap flag',
     note='Decided for a little-endian target (x86_64). Trusts std\'s swap_bytes/from_bits.')

prop('C05', 'Jobs run exactly when their documented preconditions hold',
     'A job accepts a configuration (its validation returns true, and running it does work) exactly when every required object is set and borrowable and every buffer is at least as large as the asset and job settings demand, with the documented unit-length and threshold conditions; validation and running agree. '
     'A run on a rejected configuration returns the invalid-job error (or the buffer\'s own access error), and it has written nothing.',
     ['configurations', 'inputs'], 'for every job type and every combination of set/unset objects, buffer lengths, counts, optional streams and settings',
     'Tests try a handful of wrong lengths per job; the guarantee ranges over all lengths, option combinations and the order in which checks and writes happen.',
     ['src/sampling_job.rs', 'src/local_to_model_job.rs', 'src/blending_job.rs', 'src/skinning_job.rs', 'src/track_sampling_job.rs', 'src/track_triggering_job.rs', 'src/ik_aim_job.rs', 'src/ik_two_bone_job.rs', 'src/motion_blending_job.rs', 'src/base.rs'],
     [('validate()', 'every *_job.rs'), ('run() prologue', 'every *_job.rs')],
     technique='abstract interpretation of MIR: must-facts at accepting returns and dominating guards vs a precondition table',
     note='Sound over all paths for integer facts up to wrap-around; both directions (nothing missing, nothing extra) on 65 configuration scenarios. Trusts the table of documented preconditions, rustc\'s MIR and the models of std calls.')

prop('C02', 'Asset and context memory: aligned, disjoint, in bounds, freed as allocated',
     'For all sizes of skeletons, animations and sampling contexts, every array they expose lies entirely inside the one block of memory they own, is aligned for its element type, and overlaps no other array of that object; the sizes and addresses never change after construction. '
     'The block is never requested with size zero, is tested for null before use, is released exactly once, with the same address, size and alignment it was requested with, and a new context exposes no uninitialised memory. No other unsafe operation in the crate can reach memory outside a live value of the right type.',
     ['inputs', 'histories'], 'for every count in an asset\'s metadata, every context size, and every safe public call on these objects',
     'An overlap, short block or mismatched release layout is silent in tests: it needs particular count residues (modulo alignment) or a checking allocator.',
     ['src/skeleton.rs', 'src/animation.rs', 'src/sampling_job.rs', 'src/base.rs', 'src/archive.rs', 'src/math.rs'],
     [('Skeleton::new, Drop', 'src/skeleton.rs'), ('Animation::new, Drop', 'src/animation.rs'), ('SamplingContext::from_inner/new, Drop', 'src/sampling_job.rs')],
     technique='abstract interpretation of MIR: symbolic layout arithmetic (offset/extent of every raw-parts view, all counts) plus an inventory of all unsafe operations; compile-time size/alignment witnesses',
     note='Layout obligations hold for all non-negative counts (no wrap-around of sizes: counts whose total exceeds the address space are outside). Every unsafe operation of four build configurations is enumerated. Does not decide value validity of rkyv-archived bytes.')

prop('C17', 'Local-to-model converts exactly the requested joints, each to parent * local',
     'A run starts at joint max(0, from), or the one after it when from is excluded, and goes through consecutive joints; it ends at the first joint that is past the joint count, past `to`, or (unless it is the included from joint) whose parent comes before from, and only the output elements of the joints gone through change. '
     'Each converted joint\'s output is root * local if it has no parent, otherwise the current output of its parent * local, where local is the translation * rotation * scale matrix of the joint\'s own lane of its own group of four in the input.',
     ['inputs', 'configurations'], 'for every skeleton hierarchy and joint count, every from/to/from_excluded, every root and every input pose',
     'The tests use three small skeletons and a few ranges; the guarantee ranges over all hierarchies, range ends, lane positions and pose values.',
     ['src/local_to_model_job.rs', 'src/math.rs', 'src/skeleton.rs'],
     [('LocalToModelJob::run', 'src/local_to_model_job.rs'), ('SoaMat4::from_affine, to_aos, AosMat4::mul', 'src/math.rs')],
     technique='abstract interpretation of MIR: all loop-free paths between consecutive stores decide the walk; stored lanes normalised to polynomials over the reals and compared with parent * T*R*S',
     note='All paths of run() between stores, all four lanes; from/to arithmetic is over mathematical integers (the saturating adds are modelled as such). Rounding is outside: floats are read as reals. The rotation matrix is that of a unit quaternion, compared as polynomials.')

prop('C07', 'A sampling context is only a cache: history never changes a sampled pose',
     'What a sampling job outputs for an animation and a ratio does not depend on what its context was used for before: not on earlier ratios, their order or distance (forward, backward, jumps over stored snapshots), nor on other animations sampled with it in between, nor on it being new, cleared or larger than needed. '
     'After any run the cached keys, the cursors and the decompressed keys of all three channels agree with each other: every key change marks the group it belongs to, and every marked group is decompressed again before it is used. '
     'Animations are told apart by their address: a context used with another animation object starts over for all channels.',
     ['histories', 'inputs'], 'for every sequence of runs with any ratios and animations on one context',
     'Tests replay a few short ratio sequences; the guarantee quantifies over all histories of a context, including snapshots, rewinds and switches between animations.',
     ['src/sampling_job.rs'], [('SamplingJob::run, step_context, update_cache, initialize_cache, outdate_cache', 'src/sampling_job.rs')],
     technique='abstract interpretation of MIR; loops classified by the tables they write, step relations per path, path enumeration from entry to the cursor loops',
     note='Inductive: holds for tables that come from earlier runs of the same code. Assumes sorted keys and a non-negative snapshot interval, as exported; an animation freed and replaced by another at the same address is outside.')
prop('C08', 'A sampled pose interpolates each track between its two keys around the ratio',
     'For each joint and channel, the sampled value is previous + (next - previous) * (ratio - t0) / (t1 - t0), normalised for rotations, where next is the key the cache holds for that track, previous the key it refers back to, and t0 and t1 the time points of exactly these two keys. '
     'The cache moves forward exactly while the key preceding the next one on its track is not later than the ratio, and backward exactly while it is later, so next is the first key of its track behind the ratio. '
     'Exactly the elements for the animation\'s joints are written, each from its own tracks.',
     ['inputs', 'histories'], 'for every animation, ratio and earlier use of the context',
     'Tests sample tiny animations at a few ratios; the guarantee is about every key layout, group, lane and channel.',
     ['src/sampling_job.rs', 'src/math.rs'], [('SamplingJob::run, update_cache, decompress_float3, decompress_quat, interpolates', 'src/sampling_job.rs')],
     technique='abstract interpretation of MIR; decompression operands compared symbolically per group and lane, interpolation as polynomials over the reals',
     note='All groups, lanes and channels symbolically; floats are read as reals. A snapshot decoder that is not a straight sequence is only checked for what it reads and writes.')
prop('C16', 'Blending is the documented weighted average plus additive layers, per joint',
     'Each joint\'s blended translation and scale are the sums over the layers with a weight above zero of weight * max(joint weight, 0) (weight alone for a layer without joint weights), the rest pose being added with what the accumulated weight falls short of the threshold (per joint once any layer has joint weights, the rest pose alone when no layer contributes), divided by the larger of threshold and accumulated weight; rotations are summed the same way, each flipped to the side of the sum so far, and normalised. '
     'Additive layers then follow in order: a positive weight adds (translation + weight * t, rotation * normalised weighted delta, scale * (1 - weight + weight * s)), a negative one subtracts with the inverse operations, a zero weight does nothing. '
     'Every joint of the skeleton is treated, elements beyond it are not written, and nothing carries over from one run to the next.',
     ['inputs', 'configurations', 'histories'], 'for every number of layers and additive layers, all weights and joint weights (NaN aside), every threshold, pose and earlier use of the context',
     'Tests sample a few weights on one or two joints; the guarantee ranges over layer counts, orders, mixes of layers with and without joint weights, and reuse of a context.',
     ['src/blending_job.rs', 'src/math.rs'],
     [('BlendingJob::run, blend_layers, blend_rest_pose, normalize, add_layers', 'src/blending_job.rs')],
     technique='abstract interpretation of MIR: element loops summarised as old->new maps, composed along loop-free paths and normalised to polynomials over the reals; carried counters checked inductively',
     note='All layer counts (induction over the layer loops), all paths, all four lanes. Floats are read as reals, NaN is outside; sgn(0) is not distinguished.')
prop('C15', 'Skinned vertices are the documented weighted matrix sums',
     'For every vertex below the vertex count, the output position is the input position transformed as a point by sum_j w_j M_{i_j} + (1 - sum_j w_j) M_{i_last}, w_j being the influences_count - 1 weights and i_j the influences_count joint indices of that vertex (a single influence uses its matrix unweighted); normals and tangents, when given, are transformed the same way as directions, by the inverse transpose matrices instead when those are set. '
     'This is the same for every influence count, including zero weights, weights that sum above one and negative remainders; elements of the outputs beyond the vertex count are not written. '
     'A vertex influenced by a joint index without a matrix makes the run fail with an error.',
     ['inputs', 'configurations'], 'for every number of influences and vertices, every choice of normals, tangents and inverse transposes, all indices, weights and matrices',
     'Tests run one small mesh per variant; there are 25 generated variants (influences 1-4 and n, with and without normals, tangents, inverse transposes) and the n-influence loop is parametric.',
     ['src/skinning_job.rs'], [('SkinningJob::run and its generated variants', 'src/skinning_job.rs')],
     technique='abstract interpretation of MIR per configuration: vertex loop as a map, influence loops as sums in closed form, polynomials over the reals',
     note='30 scenarios; five and more influences are one symbolic scenario. Floats are read as reals.')
prop('C18', 'Track sampling returns the key or interpolated value at the ratio',
     'Sampling a track (keys sorted by ratio, the first at 0) yields the default value when it has no key, the first key for a ratio below 0 and the last key for a ratio above 1. '
     'Otherwise, with k the last key whose ratio is not greater than the sampled ratio, it yields exactly the value of key k if k is the last key or its step bit (bit k % 8 of step byte k / 8) is set, and else the linear interpolation value_k + (value_{k+1} - value_k) * (ratio - ratio_k) / (ratio_{k+1} - ratio_k) - for quaternion tracks the normalised shortest-path lerp. '
     'Every successful run sets the result, so nothing of an earlier run remains, and a failing run leaves it as it was.',
     ['inputs', 'histories'], 'for every track (any number of keys and value type), every step pattern and ratio, whatever the job sampled before',
     'Tests sample tracks of up to eight keys at chosen ratios; the guarantee is about every key count, bit position and ratio.',
     ['src/track_sampling_job.rs', 'src/track.rs'], [('TrackSamplingJob::run', 'src/track_sampling_job.rs'), ('TrackValue::lerp', 'src/track.rs')],
     technique='abstract interpretation of MIR: search loop summarised from a symbolic round, every path to a result compared with the definition, formulas as polynomials over the reals',
     note='All paths. Floats are read as reals; NaN ratios are outside.')
prop('C20', 'Skeleton walks visit exactly the right joints, and queries answer from the data',
     'A depth-first walk from joint j calls the visitor once for j (joint 0 if j is negative) and then for each following joint in order up to, not including, the first one whose parent is before j, or the end; '
     'the reverse walk visits all joints from the last to the first; each visit gets the joint and exactly the parent stored for it. '
     'A joint is a leaf exactly when it is the last one or the next joint has another parent; name and index lookups answer from the name table alone, the parent query gives the stored parent, '
     'the aligned joint count is the count rounded up to fours, and an index means the same joint whichever integer type it is given in.',
     ['inputs'], 'for every hierarchy, start joint and index type',
     'Tests walk one small skeleton with a single root; the guarantee is about every hierarchy, several roots, negative and last joints included.',
     ['src/skeleton.rs', 'src/base.rs'], [('Skeleton::iter_depth_first', 'src/skeleton.rs'), ('Skeleton::is_leaf', 'src/skeleton.rs'), ('OzzIndex', 'src/base.rs')],
     technique='abstract interpretation of MIR: the walks are cut at the visitor calls and every path between two visits, or to the end, is compared with the definition; queries per return path',
     note='All paths. Joints are stored depth first, as the format demands; the hash map itself is trusted.')
prop('C14', 'Aim IK sets both outputs, to the documented rotation',
     'A successful run of the aim job sets both outputs, whatever they were: with T, P the target and pole vector in joint space, f, o, u the forward, offset and up settings, h = |o|^2 - (f.o)^2 and (the joint matrix being invertible) reached is true exactly when h <= |T|^2, and the correction is identity when not reached or T = 0. '
     'Otherwise the full rotation is Q = Qtwist Qplane Q1: Q1 turns o + (sqrt(|T|^2 - h) - f.o) f to T the shortest way (identity if either length vanishes, a half turn about a perpendicular axis if opposite), Qplane turns about T/|T| by the angle between P x T and (Q1 u) x T towards the pole side (identity if either product is 0), Qtwist turns about T/|T| by the twist angle. '
     'With its sign chosen so that w >= 0, the correction is Q for a weight of 1 or more and else the normalised lerp from identity to Q by max(weight, 0).',
     ['inputs', 'histories'], 'for all settings, including degenerate directions, negative weights, and outputs of earlier runs',
     'Tests run a few poses; which degenerate case, side or clamp a setting falls into decides the result and most combinations are never run.',
     ['src/ik_aim_job.rs', 'src/math.rs'], [('IKAimJob::run', 'src/ik_aim_job.rs'), ('quaternion and vector helpers', 'src/math.rs')],
     technique='abstract interpretation of MIR: every path split into the cases of the comparisons it depends on, outputs compared as normal forms over the reals (represented by prime-field fingerprints)',
     note='All paths and cases. Real arithmetic; NaN, rounding and singular joint matrices are outside; sine and cosine are symbols.')
prop('C09', 'Saved, read back or cloned data is the same in every part',
     'A skeleton, an animation or a sampling context saved through serde or rkyv and read back, or (the context) cloned, has in every part the value it had, for any size: scalars, name, every array with its length and every element, joint names with their indices, the context with its cursors, entries, outdated flags, keys, animation id and ratio. Nothing that was saved is refused on reading back. '
     'The same holds for their elements (packed keys, four-lane vectors, quaternions and transforms, interpolation keys), for tracks and edges: no field is left out or treated differently the two ways, and fixed arrays announce to serde the length and kind (tuple) they are read with. Clones of all cloneable types have every field of the original. '
     'Two contexts, or two values of any type with equality, are equal exactly when all their parts are (the counts following from array lengths).',
     ['inputs', 'histories'], 'for all assets and contexts of any size and contents, and any serde format that keeps field names',
     'Tests save one asset and one context; a part that is dropped, swapped with a neighbour, shortened or defaulted shows only with data in which it matters.',
     ['src/animation.rs', 'src/skeleton.rs', 'src/sampling_job.rs', 'src/math.rs', 'src/track.rs', 'src/track_triggering_job.rs', 'src/blending_job.rs', 'src/motion_blending_job.rs'],
     [('Serialize, Deserialize, Archive, Clone, PartialEq implementations', 'src/*.rs'), ('to_raw, from_raw', 'src/animation.rs, src/skeleton.rs')],
     technique='abstract interpretation of MIR: the map a saving function defines from stored to original parts is composed with the map of the reading function and compared with the identity, part by part; attribute and field rules for derived implementations',
     note='All implementations, builds with serde and with rkyv. The derive macros, the formats and std/rkyv containers are taken as given. A NaN is not equal to itself, as in IEEE.')
prop('C13', 'Job settings read back exactly and independently; the ratio stays in 0..1',
     'For every job and every setting of it, the getter returns exactly what was set last (every component of a vector or matrix), whatever else was set before or after; setting, clearing or taking one changes no other setting and no output; a cleared object is unset, a cleared output is the one of a new job, clear_outs clears all outputs and only those, and taking a context returns it and leaves none. '
     'The sampling ratio alone is stored limited to [0, 1], NaN as 1. A new job has: weight and soften 1, blending threshold 0.1, aim forward x, up and pole vector y, middle axis z, matrices and corrections identity, from -1, to 1024, an empty blending context, and all other settings and outputs zero, false, empty or unset. A blending layer and an edge are made of exactly the parts given, the layer with weight 0 and no joint weights unless given.',
     ['inputs', 'histories'], 'for all jobs, all their settings, all values and all orders of calls',
     'Tests set what one run needs; a setter that drops a lane, stores into its neighbour or lets NaN through shows only in the combination concerned.',
     ['src/sampling_job.rs', 'src/blending_job.rs', 'src/ik_aim_job.rs', 'src/ik_two_bone_job.rs', 'src/skinning_job.rs', 'src/local_to_model_job.rs', 'src/track_sampling_job.rs', 'src/track_triggering_job.rs', 'src/motion_blending_job.rs'],
     [('getters, setters, clear_*, take_context, Default of the jobs', 'src/*_job.rs')],
     technique='abstract interpretation of MIR: the memory each mutating accessor leaves is handed to each getter and the composition compared symbolically; frame by disjointness of places',
     note='All accessors of all nine jobs.')
prop('C23', 'Two-bone IK sets its three outputs, to the documented rotations',
     'A successful run of the two-bone job sets all three outputs, whatever they were: for a weight of 0 or below both corrections are identity and reached is false; else, with bone lengths a, b, target distance t in the space of the start joint and d = (a + b) clamp(soften, 0, 1), reached is true exactly when |a - b| < t <= d and weight >= 1, and beyond d (when d < a + b) the target is pulled in to distance a + b - (a + b - d) (3 / (3 + (t - d) / (a + b - d)))^4. '
     'The middle rotation turns about mid_axis by the law-of-cosines angle for the pulled-in distance minus the present one (negated when the bones bend to the other side of mid_axis); the start rotation turns the resulting end to the target the shortest way, then (target not at the start) about the target direction by the angle between target x pole and the turned mid axis, to the pole side, then by the twist angle. '
     'Each correction, its sign chosen so that w >= 0, is the full rotation for a weight of 1 or more and else the normalised lerp from identity to it by the weight.',
     ['inputs', 'histories'], 'for all settings with invertible joint matrices, including degenerate ones, partial weights, and outputs of earlier runs',
     'Tests run a few chains; which softening, side or degenerate case a setting falls into decides the result and most combinations are never run.',
     ['src/ik_two_bone_job.rs', 'src/math.rs'], [('IKTwoBoneJob::run', 'src/ik_two_bone_job.rs'), ('quaternion and vector helpers', 'src/math.rs')],
     technique='abstract interpretation of MIR: every path split into the cases of the comparisons it depends on, outputs compared as normal forms over the reals (represented by prime-field fingerprints)',
     note='All paths and cases. Real arithmetic; NaN, rounding and singular joint matrices are outside; sine, cosine and arc sine are symbols.')
prop('C22', 'Pose math types compute their component-wise and lane-wise definitions',
     'On four-lane vectors, quaternions and transforms: constructors and splats put each value in its component (and in every lane), the named constants have the values they name, reading lane k gives the components of lane k, and setting lane k changes lane k of every component to the given value and nothing else. '
     'Negation, addition, subtraction, multiplication by a number, and/or/xor with a bit mask, conjugate, dot, quaternion product (Hamilton, left times right), normalize (q / |q|) and lerp (a + (b - a) t, t as given) and nlerp (the same then normalised, no sign change) are computed for each lane from that lane only. '
     'Making w positive negates all four components of exactly the lanes with w < 0.',
     ['inputs'], 'for all values of all components and every lane',
     'Tests compute a few values with equal lanes; a swapped component or lane in one of about sixty operations shows only for the lane and component concerned.',
     ['src/math.rs'], [('SoaVec3, SoaQuat, SoaTransform: inherent impls', 'src/math.rs')],
     technique='abstract interpretation of MIR: each lane of each result as a polynomial over argument lanes (bit patterns followed separately), compared with the definition',
     note='All public operations and constants. Real arithmetic instead of rounding; NaN outside.')
prop('C21', 'Compressed animation keys decompress to the documented values',
     'A translation or scale key is three half floats and decompresses to exactly their values: zeros and subnormals, every finite number, infinities of either sign, NaN for any exponent-31 pattern with a mantissa. '
     'A rotation key is a 48-bit number whose bits 0-1 name one component, bit 2 is its sign and bits 3-17, 18-32 and 33-47 are the other three components in x, y, z, w order as v * sqrt2/32767 - sqrt2/2; the named component is sqrt(max(0, 1 - sum of the squares of the others)) with that sign. '
     'Decompressing one key, or four keys into the lanes of a vector (key k in lane k), gives these same values for every bit pattern.',
     ['inputs'], 'for every bit pattern of a key, and every combination of left-out components in the four keys of a vector',
     'Tests decompress a handful of keys; there are 2^48 patterns and 256 combinations of named components, and a slip in one mask or shift shows for few of them.',
     ['src/animation.rs', 'src/math.rs'], [('Float3Key / QuaternionKey decompress, simd_decompress', 'src/animation.rs'), ('f16_to_f32, simd_f16_to_f32', 'src/math.rs')],
     technique='abstract interpretation of MIR per case of a finite partition of the key bits: bit-provenance dataflow for integers and bit patterns, polynomials over the reals for floats, compared with the format definition',
     note='All 256 combinations of named components and all half-float classes, other bits symbolic. Rounding of the float arithmetic is outside; scaling a half float by 2^112 is taken as exact.')
prop('C19', 'Motion blending is the normalised weighted sum of its layers',
     'With W, L, T and R the sums over the layers of weight w > 0 (layers of weight 0 or below count for nothing) of w, w|t|, w t/|t| (0 for t = 0) and w q - each rotation q negated when its dot product with the sum of the layers before it is negative - the output translation is T L / (|T| W), or 0 when |T| W = 0, the output rotation is R/|R|, or identity when R = 0, and the output scale is 1. '
     'This holds for every number and order of layers, and every run replaces the whole output and succeeds.',
     ['inputs', 'histories'], 'for every number of layers, all weights (also negative, zero or not normalised) and deltas',
     'Tests blend two layers; the guarantee is about every number of layers and every mix of zero, negative and opposed ones.',
     ['src/motion_blending_job.rs'], [('MotionBlendingJob::run', 'src/motion_blending_job.rs')],
     technique='abstract interpretation of MIR: loop-carried variables identified with the sums of the definition by induction over one symbolic round, results compared as polynomials over the reals',
     note='All layer counts, all paths. Floats are read as reals; NaN and overflow are outside. Trusts glam\'s vector operations.')
prop('C06', 'Running, validating and querying change nothing but the outputs',
     'Running a job changes only its outputs: the buffers it borrows from its output objects, its output values (IK corrections and reached, sampled track value, blended motion), and what lies behind the context of a sampling or blending job. No setting, layer, range, input pose, skeleton, animation or track is changed, reordered or emptied, and its objects (animation, context, outputs) stay set, whether the run succeeds or fails; so the same job can be run again, and inputs can be shared with other jobs. '
     'validate() and every function taking its argument by shared reference (all queries of skeletons, animations, tracks, contexts) change nothing at all: no object of the crate has state that can change behind a shared reference.',
     ['inputs', 'histories'], 'for all settings and contents of the objects, on success and failure',
     'Tests set up a job, run it and look at the output; a setting narrowed or a layer reordered by a run shows only in a later run with other data.',
     ['src/sampling_job.rs', 'src/blending_job.rs', 'src/ik_aim_job.rs', 'src/ik_two_bone_job.rs', 'src/skinning_job.rs', 'src/local_to_model_job.rs', 'src/track_sampling_job.rs', 'src/track_triggering_job.rs', 'src/motion_blending_job.rs', 'src/skeleton.rs', 'src/animation.rs', 'src/track.rs'],
     [('run, validate of the jobs', 'src/*_job.rs'), ('all functions with shared arguments', 'src/*.rs')],
     technique='effect analysis on MIR: every store through a reference or pointer and every mutable borrow given away is traced back to the origins of its pointer, which must be an output, behind the context, or fresh memory',
     note='All stores of all functions, with everything of the crate inlined into each job. Buffers are taken not to share memory; functions outside the crate to change only what they are given mutably.')
prop('C11', 'Views and jobs cannot outlive their data; thread sharing is sound',
     'Safe code cannot misuse what the crate lends. A slice, string, reference or iterator that a method of Skeleton, Animation, Track, SamplingContext, BlendingContext, a job or a blending layer gives out cannot be used after that object is gone, nor while it is changed: such a program is refused by the compiler, the same program in the right order accepted. A job of references cannot outlive what it refers to; its context and output buffers cannot be read or changed by others as long as the job is in use; a trigger iterator keeps its job and track borrowed. '
     'Skeletons, animations, tracks, contexts, pose values, and the Ref and Arc jobs can be sent to and shared between threads; Rc jobs and Rc buffers can be neither sent nor shared, nor can a job, track or layer holding an Rc, so that no declaration of thread safety covers a parameter that is not thread safe itself.',
     ['inputs', 'schedules'], 'for every program using the public interface, every thread schedule',
     'A test is one program that compiles; this is about programs that must not compile, and a lent slice that lives too long corrupts memory only in the program that keeps it.',
     ['src/skeleton.rs', 'src/animation.rs', 'src/track.rs', 'src/base.rs', 'src/sampling_job.rs', 'src/blending_job.rs', 'src/track_triggering_job.rs'],
     [('all lending functions and their lifetimes', 'src/*.rs'), ('Send, Sync and the unsafe impls', 'src/*.rs')],
     technique='compile-fail and compile-pass witness pairs generated from the signatures in the MIR, judged by the compiler\'s borrow and trait checking; a lint on signatures of functions with unsafe code and on unsafe impls',
     note='Every lending method of 13 types, 17 job setters, 43 thread facts. Soundness of unsafe bodies is C01, C03 and C04.')
prop('C12', 'Holders give their whole content; buffers are borrowed once at a time',
     'Owned values, references, Rc and Arc give exactly the object they hold; owned vectors, slices, Rc<RefCell> and Arc<RwLock> buffers give the whole buffer, for reading and for writing. A lock is waited for, never tried or bypassed; a poisoned lock is OzzError::LockPoison, not a panic or data, and a job that meets one returns this error; other holders do not fail. '
     'Every job (and its validation) borrows a buffer at most once at a time, so that shared and cell-backed buffers neither deadlock nor panic, and gives every borrow back before it returns, whether it succeeds or fails, so that it can be run again. '
     'Every job runs with references, Rc and Arc, and with holders written outside the crate.',
     ['inputs', 'schedules', 'histories'], 'for every kind of holder, thread schedule and history of poisoned locks',
     'Tests use unlocked buffers on one thread; a second read of a lock blocks only when a writer waits between, and a poisoned lock needs a thread that died.',
     ['src/base.rs', 'src/sampling_job.rs', 'src/blending_job.rs', 'src/skinning_job.rs', 'src/local_to_model_job.rs', 'src/track_sampling_job.rs', 'src/track_triggering_job.rs'],
     [('OzzObj, OzzBuf, OzzMutBuf and their implementations', 'src/base.rs'), ('run, validate of the jobs', 'src/*_job.rs')],
     technique='typestate of buffer guards over MIR control flow (acquire to drop, everything of the crate inlined); abstract interpretation of each holder; type-checked witness programs for the aliases and foreign holders',
     note='All holder implementations, all acquisitions in all jobs. Layers of one list are not told apart. RefCell and RwLock are trusted.')
prop('C24', 'Track triggering yields each threshold crossing in range once, in order',
     'Running the trigger job yields an iterator. For from < to it goes through the repetitions o = floor(from), o + 1, ... below `to`, and in each through the keys i = 0, 1, ...; for from > to through o = floor(from), o - 1, ... as long as o + 1 > to, and the keys from the last to the first; for from = to it yields nothing. '
     'At key i it looks at the key before it (the last key, before the first): an edge is where one value is at most and the other above the threshold, rising if the later value is the one above, and the other way round when going backward. Its ratio is o plus: the ratio of key i if the key before is a step, 0 for the first key, else the place where the line between both values meets the threshold. '
     'It is yielded exactly if it is at least the lower limit of the range and either below the upper one or the upper limit reaches o + 1. No such edge is passed over, yielded twice or out of turn, also when the iterator is stopped and resumed; after the end the iterator stays at its end. Keys behind the far limit may be skipped.',
     ['inputs', 'histories'], 'for every track, threshold and range in either direction, over any number of repetitions',
     'Tests walk a few tracks over a few ranges; limits that fall on a key, steps at the wrap from last to first key and ranges over several repetitions each show one slip only.',
     ['src/track_triggering_job.rs'], [('TrackTriggeringJob::run, TrackTriggeringIter', 'src/track_triggering_job.rs')],
     technique='abstract interpretation of MIR: the iterator as a state machine; every path between loop heads from an arbitrary state, split into the cases of its comparisons, simulated by steps of the definition',
     note='All paths and cases, any position. Sorted keys; floats read as reals, NaN and positions beyond 2^24 (where o + 1 = o) outside.')
