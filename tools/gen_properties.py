#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here so that it can be edited as text)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/torchrir/"

prop("C01", "The image-source set is exactly the requested lattice set, once each, mirrored",
 "For a box room of 2 or 3 dimensions a simulation uses exactly the integer index vectors whose absolute components sum to at most the reflection order (or, when per-axis image counts are given, exactly the vectors bounded per axis by those counts), each exactly once. The image of index n lies, on every axis, at n·L + s when n is even and at (n+1)·L − s when n is odd, for room side L and source coordinate s.",
 ["inputs", "configurations"], "every reflection order, per-axis count tuple, room size and source position, in 2-D and 3-D",
 "The tests look at one or two small orders; a lattice set that loses or duplicates members only for larger orders, odd negative indices or unequal per-axis counts passes them.",
 [S+"sim/ism/images.py", S+"sim/ism/api.py"],
 [("lattice enumeration and L1 mask", S+"sim/ism/images.py:_image_source_indices"), ("mirror formula", S+"sim/ism/images.py:_image_positions, _image_positions_batch"), ("trajectory form of the mirror formula", S+"sim/ism/contributions.py:_compute_image_contributions_time_batch")],
 observe=["torchrir.sim.simulate_rir result"])

prop("C02", "Reflection gain is the product of the wall coefficients hit, in wall order",
 "The reflection gain of image index n is the product over axes of (lower-wall coefficient)^(lower bounces) × (upper-wall coefficient)^(upper bounces), with walls ordered lower/upper x, lower/upper y, lower/upper z. A non-negative index n bounces ceil(n/2) times off the upper wall and floor(n/2) times off the lower one, a negative index the mirror image of that. Hence the direct path has gain 1 and, for coefficients in [0,1], every gain lies in [0,1] and never grows with a coefficient reduced.",
 ["inputs", "configurations"], "every index vector and every set of wall coefficients, 2-D and 3-D",
 "Tests use equal coefficients on all walls or order 1, so swapping the walls, the axes or the bounce counts is invisible.",
 [S+"sim/ism/images.py", S+"sim/ism/helpers.py"],
 [("per-axis bounce counts and product", S+"sim/ism/images.py:_reflection_coefficients"), ("choice of coefficients (explicit, from T60, or rigid)", S+"sim/ism/helpers.py:_resolve_beta")])

prop("C03", "Every arrival has delay distance/c and gain reflection × directivity / distance",
 "For every image, source and microphone the arrival is placed at sample distance·fs/c plus the fixed filter centre offset (L−1)/2 of the fractional-delay length L, with amplitude reflection gain × source directivity gain × microphone directivity gain ÷ distance (distance bounded below by 1e-6). The source gain uses the angle between the source orientation and the direction to the microphone, the microphone gain the angle between the microphone orientation and the direction to the image. The single-source, multi-source and trajectory forms compute the same values.",
 ["inputs", "configurations"], "all positions, rooms, sound speeds, sampling rates, filter lengths, patterns and orientations (per-entity or shared)",
 "Tests check a few peak positions with tolerance and mostly omni patterns; a wrong sign, broadcast axis or missing factor for one form or one orientation layout is not sampled.",
 [S+"sim/ism/contributions.py", S+"sim/ism/helpers.py"],
 [("arrival computation, three forms", S+"sim/ism/contributions.py"), ("cosine between direction and orientation", S+"sim/ism/helpers.py:_cos_between")])

prop("C04", "An arrival deposits exactly its windowed-sinc taps, nothing leaks or wraps",
 "An arrival at real sample position p with amplitude a adds a·w(k)·h(k − (L−1)/2 − frac(p)) to output samples floor(p) − (L−1)/2 + k for k = 0..L−1 of its own source/microphone pair, and nothing anywhere else; taps falling before the start or after the end are dropped. w is the symmetric Hann window of length L and h is sinc, or, in table mode, its linear interpolation on a grid of the configured granularity. The result does not depend on the processing chunk size nor on which filter settings were used by earlier calls.",
 ["inputs", "configurations", "histories"], "all arrival positions (including far outside the response), amplitudes, filter lengths, granularities, chunk sizes, shapes and prior call histories",
 "Tests compare a couple of configurations; boundary taps, table brackets, flattened index wrap-around and cache keys need inputs they never use.",
 [S+"sim/ism/accumulate.py"],
 [("chunked scatter accumulation", S+"sim/ism/accumulate.py:_accumulate_rir_batch_impl"), ("filter, window and table caches", S+"sim/ism/accumulate.py:_get_sinc_lut, _get_fdl_window, _get_fdl_grid, _get_fdl_offsets")],
 state=[("filter caches", "memoised grids, windows and tables keyed by settings", S+"sim/ism/accumulate.py")])

prop("C05", "A static response is the superposition of all images, pair by pair",
 "With the high-pass filter and diffuse tail off, the static response of source s and microphone m is the sum over the whole image set of that pair's arrivals, with shape (sources, microphones, samples). It depends only on that source, that microphone and the room: other sources and microphones never influence it. It is independent of both processing chunk sizes.",
 ["inputs", "configurations"], "all rooms, numbers of sources/microphones, orders, response lengths and chunk sizes",
 "Tests run a handful of scenes that fit in one chunk; an off-by-one at a chunk seam or cross-talk between pairs appears only for image counts and sizes they do not use.",
 [S+"sim/ism/api.py", S+"sim/ism/accumulate.py", S+"sim/ism/contributions.py"],
 [("image chunk loop", S+"sim/ism/api.py:simulate_rir"), ("accumulation", S+"sim/ism/accumulate.py")])

prop("C06", "Each time step of a dynamic simulation equals the static simulation there",
 "Time step k of a dynamic simulation equals the static simulation with sources and microphones at their step-k positions and the same room, orientation and settings, for every step, source and microphone. The result has shape (steps, sources, microphones, samples), and a trajectory given without an entity axis means one entity.",
 ["inputs", "configurations"], "all trajectories, numbers of steps/sources/microphones, orders, patterns and chunk sizes",
 "Tests compare a few steps with one source and microphone; mixing of time and source axes needs several of each.",
 [S+"sim/ism/api.py", S+"sim/ism/contributions.py", S+"sim/ism/prepare.py"],
 [("trajectory image loop with flattened time/source axes", S+"sim/ism/api.py:simulate_dynamic_rir"), ("trajectory contributions", S+"sim/ism/contributions.py:_compute_image_contributions_time_batch")])

prop("C07", "Omnidirectional responses are reciprocal",
 "With omnidirectional sources and microphones, exchanging the source and microphone positions leaves the response unchanged, for any wall coefficients, order, per-axis image counts and room.",
 ["inputs", "configurations"], "all source/microphone position pairs, wall coefficients, orders and rooms",
 "No test checks it, and it constrains image set, reflection gains and delays jointly for every lattice index.",
 [S+"sim/ism/images.py", S+"sim/ism/contributions.py", S+"sim/ism/api.py"],
 [("image positions, gains and superposition", S+"sim/ism/api.py:simulate_rir")])

prop("C08", "The diffuse tail leaves the early part alone and is reproducible",
 "With the high-pass filter off, when a diffuse start time below the given duration is given, samples before that time are exactly those of the simulation without it, and later samples are seeded Gaussian noise shaped by an exponential decay at the Sabine T60 of the room and scaled by the last early sample of the same pair. Equal seeds give equal tails regardless of any other random-number use, and the caller's random state is not touched. A start time at or before the first sample changes nothing.",
 ["inputs", "configurations", "histories"], "all start times, durations, seeds, rooms and prior random state",
 "Tests check one seed and one start time; boundary starts, other pairs, infinite T60 and generator state are not explored.",
 [S+"sim/ism/diffuse.py", S+"sim/ism/api.py"],
 [("tail synthesis", S+"sim/ism/diffuse.py:_apply_diffuse_tail"), ("activation condition", S+"sim/ism/api.py:simulate_rir")])

prop("C09", "High-pass filtering is a per-response linear filter that can be switched off",
 "With filtering disabled the responses are returned unchanged; enabled, each response is zero-phase filtered along time on its own by the configured high-pass design, keeping shape, dtype and device. A cutoff not strictly between 0 and half the sampling rate is rejected, and unset design parameters take their documented defaults.",
 ["inputs", "configurations"], "all response tensors, sampling rates, cutoffs and design options",
 "Tests filter one array with default settings; axis mix-ups, dtype loss and cutoff limits on other inputs are not reached.",
 [S+"sim/ism/hpf.py"],
 [("filter design and application", S+"sim/ism/hpf.py:apply_rir_hpf, _design_hpf_sos")])

prop("C10", "Settings resolve predictably: explicit, config, default; bad ones rejected",
 "For every simulation an explicit device, order, duration or directivity wins over the configuration's value, which wins over the default; the number of samples is the explicit count or else ceil(duration × sampling rate). Invalid settings (negative order, non-positive length, duration, chunk sizes, granularity, rates, even filter length, missing order or length) raise an error instead of producing a response. A simulator object whose order or duration contradicts the configuration refuses to run, and otherwise returns exactly what the functional interface returns for its scene.",
 ["inputs", "configurations"], "all combinations of explicit arguments, configuration values and missing values",
 "Tests sample a few combinations; precedence and validation must hold for the full product of present/absent/valid/invalid values.",
 [S+"config.py", S+"sim/ism/validate.py", S+"sim/simulators.py", S+"sim/ism/api.py"],
 [("configuration validation", S+"config.py:SimulationConfig.validate"), ("precedence", S+"sim/ism/validate.py:_resolve_config, _validate_static_args, _validate_dynamic_args"), ("conflict check", S+"sim/simulators.py:_ensure_no_conflict")])

prop("C11", "Computations never modify their inputs nor the process-wide random state",
 "Simulation, convolution, geometry, directivity, acoustics and metadata operations leave every tensor and container passed to them unchanged, and they neither read nor advance process-wide random generators. Repeating a call with equal arguments gives an equal result whatever other calls were made in between.",
 ["inputs", "histories"], "all arguments of those operations and all interleaved histories of other calls",
 "Tests check outputs, hardly ever that inputs stay as they were, and never with arbitrary earlier calls filling the caches.",
 [S+"sim/ism/api.py", S+"sim/ism/accumulate.py", S+"sim/ism/diffuse.py", S+"signal/static.py", S+"signal/dynamic.py", S+"geometry/sampling.py", S+"geometry/arrays.py"],
 [("in-place writes only to freshly allocated results", S+"sim/ism/api.py, "+S+"signal/"), ("private generators", S+"sim/ism/diffuse.py")])

prop("C12", "Directivity patterns match their definitions for every name and angle",
 "For every cosine value c in [−1,1]: omnidirectional gives 1, half-omni gives 1 for c>0 and 0 otherwise, subcardioid 0.75+0.25c, cardioid 0.5+0.5c, hypercardioid 0.25+0.75c, figure-8 c. All aliases and letter cases of a name behave identically, also where patterns are given to a simulation as one name or a (source, microphone) pair; unknown names and wrongly sized pairs are rejected. Every gain is 1 on axis and never exceeds 1 in magnitude.",
 ["inputs", "configurations"], "all angles, all pattern names/aliases/letter cases, single names and pairs",
 "Tests evaluate a few angles and names.",
 [S+"sim/directivity.py", S+"sim/ism/api.py", S+"sim/ism/contributions.py"],
 [("pattern formulas and aliases", S+"sim/directivity.py:directivity_gain"), ("pair normalisation", S+"sim/directivity.py:split_directivity")])

prop("C13", "Orientations become unit vectors with the documented angle conventions",
 "In 2-D an angle a maps to (cos a, sin a); in 3-D an (azimuth, elevation) pair maps to (cos el·cos az, cos el·sin az, sin el); a direction vector maps to itself divided by its length. Every result of a non-degenerate input has unit length and the shape of its batch; inputs that are neither are rejected.",
 ["inputs"], "all angles, vectors and batch shapes in 2-D and 3-D",
 "Tests use a few axis-aligned angles; batch layouts and general angles are not covered.",
 [S+"util/orientation.py"],
 [("conversion", S+"util/orientation.py:orientation_to_unit"), ("normalisation", S+"util/orientation.py:normalize_orientation")])

prop("C14", "A constructed room, source or microphone object is always valid",
 "A room object exists only with 2 or 3 finite, strictly positive sides, positive finite sampling rate and sound speed, at most one of wall coefficients and T60, coefficients finite, in [0,1] and one per wall, and positive finite T60. Source and microphone objects exist only with finite (n, 2) or (n, 3) positions and a finite orientation of a shape allowed for that dimension and count. Valid inputs are always accepted with their values kept, also when given as whole numbers, and replacing fields re-validates.",
 ["inputs"], "all constructor inputs, including NaN, infinities, wrong shapes and integer-typed values",
 "Tests try a few invalid values; NaN, infinities, integer dtypes and shape combinations are mostly untested.",
 [S+"models/room.py", S+"util/tensor.py"],
 [("room validation", S+"models/room.py:Room.__post_init__"), ("position and orientation validation", S+"models/room.py:_normalize_entity_positions, _validate_orientation")])

prop("C15", "A scene object is always internally consistent",
 "A static or dynamic scene exists only if room, sources and microphones share the room's dimension; a dynamic scene also only if both trajectories are finite, have the same number of steps and match the entity counts and dimension. The deprecated combined scene accepts exactly the same static and dynamic combinations, rejects half-specified trajectories, and converts to the matching scene kind without changing its contents.",
 ["inputs", "configurations"], "all combinations of entity counts, dimensions, trajectory ranks, lengths and missing parts",
 "Tests try a handful of mismatches.",
 [S+"models/scene.py", S+"sim/simulators.py"],
 [("entity and trajectory validation", S+"models/scene.py:_validate_scene_entities, _validate_traj"), ("conversion", S+"models/scene.py:Scene.to_static_scene, Scene.to_dynamic_scene")])

prop("C16", "Sabine conversions are physically consistent and mutually inverse",
 "Reflection coefficients estimated from a T60 are equal on all walls, lie in [0,1), and give back that T60 (within the absorption cap) when converted again; T60 from coefficients follows Sabine with each wall weighted by its own area, is infinite exactly when nothing is absorbed. Attenuation-to-time is linear in dB with 60 dB at T60, and the image count per axis for a duration is the smallest integer at least duration × speed ÷ side. Non-positive T60s, attenuations and durations are rejected.",
 ["inputs"], "all room sizes (2-D, 3-D), T60s, coefficient sets, attenuations and durations",
 "Tests round-trip one room; unequal walls, the cap and 2-D rooms are not systematically covered.",
 [S+"util/acoustics.py"],
 [("conversions", S+"util/acoustics.py")])

prop("C17", "Static convolution is the exact full linear convolution, summed over sources",
 "Convolving N samples with an M-sample response gives exactly N+M−1 samples of full linear convolution, for every N and M. With several sources each microphone output is the sum over sources of signal s convolved with response (s, microphone); a single signal is applied to every source; a source-count mismatch is rejected. One microphone gives a 1-D result, several a (microphones, samples) result.",
 ["inputs"], "all signal/response lengths, source and microphone counts and accepted shapes",
 "Tests compare a few lengths; transform length choice, trimming and source/microphone pairing must hold for all.",
 [S+"signal/static.py", S+"signal/internal.py"],
 [("FFT convolution", S+"signal/static.py:fft_convolve"), ("source/microphone loop", S+"signal/static.py:convolve_rir"), ("shape normalisation", S+"signal/internal.py")])

prop("C18", "Trajectory convolution uses every sample once, with the response of its segment",
 "In trajectory mode input sample n is convolved exactly once, with the response of the segment it falls in, and all contributions are added at their natural positions, giving N+M−1 samples per microphone. Segment k starts at floor(k·N/T) samples, or at floor(timestamp_k × fs) when (non-decreasing, starting at 0, inside the signal) timestamps are given; a missing rate, a non-zero first timestamp, a wrong count or a signal count other than one or the number of sources is rejected. The looped and the batched accelerator path compute the same, and constant responses give the static convolution.",
 ["inputs", "configurations"], "all signal lengths, step counts (also more steps than samples), response lengths, source/microphone counts, timestamps",
 "Tests use short regular cases on the CPU path; empty segments, uneven partitions, chunk seams and the batched path are barely touched.",
 [S+"signal/dynamic.py", S+"signal/internal.py"],
 [("segment loop", S+"signal/dynamic.py:_convolve_dynamic_rir_trajectory"), ("batched path", S+"signal/dynamic.py:_convolve_dynamic_rir_trajectory_batched")])

prop("C19", "Hop convolution cuts the signal into hop-sized frames and overlap-adds them",
 "In hop mode the signal is cut into consecutive frames of hop samples, frame k of every source is convolved with the k-th response and added at sample k·hop, for as many frames as there are both signal and responses. The output has (frames·hop + M − 1) samples per microphone and equals the sum over sources of the per-source results. A single signal is applied to every source; a missing or non-positive hop, an unknown mode or another signal count is rejected.",
 ["inputs", "configurations"], "all hops, signal lengths, step counts, response lengths, source/microphone counts",
 "Tests use one hop and matching lengths; partial last frames, too few or too many responses and several sources vary independently.",
 [S+"signal/dynamic.py"],
 [("hop loop", S+"signal/dynamic.py:_convolve_dynamic_rir_hop"), ("mode dispatch", S+"signal/dynamic.py:DynamicConvolver.convolve")])

prop("C20", "Array layouts have the geometry they promise around their centre",
 "Linear arrays are equally spaced by the given spacing along the requested axis or direction and centred on the centre; circular arrays lie at the given radius, at equal angles, in the requested plane or perpendicular to the given normal; polyhedron arrays are the vertices of the regular solid of their kind and spherical arrays have the microphone count of their kind, every microphone at the given radius and no two at the same place; the binaural pair sits at ±offset along x. This holds for every centre, count, direction and normal, also when the centre is given in whole numbers, and invalid counts, sizes, axes, planes, kinds or dimensions are rejected.",
 ["inputs"], "all centres, counts, spacings, radii, axes, directions, normals and kinds",
 "Tests check shapes and a few distances; special directions and integer centres break the geometry without failing them.",
 [S+"geometry/arrays.py"],
 [("layout formulas", S+"geometry/arrays.py"), ("basis from normal", S+"geometry/arrays.py:_basis_from_normal")])

prop("C21", "Sampled and clamped positions respect the room margins and constraints",
 "For every room at least twice the margin wide, the samplers return the requested number of positions, all inside the room by the margin (and inside the height range when it is feasible), at least the minimum distance from the given centre where one is requested, or fail with an error. They depend only on the generator passed in. Clamping returns the nearest point inside the margins and leaves inside points unchanged.",
 ["inputs", "histories"], "all rooms, margins, counts, height ranges, distances and generator states",
 "Tests draw a few seeded samples.",
 [S+"geometry/sampling.py"],
 [("uniform sampling", S+"geometry/sampling.py:sample_positions, sample_positions_with_z_range"), ("rejection sampling", S+"geometry/sampling.py:sample_positions_min_distance"), ("clamping", S+"geometry/sampling.py:clamp_positions")])

prop("C22", "A linear trajectory starts and ends exactly and moves uniformly",
 "A linear trajectory of T steps has T positions, begins at the start, ends at the end (T > 1), and position k is start + (end − start)·k/(T−1), for any number of entities and dimensions. A single-step trajectory is the start position.",
 ["inputs"], "all start/end points, shapes and step counts including 1",
 "Tests use one start/end pair.",
 [S+"geometry/trajectories.py"],
 [("interpolation", S+"geometry/trajectories.py:linear_trajectory")])

prop("C23", "Audio files are written and read with the promised scaling, layout and gates",
 "Saving with normalisation writes the audio scaled so that its largest magnitude equals the peak (silence stays silence), without it writes the values unchanged; a (channels ≤ 8, samples) array becomes a file with those channels, and the caller's audio is not altered. Loading returns channel 0 as floating samples with the file's rate, warning if channels were dropped. Wav-only entry points reject other formats before touching the disk, an explicit or stored sample subtype is passed to the file, and unknown back-ends are rejected.",
 ["inputs", "configurations"], "all audio tensors (shapes, magnitudes, dtypes), peaks, formats and entry points",
 "Tests round-trip a few short signals through some of the entry points.",
 [S+"io/audio.py", S+"io/__init__.py"],
 [("normalise and write", S+"io/audio.py:_save_audio"), ("read", S+"io/audio.py:_load_audio_data"), ("format gate and back-end choice", S+"io/__init__.py")])

prop("C24", "Scene metadata describes exactly the scene and is always valid JSON data",
 "Scene metadata records the room, positions, trajectories, response shape and time axis (sample k at k/fs) with the exact values given, marks a scene dynamic exactly when it has more than one time step, and always consists of plain JSON data (extra fields being tensors, paths, JSON scalars, or dicts, lists and tuples of these). Its direction-of-arrival angles are azimuth atan2(dy, dx) and elevation atan2(dz, horizontal distance) of source minus microphone for every step, source and microphone; a static entity is repeated over time, and mismatched step counts are rejected. Array centre and spacing are the mean position and the smallest non-zero microphone distance.",
 ["inputs"], "all rooms, positions, trajectories (one, both or none), 2-D/3-D, timestamps and extra fields",
 "Tests check keys and one static/dynamic example.",
 [S+"io/metadata.py", S+"io/outputs.py"],
 [("assembly", S+"io/metadata.py:build_metadata"), ("direction of arrival", S+"io/metadata.py:_compute_doa"), ("serialisation", S+"io/metadata.py:_to_serializable")])

prop("C25", "Archive extraction never writes outside its destination",
 "Extracting a downloaded archive either leaves every written file inside the destination directory or raises without extracting anything. Any member that is a symbolic or hard link, or whose resolved path escapes the destination (absolute path, parent traversal, sibling directory with the same name prefix, or through an existing link), causes rejection of the whole archive, wherever it stands in the archive.",
 ["inputs"], "all archives: any number and order of members with any names and types, any destination",
 "Tests try one traversal and one link member.",
 [S+"datasets/_archive.py"],
 [("member check before extraction", S+"datasets/_archive.py:safe_extractall")])

prop("C26", "A download leaves either the complete file or nothing, and retries boundedly",
 "A download that returns leaves the complete file at its destination; if any attempt fails (connection error, short read, write error) the destination holds no partial file, the attempt is repeated at most the configured number of times, and the last error is raised. A stale temporary file never contaminates a later attempt. A broken archive is re-downloaded once, an existing archive is not downloaded again and an existing extracted directory is not extracted again, and nothing is fetched unless downloading was requested.",
 ["fault_sequences", "histories"], "all sequences of connection, read and write failures, content sizes and pre-existing files",
 "Tests mock one failure; arbitrary fault sequences at any chunk are not explored.",
 [S+"datasets/cmu_arctic.py", S+"datasets/librispeech.py"],
 [("stream to temporary file, verify, rename", S+"datasets/cmu_arctic.py:_stream_download, "+S+"datasets/librispeech.py:_stream_download"), ("retry", "_download in both"), ("re-download on a broken archive", "_download_and_extract in both")],
 state=[("temporary .part file", "bytes received so far", S+"datasets/*.py:_stream_download")])

prop("C27", "Dataset loaders list exactly the utterances that have audio, with their text",
 "A dataset's available utterances are exactly the transcript entries whose audio file exists, in transcript order, with the identifier and text of the transcript line; indexing item i yields the audio, rate, identifier, text and speaker of the i-th of them, and the length is their number. Unsupported speakers or subsets and missing data are rejected on construction.",
 ["inputs"], "all transcript contents (quotes, spaces, blank lines) and sets of present audio files, for both datasets",
 "Tests build one or two tiny fake datasets.",
 [S+"datasets/base.py", S+"datasets/cmu_arctic.py", S+"datasets/librispeech.py"],
 [("transcript parsing", "_parse_text_line in both loaders"), ("availability filter", "available_sentences in both loaders"), ("indexing", S+"datasets/base.py:BaseDataset.__getitem__")])

prop("C28", "Collation pads without losing, reordering or mixing items",
 "Collating a non-empty batch gives one row per item in order, holding the item's samples followed only by the padding value, row length equal to the longest item, and the true lengths; identifiers, texts, speakers and optional metadata keep their item order. Mixed sampling rates and empty batches are rejected, and the items are not modified.",
 ["inputs"], "all batch sizes, item lengths (including zero and equal), padding values and metadata",
 "Tests collate two items.",
 [S+"datasets/collate.py"],
 [("padding", S+"datasets/collate.py:collate_dataset_items")])

prop("C29", "Fixed-length source signals are whole utterances concatenated and cut to length",
 "Each source signal built for a requested duration has exactly floor(duration × rate) samples and is the concatenation, in the reported order, of whole utterances of its own speaker, cut at the end; no utterance is repeated before all of that speaker's were used, and none beyond what is needed is loaded. Speakers are distinct, mixed rates are rejected, and everything depends only on the generator passed in.",
 ["inputs", "histories"], "all utterance length sequences, durations, speaker counts and generator states",
 "Tests use constant-length fake utterances and one seed.",
 [S+"datasets/utils.py", S+"datasets/dynamic_cmu_arctic.py"],
 [("concatenation loops", S+"datasets/utils.py:load_dataset_sources, "+S+"datasets/dynamic_cmu_arctic.py:_load_fixed_length_signal"), ("speaker choice", S+"datasets/utils.py:choose_speakers")])

prop("C30", "Generated scenes stay in the room, keep distances and obey the motion plan",
 "In generated dynamic scenes exactly the requested number of sources move, on circular arcs around the array centre at constant height with a speed in the requested range, static before and after the movement window; the others never move. Sources start at equally spaced azimuths, at least the minimum distance from the array centre, and all sources stay inside the margins at all steps; random array centres keep the whole array inside the room. Infeasible or contradictory requests raise an error.",
 ["inputs", "histories"], "all room sizes, margins, centres, counts, speeds, ratios, step counts and seeds",
 "Tests draw a few seeds in one room.",
 [S+"datasets/dynamic_cmu_arctic.py"],
 [("placement", S+"datasets/dynamic_cmu_arctic.py:_build_constrained_source_positions, _sample_position_on_azimuth, _max_radius_for_azimuth, _sample_random_mic_center"), ("trajectory", S+"datasets/dynamic_cmu_arctic.py:_build_source_trajectory")])

prop("C31", "Generated audio: the mixture is the sum of its written sources, never clipped",
 "In a generated scene every source file and the mixture share the same length, rate and channel count, the mixture equals the sum of the source files up to file quantisation, and none of them clips: all sources of a scene are scaled by one common factor, which is 1 when nothing would exceed the limit. Existing output is never deleted or overwritten unless overwriting was requested.",
 ["inputs", "histories"], "all numbers, levels and signs of source signals; fresh, existing and non-empty output directories",
 "Tests build one small scene with quiet sources.",
 [S+"datasets/dynamic_cmu_arctic.py"],
 [("common scaling", S+"datasets/dynamic_cmu_arctic.py:_normalize_sources"), ("time/channel layout", S+"datasets/dynamic_cmu_arctic.py:_to_time_channel_audio"), ("output directory guard", S+"datasets/dynamic_cmu_arctic.py:build_dynamic_cmu_arctic_dataset")])

prop("C32", "Devices and dtypes resolve predictably and fall back to the CPU",
 "An explicit device or dtype always wins, otherwise the first tensor argument decides, otherwise CPU and 32-bit floats; \"auto\" takes the first tensor's device, else the first available back-end in preference order. A request for an unavailable accelerator warns and falls back to the CPU; unknown device names are rejected.",
 ["inputs", "configurations"], "all device/dtype arguments, argument tuples and back-end availability combinations",
 "Tests run where only the CPU exists.",
 [S+"util/device.py", S+"util/tensor.py"],
 [("resolution", S+"util/device.py:resolve_device, DeviceSpec.resolve"), ("conversion", S+"util/tensor.py:as_tensor")])

prop("C33", "Attribution notices are complete and complete only",
 "Every attribution file written next to derived audio names dataset, source, licence, licence URL, required attribution and (when given) subset, and lists every modification note in order; attribution data lacking one of the required fields is rejected before anything is written. Each supported dataset reports its own licence data, and unsupported ones are rejected.",
 ["inputs"], "all attribution mappings/objects, note lists and dataset keys",
 "Tests write one notice.",
 [S+"io/outputs.py", S+"datasets/attribution.py"],
 [("notice text", S+"io/outputs.py:save_attribution_file, _coerce_attribution_mapping"), ("dataset table", S+"datasets/attribution.py:attribution_for, default_modification_notes")])

prop("C34", "Trajectory animations show the right positions at the right time",
 "An animation of a T-step scene with stride k has ceil(T/k) frames; frame i shows every source and microphone at step min(i·k, T−1) with the trail up to that step, and its time label is that step's fraction of the duration. A static entity is shown at its fixed position in every frame, a missing rate of frames is chosen so that playback lasts the given duration (rounded to whole frames per second, at least one), and requests without any trajectory or view are rejected.",
 ["inputs", "configurations"], "all step counts, strides, durations, entity counts and 2-D/3-D views",
 "Tests only check that a file appears.",
 [S+"viz/animation.py", S+"viz/utils.py"],
 [("frame function and rate", S+"viz/animation.py:_build_scene_animation"), ("trajectory normalisation", S+"viz/utils.py:_trajectory_to_cpu, _traj_steps")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
