#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

MC = "hermespy/core/pymonte/"
p("C01", "Monte Carlo dispatch hands out each grid section exactly N times",
  "For every simulation grid and requested number of samples, the work batches handed out contain each grid section exactly the requested number of times in total, or fewer only if that section was stopped early, and a section that was stopped or is exhausted is never handed out again. "
  "A batch is empty exactly when no section is left to hand out, so dispatch ends after finitely many batches. "
  "The reported progress always lies between 0 and 1, never decreases, and equals 1 exactly when no section is left.",
  ["configurations", "histories"], "all grid shapes (including the empty grid and single-point dimensions), sample counts, batch sizes and interleavings of batch requests, early stops (also repeated or of exhausted sections) and progress queries",
  "The tests request a few batches of one fixed grid; exact accounting over all histories of stops and requests is a statement about every history.",
  [MC + "actors.py"], [("MonteCarloQueueManager.next_batch / disable_section / query_progress", MC + "actors.py")],
  [("task count per section", "samples handed out", MC + "actors.py"), ("active sections", "sections still to be handed out", MC + "actors.py")],
  ["return values of next_batch, query_progress"])
p("C02", "No Monte Carlo sample is lost or counted twice under any interleaving",
  "When a simulation run returns, every sample of every batch that a worker completed without an error has been merged into the returned results exactly once, and no sample was merged that no worker computed. "
  "This holds for every interleaving of the worker, fetch, collection and driver threads, and the run always terminates. "
  "Without early stopping and without worker errors the results hence hold exactly the requested number of samples for every grid section.",
  ["schedules", "configurations"], "all interleavings (at source-line granularity) of worker run/fetch threads, the collector's run/fetch threads and the driver, over small grids, sample counts and worker counts, with and without failing evaluations and early stops",
  "The tests run the happy path on one scheduler timing; losing in-flight batches needs a particular interleaving.",
  [MC + "actors.py", MC + "monte_carlo.py"], [("MonteCarloActor.run / fetch_results", MC + "actors.py"), ("MonteCarloCollector.run / fetch_results", MC + "actors.py"), ("MonteCarlo.simulate", MC + "monte_carlo.py")],
  [("result list of a worker", "batches computed and not fetched yet", MC + "actors.py")], ["evaluator calls and result merges, via a stand-in for the ray runtime"])
p("C03", "Each Monte Carlo sample is computed at the grid point it is filed under",
  "Every sample filed under a grid coordinate was evaluated while every grid parameter had exactly the value of that coordinate, with every pipeline stage a changed parameter declares to affect re-executed after the change and in stage order. "
  "This holds for every order of sections within and across batches, every declared first and last affected stage, every number of stage argument sets and every order in which dimensions were added. "
  "The coordinates of the returned results refer to the dimensions, in the order, that are returned with them.",
  ["configurations", "histories"], "all grids of up to three dimensions with every stage impact declaration, arbitrary section orders, and end-to-end runs with dimensions added in any order",
  "The tests use a handful of section orders and one impact layout; staleness shows only for particular section transitions.",
  [MC + "actors.py", MC + "grid.py", MC + "monte_carlo.py"], [("stage skipping in the worker's batch loop", MC + "actors.py"), ("GridDimension.configure_point", MC + "grid.py"), ("dimension ordering in MonteCarlo.simulate", MC + "monte_carlo.py")],
  [], ["stage executions, evaluations and returned results"])
p("C04", "Scalar Monte Carlo results are the exact means and stop only when confident",
  "For every grid point the reported scalar estimate is the arithmetic mean of exactly the scalar artifacts merged for that point, independent of merge order and of the other points, and artifacts without a scalar value change nothing. "
  "A stop is signalled only when confidence evaluation was requested, the number of merged scalars of that point is a positive multiple of the configured minimum, and the two-sided normal tail probability of the configured tolerance, given the unbiased sample standard deviation of that point, lies below the configured confidence level; in that situation (with non-zero deviation) it is signalled.",
  ["histories", "inputs"], "all sequences of scalar artifacts, coordinates, minimum sample numbers, tolerances and confidence levels",
  "The tests feed one or two fixed sequences; running-sum mistakes and mixed-up grid points need longer histories.",
  [MC + "scalar.py"], [("ScalarEvaluationResult.add_artifact / to_array", MC + "scalar.py")],
  [("artifact sums and counts per grid point", "running statistics", MC + "scalar.py")], ["return value of add_artifact, to_array, runtime_estimates"])
p("C05", "Recorded drops replay in order, unchanged, and modes gate the operations",
  "Replaying a campaign of a recorded file yields exactly the drops recorded for that campaign, in recording order from the requested start offset on, with the same samples, timestamps and carrier data, and re-notifies the operators with the recorded data, whatever was recorded to other campaigns, in other sessions or files in between. "
  "A scenario is always in exactly one of the modes default, recording or replaying; devices can only be added and recordings only be started in default mode, stopping always returns to default mode, a rejected request leaves mode, counters and campaign unchanged, and the drop counter counts the drops handled since the mode was entered.",
  ["histories"], "all histories of record, drop, stop, replay (with offsets), campaign changes and device additions over several files and campaigns",
  "The tests record a single campaign once and replay it once.",
  ["hermespy/core/scenario.py", "hermespy/core/drop.py", "hermespy/simulation/drop.py", "hermespy/simulation/scenario.py"], [("Scenario.record / replay / stop / drop / campaign", "hermespy/core/scenario.py")],
  [("mode, drop counter, campaign", "recording state machine", "hermespy/core/scenario.py")], ["returned drops, operator callbacks, mode, num_drops, campaign"])
p("C06", "Every device pair is served by exactly the channel it was assigned",
  "For every history of adding devices and assigning channels, the channel reported for a pair of registered devices, in either order, is the one most recently assigned to that pair, or the default channel if none was assigned. "
  "The scenario's channel list contains the default channel and every currently assigned channel exactly once and nothing else, a channel shared between pairs is realized once per drop, and per-device channel queries report exactly the channels of that device's pairs. "
  "Requests naming unregistered devices are rejected and change nothing.",
  ["histories"], "all histories of device additions, assignments, re-assignments (including of the default channel) and queries",
  "The tests set each link once; reassigning, sharing and default reuse interact only over a history.",
  ["hermespy/simulation/scenario.py"], [("SimulationScenario.set_channel / channel / device_channels / realize_channels", "hermespy/simulation/scenario.py")],
  [("link table and channel list", "pair to channel assignment", "hermespy/simulation/scenario.py")], ["channel(), channels, device_channels(), realize_channels()"])
p("C07", "A drop delivers every transmission once over its link to every device",
  "In a simulated drop, the signal impinging on a device from any device of the scenario (itself included) is that device's transmission propagated once over a realization of the channel assigned to the pair, and all pairs and both directions sharing a channel use the same realization of it. "
  "Each receiver finally gets the sum of exactly these contributions at its selected ports, and the drop reports each device's transmissions, impinging signals and receptions under that device. "
  "For ideal channels both directions of a pair carry the same gain.",
  ["configurations", "inputs"], "scenarios of up to four devices with arbitrary channel assignments, gains, port selections and transmitted samples",
  "Tests look at sample counts or single links; which transmission ends up where, exactly once, is a statement over all topologies.",
  ["hermespy/simulation/scenario.py", "hermespy/simulation/simulated_device.py", "hermespy/channel/channel.py", "hermespy/channel/ideal.py"], [("SimulationScenario.propagate / _drop", "hermespy/simulation/scenario.py"), ("SimulatedDevice.process_input", "hermespy/simulation/simulated_device.py")],
  [], ["fields of the returned drop, receiver callbacks"])
p("C08", "Devices sharing a trigger are synchronous; offsets shift samples exactly",
  "In each realization all devices sharing a trigger model obtain the same trigger delay and devices with different trigger models obtain theirs independently; a trigger model serves exactly the devices assigned to it last. "
  "The realized delay is zero for the static trigger, the configured offset for the offset trigger and within one span for the random trigger, and a device that transmits or receives with a trigger delay of k samples sees every sample shifted by exactly k samples with nothing lost before its window.",
  ["histories", "configurations"], "all histories of assigning, sharing and replacing trigger models among devices, all offsets and sampling rates, all delays",
  "Tests check a single model with two devices; reassignment histories and delay conversions between rates are not covered.",
  ["hermespy/simulation/simulated_device.py", "hermespy/simulation/scenario.py"], [("TriggerModel.add_device / remove_device / realize", "hermespy/simulation/simulated_device.py"), ("SimulationScenario.realize_triggers", "hermespy/simulation/scenario.py")],
  [("device list of a trigger model", "which devices share it", "hermespy/simulation/simulated_device.py")], ["realize_triggers(), trigger_model, num_devices, device outputs"])
p("C09", "Device operators and ports are routed without mixing or losing signals",
  "A device's output is, at every antenna port, the sum of exactly the signals its transmitting operators sent to that port in their declared port selection, and each receiving operator obtains exactly the samples of its selected ports in its declared order. "
  "The transmitter and receiver lists contain every added and not removed operator exactly once in insertion order, operators never appear on a list they were removed from, and generating outputs or receptions never changes the operators' own signals.",
  ["histories", "inputs"], "all histories of adding and removing operators, all port selections and transmitted samples of different lengths",
  "Tests use one or two operators on fixed ports; aliasing and port permutations need several operators with different selections and lengths.",
  ["hermespy/core/device.py", "hermespy/core/operators.py"], [("OperatorSlot.add / remove", "hermespy/core/device.py"), ("Device.generate_output / process_input / receive_operators", "hermespy/core/device.py")],
  [("operator slots", "registered operators", "hermespy/core/device.py")], ["device outputs, operator inputs, slot contents"])
p("C10", "Signals behave as one stream matrix, dense or sparse",
  "Superimposing, appending samples or streams, slicing, copying, scaling and converting signals has the same effect as the corresponding operation on the zero-padded matrix of samples, whether the signal is stored densely or as sparse blocks, with delays and stream selections respected. "
  "Operands that are only read keep their samples, offsets and parameters, and the number of streams, samples, the energy and the power reported always equal those of the matrix.",
  ["histories", "inputs"], "all sequences of signal operations on small integer-valued signals with arbitrary block layouts, delays, stream selections and slices",
  "Tests exercise each operation on one or two layouts; overlap patterns of sparse blocks form a large case space.",
  ["hermespy/core/signal_model.py"], [("Signal.superimpose / append_samples / append_streams / getitem / to_dense", "hermespy/core/signal_model.py")],
  [("signal blocks", "offset and samples per block", "hermespy/core/signal_model.py")], ["dense view, num_streams, num_samples, energy, power"])
p("C11", "Precoding chains apply their stages in order and undo them in reverse",
  "A transmit precoding chain encodes by applying its configured stages first to last, a receive chain decodes by applying its own stages first to last, so that for lossless stages a receive chain in mirrored order returns the original signal. "
  "Stages can be added, replaced, removed and queried by position and the chain always consists of exactly the resulting sequence; the numbers of input and output streams reported for a chain equal those its stages really consume and produce, and incompatible stages are rejected.",
  ["histories", "configurations"], "all histories of chain modifications over stages with different stream counts, and all chains up to a small length, for transmit and receive, symbol and stream precoding",
  "Tests use single-stage chains and mocks; ordering and stream bookkeeping only show for chains of non-commuting stages.",
  ["hermespy/core/precoding.py", "hermespy/modem/precoding/symbol_precoding.py", "hermespy/modem/precoding/space_time_block_coding.py"], [("Precoding list operations and stream counting", "hermespy/core/precoding.py")],
  [("stage list", "ordered precoders", "hermespy/core/precoding.py")], ["encode/decode results, stream counts, list contents"])
p("C12", "Poses of linked coordinate frames always equal the product along the chain",
  "For every history of linking, re-linking, unlinking and moving coordinate frames, the global pose of each frame equals the product of the current local poses from its root to itself, its position and orientation agree with that pose, and the backwards pose is its inverse. "
  "No stale value is ever reported after any ancestor moved or was re-linked, and each frame is linked below at most one base.",
  ["histories"], "all histories of set base, move and query over forests of several frames with translations and axis rotations",
  "Tests update one link once; caching faults need a query between a move and a re-link at different depths.",
  ["hermespy/core/transformation.py"], [("TransformableBase / Transformable kinematics cache invalidation", "hermespy/core/transformation.py")],
  [("cached forwards/backwards transformation", "lazy global pose", "hermespy/core/transformation.py")], ["global_position, global_orientation, forwards/backwards transformation"])
p("C13", "Antenna arrays index antennas and ports consistently",
  "For every array layout, the transmitting, receiving and duplex antennas reported and counted are exactly those whose mode allows it, in array order, each antenna belonging to one transmit and one receive port of the same index order. "
  "Topologies list the element positions within the array's own frame, phase responses and array characteristics refer to the same elements in the same order and follow from those positions, and a captured state reports the elements where the array, its device and their poses place them. Uniform arrays place their elements on a regular lattice with the configured dimensions and spacing.",
  ["configurations", "histories"], "all arrays with any mixture of modes, dimensions, spacings, element and array poses, histories of adding and removing antennas and changing modes and poses",
  "Tests use small unrotated arrays; index arithmetic over mixed modes and moved arrays is only exercised in general arrays.",
  ["hermespy/core/antennas.py", "hermespy/simulation/antennas.py"], [("AntennaArray index properties", "hermespy/core/antennas.py"), ("AntennaArrayState", "hermespy/core/antennas.py")],
  [], ["counts, element lists, topologies, phase responses"])
p("C14", "A radio-frequency chain computes its block graph, each block once, in order",
  "Propagating a signal through a chain of radio-frequency blocks applies every block reachable from the input exactly once, each after all blocks feeding it, delivering every connected output port to exactly the input ports it was connected to and the remaining ports in order to the chain's outputs. "
  "Connections that repeat a used input port, name ports that do not exist or create a loop never silently change already established connections.",
  ["configurations", "histories"], "all acyclic block graphs with few blocks and up to three ports per block, built in any connection order",
  "Tests build linear chains and one splitter; graph traversal order and port bookkeeping need general graphs.",
  ["hermespy/simulation/rf/chain.py", "hermespy/simulation/rf/block.py", "hermespy/simulation/rf/signal.py"], [("RFChain.connect / realize / propagate", "hermespy/simulation/rf/chain.py")],
  [("connections between block references", "graph edges", "hermespy/simulation/rf/chain.py")], ["block invocations and their inputs, chain outputs"])
p("C15", "Serialized object graphs are restored unchanged with sharing preserved",
  "Writing arrays, numbers, strings, objects and object sequences to a file and reading them back by name yields equal values, with optional fields falling back to their defaults only when absent, sequences in order with their exact length and sub-ranges selecting the requested elements. "
  "An object referenced from several places is restored as a single shared object, distinct objects are restored as distinct objects, and appending to a sequence or writing another campaign never alters what was stored before.",
  ["histories", "inputs"], "all histories of writes and reads over several files, campaigns and overlapping object graphs, including graphs created and dropped while writing",
  "Tests round-trip one object per file; sharing and identity reuse depend on the whole write history.",
  ["hermespy/core/factory.py"], [("SerializationProcess / DeserializationProcess and their HDF backend", "hermespy/core/factory.py")],
  [("reference cache", "object to stored location", "hermespy/core/factory.py")], ["deserialized values and object identities"])
p("C16", "Simulation components survive a save and load with their configuration",
  "A device, antenna array, antenna, trigger, isolation or coupling model, radio-frequency block, channel, channel realization, waveform, pilot or equalization option, coder, detector, trajectory, signal, transmission or reception that is stored to a file and loaded again reports the same public configuration as the original. "
  "A loaded copy behaves the same: equal inputs give equal outputs.",
  ["configurations"], "all listed component types over randomly chosen valid configurations",
  "Tests round-trip the default configuration of each type and compare only whether attributes exist; a dropped or swapped field needs non-default values.",
  ["hermespy/core/factory.py", "hermespy/core/antennas.py", "hermespy/simulation/simulated_device.py", "hermespy/simulation/antennas.py", "hermespy/channel", "hermespy/modem", "hermespy/fec", "hermespy/radar", "hermespy/simulation/animation.py"],
  [("serialize / Deserialize of every component", "hermespy/core/factory.py")], [], ["public properties before and after"])
p("C17", "Channel state, sparse state and propagation describe the same linear map",
  "For every channel sample, applying the reported channel state to a signal gives the same result as propagating the signal, the state is linear and additive over superimposed inputs, and its reported dimensions match the devices' antennas and the signal. "
  "The state in the reciprocal direction is the transpose over the antennas of the forward state, and slicing, resizing and converting between dense and sparse representations keep exactly the selected coefficients.",
  ["inputs", "configurations"], "all small integer-valued states over numbers of receive and transmit streams, samples and taps, and the channel models with exactly representable gains",
  "Tests propagate single-antenna or square states; index mix-ups are only visible for rectangular states.",
  ["hermespy/core/channel.py", "hermespy/channel/channel.py", "hermespy/channel/ideal.py"], [("ChannelStateInformation.linear / propagate / reciprocal", "hermespy/core/channel.py")],
  [], ["state matrices, propagated signals"])
p("C18", "A channel realization is a frozen draw that every sample of it agrees with",
  "Sampling the same realization of a channel again for the same device states and time yields the same channel, whatever was realized or sampled in between, and a new realization does not alter existing ones. "
  "Callbacks registered for a channel's samples fire exactly once per matching sample until removed, filtered by the requested transmitter and receiver, and the gain scales every sample's output power alike.",
  ["histories"], "all histories of realize, sample, reciprocal sample, gain change and callback registration or removal over the channel models",
  "Tests sample each realization once.",
  ["hermespy/channel/channel.py", "hermespy/channel/consistent.py", "hermespy/core/hooks.py"], [("Channel.realize / add_sample_hook / ChannelRealization.sample", "hermespy/channel/channel.py"), ("ConsistentGenerator / ConsistentRealization", "hermespy/channel/consistent.py")],
  [("sample hooks", "registered callbacks", "hermespy/channel/channel.py")], ["propagated impulses, callback invocations"])
p("C19", "Seeding a random tree reproduces every draw below it",
  "After setting the seed of a root object, the random numbers drawn by it and by every object attached below it are a function only of the seed and of the sequence of draws and attachments since, so repeating the same history repeats every number. "
  "An object draws from its own generator if it has one and from its closest ancestor's otherwise, each object has at most one parent, and only a root reports itself as a root.",
  ["histories"], "all histories of seeding, attaching, detaching and drawing over trees of several objects, and whole drops of seeded scenarios",
  "Tests seed a single node once.",
  ["hermespy/core/random_node.py"], [("RandomNode.seed / random_mother / _rng", "hermespy/core/random_node.py")],
  [("generator and mother reference", "source of randomness", "hermespy/core/random_node.py")], ["draws, seed, is_random_root"])
p("C20", "Forward error correction chains decode what they encode",
  "For every chain of coders and every supported block size, decoding an encoded block over an error-free link returns the original bits, the encoded length equals the length announced from the code rate, and frames that do not fill whole blocks keep the announced sizes. "
  "Interleaving is a permutation, repetition coding corrects any minority of flipped copies of a bit, check bits are added and stripped again without touching the data, and scrambled frames are restored as long as both ends saw the same frames.",
  ["configurations", "inputs"], "all chains of up to three coders with arbitrary parameters, block sizes and bit contents, and all error patterns of weight below the majority",
  "Tests check individual coders at one size; rate and block size arithmetic of chains has many residue classes.",
  ["hermespy/fec/coding.py", "hermespy/fec/block_interleaver.py", "hermespy/fec/repetition_encoder.py", "hermespy/fec/cyclic_redundancy_check.py", "hermespy/fec/scrambler.py"], [("EncoderManager.encode / decode", "hermespy/fec/coding.py")],
  [], ["encoded and decoded bits, block sizes, rates"])
p("C21", "Modems deliver their bits and error rates count exactly the differences",
  "Over an ideal link, every bit a modem's source produced is decoded unchanged and in order, frame by frame, for every waveform, modulation order, coder chain and precoding, and the number of generated bits, symbols and samples equals the announced frame numbers. "
  "The reported bit, block and frame error rates are exactly the fractions of differing bits, blocks and frames between transmitted and received data, and the throughput counts exactly the error-free frames.",
  ["configurations", "inputs"], "waveforms, modulation orders, frame layouts and coder chains over small frames, and all error patterns for the evaluators",
  "Tests run one parametrization per waveform and compute error rates for a fixed pattern.",
  ["hermespy/modem/modem.py", "hermespy/modem/evaluators.py", "hermespy/modem/bits_source.py", "hermespy/modem/waveform_single_carrier.py", "hermespy/modem/waveform_chirp_fsk.py", "hermespy/modem/tools/psk_qam_mapping.py"], [("BaseModem frame sizing, transmit and receive", "hermespy/modem/modem.py"), ("CommunicationEvaluator subclasses", "hermespy/modem/evaluators.py")],
  [], ["transmitted and decoded bits, evaluations"])
p("C22", "Resource grids place and pick every symbol exactly once",
  "For every configuration of an orthogonal multicarrier frame, the data, reference and null elements partition the used resource grid, placing data symbols fills exactly the data elements in order with references on the reference elements, and picking returns exactly the placed data symbols in order. "
  "The numbers of symbols, words and samples announced equal those really generated, prefixes replicate exactly the configured part of their own symbol, guard intervals are silent, and demodulating a modulated grid returns the grid.",
  ["configurations"], "all grids with few subcarriers, words, repetitions, patterns, prefix types and ratios, guard and pilot sections",
  "Tests use two hand-written grids.",
  ["hermespy/modem/waveforms/orthogonal/waveform.py", "hermespy/modem/waveforms/orthogonal/ofdm.py"], [("GridResource.mask / SymbolSection.place_samples / OrthogonalWaveform.place / pick", "hermespy/modem/waveforms/orthogonal/waveform.py")],
  [], ["placed grids, picked symbols, sample layout"])
p("C23", "Radar detections point to the cube cells that triggered them",
  "Threshold detection reports exactly the cells of a radar cube at or above the threshold (and local maxima if requested), maximum detection exactly the strongest cell of a cube with positive power, each at the range, angle and velocity of its bin and with the cell's power, so that reordering the cube's cells reorders nothing else. "
  "Detection never alters the cube, an empty cube yields no detection, adaptive thresholds are estimated from exactly the training cells around the guard cells, and the receiver operating characteristic and localisation errors equal the exact exceedance fractions and distances. "
  "A matched filter or FMCW radar illuminating a point target over an ideal channel reports its strongest detection at the target's range and angle of arrival.",
  ["inputs"], "all small integer-valued cubes over angle, velocity and range bins and thresholds, and all small sets of hypothesis powers",
  "Tests check a cube with one hot cell.",
  ["hermespy/radar/detection.py", "hermespy/radar/cube.py", "hermespy/radar/evaluators.py"], [("ThresholdDetector.detect / MaxDetector.detect", "hermespy/radar/detection.py"), ("RocEvaluationResult / ReceiverOperatingCharacteristic", "hermespy/radar/evaluators.py")],
  [], ["point clouds, operating characteristics"])
p("C24", "The hardware loop visits every grid point and drop once, in priority order",
  "A hardware loop runs exactly the configured number of drops at every grid point, in the configured nesting order, with every parameter set to the visited point before the drop is triggered, and files every evaluation under that point. "
  "Hooks fire once before and once after each drop in registration order, a failing drop loses only itself, and drops recorded on the way replay the same evaluations.",
  ["configurations", "fault_sequences"], "grids of up to two dimensions, drop counts, both iteration priorities, hooks and failing drops",
  "Tests run a loop with a mocked scenario over one grid.",
  ["hermespy/hardware_loop/hardware_loop.py", "hermespy/hardware_loop/physical_device.py", "hermespy/hardware_loop/physical_device_dummy.py"], [("HardwareLoop.run", "hermespy/hardware_loop/hardware_loop.py")],
  [], ["order of hooks, drops and evaluations, returned results"])
p("C25", "Calibrations and devices always reference each other one to one",
  "For every history of assigning, replacing, clearing and loading leakage, delay and antenna calibrations among devices, a calibration refers to the device whose slot holds it, no calibration is held by two devices, and an emptied slot behaves like no calibration at all. "
  "Saving and loading a device's calibrations restores the same calibrations, and corrections shift or subtract exactly the calibrated samples.",
  ["histories"], "all histories of calibration assignments over several devices",
  "Tests assign a calibration once.",
  ["hermespy/hardware_loop/physical_device.py", "hermespy/hardware_loop/calibration"], [("Calibration.device setter and PhysicalDevice calibration slots", "hermespy/hardware_loop/physical_device.py")],
  [("calibration slots", "device to calibration", "hermespy/hardware_loop/physical_device.py")], ["slots, back references"])
p("C26", "Callbacks fire exactly once per event for exactly the registered listeners",
  "For every history of registering and removing listeners and generating transmissions and receptions, each event reaches exactly the listeners registered at that moment, each once, in registration order, with the operator's own data. "
  "Removing a listener affects no other listener, removing twice is harmless, events flagged as silent reach nobody, and an operator's cached latest transmission or reception is always the last one announced.",
  ["histories"], "all histories of listener registration, removal (also during notification) and notified or silent events over several operators",
  "Tests register a single callback.",
  ["hermespy/core/hooks.py", "hermespy/core/operators.py", "hermespy/core/device.py"], [("Hookable.add_callback / notify, Hook.remove", "hermespy/core/hooks.py")],
  [("hook set", "registered listeners", "hermespy/core/hooks.py")], ["callback invocations"])
p("C27", "Moving devices follow their trajectories at every drop",
  "At every time a trajectory reports the start pose before it begins, the end pose after it ends, positions on the straight line between them in proportion to elapsed time in between, and a velocity equal to the displacement per time while moving and zero otherwise. "
  "A device's pose, velocity and antenna positions during a drop are those of its trajectory at the drop's timestamp, whatever timestamps were sampled before.",
  ["histories", "inputs"], "all linear and static trajectories with dyadic parameters and histories of timestamps in any order",
  "Tests sample at a few increasing times.",
  ["hermespy/simulation/animation.py", "hermespy/simulation/simulated_device.py", "hermespy/core/state.py"], [("LinearTrajectory.sample, SimulatedDevice.state", "hermespy/simulation/animation.py")],
  [], ["trajectory samples, device states"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(P))
