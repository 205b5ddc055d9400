p('C01', 'Serialized microscope records carry every field both ways',
  'Converting any record type (atomic grid, beam control, field of view, observation, transition, trajectory, drift, labeled alignment trajectory) to its serialized message and back yields a record whose every field has the value of the original field, up to the floating-point width of the message. Optional image fields are present after the round trip exactly when they were present before, independently of one another. No field is silently dropped, defaulted, cross-wired to another field, or rounded to an integer.',
  ['inputs'], 'all field values of all record types, all combinations of present/absent optional images, any number of atoms, controls, observations',
  'The existing round-trip tests use a handful of random records, with image and label image present together and integer drifts.',
  ['microscope_utils.py', 'putting_dune.proto'],
  [('to_proto/from_proto of each record type', 'microscope_utils.py')], ['microscope_utils.*.from_proto(x.to_proto())'])
p('C02', 'Record files read back exactly the records written, in order',
  'Every record handed to the record writer is written exactly once, in order and in its serialized form, and reading the file yields each stored record exactly once, in order, decoded with the requested type or raw when none is requested. Reader and writer accept exactly the same set of file extensions, use the same container format for each, and raise ValueError for every other extension.',
  ['inputs'], 'any sequence of records, any mix of raw and typed records, any file name',
  'Tests write two records of one kind to one extension.',
  ['io.py'], [('read_records / write_records', 'io.py')], ['io.read_records', 'io.write_records'])
p('C03', 'Field-of-view frame conversions are exact inverses for every input kind',
  'Converting a point, array, atomic grid or beam control from microscope frame to material frame and back (in either order) returns the original coordinates, with microscope (0,0) mapping to the lower-left corner and (1,1) to the upper-right corner, per axis, for square and non-square fields of view. All supported input kinds use the same mapping, everything that is not a position (atomic numbers, dwell time, voltage, current) is carried over unchanged, and unsupported input kinds raise NotImplementedError. Arrays keep their shape. A field of view shifts, resizes and zooms about its centre by exactly the amounts given, and selects exactly the atoms of a grid inside its bounds widened by the tolerance; shifting a beam control moves only its position.',
  ['inputs'], 'all fields of view and all points, arrays, grids and controls',
  'Tests sample a few points, mostly in one field of view, and do not compare the kinds with each other or check carried-over attributes on all of them.',
  ['microscope_utils.py'], [('frame conversion methods of the field of view', 'microscope_utils.py')], ['MicroscopeFieldOfView conversions'])
p('C04', 'Coordinates are always used in the frame they are expressed in',
  'Throughout simulation, goals, features, action adaptation, image synthesis and data extraction, microscope-frame and material-frame coordinates are never added, subtracted, compared, or stored in or passed to something that expects the other frame without passing through a field-of-view conversion in the right direction. Beam controls reach the material and the observers in material frame, observations and adapter outputs are in microscope frame, and the goal position is kept in material frame.',
  ['programs', 'inputs'], 'every data flow between coordinate-carrying values in the modules listed',
  'A frame mix-up is invisible whenever the field of view is close to the unit square or both frames coincide at the origin, which is what fixtures usually use.',
  ['simulator.py', 'goals.py', 'feature_constructors.py', 'action_adapters.py', 'imaging.py', 'putting_dune_environment.py', 'plotting_utils.py'],
  [('frame-typed aliases and field-of-view conversions', 'microscope_utils.py')], ['beam controls given to the material', 'observation grids', 'goal position', 'feature vectors'])
p('C05', 'A seeded run is a deterministic function of its seed',
  'All randomness used by the simulator, material, image synthesis, goals, action adapters and environment comes from the random generator supplied by the caller (or installed by seeding), so that seeding the environment and replaying the same actions reproduces the same observations, rewards and images. None of these parts draws from global or freshly-seeded generators, the clock, process identity or hash ordering, and seeding replaces the generator in every component that keeps one.',
  ['histories', 'programs'], 'all seeds and all sequences of seed/reset/step calls',
  'Tests compare one or two seeds over a few steps; a rarely taken branch drawing from a global generator is not seen.',
  ['simulator.py', 'putting_dune_environment.py', 'graphene.py', 'imaging.py', 'goals.py', 'action_adapters.py', 'agents/agent_lib.py'],
  [('rng threading', 'putting_dune_environment.py'), ('seed()', 'putting_dune_environment.py')], ['trajectories under equal seeds'])
p('C06', 'Functional random keys are never consumed twice',
  'In the model training, evaluation and data augmentation code, each functional random key is consumed by at most one random operation, split, or key-consuming call: once a key has been consumed it is replaced by a key derived from the split before any further use, including across loop and scan iterations, across function calls and through returned or stored keys. No array of keys over which a function is mapped holds one key more than once, and a key is made from the clock only when no seed is given (0 is a seed). (Mapping one call over an ensemble with a shared key counts as one use.)',
  ['programs', 'histories'], 'every path through the training, distillation and augmentation code, any number of epochs and batches',
  'Key reuse produces correlated randomness, not an error; no assertion on outputs notices it.',
  ['rate_learning/learn_rates.py', 'rate_learning/data_utils.py', 'pipeline/train_rate_learner.py'],
  [('jax.random.split discipline', 'rate_learning/learn_rates.py')], ['arguments of random primitives'])
p('C07', 'Library calls never modify data owned by their caller',
  'No public function or method of the simulation, geometry, imaging, conversion, alignment and data-preparation code modifies in place an array, grid, observation, sequence or dictionary passed to it as an argument, nor the contents of a record it was given, nor a default argument value shared between calls. Records exposed to callers (grids, controls, fields of view, observations, transitions, trajectories, drifts, rates, goal results) are immutable value types.',
  ['inputs', 'histories'], 'all call histories, any aliasing between arguments and earlier results',
  'Tests build fresh inputs per call and never look at them again afterwards.',
  ['alignment.py', 'microscope_utils.py', 'graphene.py', 'imaging.py', 'geometry.py', 'rate_learning/data_utils.py', 'feature_constructors.py', 'action_adapters.py', 'goals.py'],
  [('copy-before-write', 'alignment.py'), ('frozen records', 'microscope_utils.py')], ['arguments after the call'])
p('C08', 'Simulated elapsed time counts every dwell and every image exactly once',
  'The elapsed time reported for a simulator step equals the sum of the dwell times of all controls applied in that step plus one image duration for every image taken during it, including the extra image taken when the field of view is moved; for a reset it is the duration of the image taken. The image duration used is the one the simulator was configured with.',
  ['inputs', 'histories'], 'any number of controls with any dwell times, with and without field-of-view movement',
  'Tests use one or two controls and do not check the total when the field of view has to be recentred.',
  ['simulator.py'], [('step/reset time accumulation', 'simulator.py')], ['MicroscopeObservation.elapsed_time'])
p('C09', 'Every observation is coherent with the field of view it reports',
  'The atoms and the image in each observation the simulator returns are taken in exactly the field of view the observation reports and from the material as it is when the observation is returned. Whenever the silicon is missing from the view or within the outer quarter of it on any side, the field of view is recentred on the silicon (keeping its scale) and the scene re-imaged before anything is returned; otherwise it stays put. The controls reported are the ones the caller supplied, in order.',
  ['histories', 'inputs'], 'all episodes: any sequence of controls, material transitions and recentrings',
  'Requires the silicon to drift to an edge, on each side, and comparing grid, image and field of view of the very same observation.',
  ['simulator.py', 'graphene.py'], [('recentring branch', 'simulator.py'), ('atoms in bounds', 'graphene.py')], ['MicroscopeObservation fields'])
p('C10', 'Simulator observers are told every event, once, in order',
  'Every registered observer is notified of each reset, field-of-view change, applied control (before it acts on the material), material transition (with the resulting grid and the time since the control began), image acquisition and generated image, exactly once per event and in the order the events occur, with the values the simulator itself uses. Observers added are notified from then on, removed ones no longer, and the event-recording observer stores each reported event type with all the data it was given, starting afresh at reset.',
  ['histories'], 'any set of observers, any sequence of resets, steps, transitions and recentrings',
  'Tests assert that single callbacks fire on single short runs with one observer.',
  ['simulator.py', 'graphene.py', 'simulator_observers.py', 'microscope_utils.py'], [('observer loops', 'simulator.py'), ('transition notification', 'graphene.py')], ['SimulatorObserver callbacks', 'EventObserver.events'])
p('C11', 'Simulator and material refuse to operate before reset',
  'Stepping the simulator, and querying or exposing the material, raise RuntimeError if reset has not been called, before any state is changed or any random number drawn. Reset itself leaves every piece of per-episode state initialised.',
  ['histories'], 'all call sequences starting from construction',
  'Tests check one call per class; a newly reachable use of uninitialised state is not seen.',
  ['simulator.py', 'graphene.py'], [('reset guards', 'simulator.py'), ('reset guards', 'graphene.py')], ['RuntimeError before reset'])
p('C12', 'A material always has exactly one silicon and fixed atom positions',
  'From reset onwards the simulated sheet consists of carbon atoms and exactly one silicon atom, and atom positions never change between resets: every successor state offered by a rate model keeps all positions and moves the silicon onto one of its nearest neighbours, turning its previous site back into carbon. Only a reset or a transition to an offered successor replaces the material state.',
  ['histories', 'inputs'], 'any number of transitions with any rate model shipped',
  'Tests check one transition of one rate model.',
  ['graphene.py'], [('successor construction', 'graphene.py'), ('reset', 'graphene.py')], ['material grid after any history'])
p('C13', 'Transitions happen only during the dwell, at the modelled rates',
  'While a control is applied, waiting times are drawn from an exponential distribution whose mean is the inverse of the total rate of the current state, and are accumulated; a transition is carried out only if its accumulated time has not exceeded the dwell time, and simulation of the control stops once it has. The successor is chosen with probability proportional to its rate, and rates are recomputed from the updated state and the control position before each further transition.',
  ['inputs', 'histories'], 'all dwell times, rates and random draws',
  'Needs multi-transition dwells and boundary times; tests fix rates so that zero or one transition occurs.',
  ['graphene.py'], [('dwell loop', 'graphene.py')], ['observe_transition times', 'material grid'])
p('C14', 'Action adapters always emit in-view beam positions and in-range dwell times',
  'For every real-valued action, inside or outside the declared action range, each control produced by any action adapter has both coordinates of its beam position within [0, 1] of the microscope frame and a dwell time within the configured minimum and maximum (or the fixed dwell time).',
  ['inputs'], 'all actions, silicon positions, fields of view and dwell-time ranges',
  'Tests sample in-range actions and a few positions.',
  ['action_adapters.py'], [('clipping', 'action_adapters.py')], ['BeamControl from get_action'])
p('C15', 'Action adapters consume exactly the actions their spec declares',
  'Each action adapter accepts every action of the shape its action spec declares, using every component of it, and no component beyond it, under each configuration (fixed or variable dwell time). The bounds declared are those at which the adapter saturates: the extremes of the declared range reach the extremes of the beam displacement and of the dwell time.',
  ['inputs', 'configurations'], 'all adapters, all dwell-time configurations, all declared actions',
  'Spec and consumer are tested separately, for one configuration.',
  ['action_adapters.py'], [('action_spec vs get_action', 'action_adapters.py')], ['action_spec', 'get_action'])
p('C16', 'Environment episodes follow the episode protocol, including the step limit',
  'An episode starts with exactly one FIRST step, continues with MID steps and ends with exactly one LAST step, after which the next step call starts a new episode whatever action it is given, as does the first step call ever made. Termination carries discount zero and truncation keeps the running discount; with a step limit the episode is truncated at exactly that many steps, counting only steps of the current episode, and reset always restarts the count.',
  ['histories'], 'all interleavings of reset and step calls, terminations, truncations and step limits',
  'Tests drive single episodes; a wrong flag shows only in particular reset/step/last interleavings.',
  ['putting_dune_environment.py', 'run_helpers.py'], [('requires-reset flag', 'putting_dune_environment.py'), ('step counter', 'run_helpers.py')], ['TimeStep.step_type', 'TimeStep.discount'])
p('C17', 'Rewards and discounts decay with the elapsed time of the same step',
  'The discount of every non-terminal step produced by the environment and by the microscope agent is the per-second discount constant raised to the elapsed seconds of the very observation the step reports, and the goal reward on success is that same power for that same observation. Features, reward and discount of a step are all computed from one and the same observation.',
  ['inputs', 'histories'], 'all elapsed times and all steps',
  'With the fixed durations used in tests, using a stale observation or a per-step discount gives the same number.',
  ['putting_dune_environment.py', 'microscope_agent.py', 'goals.py', 'constants.py'], [('discount computation', 'putting_dune_environment.py'), ('discount computation', 'microscope_agent.py'), ('reward', 'goals.py')], ['TimeStep.discount', 'TimeStep.reward'])
p('C18', 'A missing silicon makes the microscope agent rescan, never crash',
  'Whenever an observation contains no silicon atom, stepping the microscope agent (also when it is wrapped by the logger) returns a single zero-dwell control inside the view instead of raising, without consulting the learning agent and without ending its first step. Silicon lookups on empty observations raise the dedicated not-found error, and that error is never swallowed anywhere else; an observation holding several silicon atoms is not mistaken for an empty one: the position reported is that of the one nearest the centre of the view.',
  ['inputs', 'histories'], 'all observations, at any point of an episode, with and without logging',
  'Tests step the bare agent once on an empty grid.',
  ['microscope_agent.py', 'graphene.py', 'goals.py', 'feature_constructors.py'], [('rescan branch', 'microscope_agent.py'), ('not-found error', 'graphene.py')], ['MicroscopeAgent.step', 'MicroscopeAgentLogger.step'])
p('C19', 'Goals are reachable lattice sites and success means the silicon stayed there',
  'Goal selection picks, using the supplied generator, an observed atom position whose distance from the silicon in angstroms lies strictly within the configured range, raising RuntimeError when there is none, and stores it in material frame while restarting the success count. An episode is reported terminal exactly when the silicon has been within half a bond length of the goal for the required number of consecutive evaluations, any evaluation outside the radius restarts the count, and a reward is paid exactly when terminal.',
  ['inputs', 'histories'], 'all observations (square or not), goal ranges and evaluation histories',
  'Tests use one step and square fields of view.',
  ['goals.py'], [('goal sampling', 'goals.py'), ('consecutive counter', 'goals.py')], ['GoalReturn', 'goal position'])
p('C20', 'Features always match the declared observation spec',
  'The features built by every feature constructor have exactly the structure, keys, shapes and dtypes its observation spec declares, for every observation containing a silicon and at least three other atoms, and hold what they are declared to hold: the silicon position, the vectors to its three nearest neighbours (of unit length in microscope frame, in angstroms in material frame) and the vector from the silicon to the goal in angstroms; the image features hold the observed image at 128 by 128 and that goal vector.',
  ['inputs'], 'all observations and goals, all feature constructors',
  'Tests check one sampled observation per constructor, and dtype promotion or shape slips depend on the input.',
  ['feature_constructors.py'], [('get_features vs observation_spec', 'feature_constructors.py')], ['observation_spec', 'get_features'])
p('C21', 'Images are rendered exactly when the features need them',
  'A feature constructor declares that it requires an image if and only if it reads the image of the observation, and the environment requests an image from the simulator according to that declaration on every reset and every step. The simulator renders an image exactly when asked, and fails loudly rather than silently when a required image is missing.',
  ['configurations', 'histories'], 'all feature constructors, every reset and step',
  'Tests cover a single constructor per path.',
  ['feature_constructors.py', 'putting_dune_environment.py', 'simulator.py'], [('requires_image', 'feature_constructors.py'), ('return_image', 'simulator.py')], ['MicroscopeObservation.image'])
p('C22', 'Evaluation runs each seed independently and reports it faithfully',
  'Evaluation puts the agent in evaluation mode, and for each seed, in order, seeds and then resets the environment before acting, accumulates action count, reward, agent time and environment time from zero, counts the environment time of the reset and of every step once, stops at the episode end or the time limit, and appends exactly one result carrying that seed. The goal counts as reached exactly when the last step ended the episode with zero discount, times are not-a-number when it was not reached, observers it installed are removed afterwards, and when videos are wanted each episode gets one, made of the events of that episode and its goal and stored under its seed.',
  ['histories', 'inputs'], 'all agents, environments, seed suites and timeouts',
  'Tests run two seeds with a trivial agent and do not see leakage between seeds or the time bookkeeping.',
  ['eval_lib.py'], [('evaluate', 'eval_lib.py')], ['EvalResult list'])
p('C23', 'Aggregate evaluation statistics average over the right runs',
  'The reported success rate is the number of results that reached the goal divided by the number of results; every other reported average is the sum of that quantity over exactly the results that reached the goal divided by how many there were, and is zero when none did. Total time is always agent time plus environment time.',
  ['inputs'], 'all result sequences with at least one result',
  'Tests use fixed small lists.',
  ['eval_lib.py'], [('aggregate_results', 'eval_lib.py')], ['AggregateEvalResults'])
p('C24', 'The agent logger records every step and episode once, consistently',
  'For every step taken through the logger, exactly one step record and one logged observation are produced, carrying the episode number, step number, reward, elapsed time and terminal flag of that step, and every episode with steps yields exactly one episode record with the same episode number as its steps, its own step count and summed reward. Episode numbers increase by one per non-empty episode, trajectories never mix observations of different episodes, and leaving the logging context without an error writes out everything recorded so far.',
  ['histories'], 'all interleavings of reset, step and flush',
  'Tests log one short episode and check file existence and counts only.',
  ['microscope_agent.py'], [('MicroscopeAgentLogger', 'microscope_agent.py')], ['steps.csv', 'episodes.csv', 'trajectories.tfrecords'])
p('C25', 'Extracted transitions pair adjacent observations of one trajectory',
  'Each extracted transition takes its before-state (grid, field of view, image, label image) from one observation and its after-state from the next observation of the same trajectory; its controls are those of the earlier observation, or of the later one when the caller says that observations carry the controls that preceded them. Consecutive pairs are all considered in order, no transition spans two trajectories, and all records of all files are read. Every data point made from a transition describes that transition: beam, dwell time, voltage and current of its single control, and the neighbour the silicon moved to (zero if it stayed) in the canonical neighbour order.',
  ['inputs'], 'all trajectories of any length, all files',
  'Tests use one two- or three-observation trajectory.',
  ['pipeline/trajectories_to_transitions.py'], [('get_transitions', 'pipeline/trajectories_to_transitions.py')], ['transition records'])
p('C26', 'Rate-learning datasets stay aligned across splits, bootstraps and augmentation',
  'Train and test splits are disjoint and select the same examples for every array of the dataset (a plain split also covers all examples; a bootstrap tests on exactly the examples not drawn). Augmentation is applied after splitting, to each part separately. Rotation and reflection act on beam position, next state and rates by the same turn or mirror, keep the no-transition state, and leave every other array unchanged; synthetic data score each neighbour at its own angle. The models are trained and evaluated on the parts so obtained: fitted to the training part and scored on the test part.',
  ['inputs'], 'all datasets, split fractions, bootstrap counts and augmentation angles',
  'Leakage or misalignment produces plausible numbers, so output-shape tests pass.',
  ['rate_learning/data_utils.py', 'pipeline/train_rate_learner.py'], [('split / augmentation', 'rate_learning/data_utils.py')], ['train/test dictionaries'])
p('C27', 'Learned-rate models see the same context layout in training and serving',
  'The columns of the context vector (current, voltage, dwell time when enabled, then beam position) are laid out in the same order everywhere a rate model is trained, evaluated, distilled, packaged or queried, for every combination of optional columns including none; positions are rotated to the canonical neighbour frame the same way, settings are in the same units, rows of a batch stay together, and the packaged model is built for the width it was trained on, with the fixed columns taken from the data.',
  ['configurations', 'programs'], 'all combinations of optional context columns, all entry points',
  'Tests exercise one column configuration per entry point.',
  ['rate_learning/learn_rates.py', 'rate_learning/data_utils.py'], [('stack_data and predict', 'rate_learning/learn_rates.py')], ['inputs of the rate network'])
p('C28', 'Rate-network outputs are decoded the same way everywhere',
  'Everywhere rates are produced from a rate network (training loss, reported rates, distillation targets and students, ensemble application, packaging) the outputs are decoded with the same parameterisation: softmax of all outputs but the last, times the last, per network before averaging over the ensemble, so that the rates sum to the total rate; the loss scores no-transition by the total rate and the transition taken by its own direction.',
  ['programs', 'configurations'], 'all decode sites, all network outputs',
  'Each site is internally plausible; only their agreement matters.',
  ['rate_learning/learn_rates.py'], [('apply_model', 'rate_learning/learn_rates.py')], ['predicted rates'])
p('C29', 'Experiment registries resolve names and never share mutable components',
  'Every registered experiment name resolves to a configuration, unknown names raise ValueError, and the action adapter, feature constructor and agent combined in each registered experiment are compatible in action shape, observation layout and required simulator settings. Each construction returns fresh adapter, goal, material and agent objects that share no mutable state with any earlier construction.',
  ['configurations', 'histories'], 'all registered experiments, any number of constructions',
  'Tests build each experiment once; sharing shows up only on the second construction.',
  ['experiments/registry.py', 'experiments/experiments.py'], [('registry', 'experiments/registry.py')], ['constructed experiments'])
p('C30', 'Saved rate models reload with every parameter in its place',
  'Whatever the rate-model savers write, the corresponding loaders read back under the same file names and keys, into the same parameters, unchanged; every save replaces what an earlier save left, no saved entry is ignored and no loaded entry was never saved. The packaged model written with a rate model is built from the parameters being saved and the context requested, and a model packaged earlier is never used once training or distillation has replaced the parameters.',
  ['inputs', 'configurations'], 'all models and save options',
  'Tests reload one small model and compare shapes or predictions loosely.',
  ['graphene.py', 'rate_learning/learn_rates.py'], [('serialize/deserialize', 'graphene.py'), ('save/load', 'rate_learning/learn_rates.py')], ['saved model directories'])
p('C31', 'A failed model download or extraction is never mistaken for a cached model',
  'Loaders that cache a downloaded or extracted model skip fetching only if a previous fetch ran to completion; a crash or exception at any point of the download or extraction leaves a state from which the next call fetches again.',
  ['crash_points', 'fault_sequences'], 'every interruption point of the fetch, any number of retries',
  'Tests stub the download and never interrupt it.',
  ['atom_detector.py', 'alignment.py', 'experiments/registry.py'], [('cache check before fetch', 'atom_detector.py')], ['loader calls after a failed fetch'])
p('C32', 'Exported models match what their loaders expect',
  'A trained atom detector or image aligner is exported in the form in which its runtime loader uses it: the archive holds the model under exactly the directory the loader looks for, with names relative to it; the signature key, the input name, the input size and the number of stacked images are those the loader gives; the exported outputs are the raw outputs of the model, numbered and sized as the loader reads them (classes, then drift); the class numbers (carbon 1, silicon 2) and their count are the same in the training data, the model and the loader. The exporter rebuilds the model with the options and sizes it was trained with and restores the best checkpoint, chosen by metrics that training reports, each in the direction in which it is better.',
  ['programs', 'configurations'], 'all exported models',
  'Export and load are in separate programs; no test runs both.',
  ['image_alignment/save_model.py', 'image_alignment/train.py', 'atom_detection/save_model.py', 'atom_detection/train.py', 'alignment.py', 'atom_detector.py'], [('serving signature', 'image_alignment/save_model.py')], ['SavedModel signature'])
p('C33', 'Synthetic images apply each sampled effect once, from the given generator',
  'A rendered microscope image applies each imaging effect (blur, shot noise, jitter, salt and pepper, contrast, uniform, exponential and gaussian noise) exactly once with its own sampled parameter, draws all noise from the supplied generator, has the requested size, and depicts the atoms of the given grid in the given field of view with y pointing up, as does the label mask. Every imaging parameter is sampled from the supplied generator within its documented positive range.',
  ['inputs'], 'all grids, fields of view, parameters and generators',
  'Rendered images are random; tests check shapes and rough statistics.',
  ['imaging.py'], [('render pipeline', 'imaging.py')], ['generated images'])
p('C34', 'Atom positions and atomic numbers stay paired',
  'Wherever atoms are selected, filtered, reordered, merged or copied into a new grid, the positions and the atomic numbers of the result are the same rows of the same grid (same mask or index, same joining order), so that the i-th number always belongs to the i-th position; positions or numbers are only looked up by a mask or index computed from their own rows. The detectors report every atom found in the map of a class with the number of that class, and a well-formed grid also when a class is empty; two grids are equal when every atom of one is matched by an atom of the other at the same place with the same number.',
  ['inputs', 'programs'], 'every construction of an atomic grid in the library',
  'Most fixtures contain a single non-carbon atom, so most mispairings go unnoticed.',
  ['microscope_utils.py', 'graphene.py', 'alignment.py', 'atom_detector.py'], [('atomic grid construction sites', 'microscope_utils.py')], ['AtomicGrid instances'])
p('C35', 'Rotations and angles share one convention: counter-clockwise from +x',
  'Angle measurement and coordinate rotation agree in every implementation: rotating (1, 0) by the angle measured for a vector gives that vector\'s direction, the numpy and jax variants compute the same rotation, and all code that rotates into or out of a neighbour-canonical frame uses opposite signs for the two directions.',
  ['inputs', 'programs'], 'all angles and coordinates, all call sites',
  'Symmetric lattices make a sign error invisible in most fixtures.',
  ['geometry.py', 'graphene.py', 'agents/agent_lib.py', 'rate_learning/data_utils.py', 'rate_learning/learn_rates.py'], [('rotate_coordinates / get_angles', 'geometry.py')], ['rotated coordinates'])
p('C36', 'Training and validation steps report one consistent set of metrics',
  'In each of the three training programs (atom detection, image alignment, graph alignment): every metric declared reads the output of its own name and is supplied by every step that feeds it, and nothing else is supplied; the metrics of each epoch start from empty and are merged over all of its batches; a metric of one name is the same formula in training and in validation, compares predicted with labelled classes example by example, and its final-step variant is the same formula of the last step; training steps apply gradients and read the training split, validation steps leave the parameters alone, read the test split and judge the state the epoch ended with; the number of steps of an epoch is counted with the batch size of the data; the state and the metrics checkpointed are those of the epoch, the metrics written are those checkpointed, and the best checkpoint is chosen by a metric that is reported, in its right direction (low losses and errors, high accuracies).',
  ['programs', 'histories'], 'all training programs, every epoch and checkpoint',
  'Training programs are not executed by the tests.',
  ['atom_detection/train.py', 'image_alignment/train.py', 'graph_alignment/train.py'], [('metrics and checkpoints', 'image_alignment/train.py')], ['logged metrics', 'checkpoints'])
p('C37', 'Alignment output is the input shifted by the drift it reports',
  'Applying a drift to an observation moves its atom positions by minus the jitter and its field of view by the drift, and carries atomic numbers, controls, images and elapsed time over unchanged; the drift of a trajectory is cumulative, so each observation is shifted by the sum of the drifts up to it. The alignment filter returns the drift it computed and the merged grid, and appends exactly that observation to its history; the image aligner keeps as many images as it declares and reports the drift in the frame and sign its preprocessing implies; it starts afresh, with its full history length and the image at hand, when reset; the options given to a filter or an aligner are those it works with, and the hybrid post-processing filter keeps a one-step history, one iteration and no noise, with shift and merge limits of half a bond length, merging by cliques around medians.',
  ['inputs', 'histories'], 'all observation sequences and drift estimates',
  'Estimated drifts are random, so tests check approximate closeness on tiny drifts.',
  ['alignment.py', 'microscope_utils.py'], [('iterative alignment', 'alignment.py'), ('Drift.apply_to_observation', 'microscope_utils.py')], ['aligned observations'])
p('C38', 'Alignment of real trajectories converges to the true drift',
  'For every trajectory with bounded drift and jitter, the aligner\'s estimated drift is within tolerance of the true drift and the iterative refinement converges.',
  ['inputs'], 'all trajectories, drift and jitter magnitudes within bounds',
  'Tests sample a few synthetic trajectories.',
  ['alignment.py'], [('clique merging and clustering', 'alignment.py')], ['estimated drift'])
p('C39', 'Learned rates converge to the true transition rates',
  'Trained on transitions generated from a known rate function, the learned model\'s rates converge to that function, and bootstrap spread reflects the true uncertainty.',
  ['inputs'], 'all rate functions and sufficiently large datasets',
  'Statistical; tests train for a few steps.',
  ['rate_learning/learn_rates.py'], [('training loop', 'rate_learning/learn_rates.py')], ['predicted rates'])
p('C40', 'Equal atomic grids have equal hashes',
  'Any two atomic grids that compare equal have the same hash, and equality is symmetric and insensitive to sub-tolerance perturbations.',
  ['inputs'], 'all pairs of grids',
  'Equality is tolerance-based and hashing is rounding-based; tests use identical or clearly different grids.',
  ['microscope_utils.py'], [('__eq__ / __hash__', 'microscope_utils.py')], ['hash(grid)', 'grid == grid'])
p('C41', 'Generated graphene is a regular honeycomb of the requested size',
  'For every requested number of columns n, the lattice has n columns and int(2n/sqrt(3)) rows of sites before the hexagon centres are removed, its x and y coordinates are kept at exactly the same sites, and every kept site away from the edges has exactly three nearest neighbours, all at one bond length and none nearer. The sheet is that lattice scaled so the bond length is the carbon bond length, centred on the origin, shifted by one common offset of at most half a bond in each direction and rotated by an angle over a full turn, offset and angle both drawn from the caller\'s generator. In the canonical (unshifted) sheet the silicon is the most central atom and lies at the origin.',
  ['inputs'], 'all column counts and generator states',
  'Tests build one size and look at one sheet.',
  ['graphene.py'], [('_generate_hexagonal_grid', 'graphene.py'), ('generate_pristine_graphene', 'graphene.py')], ['atom positions'])
p('C42', 'A training run started again continues from its newest checkpoint',
  'Each training program, started in a directory that holds checkpoints, restores the newest one whatever its number (the first epoch\'s, number 0, included), takes every restored value under the name it was saved with, and trains exactly the epochs after the last one saved, up to the configured number; without a checkpoint it starts from epoch 0 with the fresh state. Each epoch is checkpointed under its own number.',
  ['histories', 'crash points'], 'all interruption points between checkpoints',
  'Training programs are not executed by the tests, and resuming needs an interrupted run.',
  ['atom_detection/train.py', 'image_alignment/train.py', 'graph_alignment/train.py'], [('restore and epoch loop', 'atom_detection/train.py')], ['checkpoints', 'restored state'])
p('C43', 'The built-in agents act as declared',
  'The uniform random agent draws every action afresh from the generator it was given, uniformly between its bounds and with its size. The greedy agent aims at the neighbour nearest to the goal: its action is its aim plus its fixed offset plus a fresh two-dimensional normal noise of the declared standard deviation, turned to the direction of that neighbour; the aim is the point of the declared grid (from low to high, at the declared resolution) with the highest rate to the first neighbour when a rate function is given, even if a fixed aim is given too, otherwise the fixed aim, and an agent given neither is refused. A step leaves aim and offset as they were. The saved-model agent returns what the model stored at its path returns for the observation.',
  ['inputs', 'histories'], 'all settings, observations and generator states; first and later steps',
  'Tests sample a few observations with noise off and compare only the sign of the outcome.',
  ['agents/agent_lib.py', 'agents/tf_eval_agent.py'], [('GreedyAgent.step', 'agents/agent_lib.py'), ('UniformRandomAgent.step', 'agents/agent_lib.py'), ('TfEvalAgent.step', 'agents/tf_eval_agent.py')], ['actions'])
p('C44', 'Simulated materials offer the declared transition rates',
  'For every grid and beam position, each rate function offers one rate per nearest neighbour of the silicon, paired with the successor in which the silicon sits on that neighbour, and depending only on positions relative to each other. Inverse-square rates: 1/(1+(4d/b)^2), d the distance from beam to neighbour and b the carbon bond length. Human prior: the declared Gaussian of the beam position relative to the silicon, in bond lengths, its mean turned to the direction of that neighbour, scaled so that its peak is the declared maximum rate. Gaussian mixture: the sum over components of weight times density, the component\'s mean lying at its distance (in multiples of the neighbour vector) from the silicon along the direction to the neighbour and its two variances along and across that direction, scaled so that the highest weighted component peak is the declared maximum. A sampled mixture has at least one component, equally many weights, distances and variance pairs, positive variances and maximum rate, weights non-negative and summing to one, each parameter its own draw from the caller\'s generator.',
  ['inputs'], 'all grids, beam positions, parameters and generator states',
  'Tests compare signs or single values at a few beam positions.',
  ['graphene.py'], [('GaussianMixtureRateFunction', 'graphene.py'), ('HumanPriorRatePredictor', 'graphene.py'), ('simple_canonical_rate_function', 'graphene.py')], ['rates'])
p('C46', 'Pipeline programs carry every record from their inputs to their own output',
  'The alignment program reads every trajectory of its source, a file or every record file in a directory (a suffix the record reader accepts), aligns each with the configured aligner and writes all results, in order, to its target in one piece. The transition program writes exactly the transitions of all trajectories of its source to its target. The upload program uploads each dataset found, read whole and rewound after its writer is closed, as one object holding that dataset\'s trajectory, named by every part of the dataset\'s own path; a dataset that cannot be loaded is skipped without affecting the others.',
  ['inputs'], 'all source layouts and contents',
  'The programs\' main functions are not run by the tests (the upload program cannot be imported here).',
  ['pipeline/align_trajectories.py', 'pipeline/trajectories_to_transitions.py', 'pipeline/upload_microscope_data.py'], [('main', 'pipeline/align_trajectories.py'), ('main', 'pipeline/upload_microscope_data.py')], ['output files', 'uploaded objects'])
p('C47', 'Environments, agents and evaluations are assembled from their declared parts',
  'An environment created for an experiment uses the material and image duration of its simulator configuration and the adapter, feature constructor and goal of one construction of its parts, is seeded with the given seed (as is its adapter), is limited to the given number of steps, and its simulator tells every given observer. The environment wrappers pass every operation and attribute through to the wrapped environment unchanged. A microscope agent plays with the very parts its policy was constructed for and resets each of them, with the given generator and observation, once per reset, after which its next step opens an episode. The evaluation program plays the named experiment\'s own policy, parts and simulator on the named suite, stores videos where asked, and reports every statistic of those results under its own name.',
  ['inputs', 'configurations'], 'all constructors, seeds, observers, limits, experiments and arguments',
  'Tests build environments and agents directly or check single attributes; no test runs the evaluation program.',
  ['run_helpers.py', 'putting_dune_environment.py', 'microscope_agent.py', 'eval.py'], [('create_putting_dune_env', 'run_helpers.py'), ('EnvironmentWrapper', 'run_helpers.py'), ('main', 'eval.py')], ['environment parts', 'delegation', 'evaluation reports'])
p('C48', 'Lattice steps of the aligner follow their declared geometry',
  'The scale the aligner gives a grid is the 25%-trimmed mean of every atom\'s distances to its three nearest others over the bond length. Clique merging replaces each maximal clique of points closer than the merge distance by its count-weighted mean position and summed count, until no pair is that close or the iteration limit is reached. An image re-framed for a new field of view is the original resized by the ratio of the fields of view, zero outside the original, shifted so that each material point stays where it was (rows down with decreasing y, columns with x), at the size of the original. Lattice classes come from the angles of the three nearest neighbours under the two-class model fitted on that grid, and spread outward from atoms with at least three neighbours within 1.1 times the mean nearest distance: each frontier atom gets the opposite of the mean class of its already classified neighbours.',
  ['inputs'], 'all grids, images, fields of view, merge distances and iteration limits',
  'Tests check a few regular grids with a tolerance, and no test re-frames an image off centre.',
  ['alignment.py'], [('get_graphene_scale_factor', 'alignment.py'), ('clique_merge', 'alignment.py'), ('pad_and_crop_images_by_fov', 'alignment.py'), ('classify_lattice_types', 'alignment.py'), ('propagate_graphene_classes', 'alignment.py')], ['scale factors', 'merged grids', 're-framed images', 'lattice classes'])
p('C49', 'Point-set registration pairs nearest points of one class and merges by proximity',
  'Aligning a grid to reference points starts from the given initial shift (zero if none is given) and, for exactly the given number of iterations, moves every point by the shift found so far plus annealing noise whose scale falls linearly to zero, pairs each with the nearest reference point of its own class, leaves out pairs at or beyond the mask distance and, when trimming, the given fraction of the farthest pairs, adds the noise and the mean remaining offset to the shift, and shortens the shift to the largest permitted one; the shift returned is that to be added to the grid. Proximity merging starts from the first grid that is not empty and, grid by grid, averages each point, by count, into the merged position nearest to it if that lies within the cutoff, counting it, and appends all others with a count of one.',
  ['inputs'], 'all grids, classes, iteration counts, limits and cutoffs',
  'Tests align small drifts of regular lattices within a tolerance.',
  ['alignment.py'], [('align_latest', 'alignment.py'), ('get_offsets', 'alignment.py'), ('naive_merge', 'alignment.py')], ['drift estimates', 'merged grids'])
p('C50', 'The silicon found is the silicon nearest the centre of the view',
  'The silicon positions of a grid are the positions of exactly those atoms whose atomic number is silicon. The single silicon position is, when there is none, the documented SiliconNotFoundError (no position is made up); when there is one, its position, wherever it lies; and when there are several, the position of the one whose Euclidean distance to the centre (0.5, 0.5) of the view is smallest. With one silicon or several no error is raised.',
  ['inputs'], 'all grids, with any number of silicon atoms in any order at any positions',
  'Tests place one silicon, or two on one axis.',
  ['graphene.py'], [('get_silicon_positions', 'graphene.py'), ('get_single_silicon_position', 'graphene.py')], ['position of the silicon', 'errors'])
p('C51', 'Training minimises the declared losses',
  'Each training step follows the gradient of its declared loss, taken at the parameters of the training state. For graph alignment it is the squared error of the predicted whole-grid drift, summed over coordinates and averaged over examples and over the time steps from the first counted one, plus the given weight times the squared error of the drift predicted for each point, in which only real points count (padding, marked by a zero first feature, does not), averaged in the same way; every example is predicted on a neighbour list that was updated for its own positions. For image alignment it is the mean softmax cross entropy of the predicted atom mask plus the given weight times the mean squared error of the predicted drift, both of the last time step only when so configured. For atom detection it is the mean softmax cross entropy of the predicted mask. A training step applies exactly that gradient to the given state; an evaluation changes no parameter. The losses, accuracies and errors merged into the metrics, in training and in evaluation, are those of the batch at the state\'s parameters, each under its own name.',
  ['inputs', 'configurations'], 'all batches, states, weights, first counted steps and model functions',
  'No test runs a training step; the training programs cannot even be imported with the test dependencies.',
  ['graph_alignment/train.py', 'image_alignment/train.py', 'atom_detection/train.py'],
  [('train_step', 'graph_alignment/train.py'), ('train_step', 'image_alignment/train.py'), ('train_step', 'atom_detection/train.py'), ('eval_step', 'image_alignment/train.py'), ('eval_step', 'atom_detection/train.py')], ['gradients', 'training metrics'])
p('C52', 'The graph aligner connects the points within the cutoff and answers for all',
  'The neighbour list of the graph aligner is built for the given displacement, box, cutoff and update threshold, keeping a point\'s pair with itself. When the list is padded by an update threshold, a pair is an edge exactly if the squared distance of its points at the current positions is within the squared cutoff. Each edge carries the displacement between its receiver and its sender; each node its own features, with one padding node after the last; the globals start at zero. The features are encoded once and propagated for the given number of rounds, each over the current features together with the encoded ones. The answer for the whole grid is the decoded global of the real graph plus, step by step, the mean of the pooled decodings of the points of that step; the answer for each point is the decoding of that point, by step, without the padding node.',
  ['inputs', 'configurations'], 'all positions, node features, cutoffs, thresholds, rounds, sequence lengths and layer sizes',
  'The module cannot be imported with the test dependencies, so no test builds the network.',
  ['graph_alignment/model.py'], [('graph_network_neighbor_list', 'graph_alignment/model.py'), ('AlignmentGraphNetwork', 'graph_alignment/model.py')], ['graph', 'network outputs'])
p('C45', 'Training examples pair each input with its own label',
  'What the atom detector and the image aligner are trained on is the stored example with the image and the atom mask resized, both by nearest neighbour, to the configured size; with the mask one-hot encoded over three classes (background, carbon, silicon, from the atomic numbers 0, 6 and 14); with the time steps of a scan moved, in order and for images and masks alike, behind the rows and columns; and, where training is on the last time step only, with the mask and the drift of that step alone. The graph aligner is trained on the stored examples as they are. The first dataset reads the train split and the second the test split of the same named dataset, through the same transformations, shuffled with the given seed, sharded by process, in batches of the configured size and from the configured start (for image alignment, aligned to the number of processes and offset by the own one).',
  ['inputs', 'configurations'], 'all stored examples, image sizes, configurations and seeds',
  'The modules cannot be imported with the test dependencies, so no test reads a training example.',
  ['atom_detection/dataset.py', 'image_alignment/dataset.py', 'graph_alignment/dataset.py'],
  [('make_dataset', 'atom_detection/dataset.py'), ('make_dataset', 'image_alignment/dataset.py'), ('make_dataset', 'graph_alignment/dataset.py')], ['training examples'])
