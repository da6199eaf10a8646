LIFE = ('Abstract interpretation of the whole life cycle (constructor, setup, several steps, finalize) of every processing class, with '
        'inlining of repository calls and property simulation over branches. ')
LIM = 'Loops are taken to run at least once; external numerical functions are modelled (write only to out= arguments).'

P('P01', 'Every refreshed output carries the time of the step that refreshed it',
  'Whenever a processing object updates the content of one of its outputs during a simulation step, the time stamp of that output equals the time of that step when the step ends, on every path through the step. An output is never stamped with anything other than the current step time. Consumers, recorders and displays rely on it to know that the data is new.',
  ['inputs', 'configurations', 'histories'], 'All processing classes, all combinations of optional inputs and options, all steps of any run.',
  'Tests check the time stamp of a few outputs on the path they run; a branch (an option, an optional input, an early return, a reset) that updates the data and not the stamp, or the reverse, is not sampled, and a missing stamp only shows up as a consumer silently not running.',
  ['specula/base_processing_obj.py', 'specula/base_data_obj.py', 'specula/processing_objects/', 'specula/display/', 'specula/field_analyser.py'],
  [('generation_time stores', 'specula/processing_objects/*.py: trigger_code / post_trigger'), ('gate that reads them', 'specula/base_processing_obj.py:BaseProcessingObj.checkInputTimes')],
  'abstract interpretation (alias + typestate, ESP-style path merging) of every class life cycle',
  LIFE + 'Reports the output and the store. ' + LIM)

P('P02', 'A processing object never modifies the data it receives as input',
  'During setup, every step and finalization, a processing object (sensor, controller, propagator, recorder, display...) leaves every data object received through its inputs unchanged: neither array contents nor attributes nor time stamps of an upstream output are altered. Adding or removing a consumer therefore never changes what other consumers see.',
  ['inputs', 'configurations', 'histories'], 'All processing classes, all inputs, all options, all steps.',
  'Unit tests connect one consumer to one producer and look at the consumer output; a store through an alias of the input (a view, an unpacked attribute, an out= argument, an in-place operator in a helper) is invisible there.',
  ['specula/connections.py', 'specula/processing_objects/', 'specula/display/'],
  [('inputs passed by reference', 'specula/connections.py:_InputItem.get'), ('local_inputs consumers', 'specula/processing_objects/*.py')],
  'abstract interpretation: alias/escape analysis of every store',
  LIFE + 'Every store whose target may alias input storage is reported. ' + LIM)

P('P03', 'Configuration and calibration objects are not modified by the objects using them',
  'A processing object leaves the data objects and arrays given to it as construction parameters (reconstructors, interaction matrices, influence functions, pupil and subaperture data, sources, arrays) unchanged, at construction and during the whole run, so that two objects configured with the same calibration object each behave as if they had it alone. The exceptions are the documented run-time gain of a control filter and the time stamp of a calibration object that is re-published as an output.',
  ['configurations', 'histories'], 'All processing classes, all parameters, all options, all steps.',
  'Tests build one object per calibration object; sharing one by reference between several processing objects of a configuration is where an in-place truncation, normalisation or filtering shows.',
  ['specula/simul.py', 'specula/processing_objects/', 'specula/data_objects/'],
  [('_ref parameters shared by reference', 'specula/simul.py:Simul.build_objects'), ('in-place reduction methods', 'specula/data_objects/{intmat,recmat,ifunc,ifunc_inv,pupdata}.py')],
  'abstract interpretation: alias/escape analysis of every store',
  LIFE + 'Every store whose target may alias parameter storage is reported. ' + LIM)

P('P04', 'Instances of a class do not influence each other through shared state',
  'Two objects built from the same class never influence each other through hidden shared state: no run-time data lives in class attributes, module variables, mutable default arguments or memoised results that are then modified. Memory reuse caches shared by instances are keyed by everything their content depends on, and what they hand out is scratch that is written before it is read within one phase of one step and never published.',
  ['configurations', 'schedules', 'histories'], 'Any number of instances, any interleaving of their check/trigger/post phases.',
  'Tests run one instance at a time; contamination needs two instances of compatible sizes interleaved in one trigger group.',
  ['specula/processing_objects/sh.py', 'specula/lib/extrapolation_2d.py', 'specula/lib/zernike_generator.py', 'specula/processing_objects/', 'specula/data_objects/'],
  [('shared scratch caches', 'specula/processing_objects/sh.py:SH._zeros_common, specula/lib/extrapolation_2d.py:EFInterpolator'), ('memoised generators', 'specula/lib/zernike_generator.py')],
  'effect analysis of class/module/default/memoised storage + cache-key dependence analysis',
  LIFE + 'Cache keys are compared with the dependence set of the cached value. ' + LIM)

P('P05', 'Outputs own their storage: they never share memory with an input',
  'After any step, the arrays published by a processing object as outputs are its own: they are neither the array received from an upstream object nor a view of it. A producer updating its own output later in the same or a following step therefore never changes the output of a downstream object behind its back, which delayed connections and recorders depend on.',
  ['inputs', 'configurations', 'schedules'], 'All processing classes, all outputs and inputs, all options.',
  'With a single consumer and fresh input arrays at each step, a shared array has the right values when the test looks at it.',
  ['specula/processing_objects/', 'specula/base_value.py', 'specula/data_objects/'],
  [('output assignments', 'specula/processing_objects/*.py: trigger_code / post_trigger')],
  'abstract interpretation: points-to analysis of outputs vs inputs',
  LIFE + 'May-alias of output-reachable and input-reachable storage is reported. ' + LIM)

P('P06', 'Objects built with a precision and device use them for everything they create',
  'A processing or data object configured with a numerical precision and a target device uses them for everything it creates: data objects, sub-objects and helpers built while it is constructed, set up or run receive the same precision and device, and the arrays it publishes are never allocated or converted with a hard-coded or default floating point type. A simulation in single precision therefore stays in single precision end to end, and a double precision one loses no digits on the way.',
  ['configurations'], 'All processing and data classes, both precisions, any device, all options.',
  'Tests mostly run with the global default precision and one device, where a forgotten argument has no effect; values at the wrong precision are close enough to pass tolerances.',
  ['specula/base_time_obj.py', 'specula/base_data_obj.py', 'specula/processing_objects/', 'specula/data_objects/', 'specula/lib/'],
  [('precision/device default', 'specula/base_time_obj.py:BaseTimeObj.__init__'), ('internal object creation', 'specula/processing_objects/*.py')],
  'abstract interpretation: argument-provenance of every internal constructor call, dtype of output allocations; lint of hard-coded dtypes',
  LIFE + 'Every constructor call executed for an object is checked for the two arguments; arrays reaching outputs are traced to their allocation. ' + LIM)

P('P07', 'The declared inputs and outputs of a class are the ones it really has',
  'For every processing class, input_names() and output_names() declare exactly the inputs and outputs that an instance registers, with the same types and the same optional/required status, whatever the constructor options; and no code of the class reads an input or output name that is not registered. Every declared output is written by some step.',
  ['configurations'], 'All processing classes, all constructor options.',
  'Connections are resolved by name at start-up for the configuration in use only; a name registered under one option only, or with another type, fails only in the configuration that uses it.',
  ['specula/base_processing_obj.py', 'specula/simul.py', 'specula/processing_objects/', 'specula/display/'],
  [('declarations', 'specula/base_processing_obj.py:BaseProcessingObj.input_names / output_names'), ('registration', 'self.inputs[...] / self.outputs[...] in constructors'), ('name resolution', 'specula/simul.py:Simul.connect_objects')],
  'abstract interpretation of class methods and constructors, comparison of key sets per path',
  LIFE + 'Key sets of the inputs/outputs dictionaries at the end of each constructor path are compared with the abstract result of the declaring class methods. ' + LIM)

P('P08', 'No option or rare branch refers to something that does not exist',
  'On every path of every class and library function, including options, error handling and calibration modes that ordinary runs do not take: each attribute or method used on an object of known class exists there and is assigned before it is read, each name is defined, and each function or constructor of the package is called with arguments it accepts. No valid configuration ends in an AttributeError, NameError or argument TypeError from the package itself.',
  ['inputs', 'configurations'], 'All functions and methods of the package, all branches.',
  'A wrong name is only detected when the branch holding it is executed; tests execute some of the branches.',
  ['specula/'],
  [('object life cycles', 'specula/processing_objects/*.py'), ('data objects', 'specula/data_objects/*.py'), ('library', 'specula/lib/*.py')],
  'abstract interpretation with class-typed values: attribute existence, definite assignment, call signature conformance',
  LIFE + 'Also analysed from every method of every other class and every module function. ' + LIM)

P('P09', 'Output objects keep their identity for the whole life of the object',
  'The objects in the outputs of a processing object after construction are the ones it refreshes until the end of the simulation: no later call (setup, any step, finalization) replaces, removes or adds an output or changes the membership of an output list. Connections, recorders and remote links made after construction therefore always see the data being produced.',
  ['configurations', 'histories'], 'All processing classes, all outputs, all options, all steps.',
  'Unit tests usually read obj.outputs[...] after the step, which finds the replaced object; consumers connected beforehand keep the stale one.',
  ['specula/base_processing_obj.py', 'specula/connections.py', 'specula/processing_objects/'],
  [('references held by consumers', 'specula/connections.py:_InputItem.get'), ('output refresh', 'specula/processing_objects/*.py: setup / trigger_code / post_trigger')],
  'abstract interpretation: typestate of the outputs dictionary and of the attributes holding output objects',
  LIFE + 'Every late store that rebinds an output is reported. ' + LIM)

P('P10', 'Each step runs every ready object exactly once, in trigger order',
  'In LoopControl, each iteration goes through the trigger groups in increasing order and, in each group, checks every object, then triggers exactly those that are ready, then finishes them and sends their outputs, before the next group starts; time starts at t0 and advances by exactly dt per iteration until run_time is covered. Every object of the simulation is registered at its own trigger order, set up before the first iteration and finalized after the last, and an exception raised by an object is never swallowed.',
  ['schedules', 'configurations', 'histories'], 'Any number of groups and objects, any readiness pattern, any t0/dt/run_time.',
  'Tests run loops of a few objects whose order rarely matters; a skipped phase, an interleaved phase or an off-by-one step needs several groups with same-group dependencies or particular times.',
  ['specula/loop_control.py', 'specula/simul.py'],
  [('iteration', 'specula/loop_control.py:LoopControl.iter'), ('start and end', 'specula/loop_control.py:LoopControl.start, run, finish'), ('registration', 'specula/simul.py:Simul.run')],
  'path analysis: value-numbered control-flow paths of the loop, typestate of the check/trigger/post protocol',
  'Every acyclic path (loops as an arbitrary iteration, helpers inlined) through LoopControl is compared with the required protocol; reports the call site.')

P('P11', 'An object runs in a step exactly when one of its inputs was refreshed',
  'check_ready(t) makes a processing object ready exactly when it has no inputs, when all of its inputs are optional and unset, or when at least one input (or element of an input list) has a time stamp not older than t; trigger() and post_trigger() refuse to run otherwise, and post_trigger() always makes the object not ready again. setup() rejects a missing required input, inputs are fetched on the device of the object, and classes overriding these hooks still run the base class part on every path.',
  ['inputs', 'schedules', 'histories'], 'All processing classes, any set of inputs and time stamps, any history of steps.',
  'Tests exercise a few combinations of one or two inputs; gating errors need particular mixes of stale, unset, list and optional inputs, or an unusual path in an overridden hook.',
  ['specula/base_processing_obj.py', 'specula/connections.py', 'specula/processing_objects/'],
  [('gate', 'specula/base_processing_obj.py:BaseProcessingObj.checkInputTimes'), ('protocol', 'specula/base_processing_obj.py:check_ready, trigger, post_trigger, setup')],
  'path analysis of the base class gate + abstract interpretation of every overriding hook',
  'Three-way case split (older, equal, later) over every time stamp comparison on every path; ' + LIFE + LIM)

P('P12', 'Values kept over steps are private copies',
  'What a processing object keeps from one step for a later one (samples appended to a history, items stored under a time or a counter, values remembered as "previous") does not share storage with its inputs nor with a buffer that it overwrites at every step. A recorded sample therefore never changes after it has been recorded.',
  ['histories', 'inputs'], 'Every recorder, buffer, display, calibrator and control object; any number of steps.',
  'A shared sample has the right value when it is recorded and is overwritten only by a later step of another object; unit tests feed a fresh array at each step or record once.',
  ['specula/processing_objects/', 'specula/display/', 'specula/data_objects/'],
  [('recorders', 'specula/processing_objects/data_store.py, data_buffer.py: trigger_code'), ('histories', 'specula/processing_objects/gain_optimizer.py, demodulator.py, base_sprint_estimator.py')],
  'abstract interpretation: alias analysis of every element added during a step to storage that survives it',
  LIFE + 'Reports the statement adding the element. ' + LIM)

P('P13', 'A step starts from scratch: results of earlier steps do not leak in',
  'In every step, an array that a processing object keeps (outputs and work buffers) is overwritten before anything is added to or multiplied into it, so that triggering an object again with the same inputs does not pile the new result on the old one. Only the objects meant to carry a sum over time do so, on the arrays made for it: CCD exposure, dark frame averaging and WindowedIntegration, which start again after delivering the sum, long exposure PSFs, averages of calibrators, the position of the screens of AtmoInfiniteEvolution, and counters incremented by one.',
  ['histories', 'configurations'], 'All processing classes, any number of steps, all option combinations.',
  'Unit tests usually trigger an object once on a newly built instance, where the buffers still hold zeros.',
  ['specula/processing_objects/', 'specula/data_objects/electric_field.py'],
  [('accumulation buffers', 'specula/processing_objects/modulated_pyramid.py, modulated_double_roof.py, poly_chrom_wfs.py: trigger_code'), ('field reset', 'specula/data_objects/electric_field.py:ElectricField.reset')],
  'abstract interpretation: typestate (rewritten in this step or not) of every array surviving the step',
  LIFE + 'Reports the in-place operation that accumulates. ' + LIM)

P('P14', 'An optional input may be left unconnected',
  'For every input that a processing object registers as optional, leaving it unconnected either is rejected by setup() with an explicit error or is harmless: no step, with whatever constructor options, uses an attribute, method or element of the missing value.',
  ['configurations', 'inputs'], 'All processing classes, all optional inputs, all constructor options, any number of steps.',
  'Tests connect the inputs that the tested mode uses; the combination of one mode with one missing optional input is rarely built.',
  ['specula/processing_objects/', 'specula/connections.py'],
  [('registration', 'self.inputs[...] = InputValue/InputList(..., optional=True) in constructors'), ('use', 'self.local_inputs[...] in prepare_trigger / trigger_code / post_trigger')],
  'abstract interpretation with None-ness of every optional input, refined by the tests on each path',
  LIFE + 'Reports the expression that dereferences the missing value. ' + LIM)

P('P15', 'A step captured into a CUDA graph acts only on arrays fixed at setup',
  'In every class whose setup() captures trigger_code() as a stream, the captured code neither binds an attribute of an object that outlives the step to another object, nor reads an attribute that another part of the step (prepare_trigger, post_trigger) binds anew at each step, nor changes a persistent container, draws from the host or reads a time stamp. Replaying the graph therefore does what running the code again would do; arrays reallocated only when a size changes are exempt.',
  ['histories', 'configurations'], 'All classes calling capture_stream() on themselves, any number of steps.',
  'Without a GPU the code is simply executed again at each step and the tests pass; the frozen graph gives stale results only on GPU and only from the second step on.',
  ['specula/base_processing_obj.py', 'specula/processing_objects/'],
  [('capture', 'specula/base_processing_obj.py:BaseProcessingObj.capture_stream'), ('captured code', 'specula/processing_objects/sh.py, modulated_pyramid.py, modulated_double_roof.py, ext_source_pyramid.py, atmo_propagation.py: trigger_code')],
  'abstract interpretation: effect analysis (bindings, reads, container changes, host calls) of the captured call graph',
  LIFE + 'Reports the statement or the attribute. The capture itself (CuPy) is not modelled. ' + LIM)

P('P16', 'Two runs of the same configuration give the same numbers',
  'Every random number used in a simulation comes from a generator built from a seed which is a parameter or a constant: there are no draws from a global generator (except where the user left the seed of RandomGenerator unset), no unseeded or clock-seeded generator, no generator rebuilt with the same seed at each step. Every seed parameter of a processing class determines a generator, and no wall clock, process or memory identity value enters the state of the simulation.',
  ['histories', 'configurations'], 'The whole package for draws; all processing classes for seeds and state.',
  'Two runs must be compared with every noise source and option enabled; tests set seeds for few of them and compare statistics.',
  ['specula/processing_objects/', 'specula/lib/'],
  [('generators', 'specula/processing_objects/ccd.py, random_generator.py, vibration_generator.py, atmo_*.py'), ('phase screens', 'specula/lib/calc_phasescreen.py, specula/lib/phasescreen_manager.py, specula/data_objects/infinite_phase_screen.py')],
  'abstract interpretation with provenance of seeds + query for global generator draws over the whole package',
  LIFE + 'Not decided: order of floating point reductions and GPU non-determinism. ' + LIM)

P('P17', 'save() followed by restore() gives back the same data object',
  'For every data object class with save() and restore(): restore() reads only header keys and extensions that save() writes; every attribute that save() writes to the file comes back in the same attribute of the restored object, not transposed and with its axes in order; and every attribute set from a constructor parameter and read by other classes is recovered. An object whose parameters have their default values can be saved.',
  ['inputs', 'configurations'], 'All data object classes, all attribute values, all optional parts present.',
  'Round-trip tests compare the main array on square data with default metadata; an argument passed in the wrong position, a key not read back or an optional extension is not sampled.',
  ['specula/data_objects/'],
  [('writers', 'specula/data_objects/*.py: get_fits_header, save'), ('readers', 'specula/data_objects/*.py: from_header, restore')],
  'abstract interpretation of constructor; save(); restore() over a model of the FITS file, with provenance of every value',
  'Reports the class and attribute. The number of digits kept by a FITS header or file, and files written by other programs, are not decided. ' + LIM)

P('P18', 'set_value() and property setters store the whole value, in place',
  'For every data object class with get_value() and set_value(): after set_value(v), on every path that does not raise, the whole storage that get_value() hands out has been overwritten with v, without replacing the array. After obj.p = v, for every property p of a data object with a setter, reading obj.p gives the assigned value.',
  ['inputs', 'configurations'], 'All data object classes, all values, the object holding a value or not yet.',
  'Tests set one value of one class through one path; a path that stores a part, stores nothing, or rebinds the array breaks the connections made earlier and is seen only by a consumer that kept the reference.',
  ['specula/data_objects/'],
  [('accessors', 'specula/data_objects/*.py: get_value, set_value'), ('setters', 'specula/data_objects/*.py: @x.setter')],
  'abstract interpretation: store coverage of the array returned by get_value(), on every path of set_value()',
  'Reports the method. Shapes are those of the object: a mismatch is refused by numpy. Conversions of dtype are not decided. ' + LIM)

P('P19', 'Objects are built with exactly the parameters written in the configuration',
  'Simul.build_objects() passes every parameter of an object to its constructor under the name without suffix: the value itself, the object or objects named by _ref, _list_ref and _dict_ref, the content of the file for _data, the objects restored from their tags on the device of the object for _object, _list_object and _dict_object; an empty value stays None, an unknown parameter and a failing constructor are errors, and a tagged object is restored from the file of its class and tag. Objects are built after those they refer to, in the processes of their target_rank (data objects without one: everywhere) and are recorded as remote elsewhere; _override, remove and additional entries of further files apply to the simulation index they name. Every data object parameter has a calibration directory, the one where calibrators save that type.',
  ['configurations'], 'All kinds of parameter names, all combinations of process rank, target rank and kind of object, all control-flow paths.',
  'Configurations used in tests contain few of the suffix kinds, no empty values, one process and one parameter file.',
  ['specula/simul.py', 'specula/calib_manager.py'],
  [('builder', 'specula/simul.py:Simul.build_objects, build_order, combine_params, apply_overrides'), ('directories', 'specula/calib_manager.py:CalibManager.__init__')],
  'control-flow path analysis with value numbering and scenario pruning; cross-check of constructor annotations and directories',
  'One set of paths for each kind of parameter name, rank and class (helpers inlined); the value that reaches the constructor is compared with the one prescribed. Reports the statement. ')

P('P20', 'Objects are triggered after the producers of their inputs',
  'The trigger order computed by Simul puts an object in a round only when all its inputs of the current step (single or in lists) come from objects of earlier rounds, inputs with a negative delay being available from the start; an object whose outputs are read with a delay is placed after those readers. Each object is placed once with the number of its round, and placing it removes its outputs, and nothing else, from the inputs that the remaining objects wait for.',
  ['configurations', 'schedules'], 'All configurations: single and list inputs, every delay, every producer; all control-flow paths.',
  'Tests build a few graphs; mixed lists of delayed and current inputs and names that share a prefix are not among them, and a wrong order only gives data that is one step old.',
  ['specula/simul.py'],
  [('order', 'specula/simul.py:Simul.build_trigger_order'), ('availability', 'specula/simul.py:Simul.is_leaf, has_delayed_output, remove_inputs')],
  'control-flow path analysis with value numbering, pruned by scenarios of input kind, delay and producer',
  'For each scenario the answer of the helper on every path is compared with the prescribed one. The text format of an output name is not decided. ')

P('P21', 'An input always gives the current content of the output connected to it',
  'Reading an input gives the output object itself when it is on the device of the reader, otherwise a copy on that device which is created once and refreshed, every array and the time stamp, at every reading; lists keep the order of the connections and a single input refuses more than one output. Between processes, what a send puts on the wire (the object the first time and until it has a value, then its value and its time stamp) is what the matching receive expects, from the same rank and with tags both sides compute alike, and the object sent is left as it was; delayed connections are left out when asked, and only then. Every input of the configuration is connected to every output it names, unless both objects are elsewhere, and wrong names of inputs and outputs are errors.',
  ['configurations', 'schedules', 'histories'], 'Any device of producer and reader, any number of exchanges, values set or not yet, local and remote, all delays, all control-flow paths.',
  'There is no second device nor a second process in the tests: the transfer and remote branches are not executed.',
  ['specula/connections.py', 'specula/base_data_obj.py', 'specula/base_processing_obj.py', 'specula/simul.py'],
  [('reading', 'specula/connections.py:_InputItem.get, InputList.get, InputValue.get'), ('transfer', 'specula/base_data_obj.py:BaseDataObj.transferDataTo, copyTo'), ('remote', 'specula/base_processing_obj.py:BaseProcessingObj.send_remote_output, send_outputs; specula/connections.py:_InputItem.receive_new_value'), ('connections', 'specula/simul.py:Simul.connect, connect_objects, split_output')],
  'control-flow path analysis with value numbering, pruned by scenarios of device, rank, array kinds, delay; comparison of both sides of a remote exchange',
  'Each path compatible with a scenario must have the prescribed effect. Outputs that are lists are not followed over MPI (they are sent item by item on one tag), nor is the progress of MPI itself. ')

P('P22', 'Recordings hold every refreshed sample once, under its time, and replay it',
  'From start_time on, DataStore stores at each step a private copy of the value of every input refreshed at that step, under the integer time of the step, keeping one sample out of N for the downsampling factor N of that input. Everything stored reaches exactly one file named after its input: a chunk in a new directory every split_size iterations and the shorter last one, or all of it at the end, and nothing is forgotten before being saved. DataSource refuses two outputs of one name, reads the files where DataStore writes values and times, refreshes each output at exactly the times it has a sample for, with that sample and that time stamp; DataBuffer emits all the samples of every buffer_size steps, and the rest at the end.',
  ['inputs', 'histories', 'configurations'], 'Any sequence of refreshed, stale and unset inputs, any start time, downsampling factors, chunk and buffer sizes, both file formats, any length of the run.',
  'Tests record a few steps with hand-made dictionaries and mock the files; lengths that are not multiples of the chunk or of the factor are not tried.',
  ['specula/processing_objects/data_store.py', 'specula/processing_objects/data_source.py', 'specula/processing_objects/data_buffer.py'],
  [('recording', 'specula/processing_objects/data_store.py:DataStore.trigger_code, _should_store_input, finalize'), ('files', 'specula/processing_objects/data_store.py:DataStore.save_fits, save_pickle, create_TN_folder'), ('replay', 'specula/processing_objects/data_source.py:DataSource.load_fits, load_pickle, trigger_code'), ('buffering', 'specula/processing_objects/data_buffer.py:DataBuffer.trigger_code, emit_buffered_data, finalize')],
  'control-flow path analysis: the state transition of a step is extracted from the paths and followed over the small states that decide it; comparison of the layouts written and read',
  'Counters are followed for 8 steps with factors and sizes up to 3; two inputs stand for any number. Errors while writing a file are outside (the code reports them only when verbose), as is the precision the values are saved with. ')

P('P23', 'Ticks and seconds are never mixed, and times convert exactly',
  'Simulation time is an integer count of ticks of one resolution shared by all objects: seconds_to_t() gives the nearest tick, t_to_seconds() the same time in seconds. Times in seconds (constructor parameters, time_step, current_time_seconds) and times in ticks (current_time, generation_time, the time given to check_ready() and prepare_trigger(), results of seconds_to_t()) are never compared, added, subtracted, taken modulo or assigned to each other without a conversion, and each conversion is given the unit it converts. A number of ticks never enters a formula as a physical duration.',
  ['inputs', 'configurations'], 'Every start time, interval and time step a user can configure, every step of every run, all classes.',
  'A missing conversion shows only at the right start time, interval or run length; the defaults (0, None) that tests use behave the same in both units.',
  ['specula/base_time_obj.py', 'specula/base_processing_obj.py', 'specula/loop_control.py', 'specula/processing_objects'],
  [('conversions', 'specula/base_time_obj.py:BaseTimeObj.seconds_to_t, t_to_seconds'), ('clock', 'specula/loop_control.py:LoopControl.start, iter; specula/base_processing_obj.py:BaseProcessingObj.prepare_trigger'), ('uses', 'specula/processing_objects/ccd.py, demodulator.py, gain_optimizer.py, windowed_integration.py, psf.py, data_print.py, atmo_evolution.py, slopec.py')],
  'unit inference (a dimension type system) over every method of every class, with helper inlining and attribute summaries; control-flow paths of the two conversions',
  'Values read from files, from the outputs of other objects and results of unknown functions have no unit and are never reported. ')

P('P24', 'Calibrations are saved where, as and only when configured',
  'Each calibrator saves each result in one .fits file of its own, directly under data_dir (absolute or relative), named after its tag (the template when the tag is auto, the name given at run time, or a generated one), in a directory that is made before. The file whose existence is tested is the file that is saved: without overwrite an existing one is refused, with overwrite it is accepted and replaced, and the overwrite permission of the calibrator reaches the first write of the data object. No path of finalize() ends without saving the result, unless saving is disabled.',
  ['inputs', 'configurations'], 'Every calibrator, directory, tag, template, overwrite setting, and set of files already there.',
  'Tests use one absolute temporary directory that already exists, where joining it twice or not making it shows nothing.',
  ['specula/processing_objects', 'specula/data_objects'],
  [('names and tests', 'specula/processing_objects/im_calibrator.py, multi_im_calibrator.py, rec_calibrator.py, multi_rec_calibrator.py, sn_calibrator.py, sh_subap_calibrator.py, pyr_pupdata_calibrator.py, dynamic_dark_calibrator.py: __init__, setup, finalize, post_trigger'), ('permission', 'specula/data_objects/*.py: save(filename, overwrite)')],
  'control-flow paths of constructor, setup, finalize and post_trigger pruned by scenario (directory, tags, overwrite, existence), constant folding of file names, ordering of makedirs and save',
  'The class list is derived: every processing object with data_dir and overwrite constructor parameters, and every data class with save(filename, overwrite). Names from outside a configuration are not judged.')

P('P25', 'Averages divide by the number of terms summed',
  'Quantities averaged over a run (integrated PSF and Strehl ratio and the PSF variance, slope null, each mode of an interaction matrix, dark frame) are the sum of their terms divided, once, by exactly the number of terms added: sum and counter start empty, advance together on every path of a step, in the same loop and for the same index, and are reset together. A dark frame ordered while another is being acquired, or a number of frames changed meanwhile, does not mix terms of one order with the number of another.',
  ['histories', 'inputs'], 'Every number of steps, start time, command history, order and change of order.',
  'Tests average one or a few identical frames, or one push per mode, where a missed term, a missed reset or a wrong divisor cancels.',
  ['specula/processing_objects'],
  [('integrals', 'specula/processing_objects/psf.py:PSF.post_trigger, finalize; psf_coronagraph.py:PsfCoronagraph'), ('calibrations', 'specula/processing_objects/sn_calibrator.py, im_calibrator.py, multi_im_calibrator.py, dynamic_dark_calibrator.py')],
  'path-sensitive pairing of sums with counters over every path of a step and of finalize; transition system of the dark frame acquisition followed over orders, repeated orders and changes of the number of frames',
  'Sums and counters are found in the code (an attribute incremented by one whose value divides other attributes); a moving or time-weighted average is not one of them.')

NOT('N01', 'Optical propagation conserves flux and energy',
  'For every input field, propagation through masks, lenslets, pyramid and detector conserves the number of photons except for the losses that are configured (transmission, quantum efficiency, field stop, field of view).',
  ['inputs', 'configurations'], 'All amplitudes, phases, geometries and fluxes.',
  'Tests compare the total flux of a few frames.', ['specula/processing_objects/sh.py', 'specula/processing_objects/modulated_pyramid.py', 'specula/processing_objects/ccd.py'],
  [('normalisation', 'specula/processing_objects/sh.py:SH.trigger_code, modulated_pyramid.py:ModulatedPyramid.trigger_code')],
  'The statement is about sums of Fourier transformed arrays with run-time shapes and values: no static argument over the source bounds them (an FFT normalisation is an equation between real numbers, not a flow or a shape of the program).')

NOT('N02', 'Phase screens have the configured atmospheric statistics',
  'Generated turbulence has the structure function given by r0 and L0 and moves by exactly wind speed times time, without seams, for every seed and duration.',
  ['inputs', 'histories'], 'All seeds, sizes, r0, L0, wind vectors, durations.',
  'Statistical: tests sample one seed.', ['specula/lib/calc_phasescreen.py', 'specula/lib/turbulence.py', 'specula/processing_objects/atmo_evolution.py', 'specula/data_objects/infinite_phase_screen.py'],
  [('screens', 'specula/lib/calc_phasescreen.py, specula/data_objects/infinite_phase_screen.py')],
  'A property of the distribution of floating point results over random seeds; the source only shows which formula is evaluated, and comparing formulas with a reference text would judge how the code is written. The deterministic part (seeds, no global draws) is P16.')

NOT('N03', 'Reconstruction inverts the interaction matrix to working precision',
  'For every well conditioned interaction matrix, rec * intmat is the identity on the kept modes within the rounding error of the configured precision.',
  ['inputs', 'configurations'], 'All matrices, mode counts, regularisations and precisions.',
  'Tests use a few random matrices.', ['specula/data_objects/intmat.py', 'specula/data_objects/recmat.py', 'specula/lib/mmse_reconstructor.py', 'specula/lib/modal_base_generator.py'],
  [('inversion', 'specula/data_objects/intmat.py:Intmat.generate_rec*')],
  'Numerical analysis of pseudo-inverses: depends on conditioning of run-time matrices and on LAPACK.')

NOT('N04', 'A stable control filter keeps the closed loop bounded',
  'With gains below the stability limit of the configured delay, commands and residuals stay bounded for every bounded disturbance.',
  ['inputs', 'histories', 'configurations'], 'All gains, filters, delays and disturbances.',
  'Tests run few steps of few loops.', ['specula/processing_objects/integrator.py', 'specula/processing_objects/base_filter.py', 'specula/data_objects/iir_filter_data.py'],
  [('filtering', 'specula/processing_objects/iir_filter.py')],
  'Stability depends on the numeric values of gains and poles given at run time; a static rule could only restate the difference equation.')

NOT('N05', 'Results do not depend on CPU or GPU execution',
  'The same configuration gives the same numbers, within rounding, on CPU and on any GPU, with or without CUDA graphs and parallel streams.',
  ['configurations', 'schedules'], 'All configurations, all devices.',
  'No GPU in the test environment.', ['specula/__init__.py', 'specula/base_processing_obj.py', 'specula/lib/'],
  [('array module', 'specula/__init__.py:init')],
  'Equality of results across two numerical libraries cannot be decided from this source. The structural parts are decided elsewhere: arrays created on the object device (P06), inputs fetched on the device (P11), captured code (P15).')
