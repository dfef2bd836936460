"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py rewrites both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = {}


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe))), note))


prop("C01", "Chunks are equal exactly when their non-empty slots agree",
     "Two chunks are equal exactly when they have the same values in the same non-empty slots: chunk type, slot order and slots explicitly left empty do not matter; descriptions are equal when they also name and exclude the same values and variables. "
     "Equality is reflexive, symmetric and transitive, and equal chunks hash alike, so that a set or a memory holds each distinct chunk once.",
     ["inputs"], "all pairs and triples of chunks of up to 3 (thorough 4) slots, each slot absent, empty, any string, or a nested chunk",
     "The tests compare a handful of literal chunks; equality and the cached hash quantify over all slot subsets and values.",
     ["pyactr/chunks.py"], [("Chunk.__eq__", "pyactr/chunks.py"), ("Chunk.__hash__", "pyactr/chunks.py"), ("Chunk.removeempty", "pyactr/chunks.py")],
     [("boundvars", "variable bindings that take part in the hash", "Chunk")], ["==, hash, membership in a declarative memory"])

prop("C02", "A pattern matches a chunk iff one consistent binding satisfies it",
     "A pattern matches a chunk exactly when every slot's required value, excluded values, variables and excluded variables are satisfied by one consistent assignment that extends the bindings already made; a slot the chunk lacks counts as empty, and slots the pattern does not mention are ignored. "
     "A successful match keeps the earlier bindings and binds each new variable to the value of its slot.",
     ["inputs"], "all patterns of up to 3 slots and all chunk values, with variables unbound, bound, bound to an empty slot or already excluded from a value",
     "The tests try a few literal patterns; repeated variables, exclusions read before a binding, and empty slots need all combinations of values.",
     ["pyactr/chunks.py", "pyactr/utilities.py"], [("Chunk.match", "pyactr/chunks.py"), ("Chunk.__le__", "pyactr/chunks.py"), ("splitting", "pyactr/utilities.py")],
     [("boundvars", "variable to value, and excluded values", "Chunk")], ["<= and < on chunks, the pattern's bindings"])

prop("C03", "Partial matching sums the similarities of the violated requirements",
     "With partial matching on, a chunk's activation changes by the sum, over the requirements of the request that the chunk violates, of the similarity declared for the two values (declared in either order, the latest declaration counts), or minus the mismatch penalty where none is declared; satisfied requirements contribute nothing. "
     "Positive similarities are refused and a refused declaration has no effect.",
     ["inputs", "configurations"], "all slot values, all declared non-positive similarities, all mismatch penalties, requests of up to 3 slots",
     "One test model uses one similarity; the quantification is over values, declarations and penalties.",
     ["pyactr/chunks.py", "pyactr/utilities.py", "pyactr/model.py"],
     [("Chunk.match(partialmatching=True)", "pyactr/chunks.py"), ("get_similarity", "pyactr/utilities.py"), ("ACTRModel.set_similarities", "pyactr/model.py")],
     [("similarities", "pairs of values to non-positive numbers", "ACTRModel / Chunk")], ["activation of the retrieved chunk"])

prop("C04", "Right-hand sides resolve variables to their bound values or are refused",
     "When a rule creates, modifies or searches with a description, every variable stands for the value it is bound to: constants stay, a relative position keeps its sign and takes the number, and a variable bound to an empty slot gives an empty slot. "
     "A description is refused, with the library's error, exactly when it uses an unbound variable, would put two different values in one slot, or (for goals and modifications) excludes values.",
     ["inputs"], "all values and bindings for descriptions of up to 2 slots of every kind, used to create, to modify and to search",
     "The tests only use well-formed rules with one binding each.",
     ["pyactr/utilities.py", "pyactr/goals.py", "pyactr/buffers.py", "pyactr/declarative.py"],
     [("check_bound_vars", "pyactr/utilities.py"), ("Goal.create", "pyactr/goals.py"), ("Buffer.modify", "pyactr/buffers.py"), ("DecMemBuffer.retrieve", "pyactr/declarative.py")],
     (), ["the chunk created, the chunk found, or the error"])


prop("C05", "Changing a buffer's chunk changes only the named slots of that buffer",
     "Modifying the chunk in a buffer gives exactly the named slots their new values, keeps the other slots, and leaves one chunk in the buffer. "
     "The chunk that was there before, equal chunks in other buffers and everything in memory keep their values, and clearing the modified chunk later stores it in memory next to the original.",
     ["inputs"], "all slot values and all subsets of slots changed once or twice, in each kind of buffer, directly or by a rule",
     "Aliasing between buffer, memory and pattern shows only for particular sequences and slot subsets; tests look at the final buffer.",
     ["pyactr/buffers.py", "pyactr/goals.py", "pyactr/vision.py", "pyactr/productions.py"], [("Buffer.modify", "pyactr/buffers.py"), ("VisualLocation.modify", "pyactr/vision.py"), ("Productions.modify", "pyactr/productions.py")],
     (), ["slots of the chunks in buffers and memory"])

prop("C06", "What leaves a buffer goes to its memory, once, with the time",
     "A goal, retrieval, visual or location buffer holds at most one chunk after any sequence of operations. "
     "A chunk that is cleared, or displaced by a retrieved or seen chunk or by a rule that sets a new goal, is added to the connected (or given) memory with the current time; overwriting a goal or putting one in directly stores nothing. Nothing else enters memory.",
     ["inputs", "histories"], "all sequences of up to 4 operations on the four kinds of buffer, all slot values and times",
     "Which chunk is harvested, when and where depends on the history; tests check single steps.",
     ["pyactr/buffers.py", "pyactr/goals.py", "pyactr/declarative.py", "pyactr/vision.py", "pyactr/productions.py"],
     [("Buffer.clear/add", "pyactr/buffers.py"), ("Goal.add/create/clear", "pyactr/goals.py"), ("DecMemBuffer.add/clear", "pyactr/declarative.py"), ("Visual.add/clear", "pyactr/vision.py")],
     (), ["contents of buffers and memory"])

prop("C07", "Memory holds each distinct chunk once with all its times",
     "Declarative memory keeps one entry per distinct chunk with the times at which it was added, in order, whether chunks are added one by one, as lists, with lists of times, or assigned; nothing else is in it, and only chunks can be stored. "
     "A copy of a memory and the original do not affect each other.",
     ["inputs", "histories"], "all sequences of up to 4 additions, assignments, deletions and copies with arbitrary, possibly equal chunks and times",
     "Equality of arbitrary chunks decides what is merged; tests add a few literals.",
     ["pyactr/declarative.py"], [("DecMem.add", "pyactr/declarative.py"), ("DecMem.__setitem__", "pyactr/declarative.py"), ("DecMem.copy", "pyactr/declarative.py")],
     (), ["keys and times of a memory"])

prop("C08", "Retrieval without subsymbolic computation is sound and complete",
     "Without subsymbolic computation a request retrieves a chunk from memory exactly when one matches it, was not first stored at this very moment (within the 0.1 ms clock), and passes the test for recent retrieval, where the recent chunks are the last N retrieved; otherwise it fails. "
     "A success takes no time; a failure takes one rule firing, leaves the buffer empty and puts it in the error state.",
     ["inputs", "histories"], "all memories of 2 to 3 chunks, all requests over 2 slots, all times, up to 3 requests",
     "The recent-retrieval window and the storage moment depend on values and times no fixed test samples.",
     ["pyactr/declarative.py", "pyactr/productions.py"], [("DecMemBuffer.retrieve", "pyactr/declarative.py"), ("Productions.retrieve", "pyactr/productions.py")],
     [("recent", "the last chunks retrieved", "DecMemBuffer")], ["the chunk retrieved, the time, the state of the buffer"])


prop("C09", "Subsymbolic retrieval returns the most active chunk above the threshold",
     "With subsymbolic computation a request retrieves, among the chunks that match (all chunks with partial matching) and pass the recency test, one with the highest activation, provided that it reaches the retrieval threshold; otherwise the retrieval fails. "
     "Activation is the sum of base level, spreading activation, partial matching and one logistic noise draw (location 0, the scale set) per candidate; the retrieved chunk's activation is recorded. "
     "Retrieval takes F*exp(-f*A), failure F*exp(-f*threshold), after which the buffer is empty and in the error state.",
     ["inputs", "configurations", "histories"], "all activations, thresholds, latency parameters, noise draws and slot values for memories of up to 3 chunks and 2 requests",
     "Tests compare a handful of rounded numbers; the order of competing activations and the boundary need all real values.",
     ["pyactr/declarative.py", "pyactr/utilities.py", "pyactr/productions.py"], [("DecMemBuffer.retrieve", "pyactr/declarative.py"), ("retrieval_latency, retrieval_success, calculate_instantaneous_noise", "pyactr/utilities.py"), ("Productions.retrieve", "pyactr/productions.py")],
     [("activation", "activation of the last retrieved chunk", "DecMemBuffer")], ["the chunk retrieved, its recorded activation, the time"])

prop("C10", "Base-level activation follows the power law of past presentations",
     "With base-level learning the base level of a chunk is ln(sum over its past presentations of (now - t)^-d), or ln(n/(1-d)) - d ln(now - latest) with optimized learning, where presentations at this very moment (within the 0.1 ms clock) do not count; without learning it is 0. "
     "A manually given activation a is combined as ln(e^B + e^a) and stands alone when there is no past presentation. A chunk with neither cannot be retrieved.",
     ["inputs", "configurations", "histories"], "all presentation times (up to 3, in any order, some of them now), decays, manual activations and thresholds",
     "The tests fix the times; presentations at the present moment and ties in time need all relative orders.",
     ["pyactr/utilities.py", "pyactr/declarative.py"], [("baselevel_learning", "pyactr/utilities.py"), ("DecMemBuffer.retrieve", "pyactr/declarative.py")],
     [("traces", "times of presentation of a chunk", "DecMem")], ["the recorded activation, the chunk retrieved, the time"])

prop("C11", "Spreading activation follows the fan of the sources",
     "Spreading activation of a chunk i is the sum over source buffers of W/n times the sum over the n sources j in the buffer's chunk of S - ln(fan_j / k), counted only when i is j or holds j in k > 0 slots (in the same slot, if spreading is restricted; k counts as 1 when i is j). "
     "fan_j is one more than the number of slots in memory that hold j (in that slot, if restricted) at that moment, whatever was added, deleted or repeated before. Sources are chunks, or all values if so configured.",
     ["inputs", "configurations", "histories"], "all weights and strengths, memories of up to 3 chunks and up to 2 source buffers with arbitrary, possibly equal contents, with changes of memory between requests",
     "Fan counts are cached across requests; the tests never change memory in between.",
     ["pyactr/utilities.py", "pyactr/declarative.py"], [("spreading_activation, calculate_strength_association, weigh_buffer, find_chunks", "pyactr/utilities.py"), ("DecMem.__setitem__, __delitem__, copy", "pyactr/declarative.py")],
     [("restricted/unrestricted_number_chunks", "cached fans", "DecMem")], ["the recorded activation"])


prop("C12", "A rule applies exactly when one binding satisfies all its conditions",
     "A rule is selected only if all its buffer tests and queries hold under one consistent assignment of variables, shared between the buffers (whatever their order), where the name of a buffer stands for the chunk in it; a test on an empty buffer fails. "
     "When the rule fires, its variables have the values that satisfied the conditions.",
     ["inputs"], "all contents of up to three buffers (empty, missing slots, any strings or chunks) and rules with up to 2 tested slots per buffer of every kind, and queries",
     "The tests use fixed models in which one rule matches as intended; sharing of variables across buffers needs all combinations of values.",
     ["pyactr/productions.py", "pyactr/chunks.py"], [("ProductionRules.LHStest/test/query", "pyactr/productions.py"), ("Chunk.match", "pyactr/chunks.py")],
     [("variables", "bindings made by the conditions of the rule", "ProductionRules")], ["which rules fire, the chunk set by the rule"])

prop("C13", "The applicable rule with the highest utility fires",
     "In each cycle at most one rule is selected: one that applies and whose current utility, plus a logistic noise draw (location 0, the scale set) per rule when subsymbolic computation and utility noise are on, is at least that of every other applicable rule. "
     "If no rule applies none is selected and nothing changes.",
     ["inputs", "configurations", "histories"], "all utilities (also changed between cycles), noise draws and scales, all combinations of applicable rules among up to 3",
     "The tests fix the utilities; ordering and noise need all real values.",
     ["pyactr/productions.py"], [("ProductionRules.procedural_process", "pyactr/productions.py"), ("calculate_instantaneous_noise", "pyactr/utilities.py")],
     [("utility", "utility of a rule", "Production")], ["RULE SELECTED / RULE FIRED events, the goal"])

prop("C14", "Rewards update the utilities of all rules selected since the last reward",
     "With utility learning, when a rule with a reward R (also 0 or negative) fires at time T, every rule selected since the previous reward, itself included, gets U := U + alpha (R - (T - t) - U) for each time t of its selection, rounded to 4 digits; other rules, and all rules when learning is off, keep their utilities. "
     "Later cycles choose by the learned utilities.",
     ["inputs", "configurations", "histories"], "all utilities, rewards, learning rates and firing times for chains of up to 4 firings with up to 2 rewards",
     "The tests check one fixed chain.",
     ["pyactr/productions.py", "pyactr/utilities.py"], [("modify_utilities", "pyactr/utilities.py"), ("ProductionRules.procedural_process", "pyactr/productions.py")],
     [("used_rulenames", "rules selected since the last reward, with times", "Productions")], ["the utilities in the model's productions, RULE SELECTED events"])

prop("C15", "A rule acts on what holds when it fires and only on what it names",
     "A selected rule fires one firing time later if its conditions hold then, with the values that hold then, and otherwise is stopped and the next rule is looked for. "
     "Its actions change exactly the buffers they name (a goal is set or overwritten after the goal's delay); with strict harvesting every tested buffer it does not mention is cleared into memory, otherwise such buffers stay.",
     ["inputs", "configurations", "schedules"], "all combinations of actions on three buffers, strict harvesting on and off, all firing times, delays and latencies, all slot values",
     "Tests cover single actions; combinations of actions, delays and retrievals that arrive before the rule fires are not sampled.",
     ["pyactr/productions.py", "pyactr/simulation.py"], [("ProductionRules.procedural_process/update", "pyactr/productions.py"), ("modify, overwrite, retrieveorset, clear", "pyactr/productions.py")],
     (), ["contents of buffers and memory, RULE FIRED / RULE STOPPED FROM FIRING events"])

prop("C16", "Simulated time runs in order and every module takes its own time",
     "Events come in the order of time; a cycle from conflict resolution to firing takes one rule firing time, rules react at once to what modules bring about, and retrievals and goal settings that run in parallel each take their own time. "
     "A new request to a busy module replaces the pending one. A run processes exactly what happens before its end, can be continued, and ends when nothing is left to do.",
     ["inputs", "schedules"], "all firing times, latencies and delays (in both orders), all end times of runs",
     "The relative order of parallel events depends on times that tests fix.",
     ["pyactr/simulation.py", "pyactr/productions.py"], [("Simulation processes", "pyactr/simulation.py"), ("ProductionRules.procedural_process", "pyactr/productions.py")],
     (), ["events, show_time, contents of buffers"])

prop("C17", "Key presses take the time of their keys and follow one another",
     "Every requested key press runs through preparation, initiation, press and finish with the durations that the motor module defines for the key, its hand and style compared with the previous press; the requested key is pressed. "
     "Movements do not overlap: one that is prepared earlier waits for the end of the previous one, a request during the preparation of another replaces it, and at the end the module is free. Unknown keys and commands are refused.",
     ["inputs", "schedules"], "all keys of the keyboard for one and two presses, sequences of three, all firing times, requests made when the hands or when the preparation is free",
     "The tests press a few fixed keys; the timing depends on pairs of keys and on how the phases of successive presses overlap.",
     ["pyactr/motor.py", "pyactr/productions.py"], [("Motor.create, Motor.modify", "pyactr/motor.py"), ("ProductionRules.motorset", "pyactr/productions.py")],
     [("last_key, preparation, processor, execution", "phase of the current movement", "Motor")], ["COMMAND, PREPARATION COMPLETE, INITIATION COMPLETE, KEY PRESSED, MOVEMENT FINISHED events"])

prop("C18", "A visual search finds the best stimulus that satisfies the request",
     "A search of the visual field finds a stimulus on the screen that satisfies the requested text, visible features and positions (equal, smaller or greater), is lowest, highest or closest among those if that is requested, and is attended or not by the last finst stimuli found; "
     "it sets the state to error and leaves the buffer as it was exactly when there is none. Automatic search finds the closest stimulus that was not found recently and leaves the buffer free.",
     ["inputs", "histories"], "screens of up to 3 (thorough 4) stimuli at any positions with any texts and colours, any focus, all requests with one superlative, sequences of requests and screens",
     "The tests look at two stimuli at fixed positions; which stimulus is best depends on the order of all positions and on what was found before.",
     ["pyactr/vision.py", "pyactr/productions.py", "pyactr/utilities.py"], [("VisualLocation.find, VisualLocation.automatic_search", "pyactr/vision.py"), ("ProductionRules.visuallocationset", "pyactr/productions.py"), ("calculate_distance", "pyactr/utilities.py")],
     [("recent", "the last stimuli found", "VisualLocation")], ["the visual_location buffer and its state, ENCODED LOCATION events"])

prop("C19", "Shifts of attention take the EMMA times and encode the object that was asked for",
     "A shift of attention to a stimulus encodes that stimulus with its text and features and ends with the eyes there; preparation, movement and encoding take the times that EMMA gives for the visual angle and the visual delay (or 0, 85 and 85 ms without EMMA), a movement waits for the previous one, and a request made during preparation replaces the shift in preparation. "
     "On a new screen a stimulus with a new text within one degree of the focus is buffered by itself (unless that was stopped at this focus), in place of what the buffer held and with its own features only, and a screen change never leaves the module busy. With noise each of the times is drawn from a gamma distribution with that mean, and the eyes end at the drawn landing site.",
     ["inputs", "schedules"], "one and two shifts at any positions, focus, delays and parameters, requests when the module or its preparation is free or busy, up to 2 screens of two sizes, arbitrary draws of the noise",
     "The tests use one or two fixed positions; the order of encoding, preparation and movement depends on angle, delay and parameters.",
     ["pyactr/vision.py", "pyactr/productions.py", "pyactr/utilities.py", "pyactr/simulation.py"], [("ProductionRules.visualshift, visualcontinue, visualencode, automatic_buffering", "pyactr/productions.py"), ("Visual.shift, Visual.automatic_buffering", "pyactr/vision.py"), ("calculate_visual_angle, calculate_delay_visual_attention, calculate_execution_time", "pyactr/utilities.py"), ("Simulation.__envGenerator__, __extraprocessGenerator__", "pyactr/simulation.py")],
     [("last_mvt", "when the last movement of the eyes ends", "Visual"), ("current_focus", "where attention is and where the eyes are", "Visual, Environment")], ["visual events with their times, the visual buffer, the flags of the module, the focus of the environment"])


prop("C20", "The environment shows its screens on schedule or at a trigger key",
     "Each screen is shown from the end of the previous one until its trigger key is pressed or its scheduled time (the start plus all durations up to it) has come, whichever is first, and automatic search notices a new screen at the moment it appears; the last screen stays. "
     "A single stimulus, trigger or time is used for all screens, and numbers of them that do not fit are refused. "
     "Actions of rules at any time relative to a screen change, also at the very same moment, are carried out, neither stop the simulation nor leave a module busy.",
     ["inputs", "schedules"], "1 to 4 screens of any durations and start, up to three key presses at any times, triggers in all their forms, a rule action on any buffer at any time relative to a change of the screen",
     "The tests use whole seconds and one trigger; what happens depends on the order of presses, ends of screens and rule firings, and on coincidences between them.",
     ["pyactr/environment.py", "pyactr/simulation.py", "pyactr/productions.py"], [("Environment.environment_process", "pyactr/environment.py"), ("Simulation.__envGenerator__, __envprintGenerator__, __extraprocessGenerator__", "pyactr/simulation.py"), ("ProductionRules.automatic_search, automatic_buffering", "pyactr/productions.py")],
     [("stimulus", "what the screen shows", "Environment"), ("trigger", "keys that end the screen", "Environment")], ["Environment.stimulus, PRINTED NEW STIMULUS and visual events, module states"])


prop("C21", "A compiled production does what its two productions do one after the other",
     "With production compilation, two different rules that fire one after the other are compiled into a rule that fires in exactly those states of the buffers in which the first and then the second rule would fire, and leaves the chunks that they would leave; a retrieval that the second rule uses is replaced by what was retrieved. "
     "Rules whose combination could do something else (two requests to one module, a test for an error, a retrieval used by another rule) are not compiled, and nothing is reported as created then. "
     "A rule compiled again is not stored twice and, with utility learning, comes closer to the utility of the first rule.",
     ["inputs", "histories"], "pairs of rules with all kinds of tests and actions on one or two goal buffers of 2 (thorough 3) slots and with a retrieval in between, for all values in the rules, in the buffers when compiling and in the buffers afterwards; compiling a compiled rule once more",
     "The tests look at the form of nine compiled rules and run three of them on the chunk that they were compiled from; that a rule is right for other chunks depends on all combinations of variables and values.",
     ["pyactr/productions.py", "pyactr/utilities.py"], [("Productions.compile_rules, __collapse__, __rename__, __substitute__, __check_valid_compilation__", "pyactr/productions.py"), ("match, make_chunkparts_with_new_vars, merge_chunkparts", "pyactr/utilities.py")],
     [("current_slotvals, last_rule_slotvals", "what the last rules put into the buffers", "ProductionRules")], ["model.productions, RULE CREATED events, buffers after a compiled rule fired"])

prop("C22", "Models in one program do not influence each other",
     "Each model of a program behaves as if it were alone: parameters, similarities, utilities, rewards, memories and the chunks put into its buffers have no effect on another model, however the models are built, simulated and run in turns. "
     "Parameters given to or changed in one model do not change those of models made before or after it. "
     "A second simulation of a model on the same contents runs like the first one.",
     ["inputs", "schedules", "histories"], "two models of six kinds (similarities, penalties, spreading activation, utility learning, plain, harvesting), or two of one kind, with arbitrary values and parameters, built and stepped in five orders, also with one chunk object in both; second simulations after a run cut at any of three points",
     "Every test builds one model and runs it at once; a model that reads state left by another one (or by its own last run) gives plausible results, which only a comparison for all parameters reveals.",
     ["pyactr/model.py", "pyactr/chunks.py", "pyactr/declarative.py", "pyactr/productions.py", "pyactr/simulation.py"], [("ACTRModel.__init__, set_similarities, simulation", "pyactr/model.py"), ("Chunk.match", "pyactr/chunks.py"), ("DecMemBuffer.retrieve", "pyactr/declarative.py")],
     [("MODEL_PARAMETERS, Chunk._similarities, used_rulenames", "state on classes and on the model", "ACTRModel, Chunk, Productions")], ["events, goal, memory, activation and utilities of each model"])


prop("C23", "Rules and chunks given as text mean what the text says",
     "A production given as text, or as a function whose slot values carry marks (=x, ~=x, !v, ~!v), applies exactly when its written conditions hold (values, quoted values, numbers, None, variables, excluded values and variables, several of them on one slot, names of chunks, relative positions, queries) and does its written actions, in whatever layout and order it is written. "
     "A chunk given as text has the type and the slots of the text, and its name stands for it in later texts. "
     "Texts that cannot be understood, or that give one slot two values or two variables, are refused with the library's error.",
     ["inputs"], "about 130 texts of rules and chunks made from their meaning in three layouts, each on all contents of the buffers", "The tests read some thirty rules written in one layout and run each on the one chunk it was written for.",
     ["pyactr/model.py", "pyactr/chunks.py", "pyactr/utilities.py"], [("ACTRModel.productionstring, chunkstring", "pyactr/model.py"), ("createchunkdict, makechunk, chunkstring", "pyactr/chunks.py"), ("getrule, getchunk, stringsplitting", "pyactr/utilities.py")],
     [("model.productions", "the rules", "ACTRModel"), ("Chunk._chunks", "chunks known by name", "Chunk")], ["which rule fires, the buffers afterwards, equality of chunks, ACTRError"])

prop("C24", "A simulation may begin at any time and be run in any pieces",
     "A model whose simulation begins at time T, with its memories dated accordingly, does what it does when it begins at 0, with every event T later and the same buffers, memory, activations and utilities. "
     "It makes no difference to what the model does whether the simulation is run at once, in several runs that each end at a given time, step by step, in real time, or with its trace printed. "
     "In real time the simulation takes the time that it simulates.",
     ["inputs", "schedules"], "seven kinds of models with arbitrary delays and values, arbitrary beginnings, cuts at arbitrary moments", "The tests begin all simulations at 0 and step through them in one way.",
     ["pyactr/simulation.py", "pyactr/model.py", "pyactr/environment.py", "pyactr/productions.py"], [("Simulation.run, step, steps", "pyactr/simulation.py"), ("ACTRModel.simulation", "pyactr/model.py"), ("Environment.environment_process", "pyactr/environment.py")],
     [("Simulation.show_time", "the time of the simulation", "simpy.Environment.now"), ("initial time", "when the simulation begins", "ACTRModel.simulation")], ["the events, and after them buffers, memory, activations, utilities"])
prop("C25", "Looking at a model or copying its parts changes nothing",
     "A model whose memories, buffers, chunks, rules and environment are printed, read, iterated over, compared or copied at any time during a simulation does exactly what it does unobserved. "
     "A copy of a memory or of a goal buffer holds what the original held and from then on neither sees changes of the other.",
     ["inputs", "histories"], "seven kinds of models looked at before every step in five ways; copies with arbitrary contents, changed on either side", "Tests do not look at a model while it runs, and a change by looking (a value popped, a counter, an object shared by a copy) shows only later.",
     ["pyactr/buffers.py", "pyactr/chunks.py", "pyactr/declarative.py", "pyactr/goals.py", "pyactr/productions.py"], [("Buffer.show, __iter__, __repr__", "pyactr/buffers.py"), ("Chunk.__eq__, __lt__, match, __repr__, removeunused", "pyactr/chunks.py"), ("DecMem.copy, DecMemBuffer.copy, Goal.copy", "pyactr/declarative.py, pyactr/goals.py")],
     [("DecMem._data, activations", "the memory", "DecMem"), ("Buffer._data", "what a buffer holds", "Buffer")], ["events, buffers, memory, activations, utilities of a model that is looked at and of one that is not; contents of copies"])

prop("C26", "A model that is set up anew does the same again",
     "A model whose simulation has ended, or was left after any event, and that is then set up anew (memory, buffers, initial focus, utilities) does in a new simulation exactly what it did the first time: the same events at the same times, ending in the same buffers, memory, activations and utilities. "
     "Nothing that a simulation had under way (a retrieval, a key press, an eye movement, a screen) reaches into the next one.",
     ["inputs", "histories", "crash_points"], "seven kinds of models with symbolic delays and values, left after every possible event and repeated up to three times", "Experiments run one model over and over; tests run each model once from a fresh start.",
     ["pyactr/model.py", "pyactr/simulation.py", "pyactr/productions.py", "pyactr/vision.py", "pyactr/environment.py", "pyactr/declarative.py"], [("ACTRModel.simulation", "pyactr/model.py"), ("Simulation.__init__", "pyactr/simulation.py"), ("ProductionRules.__init__", "pyactr/productions.py"), ("Environment.environment_process", "pyactr/environment.py")],
     [("Visual.last_mvt, state", "the end of the last eye movement, what the module is doing", "Visual"), ("Motor.last_key", "the last key and the end of its movement", "Motor"), ("Productions.used_rulenames", "rules selected since the last reward", "Productions")], ["events, buffers, memory, activations, utilities of the first simulation and of one after the model was set up anew"])

prop("C27", "Names, and the order in which things are written, make no difference",
     "A model in which variables, slots, chunk types, rules and buffers are consistently called something else does the same: the same events at the same times, buffers, memory and utilities, up to the names. "
     "This holds for any names, also ones that are part of each other, differ only in case, or are used for something else elsewhere; only a variable called like a buffer stands for the chunk in it. "
     "Nor does it matter in which order the slots of a chunk or a test, or rules of different utility, are given.",
     ["inputs", "programs"], "nine kinds of models with arbitrary contents, times and utilities; eleven systematic renamings and all orders", "Tests use one set of harmless names; a lookup that goes by the spelling of a name, or by an order of names, shows only with particular other names.",
     ["pyactr/chunks.py", "pyactr/productions.py", "pyactr/utilities.py", "pyactr/declarative.py", "pyactr/model.py", "pyactr/simulation.py"], [("Chunk.match, __iter__, removeunused, chunktype", "pyactr/chunks.py"), ("ProductionRules.compile_rules", "pyactr/productions.py"), ("rename, match, getrule, spreading_activation", "pyactr/utilities.py"), ("set_goal, set_retrieval, visualBuffer", "pyactr/model.py")],
     [("Chunk._chunktypes", "slots of the chunk types", "Chunk"), ("variables of a rule", "bindings by name", "ProductionRules")], ["events, buffers, memory and utilities of a model and of the renamed one"])

prop("C28", "Chunks have exactly the slots of their types",
     "A chunk has exactly the slots that its type declares, its own and those of all types it includes, however they are listed, plus those by which the type grew because a chunk used them; slots that are not given are empty, or have the default that the type declares. "
     "Declaring, extending or redeclaring a type changes no chunk made before and no other type, also not one that includes it or that it includes. "
     "A slot called isa, other slots for a built-in type and unknown included types are refused with the library's error, and a refused declaration changes nothing.",
     ["inputs", "configurations"], "types with any own and included slots in four notations and five ways of including; growth and redeclaration between chunks; eleven refusals", "Tests declare few types; a slot lost or shared by including, growing or refusing shows only for particular sets of slots.",
     ["pyactr/chunks.py", "pyactr/utilities.py"], [("chunktype", "pyactr/chunks.py"), ("Chunk.__init__, __iter__, removeunused", "pyactr/chunks.py"), ("makechunk, chunkstring, createchunkdict", "pyactr/chunks.py"), ("SPECIALCHUNKTYPES", "pyactr/utilities.py")],
     [("Chunk._chunktypes", "slots of the chunk types", "Chunk")], ["slots and values of chunks made before and after declarations"])


prop("C29", "A module says what it is doing",
     "At every moment a module or buffer that is queried says busy exactly while a request made to it is going on, and error exactly after its last request failed, whatever requests overlap, wait for or replace one another; after its last request it is free again. "
     "The motor module and vision also say correctly whether they prepare and execute a movement and whether their processor is taken. "
     "A shift of attention to where nothing is, or nothing any more, fails without changing anything, and the next one works.",
     ["schedules", "histories", "inputs"], "two and three key presses and shifts of attention requested when the module is free or at any stage of the one before, new screens at any moment, retrievals and delayed changes of buffers replaced at any moment; a look at the module after every event and at an arbitrary moment", "Rules rely on these reports to wait for modules; a report that is wrong for a moment of an overlap makes a rule fire early and lose a request, and tests look at few moments.",
     ["pyactr/productions.py", "pyactr/simulation.py", "pyactr/motor.py", "pyactr/vision.py"], [("motorset, motorcontinue", "pyactr/productions.py"), ("visualshift, visualcontinue, visualencode, automatic_buffering", "pyactr/productions.py"), ("retrieve, retrieveorset, modify_request", "pyactr/productions.py"), ("test", "pyactr/motor.py"), ("shift, test", "pyactr/vision.py")],
     [("state, preparation, processor, execution", "what a module reports", "Buffer, Motor, Visual"), ("last_mvt, last_key", "when the last movement ends", "Visual, Motor")], ["queries of the modules between events"])

prop("C30", "What is not allowed is refused and changes nothing",
     "A model parameter that does not exist, a positive similarity, negative noise, a negative delay or number of finsts, a second value or variable in one slot, anything but a chunk in a buffer or memory, a focus that is no position, an unknown command to vision, and a rule with an unknown test or action or a text that is no rule are all refused with an error, wherever in the input they stand. "
     "Everything within these limits is accepted and has the meaning that was given. "
     "After a refusal buffers, memory, numbers, parameters and focus are what they were before.",
     ["inputs", "configurations"], "every number, text and value at each place where a limit is set; one to three parameters of a model in either order; every combination of values, variables and exclusions of one slot; every printable sign of a rule", "a refusal is tested, if at all, with one wrong input; which inputs beyond it slip through, and what is left behind by a refusal, is a matter of every value",
     ["pyactr/buffers.py", "pyactr/declarative.py", "pyactr/goals.py", "pyactr/vision.py", "pyactr/model.py", "pyactr/chunks.py", "pyactr/environment.py", "pyactr/productions.py"],
     [("ACTRModel.__init__, set_similarities, set_goal, set_retrieval, productionstring", "pyactr/model.py"), ("Buffer.add, Buffer.dm", "pyactr/buffers.py"), ("DecMem.add, __setitem__, add_activation", "pyactr/declarative.py"), ("stringsplitting, splitting, calculate_instantaneous_noise", "pyactr/utilities.py")],
     [("delay, finst", "limits given by the user", "Goal, DecMemBuffer, VisualLocation"), ("model_parameters, similarities", "what the model was given", "ACTRModel")], ["errors raised", "contents of buffers and memory after an error"])


def main():
    ids = [p["id"] for p, _n in P]
    assert len(set(ids)) == len(ids)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _n in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note in P:
        i = p["id"]
        if i in NOT_APPLICABLE:
            na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
            continue
        if not os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
            na.append(dict(property=i, reason="not claimed yet: the harness is not built"))
            continue
        checks.append(dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick",
                           thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
                           evidence_file=f"evidence/{i}.json",
                           technique="symbolic execution of the real Python code, assertions decided by z3 for all inputs within the bounds",
                           level="model_checking",
                           level_note=note or "Every feasible path of the real functions within the stated bounds is executed symbolically and each assertion is discharged by z3; counterexamples are replayed on the unmodified code before they are reported. Trusts the value proxies (floats as exact reals, ideal hashing), which sampled concrete runs of path models cross-check."))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup_check.py", checks=checks, not_applicable=na,
             notes="See DESIGN.md. The checks import pyactr from /repo and instrument it in memory; nothing in /repo is written and no hooks are needed.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
