text("C22", "each model is described once with symbolic inputs, run alone, and then built again and run interleaved with another one; events, goal, memory, activation and utilities must be equal terms.", "the tests never have two models at a time.")
text("C23", "texts are generated from structured meanings by the harness and parsed by the real code (concretely); the parsed rule or chunk then meets symbolic buffers or chunks, and must behave as the structured meaning says.",
     "a misread condition often still holds for the one chunk of a test; here it is put against every content.")

text("C24", "the same model is built and run twice with the same symbolic delays and values: once from 0 at once (the reference) and once begun at a symbolic T, cut at symbolic moments, stepped, in real time (on a clock that sleeps exactly) or traced; events and end states must agree.",
     "a test at 0 cannot see a moment that is measured from 0 instead of from the beginning, nor a run that depends on where it was cut.")

text("C25", "the models of C24 are run twice on the same symbolic inputs, once looked at before every step (printed, read, compared with patterns, copied with the copies changed, rules read); the events and end states must be equal terms. Copies of memories and goals with symbolic contents are changed on one side and compared on the other.",
     "a value popped or a table shared while looking changes only a later step, in states that a test does not look at.")

text("C26", "the models of C24 are simulated to the end or left after n events (n is a decision of the path), set up anew in the way the models of the book do it, and simulated again, on the same symbolic inputs; events and end states must be equal terms to those of the first simulation.",
     "what is left over (a time of the last eye movement, a busy module, a pending request) depends on where exactly the simulation was left, and shows only in the next one.")

text("C27", "two copies of a model are built from texts, on the same symbolic inputs, one with the plain names and one with other names or another order (which renaming is a decision of the path), and run; mapped back to the plain names, events and end states must be equal terms.",
     "code that looks names up in strings, strips, cuts or sorts them goes wrong only for particular names together with particular contents.")

text("C28", "which slots a type and its included types have is decided by the path (one flag per slot), chunks are made with symbolic values, types grow or are declared anew in between; the slots and values read from every chunk must be those of a model of the declarations.",
     "a slot that gets lost, doubled or shared depends on the combination of own, included and given slots.")

text("C29", "the simulation is stepped and after every event the module is asked about its state; a buffer that is set after an arbitrary delay gives one more look at an arbitrary moment. What it must say follows from the symbolic times of the stages of each request (those of C17 and C19) and from which requests replace or wait for which, decided by the path.",
     "the moments at which a report can be wrong lie between events of two overlapping requests; the solver places the second request and the look anywhere.")

text("C30", "numbers, texts and values are symbolic, the places where they are given are called with them, and the error (or its absence) is compared with the limit; the contents before and after are compared as terms.",
     "a limit that is off for fractional numbers, for a wrong parameter among right ones or for a second exclusion goes unseen when one wrong input is tried.")
