LIMITS.update({
"C01": "A token handed to user code (the return value of `attach`) is the user's to detach; only functions of the library are judged. Any opaque call is assumed able to raise.",
"C02": "Mutation through C extensions or `object.__setattr__` from outside the value modules is not looked for.",
"C03": "Whether the context given holds the right span is the caller's business.",
"C04": "`re` patterns are evaluated as literals; a pattern built at run time would be reported as unknown width. Round-trip equality is N04.",
"C05": "Formatting is decided by the format specification (`032x` and so on), not by executing it.",
"C06": "What a member does with the context is C04 and C05.",
"T01": "Race freedom is decided by lock regions of the span's own lock; the lock itself is trusted.",
"T02": "Generator-based context managers are inlined with the body as an opaque statement that may raise anything, `BaseException` included.",
"T03": "A user-written sampler is opaque: only what is done with its result is decided.",
"T04": "Identifier randomness is assumed; only the exclusion of the invalid value is decided.",
"T05": "Truncation of a value is decided by the slice that is taken, not by evaluating strings.",
"B01": "`KeyboardInterrupt` and other `BaseException`s are outside the statement.",
"B02": "That `deque(maxlen=...)` drops the oldest entry is taken from its documentation. Time is N03.",
"B03": "The worker is assumed to be scheduled (no real-time bound, see N03), and the exporter to return.",
"B04": "Forks through `os.fork` only; `os.register_at_fork` is trusted to run the hook.",
"B05": "A member that raises may end the synchronous fan-out (this is the library's documented behaviour; only B01's exporters are isolated).",
"L01": "A lock held means held on every path (must). Objects are told apart by class and field, not by instance. Benign races documented by the code (for instance a flag read without its lock before it is read again under it) are part of the guarded-by table.",
"L02": "Calls that cannot be resolved are approximated by class-hierarchy analysis with arity; standard-library locks taken inside library calls are not modelled.",
"M01": "Numbers (sums, buckets) are N01.",
"M02": "The point is compared as a linear expression over the state fields; histogram and exponential-histogram bucket arithmetic is N01.",
"M06": "The interval between collections is N03.",
"E01": "The generated protobuf classes are trusted to store what they are constructed with.",
"E02": "As E01.", "E03": "As E01.", "E04": "As E01.",
"E05": "What a transport library does inside one send is opaque; the number of retries is bounded by the delay sequence, its length in seconds is N03.",
"E07": "Values are followed to the transport's argument, not over the wire.",
"K01": "Worlds are finite lists of representative contents of each variable (absent, valid with blanks, empty, not a number, out of range, unknown name), each of which is decided on every path.",
"K02": "Custom detectors are opaque: they may raise, hang or return.",
"K03": "Entry-point loading is opaque: what `load()` returns is assumed to be the class registered under that name.",
"K04": "That `atexit` runs what is registered is trusted.",
"S01": "The registry of release 1.31.0 was recorded from the unchanged tree; new keys are judged by the naming rules only.",
"Z01": "opentracing and opencensus themselves are opaque. An active span takes precedence over references as the parent, as the code documents.",
})
