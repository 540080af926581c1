_T = "deterministic simulation: "
_N = "Seeded search, not exhaustive. "
NOTES = {
"C01": {"technique": _T + "seeded thread/process schedules, disk faults, crashes and cache damage against a reference reading of the class definitions",
        "note": _N + "Trusts the harness's own reading of class definitions (and, for derived details, the library's answer in a pristine process)."},
"C02": {"technique": _T + "seeded chains of saves and loads in simulated processes with disk faults, crashes, torn files and retries; values compared with the object that was saved",
        "note": _N + "Transfer functions are generated within what the format can hold; tolerances are the printed digits."},
"C03": {"technique": _T + "seeded chains of saves and loads in simulated processes with disk faults, crashes, torn files and retries; values compared with the object that was saved",
        "note": _N + "Transfer functions are generated within what the format can hold; tolerances are the printed digits."},
"C04": {"technique": _T + "seeded chains of saves and loads in simulated processes with disk faults, crashes, torn files and retries; values compared with the object that was saved",
        "note": _N + "Transfer functions are generated within what the format can hold; tolerances are the printed digits."},
"C17": {"technique": _T + "seeded histories of accepted, rejected and interrupted assignments by fourteen routes on several objects; every field of every object compared with a model after each step",
        "note": _N + "Fields that the library documents as derived from others, and the deprecated ones, are left alone."},
"C06": {"technique": _T + "seeded histories of assignments, saves and loads in all forms (dictionary, series, JSON text, JSON file, XML) with read faults, crashes and interrupted saves; every field compared",
        "note": _N + "Forms are limited to those a class supports; blank and unset are not told apart where a form has no way to."},
"C05": {"technique": _T + "seeded histories of additions, changes, removals, saves and loads (JSON, XML, text, dictionary) with disk faults, crashes, torn files and retries; every member and field compared",
        "note": _N + "What saving derives from the members (time periods, bounding box, unset channel positions) is compared as it is after saving; ids stay within what XML can hold."},
"C15": {"technique": _T + "seeded histories of copies (by method, deepcopy, of members, of keyed lists) and operations, some interrupted, on originals and copies; everything readable in every object compared after each step",
        "note": _N + "Objects are read through their public fields; private state shows only when it changes what can be read."},
"C10": {"technique": _T + "seeded interleavings of operations on several objects, and seeded thread schedules at line, lock and disk-operation points, compared with the same work done alone in a process of its own; every other object read in full after each step",
        "note": _N + "Members put into two containers on purpose are shared by design and not generated."},
"C07": {"technique": _T + "seeded disk faults (full disk, I/O error, no permission, short writes, interrupted calls), crashes and unusable targets at every file operation of every kind of save; object, other files, error and repeated save compared",
        "note": _N + "Faults are injected at the libc calls the process makes, below Python and lxml; errors the kernel reports only after close are out of reach."},
"C09": {"technique": _T + "seeded histories of reads (intact, damaged, with failing disk) and saves of every format on a simulated disk full of other files; every file compared before and after each step",
        "note": _N + "A file that is made and removed again within one call is not seen; the cache directory lies outside the simulated disk."},
"C08": {"technique": _T + "seeded cuts, lost and zero-filled tails and read errors on shipped and freshly written files of every format, read under a step budget; every period and number compared with those of the intact file",
        "note": _N + "Errors of values that are themselves missing are not compared; at most the numbers of one period may follow from the number the cut went through."},
"C16": {"technique": _T + "seeded chains of conversions to StationXML (in memory, by file, from an MTML file) across simulated processes with disk faults, crashes and torn files; every survey, station, run, channel and filter compared",
        "note": _N + "Experiments stay within what StationXML has a place for; runs whose channels the library documents as the same epoch are rounded alike."},
"C12": {"technique": _T + "seeded histories of accepted and rejected operations on containers and keyed lists, with reloads and copies in between, against a reference model of the tree; every member, list, count and look-up compared after each step",
        "note": _N + "After a change behind the back of a container (directly on its keyed list) the documented update call is made before comparing."},
"C13": {"technique": _T + "seeded orders and routes of arrival (by every adding call, in pieces, deep into existing members, from files in seeded directory orders with read faults); outcome compared with the members' descriptions and across orders",
        "note": _N + "Pieces of one member carry the same own values, as the property says nothing of members that contradict one another; after a change behind the back of a container the documented update call is made."},
"C11": {"technique": _T + "seeded histories of lookups (direct, while reading each format, several threads at once) over a simulated network below the socket module: name service, connection, TLS, redirect, status, framing, delay, cut and garbled replies; answer compared with what the service sent",
        "note": _N + "The TLS record layer and the kernel's TCP are replaced; a reply that trickles in may take as long as it is."},
"C14": {"technique": _T + "the same work done alone and, in other processes with another hash seed, time zone, clock at import and order of work, under a clock that jumps (zone changes, turns of the year, midnight); every output compared with what stands for the current time replaced, and the current time itself compared with the simulated clock",
        "note": _N + "The clock seam covers time.time, datetime.now/utcnow/today and what is derived from them in Python; values a caller asks for by name (\"now\", \"today\") are time stamps."},
"C18": {"technique": _T + "seeded histories of accepted, rejected and partial assignments (arrays, labelled arrays, data sets, other channel names), merges, copies, saves and loads on transfer function objects against a reference model; every quantity, period, channel and presence query compared after each step",
        "note": _N + "Errors are compared where the history settles them; what a file format cannot hold is left out of what is read back from it."},
"C19": {"technique": _T + "seeded histories of additions, removals, bulk assignments, refusals, conversions to tables, copies, saves and loads with disk faults and crashes on processing configurations, Fourier coefficient sets and channel filters, against a reference model compared after each step",
        "note": _N + "A set of Fourier coefficients saves the names of its members, which are saved one by one; its list of estimated channels is the caller's to keep when a channel is added."},
}
