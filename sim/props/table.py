"""Per property: how many runs, what counts, what is real and what is simulated."""
REAL = ["all mt_metadata code of the working tree", "pydantic, xarray, numpy, lxml/ElementTree, json", "the kernel's file system below the seam"]
STUB = ["disk faults, crash loss and directory order (libc seam)", "system clock (libc seam)"]
RULE = "one run = one seeded plan (operations, faults, schedule) executed in a forked process; distinct by digest of plan and observed trace; non-trivial: "
TABLE = {
    "C01": {"runs": {"quick": 600, "thorough": 20000}, "real": REAL, "stub": STUB + ["thread and process scheduler"],
            "rule": RULE + "at least one lookup was made under a non-empty fault, damage, version or schedule plan",
            "state_measure": "digest of cache directory contents after each process, or of the sequence of context switches"},
    "C02": {"runs": {"quick": 500, "thorough": 15000}, "real": REAL, "stub": STUB,
            "rule": RULE + "at least one file of the property's format was written, read back and compared value by value",
            "state_measure": "digest of format, size and faults fired per hop"},
    "C03": {"runs": {"quick": 500, "thorough": 15000}, "real": REAL, "stub": STUB,
            "rule": RULE + "at least one file of the property's format was written, read back and compared value by value",
            "state_measure": "digest of format, size and faults fired per hop"},
    "C04": {"runs": {"quick": 500, "thorough": 15000}, "real": REAL, "stub": STUB,
            "rule": RULE + "at least one file of the property's format was written, read back and compared value by value",
            "state_measure": "digest of format, size and faults fired per hop"},
    "C17": {"runs": {"quick": 2000, "thorough": 60000}, "real": REAL, "stub": ["interruption points (sys.monitoring)"],
            "rule": RULE + "at least one assignment was made and every field of every object read afterwards",
            "state_measure": "digest of the kind of operation, the class and the fields it touched"},
    "C06": {"runs": {"quick": 2000, "thorough": 60000}, "real": REAL, "stub": STUB + ["interruption points (sys.monitoring)"],
            "rule": RULE + "at least one object was saved and loaded into a fresh one and every field compared",
            "state_measure": "digest of class, form and options of each save"},
    "C05": {"runs": {"quick": 500, "thorough": 15000}, "real": REAL, "stub": STUB,
            "rule": RULE + "at least one experiment was saved, loaded by a fresh object and compared member by member and field by field",
            "state_measure": "digest of form, options and number of members of each save"},
    "C15": {"runs": {"quick": 1000, "thorough": 20000}, "real": REAL, "stub": ["interruption points (sys.monitoring)"],
            "rule": RULE + "at least one copy was made and at least one operation carried out on a copy or its original, every other object read in full afterwards",
            "state_measure": "digest of each operation with the class it was applied to"},
    "C10": {"runs": {"quick": 600, "thorough": 20000}, "real": REAL, "stub": STUB + ["thread scheduler"],
            "rule": RULE + "at least two operations took effect and every object, result and file was compared with the same work done alone",
            "state_measure": "digest of the sequence of operations, or of context switches"},
    "C07": {"runs": {"quick": 700, "thorough": 25000}, "real": REAL, "stub": STUB,
            "rule": RULE + "at least one save met a disk fault that fired, a target that cannot be opened or a crash",
            "state_measure": "digest of format, faults fired, obstacle and file size per save"},
    "C09": {"runs": {"quick": 700, "thorough": 25000}, "real": REAL, "stub": STUB,
            "rule": RULE + "at least one file was read or saved and every file of the simulated disk compared (content, time, permissions) before and after",
            "state_measure": "digest of each operation with format, route, prior content and damage"},
    "C08": {"runs": {"quick": 500, "thorough": 20000}, "real": REAL, "stub": STUB + ["step counter (sys.monitoring)"], "timeout_is_violation": True,
            "rule": RULE + "at least one damaged file was read and refused, or its numbers compared with those of the intact file",
            "state_measure": "digest of file, kind of damage and outcome"},
    "C16": {"runs": {"quick": 600, "thorough": 20000}, "real": REAL + ["obspy's StationXML reader and writer"], "stub": STUB,
            "rule": RULE + "an experiment with at least two members was converted and read back and every member compared",
            "state_measure": "digest of route, faults and number of members of each conversion"},
    "C12": {"runs": {"quick": 1200, "thorough": 40000}, "real": REAL, "stub": ["no I/O takes part"],
            "rule": RULE + "at least two operations took effect and the whole tree or list was compared with the model after each",
            "state_measure": "digest of each operation with its level and the size of the container"},
    "C13": {"runs": {"quick": 800, "thorough": 30000}, "real": REAL, "stub": STUB + ["order in which a directory is listed (libc seam)"],
            "rule": RULE + "at least three pieces were delivered and the outcome compared with that computed from the members and with that of other orders",
            "state_measure": "digest of the sequence of deliveries with their routes and depths"},
    "C11": {"runs": {"quick": 1500, "thorough": 60000}, "real": ["all mt_metadata code of the working tree", "urllib.request, http.client, json"],
            "stub": ["sockets, name service and TLS (sim/net.py)", "the elevation service", "system clock (libc seam)", "thread scheduler"],
            "rule": RULE + "at least one lookup met the simulated network and its answer was compared with what the service sent",
            "state_measure": "digest of route, connection faults and outcome of each lookup"},
    "C14": {"runs": {"quick": 400, "thorough": 12000}, "real": REAL, "stub": ["system clock (libc seam), frozen within one piece of work", "time zone", "hash seed (interpreters started with others)"],
            "rule": RULE + "at least one piece of work was done alone and in two other interpreters and every output compared",
            "state_measure": "digest of the kind of work and its options"},
    "C18": {"runs": {"quick": 1200, "thorough": 40000}, "real": REAL, "stub": STUB,
            "rule": RULE + "at least one assignment was accepted and every quantity of every object compared with the model after each operation",
            "state_measure": "digest of each operation with its form, fault and number of periods"},
    "C19": {"runs": {"quick": 1500, "thorough": 50000}, "real": REAL, "stub": STUB,
            "rule": RULE + "at least two operations were carried out and every list, count and look-up compared with the model after each",
            "state_measure": "digest of the kind of object and its modelled content after each operation"},
}
