# id -> (technique detail, level note)
S="seeded search over "
checks['C01']=(S+"thread interleavings of tokenizers sharing a dictionary (per-access pre-emption, race detector), against each call run alone","explores seeded plans and schedules, not all")
checks['C02']=(S+"histories of calls, failing ones included (plugins, debug writers, unanalysable texts), against a fresh tokenizer","explores seeded histories")
checks['C03']=(S+"histories and interleavings with later calls, splits, loads and closes; every value read again and compared","explores seeded histories and schedules")
checks['C04']=(S+"how the input arrives (read sizes, line ends, buffer edges), against a line model and the library run alone","explores seeded plans")
checks['C05']=(S+"fault sequences (open, read, write, close, short writes, full disk, closed pipe) against the model of what must be delivered","explores seeded fault plans")
checks['C06']=(S+"read and open faults while dictionaries are built, settings and definitions loaded, and lines read, against the undisturbed result","explores seeded fault plans")
checks['C07']=(S+"write, seek, sync, close and rename faults and full disks in the dictionary writers and tools, against the undisturbed output","explores seeded fault plans")
checks['C08']=(S+"histories of builds, conversions and loads, with faults and kills in some, read back through every reader against an executable model of the dictionary","explores seeded sources and histories")
checks['C09']=(S+"interleavings of builds and conversions, prior output, killed and failing predecessors, clocks and map orders, against the same job alone; race detector","explores seeded plans and schedules")
checks['C10']=(S+"histories of opens, loads, prints, conversions and builds on files cut at any length, damaged or of the wrong kind, and open, stat and mmap faults, against what the undamaged file gives","explores seeded damage and fault plans")
checks['C11']=(S+"kills and power failures at any step or operation, failing operations, full disks and overlapping runs, the output path compared with old and new before every operation and after what-if power failures","explores seeded fault plans and schedules")
checks['C12']=(S+"interleavings of an application and programs using dictionaries with programs that rebuild, convert or fail onto the same files, every answer compared with those of the files as they were","explores seeded schedules, kills and faults")
checks['C14']=(S+"load histories with failing opens, reads, size queries, mappings and plugins, missing and malformed files, beside calls on other dictionaries, against undisturbed loads and the cost rule","explores seeded histories, faults and schedules")
checks['C13']=(S+"histories of opening, loading, adding, printing and closing calls, also at the same time, with failing operations, writers and plugins and damaged files, descriptors and mappings compared with what is needed after each","explores seeded histories and faults")
checks['C23']=(S+"conversations in which the other side sends its input in pieces and holds most of them back until everything before is answered, several processes at once; progress: a wait without answer is a deadlock of the simulation","explores seeded conversations and schedules")
