"""Run counts per property and library variant (quick tier)."""
MEASURE = ("one evaluation = one simulated execution of the real library from start-up to shutdown under one seed; "
           "distinct = executions with different event histories (hash over every system call with its result, every thread "
           "switch and every task activation the scenario observes, times not included); non-trivial = the run reached the end of a scenario that exercises the property")
REAL = "all C and assembler sources of /repo/src, unmodified, three build variants (ship: shipped flags; inst: every memory access checked; alt: other configuration choices)"
STUB = "kernel (descriptors, epoll, timerfd, pipes, sockets, files, splice, clock), libc allocation and mmap, pthread primitives, resolver; the application (tasks) is the scenario"
PLAN = {
    "P01": dict(variants={"ship": 180000, "inst": 180000, "alt": 150000}),
    "P02": dict(variants={"ship": 180000, "inst": 180000, "alt": 180000}),
    "P03": dict(variants={"ship": 90000, "inst": 60000, "alt": 45000}),
    "P04": dict(variants={"ship": 450000, "inst": 360000, "alt": 360000}),
    "P05": dict(variants={"ship": 450000, "inst": 360000, "alt": 360000}),
    "P06": dict(variants={"ship": 450000, "inst": 360000, "alt": 360000}),
    "P07": dict(variants={"ship": 300000, "inst": 300000, "alt": 300000}),
    "P08": dict(variants={"ship": 450000, "inst": 450000, "alt": 450000}),
    "P09": dict(variants={"ship": 360000, "inst": 360000, "alt": 360000}),
    "P10": dict(variants={"ship": 240000, "inst": 180000, "alt": 180000}),
    "P11": dict(variants={"ship": 240000, "inst": 240000, "alt": 240000}),
    "P12": dict(variants={"ship": 240000, "inst": 240000, "alt": 240000}),
    "P13": dict(variants={"ship": 300000, "inst": 240000, "alt": 240000}),
    "P14": dict(variants={"ship": 180000, "inst": 120000, "alt": 120000}),
    "P15": dict(variants={"ship": 360000, "inst": 240000, "alt": 240000}),
    "P16": dict(variants={"ship": 240000, "inst": 180000, "alt": 180000}),
    "P17": dict(variants={"ship": 120000, "inst": 120000, "alt": 90000}),
    "P18": dict(variants={"ship": 300000, "inst": 240000, "alt": 240000}),
    "P19": dict(variants={"ship": 900000, "inst": 900000, "alt": 900000}),
    "P20": dict(variants={"ship": 120000, "inst": 150000, "alt": 150000}),
    "P21": dict(variants={"ship": 600000, "inst": 600000, "alt": 600000}),
    "P22": dict(variants={"ship": 600000, "inst": 600000, "alt": 600000}),
    "P23": dict(variants={"ship": 360000, "inst": 240000, "alt": 240000}),
    "P24": dict(variants={"ship": 300000, "inst": 300000, "alt": 300000}),
    "P25": dict(variants={"ship": 240000, "alt": 180000}),
    "P26": dict(variants={"inst": 300000, "alt": 300000}),
}
