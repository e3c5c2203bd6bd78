"""Per-property facts the check wrapper puts into the evidence; the counts themselves come from each run."""
ASSUMPTIONS = [
 "the C library, libstdc++ and compiler behave as documented; stdio, iostreams and printf/scanf run for real over the simulated disk",
 "library code reaches the outside only through the seams listed in DESIGN.md (allocation, stdio/iostream files, exit, assert, rand, time, SDL)",
 "a fault the plans cannot express (a bit flip in live memory, a failing CPU) is out of scope",
]
LIBS_DISK = ["modules/core/src (C and C++)", "modules/core/include", "modules/process/src", "real libc stdio and libstdc++ iostreams above the simulated disk"]
LIBS_ALL = ["modules/core", "modules/process", "modules/algorithm", "modules/highgui"]
ST_DISK = ["disk (in memory, seeded short transfers, failures, crash points)", "heap (arena with seeded placement, fill and failures)", "process exit/abort/assert", "clock and rand", "library stack (seeded leftover content)"]
DISK = ["open_fail","read_eio","read_eintr","read_short","write_eio","write_enospc","write_short","close_fail","unlink_fail","rename_fail","disk_full"]
MEM = ["garbage_heap","garbage_stack","block_reuse"]
def P(variants, rule, kinds, real=LIBS_ALL, stubs=ST_DISK, **k):
    d = dict(variants=variants, rule=rule, kinds=kinds, real=real, stubs=stubs); d.update(k); return d
PROPS = {
 "C01": P(["asan"], "one seed = one plan of random saves, foreign writes, overwrites and loads over several paths with random cubes, stdio buffer sizes, legal short transfers and leftover memory; non-trivial: at least one injected irregularity fired", ["read_short","write_short","read_eintr","garbage_heap","garbage_stack","block_reuse","stale_file"], LIBS_DISK),
 "C02": P(["asan"], "one seed = one plan of loads (nine loaders) of truncated, missing or unreadable files with one chosen read/open/seek call failing; non-trivial: a fault fired or the file was cut", DISK[:4]+["seek_fail","truncate_file"], LIBS_DISK),
 "C03": P(["asan"], "one seed = one plan of saves with a chosen open/write/close/rename failing or the disk filling after a chosen byte; non-trivial: the fault fired", DISK[4:], LIBS_DISK),
 "C04": P(["asan"], "one seed = one plan of saves over earlier content, each killed at a chosen disk event with a torn last write, then loaded in a new process; non-trivial: a crash fired", ["crash","torn_write","restart"], LIBS_DISK),
 "C05": P(["asan"], "one seed = one plan of bitmap writes, reads and foreign bitmaps in several encodings under short transfers and leftover memory, against an independent codec; non-trivial: at least one irregularity fired", ["read_short","write_short","garbage_heap","garbage_stack"], LIBS_DISK),
 "C06": P(["asan"], "one seed = one plan: files of every kind corrupted (bytes, fields, truncation, random text) and loaded by every loader with address checking and a step limit; accepted objects are compared with an independent parser; non-trivial: a corruption was applied", ["corrupt_bytes","truncate_file","garbage_heap"], LIBS_DISK),
 "C17": P(["asan"], "one seed = one plan: a history of saves and loads over several paths with crashes, failing calls, full disk and restarts, then a fault-free phase; non-trivial: a fault fired", DISK+["crash","restart"], LIBS_DISK),
 "C08": P(["asan"], "one seed = one plan of 1-6 catalogued library calls, each executed in three separate histories that differ in leftover heap and stack content, block placement, order of the calls and unrelated calls in between; all outcomes are compared bit for bit; non-trivial: recycled or garbage memory was handed out", MEM+["block_move"]),
 "C09": P(["asan"], "one seed = one plan of catalogued calls, each repeated, with the result released through the library and the allocator balance and open handles compared; a third of the plans also fail a disk call or an allocation; non-trivial: a fault fired or memory was recycled", MEM+["open_fail","read_eio","alloc_nth"]),
 "C10": P(["asan"], "one seed = one plan of catalogued calls; each is run once to count its allocations and then with the n-th failing, the n-th and all later ones failing, or a memory capacity; non-trivial: an allocation failed", ["alloc_nth","alloc_from","alloc_cap"]),
 "C12": P(["asan"], "one seed = one plan of catalogued calls whose source objects lie on write-protected pages during the call and are compared afterwards; non-trivial: recycled memory or a failing allocation", MEM+["alloc_nth"]),
 "C07": P(["asan"], "one seed = one history of 4-36 operations over up to seven live cubes and images and three files, with process restarts, memory refilled with garbage and recycled blocks; every live object is compared with its plain-array model after every step; non-trivial: an irregularity fired", MEM+["restart","read_short","write_short"], LIBS_ALL),
 "C15": P(["asan"], "one seed = one history of 5-160 dynamic-array operations over up to four arrays of seven element sizes, with moving growths, recycled memory and, in a third of the plans, a growth that fails; non-trivial: an irregularity fired", MEM+["block_move","alloc_nth","alloc_from","alloc_cap"], ["modules/core/include/c_include/vector.h"]),
 "C16": P(["asan"], "one seed = one history of 4-30 operations over up to five C++ cubes and three files shared with the C functions, with process restarts and objects constructed over garbage; non-trivial: an irregularity fired", MEM+["restart","read_short","write_short"], LIBS_DISK),
 "C18": P(["asan"], "one seed = one plan of 4-16 requests to the operations of all modules; each is built from valid arguments under leftover memory and then, for most, one stated requirement is violated; each runs in its own simulated process; non-trivial: recycled or garbage memory was handed out", MEM+["block_move"], LIBS_ALL),
 "C19": P(["big"], "one seed = one plan: 2-5 operations on parts of cubes in sparse memory or requests that cannot fit, or one operation on a whole cube of 2-9 GB, with short transfers, a full disk or a cut file; non-trivial: a huge block was used", ["huge_block","read_short","write_short","disk_full","truncate_file"], LIBS_ALL, cap=dict(quick=600,thorough=3000)),
 "C20": P(["asan"], "one seed = one plan of 1-6 foreign header and image pairs (generated header grammar, offset, byte order) each loaded intact, then with one defect or failing call, or saved again over the pair; non-trivial: a short transfer, failing call, cut file or recycled memory", ["read_short","read_eintr","open_fail","read_eio","seek_fail","truncate_file","garbage_heap"], LIBS_DISK),
 "C13": P(["asan"], "one seed = one plan of 1-5 clusterings (image shape and pattern, channels, centre count, threshold, random stream including constant, extreme and repeating ones), each run in two processes with different clocks and memory, against a reference iteration; non-trivial: extreme random numbers or recycled memory", ["rand_extreme","garbage_heap","garbage_stack","block_reuse"], ["modules/algorithm/src/cluster.c","modules/process/src/c_src/colortransform.c"]),
 "C14": P(["asan"], "one seed = one plan of 1-6 viewings in one process, each with an image, answers and failures of the window system and a timed list of events; the log of window-system calls and the painted pixels are checked; non-trivial: an event, a failure or an idle gap was delivered", ["sdl_init_fail","sdl_surface_fail","sdl_video_fail","sdl_videook_0","sdl_depth_8","sdl_event","sdl_idle_gap"], ["modules/highgui/src/smshow.c"], ["window system (event queue, surfaces, video mode in memory)"]+ST_DISK),
 "C11": P(["sched"], "one seed = one plan: two or three callers inside catalogued library calls (same or different ones, inputs shared when equal), a list of switch points placed by access count or at accesses to static data and stores into shared inputs, in a third of the plans also a random switch every few accesses; every caller's result is compared with the same call made alone; non-trivial: at least one switch between callers or other irregularity happened", ["context_switch","preemption_point","garbage_heap"], LIBS_ALL, ["thread scheduler (callers are real threads; a baton decides who runs)"]+ST_DISK, measure="distinct hashes of the whole event log of a run, which includes every switch with the access count it happened at"),
}
