# What each registered check runs (scenario -> simulated runs in the quick tier).
REAL = ['libpvData: every .cpp under /repo/src compiled from the working tree (memory accesses instrumented)',
        'libCom yajl, epicsTime arithmetic, epicsString, epicsStdlib (binary)']
STUBS = ['libCom OSI layer: epicsMutex, epicsEvent, epicsThread, epicsThreadOnce, clocks (simulated)',
         'operator new / malloc of the code under test (simulated heap)', 'C++ static-initialisation guards (simulated)']
SC = 'seeded random search; clean runs are evidence over the sampled schedules and faults, not proof; sequentially consistent memory; trusts the simulated OSI layer and the oracle'
T_RULE = ('every run draws a program (timers, threads, callbacks and their nested calls) from the seed, then schedule and faults; '
          'non-trivial: at least one callback execution raced or followed another client operation; distinct by hash of the whole execution')
TH_RULE = 'every run draws a program for 2-4 threads from the seed, then schedule and faults; non-trivial: operations of two threads overlapped or a fault fired; distinct by hash of the whole execution'
CA_RULE = 'every run draws type descriptions and a program for 2-4 threads from the seed, then schedule and faults; non-trivial: operations of two threads overlapped or a fault fired; distinct by hash of the whole execution'
WI_RULE = 'every run draws types, values and messages, buffer sizes, flush and short-read patterns from the seed, then schedule and faults; non-trivial: the stream was segmented, cut, corrupted or moved directly at least once; distinct by hash of the whole execution'
SH_RULE = 'every run draws a program of vector, field and pointer operations for 1-4 threads from the seed, then schedule and faults; non-trivial: operations of two threads overlapped, buffers were shared or a fault fired; distinct by hash of the whole execution'
LINK = ['the transport: SerializableControl/DeserializableControl over a simulated byte pipe with chosen segmentation, failures and type cache']
JS_RULE = 'every run draws documents, types, values, layouts, chunk sizes and stream faults from the seed for 1-3 threads, then schedule and faults; non-trivial: a fault was injected or two threads were busy at once; distinct by hash of the whole execution'
RQ_RULE = 'every run draws a structure, requests and a program of mapper operations, updates, polls and puts from the seed for 1-4 threads, then schedule, lost and duplicated deliveries and failing allocations; non-trivial: operations of two threads overlapped or a mapper was used; distinct by hash of the whole execution'
STREAM = ['the streams: std::streambuf objects with chosen chunking, stalls, read errors and refused writes; yajl handle allocation (counted, refusable)']
OOM_RULE = 'every run draws operations of 34 kinds for 1-3 threads, their operands and the failing allocation from the seed, then schedule and faults; non-trivial: an allocation really failed inside an operation; distinct by hash of the whole execution'
PR_RULE = 'every run draws structures, helpers, times and a program for 1-3 threads from the seed, then schedule, clock steps and failing allocations; non-trivial: operations of two threads overlapped or the clock was read; distinct by hash of the whole execution'
BU_RULE = 'every run draws a program of type- and value-building steps (good, refused, nested, repeated) for 1-3 threads from the seed, then schedule and failing allocations; non-trivial: steps of two threads overlapped; distinct by hash of the whole execution'
SY_RULE = 'every run draws a record type, subscribers with their selections, links and periods, writers, puts, link cuts and clock steps from the seed, then schedule and faults; non-trivial: operations of two threads overlapped or all subscribers followed to the end; distinct by hash of the whole execution'
CHECKS = {
 'C01': dict(files=['timer'], scenarios={'timer/once': 100000}, rule=T_RULE, note=SC, technique='seeded schedules, clock steps, stalls; history oracle for exactly-once, due order and earliness'),
 'C02': dict(files=['timer'], scenarios={'timer/periodic': 40000}, rule=T_RULE, note=SC, technique='seeded schedules and clock faults; cadence oracle over the recorded executions'),
 'C03': dict(files=['timer'], scenarios={'timer/linear': 120000}, rule=T_RULE, note=SC, technique='seeded schedules; linearizability of the history against a small reference model'),
 'C04': dict(files=['timer'], scenarios={'timer/close': 120000}, rule=T_RULE, note=SC, technique='close/destroy at arbitrary points of seeded histories; quiescence, notification and heap oracles'),
 'C05': dict(files=['timer'], scenarios={'timer/live': 100000}, rule=T_RULE, note=SC, technique='seeded schedules with clock steps, then a fault-free phase; bounded-lateness oracle'),
 'C06': dict(files=['threads'], scenarios={'threads/event': 150000}, rule=TH_RULE, note=SC, technique='seeded schedules; event history checked against a counting model'),
 'C07': dict(files=['threads'], scenarios={'threads/lock': 200000}, rule=TH_RULE, note=SC, technique='seeded schedules; mutual exclusion and ownership model'),
 'C08': dict(files=['threads'], scenarios={'threads/thread': 120000, 'threads/started': 60000}, rule=TH_RULE, note=SC, technique='seeded schedules and refused thread creation; lifecycle and heap oracles'),
 'C09': dict(files=['threads'], scenarios={'threads/refmonitor': 120000}, rule=TH_RULE, note=SC, technique='seeded schedules and stalls; lifecycle oracle'),
 'C10': dict(files=['threads'], scenarios={'threads/refcounters': 120000}, rule=TH_RULE, note=SC, technique='seeded schedules; history checked against a registry model'),
 'C11': dict(files=['cache'], scenarios={'cache/intern': 100000}, rule=CA_RULE, note=SC, technique='seeded schedules and failing allocations; interned types checked against an independent type model'),
 'C12': dict(files=['cache'], scenarios={'cache/firstuse': 80000}, rule=CA_RULE, note=SC, technique='seeded schedules over unserialised first use of every factory and helper; identity and type-model oracles'),
 'C13': dict(files=['share'], scenarios={'share/vector': 100000, 'share/field': 40000}, rule=SH_RULE, note=SC, technique='seeded histories of vector and array-field operations over several threads against a reference model of buffers and values'),
 'C14': dict(files=['share'], scenarios={'share/lifetime': 50000}, rule=SH_RULE, note=SC, technique='seeded histories with failing allocations; every buffer followed from creation to its deleter'),
 'C15': dict(files=['share'], scenarios={'share/readers': 50000}, rule=SH_RULE, note=SC, technique='seeded schedules of concurrent readers; each result equals the one obtained alone on an identical structure'),
 'C16': dict(files=['share'], scenarios={'share/debugptr': 100000}, rule=SH_RULE, note=SC, technique='seeded histories over several threads; reported references compared with the model at every quiet moment'),
 'C17': dict(files=['clone'], scenarios={'share/clone': 60000}, rule=SH_RULE, note=SC, technique='seeded histories of cloning, copying, changing and dropping over several threads with failing allocations; independent value model, places and comparisons'),
 'C18': dict(files=['bounds'], scenarios={'share/bounds': 80000}, rule=SH_RULE, note=SC, technique='seeded histories of every way to change bounded strings and arrays, over several threads, segmented streams and failing allocations; size and value model'),
 'C19': dict(files=['builders'], scenarios={'cache/builders': 50000}, rule=BU_RULE, note=SC, technique='seeded histories of building steps, refused steps, failing allocations and shared results over several threads; independent model of each builder'),
 'C20': dict(files=['wire'], scenarios={'wire/roundtrip': 60000}, rule=WI_RULE, note=SC, stub=LINK, technique='seeded values over a simulated link with arbitrary segmentation; round-trip oracle and an independent encoder'),
 'C21': dict(files=['wire'], scenarios={'wire/delta': 30000}, rule=WI_RULE, note=SC, stub=LINK, technique='seeded update histories over a simulated link with merging, reconnects and cuts; convergence against an independent replica model'),
 'C22': dict(files=['wire'], scenarios={'wire/cut': 80000}, rule=WI_RULE, note=SC, stub=LINK, technique='seeded cut points and failing flushes; prefix oracle, heap oracle and recovery of the same objects'),
 'C23': dict(files=['wire'], scenarios={'wire/hostile': 120000}, rule=WI_RULE, note=SC, stub=LINK, technique='seeded stream corruption and refused allocations; memory, type and well-formedness oracles'),
 'C24': dict(files=['wire'], scenarios={'wire/types': 60000}, rule=WI_RULE, note=SC, stub=LINK, technique='seeded type exchange over a caching transport with reconnects; identity oracle and an independent encoder'),
 'C25': dict(files=['wire'], scenarios={'wire/direct': 60000}, rule=WI_RULE, note=SC, stub=LINK, technique='seeded acceptance of direct transfer over a simulated link; equality with the refused transfer, views and heap oracles'),
 'C26': dict(files=['system', 'wire', 'request'], scenarios={'system/monitor': 40000, 'wire/delta': 6000, 'request/follow': 10000}, rule=SY_RULE, note=SC, stub=LINK, technique='seeded whole-server histories: timers, threads, links that stall and break, reconnects, puts, clock steps and failing allocations; every update equals the state it was taken from, convergence once faults stop'),
 'C27': dict(files=['cache'], scenarios={'cache/standard': 40000}, rule=CA_RULE.replace('type descriptions and a program', 'requests for standard structures'), note=SC, technique='seeded requests over several threads, first use included, with failing allocations; independent table of the normative structures'),
 'C30': dict(files=['oom'], scenarios={'oom/any': 60000, 'oom/first': 50000}, rule=OOM_RULE, note=SC, technique='seeded choice of operation and of the allocation that fails (once or from then on), alone and with other threads working; failure-free reference run, unchanged-input, retry, heap and instance-count oracles'),
 'C31': dict(files=['json'], scenarios={'json/parse': 100000}, rule=JS_RULE, note=SC, stub=STREAM, technique='seeded documents over simulated streams with arbitrary chunking, cuts, read errors, refused allocations; independent generator as oracle, delivery in one piece as reference'),
 'C32': dict(files=['json'], scenarios={'json/print': 80000}, rule=JS_RULE, note=SC, stub=STREAM, technique='seeded values printed to simulated streams with refused and failing writes and to a concurrent parser; independent JSON reader and round-trip oracle'),
 'C33': dict(files=['request'], scenarios={'request/map': 60000, 'request/follow': 60000}, rule=RQ_RULE, note=SC, technique='seeded update histories with lost, merged and duplicated deliveries and puts; exact model of selection, copies and marks; convergence once faults stop'),
 'C42': dict(files=['props'], scenarios={'props/clock': 150000}, rule=PR_RULE, note=SC, technique='seeded programs over a simulated wall clock that is stepped; 128-bit integer model of time'),
 'C44': dict(files=['props'], scenarios={'props/helpers': 80000}, rule=PR_RULE, note=SC, technique='seeded histories of helpers and direct writers sharing a record, with failing allocations; value, announcement and attachment model'),
}
