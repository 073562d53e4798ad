#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (both committed) from the tables below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sim'))
from checks import CHECKS

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

TM = ['src/misc/timer.cpp', 'src/misc/pv/timer.h']
prop('C01', 'A one-shot timer callback fires exactly once, in due order, never early',
 'Every callback accepted by scheduleAfterDelay is run exactly once by the timer thread, unless it is first removed by cancel() (which then returned true) or swept by close(). It is never run before its delay has elapsed on the system clock, two pending callbacks run in the order of their due times, and at most one callback of a timer runs at a time. Scheduling a callback that is already queued throws and changes nothing.',
 ['schedules', 'fault_sequences', 'histories'], 'any interleaving of schedule/cancel/isScheduled calls from several threads and from inside callbacks, any delays, slow callbacks, stalled threads, late wakeups and wall-clock steps',
 'testTimer schedules three callbacks from one thread with generous real sleeps; it never races the timer thread, steps the clock or schedules from a callback.',
 TM, [('sorted queue guarded by one mutex', 'timer.cpp addElement()'), ('timer thread main loop', 'timer.cpp Timer::run()')],
 [('queue', 'callbacks waiting, by due time', 'timer.h Timer::queue')], ['TimerCallback::callback', 'return values and exceptions of schedule/cancel'])
prop('C02', 'A periodic timer callback repeats at its period until cancelled',
 'A callback accepted by schedulePeriodic first runs no earlier than its delay and then once per period, no execution starting earlier than one period after the previous due time. It goes on repeating, with no repetition lost and none doubled, until it is cancelled or the timer is closed; after a cancel() that returned true it does not run again until it is scheduled anew.',
 ['schedules', 'fault_sequences', 'histories'], 'any interleaving of periodic and one-shot schedules, cancels, slow callbacks, stalls, clock steps',
 'The suite runs no periodic timer under contention; a lost or doubled repetition needs a cancel or reschedule to land inside the callback window.',
 TM, [('re-queueing after the callback', 'timer.cpp Timer::run()')], [('TimerCallback::period', 'repetition interval', 'timer.h')], ['TimerCallback::callback'])
prop('C03', 'Timer cancel and isScheduled answer as if calls happened one at a time',
 'The results of scheduling, cancel() and isScheduled(), together with the callback executions, are explained by some order of the calls consistent with real time: cancel() returns true exactly when it removed a pending execution, isScheduled() is true exactly while one is pending, and scheduling fails exactly when one is pending or the timer is closed. A cancel() that returned true means that execution never starts.',
 ['schedules', 'histories'], 'all histories of concurrent calls on shared callbacks from several threads and from callbacks',
 'Tests call cancel from one thread at quiet moments; linearizability is a statement about every concurrent history.',
 TM, [('all queue changes under the timer mutex', 'timer.cpp')], [('TimerCallback::onList', 'callback is queued', 'timer.h')], ['return values of cancel/isScheduled/schedule'])
prop('C04', 'Closing or destroying a timer quiesces it; each pending callback is told once',
 'When the close() that shuts the timer down (or the destructor) returns, the timer thread has ended and no callback is running or will run. Every callback that was still queued is told timerStopped exactly once, when no callback is running any more, and its schedule is released; scheduling after close() tells the callback timerStopped instead of queueing it. Neither leaks, double-frees or touches a freed callback.',
 ['schedules', 'crash_points', 'fault_sequences'], 'close() or destruction at any point of any concurrent history, including from callbacks and concurrently from two threads',
 'The tests close an idle timer; shutdown races need close to land between two instructions of another thread.',
 TM, [('alive flag, wakeup and join', 'timer.cpp Timer::close()')], [('Timer::alive', 'accepting work', 'timer.h')], ['TimerCallback::timerStopped', 'thread end'])
prop('C05', 'Timers make progress: due callbacks run soon, clock steps included',
 'While the timer is open and its thread can run, a callback that is due is run without delay: it is not kept waiting by any lost wakeup, by a later schedule of an earlier or later callback, or by a cancel. A step of the wall clock delays pending callbacks by at most the size of a backward step, and a forward step does not stop the timer.',
 ['schedules', 'fault_sequences'], 'any history of schedules and cancels, stalls and clock steps, followed by a fault-free phase',
 'Lost wakeups appear only when a schedule lands between the decision to sleep and the sleep; the suite has no clock fault.',
 TM, [('wakeup event signalled when the head of the queue changes', 'timer.cpp addElement()')], [('waitForever / waitTime', 'how long the thread sleeps', 'timer.cpp run()')], ['time of each callback'])
prop('C06', 'Event: a signal wakes exactly one waiter and is never lost',
 'wait() returns true only by consuming a signal, each signal being consumed at most once, and a signal given while nobody waits is kept (at most one) for the next waiter. wait(timeout) returns false only after the timeout elapsed with no signal available to it, tryWait never blocks, and a waiter with a signal available to it returns.',
 ['schedules', 'fault_sequences', 'histories'], 'any interleaving of signal/wait/wait(timeout)/tryWait from several threads, stalls and clock steps',
 'testThread signals one waiter once; the guarantee is about every race of signal against timeout.',
 ['src/misc/event.cpp', 'src/misc/pv/event.h'], [('wrapper over the OS event', 'event.cpp')], [], ['return values of wait/tryWait'])
prop('C07', 'Lock and Mutex: mutual exclusion, recursion and exact lock accounting',
 'At most one thread is inside a region guarded by a mutex at any moment, and a Lock unlocks exactly what it locked: lock() on an owning Lock and unlock() on a non-owning one change nothing, tryLock() reports ownership truthfully without blocking, and leaving the scope (also by exception) releases the mutex. The owner may lock it again, and another thread gets in only after as many releases.',
 ['schedules', 'histories'], 'any program of lock/unlock/tryLock/scope-exit on several mutexes by several threads',
 'testThread uses a Lock in one sequence only.',
 ['src/misc/pv/lock.h'], [('Lock::locked flag', 'lock.h')], [('locked', 'this Lock owns the mutex', 'lock.h')], ['ownsLock', 'overlap of guarded regions'])
prop('C08', 'A Thread runs its runner at most once and is joined before it is destroyed',
 'A started Thread runs its runner exactly once (never more; not at all only if never started or destroyed before it could begin), destroying a Thread returns only after its runner has ended, and a runner handed over for ownership is destroyed exactly once, after it ended. The Thread instance count is conserved, a configuration without a runner is refused with an exception, and a runner that throws does not stop the join.',
 ['schedules', 'fault_sequences'], 'any order of construction, start, exit, destruction over the constructors and Config forms, any scheduling, refused thread creation',
 'The tests create a few threads one at a time; use-after-destroy needs the runner to be preempted at its last instructions.',
 ['src/misc/thread.cpp', 'src/misc/pv/thread.h'], [('Pvt and exit wait', 'thread.cpp Thread::close'), ('Config', 'thread.h')], [('Thread count', 'live Thread objects', 'thread.cpp')], ['runner invocations', 'heap state'])
prop('C09', 'RefMonitor start and stop are idempotent and leave no thread behind',
 'After stop() returns and no start() is in progress the monitor reports not running and its reporting thread has ended; after start() it reports running and reports go on about every period, each giving counts the counters had and their differences from an earlier report, also when one is requested by current(); repeated or concurrent start and stop calls, also from a report, never produce two reporting threads for longer than the stopped one takes to end, hang, or crash. Destroying a monitor stops it.',
 ['schedules', 'fault_sequences'], 'any interleaving of start/stop/running/current from several threads, counters being registered meanwhile',
 'No test runs start against stop.',
 ['src/misc/reftrack.cpp', 'src/misc/pv/reftrack.h'], [('RefMonitor::Impl mutex, worker and done flag', 'reftrack.cpp')], [('Impl::worker', 'the reporting thread', 'reftrack.cpp')], ['RefMonitor::show', 'running()'])
prop('C10', 'The reference-counter registry is consistent under concurrent registration',
 'A counter registered by registerRefCounter is listed in every later snapshot and readable by readRefCounter under its name until it is unregistered, and never after unregister returned; a lookup of an unknown name reports 0. Snapshots taken concurrently with registration contain each name at most once with a value the counter really had, and the difference of two snapshots is the difference of their counts, printed as such.',
 ['schedules', 'histories'], 'any interleaving of register/unregister/read/snapshot by several threads',
 'testreftrack is sequential.',
 ['src/misc/reftrack.cpp', 'src/misc/pv/reftrack.h'], [('refgbl mutex and map', 'reftrack.cpp')], [('counters', 'name to counter map', 'reftrack.cpp')], ['RefSnapshot', 'readRefCounter'])
FC = ['src/factory/FieldCreateFactory.cpp', 'src/pv/pvIntrospect.h', 'src/factory/Compare.cpp']
prop('C11', 'Type descriptions are interned: equal types share one object, others do not',
 'While a handle to a type description is held, every request for the same description, through any creation function, builder or decoded from the wire, by any thread, returns that same object, and a request for a different description never does. The object returned describes exactly what was asked for, and once all handles are gone it is destroyed and no longer counted.',
 ['schedules', 'inputs', 'histories'], 'any interleaving of creation, decoding and release of equal and different descriptions (hash collisions included) by several threads',
 'Tests compare a few pointers in one thread; creation racing the destruction of the last handle is a schedule.',
 FC, [('cache lookup with racing-destruction check', 'FieldCreateFactory.cpp FieldCreate::Helper::cache'), ('removal on destruction', 'FieldCreateFactory.cpp Field::~Field')],
 [('FieldCreate::cache', 'hash to live Field', 'pvIntrospect.h')], ['pointer identity', 'Field::num_instances'])
prop('C12', 'First use of every library-wide service is safe from any number of threads',
 'Whichever threads use the field factory, data factory, standard field and structure factories, converter, alarm name tables and counter registry first and simultaneously, all of them get the same fully built object and correct results. No use happens before construction has finished and nothing is built twice.',
 ['schedules'], 'all interleavings of concurrent first calls',
 'In a test program the first use happens once, in one thread.',
 ['src/factory/StandardField.cpp', 'src/factory/StandardPVField.cpp', 'src/factory/Convert.cpp', 'src/property/alarm.cpp', 'src/misc/reftrack.cpp'],
 [('epicsThreadOnce / static + mutex initialisation', 'StandardField.cpp, StandardPVField.cpp, Convert.cpp, alarm.cpp')], [], ['returned objects'])
SV = ['src/misc/pv/sharedVector.h', 'src/pv/pvData.h', 'src/factory/PVDataCreateFactory.cpp']
prop('C13', 'A frozen array or a view obtained from a field never changes under its reader',
 'The elements seen through a shared_vector<const T> (obtained by freeze, view, copy or slice) are the same for as long as it is held, whatever later operations are done on the field it came from, on other vectors that shared the same buffer, or by other threads. No buffer is reachable both through a writable and through a read-only vector: freeze() refuses a vector whose buffer another one shares, and leaves it as it was, while thaw, make_unique, resize, reserve, push_back and reuse give a buffer of its own to a vector whose buffer others hold. Apart from copies of a writable vector, which share its buffer, sharing, swap, replace, slice, setLength and setCapacity behave like operations on independent values and lose no element; an untyped handle (shared_vector<void>) keeps its bytes and its original type through copies, moves and swaps; indexed access out of range is refused.',
 ['schedules', 'inputs', 'histories'], 'any history of vector and array-field operations by several threads holding views',
 'testSharedVector checks each operation in isolation in one thread; aliasing bugs need a history.',
 SV, [('unique/make_unique/freeze/thaw reference-count tests', 'sharedVector.h'), ('PVValueArray view/reuse/swap', 'pvData.h')], [('m_sdata/m_offset/m_count/m_total', 'the buffer window', 'sharedVector.h')], ['element values'])
prop('C14', 'Every array buffer is freed exactly once, by its deleter, after its last user',
 'A buffer given to a shared_vector (with or without a custom deleter) or allocated by it is released exactly once, through that deleter, when the last vector, field, view, slice or converted (shared_vector<void>) handle to it goes away, and not earlier. This holds whichever thread drops the last reference and when an allocation fails midway.',
 ['schedules', 'histories', 'fault_sequences'], 'any history of copies, slices, casts, freezes and drops over several threads, with failing allocations',
 'Lifetime under concurrency and allocation failure is outside the suite.',
 SV, [('shared_ptr ownership and static_shared_vector_cast', 'sharedVector.h')], [], ['deleter invocations', 'heap state'])
prop('C15', 'Any number of threads may read one structure and share its types and values',
 'Concurrent read-only use of one PVStructure (sub-field lookup by name or offset, get, view, comparison, printing, copying out and serializing) by several threads gives each the results it would get alone and has no side effect on the structure or its type.',
 ['schedules'], 'all interleavings of read-only operations on one structure by several threads, first use included',
 'The suite reads from one thread only; lazily computed state is visible only under a race.',
 ['src/factory/PVStructure.cpp', 'src/factory/PVField.cpp', 'src/pv/pvData.h'], [('const access; field offsets computed on first request', 'PVField.cpp PVField::computeOffset')], [('fieldOffset/nextFieldOffset', 'position within the structure', 'PVField.cpp')], ['results of reads'])
prop('C16', 'The debugging shared_ptr tracks exactly the live references',
 'The tracking shared_ptr and weak_ptr behave like the standard ones, the referenced object being destroyed exactly once when the last strong reference goes. At any quiet moment the reported set of references contains every live strong reference of that object and nothing else, under any interleaving of copies, moves, casts, resets, swaps and locks by several threads.',
 ['schedules', 'histories'], 'any history of pointer operations by several threads',
 'testdebugPtr is sequential.',
 ['src/misc/debugPtr.cpp', 'src/misc/pv/debugPtr.h'], [('tracker mutex and set', 'debugPtr.cpp')], [('tracker::refs', 'live references', 'debugPtr.cpp')], ['show_referrers', 'spy_refs', 'use_count'])
prop('C17', 'A clone or copy equals its original and is independent of it',
 'Creating a field from another one (createPVField/createPVStructure/createPVUnion/createPVScalar/createPVScalarArray) or copying one onto another of the same type gives the same type and an equal value, every part of it in its proper place (parent, name). Afterwards either can be changed, dropped or refused without any effect on the other, and originals shared with other threads are only read. Equality (== and !=) holds exactly for equal values of one type. Elements of structure and union arrays may be shared. A masked copy changes exactly the selected fields, and every scalar, array or union copied onto is announced once. Copying between different types (also of parts of arrays with different elements) or onto an immutable target (or a field inside one) is refused.',
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all types and values, any later history of changes by several threads, failing allocations while cloning',
 'The suite clones a few flat fields and never changes the original afterwards.',
 ['src/factory/PVDataCreateFactory.cpp', 'src/factory/PVField.cpp', 'src/factory/PVStructure.cpp', 'src/factory/PVUnion.cpp', 'src/factory/Compare.cpp'], [('clone constructors and copyUnchecked', 'PVDataCreateFactory.cpp createPVField and relatives')], [('PVField::parent', 'owner of the field', 'PVField.cpp')], ['values, types and parents of originals and clones', 'operator=='])
prop('C18', 'Bounded strings and arrays keep to their declared size',
 'A bounded string never holds more characters, a bounded array never more elements, than its type declares, and a fixed size array that has a value has exactly the declared number of elements - whichever way the value arrives: put, replace, putFrom, assign, copy, clone, setLength, setCapacity, reuse, decoding, JSON, pvSubArrayCopy, or as a member of a union. A value that does not fit is refused with an exception and the old value stays; one that fits is accepted. What was accepted can be sent and arrives equal. (PVValueArray::swap() is exempt: it documents that it does not check. A fixed size array that was never set has no elements and cannot be sent.)',
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all bounds and values, any history of changes, any segmentation of the decoded stream, failing allocations',
 'The suite checks the bound in put() of a string and in a few array calls; decoding, copying and JSON are never tried with a value that does not fit.',
 ['src/pv/pvData.h', 'src/factory/PVDataCreateFactory.cpp', 'src/factory/FieldCreateFactory.cpp', 'src/factory/pvSubArrayCopy.cpp'], [('checkLength before every store', 'pvData.h PVArray::checkLength; PVDataCreateFactory.cpp PVValueArray/PVString deserialize')], [('maximum length', 'declared size', 'BoundedString, BoundedScalarArray, FixedScalarArray')], ['values of the fields', 'exceptions'])
prop('C19', 'Builders build exactly what was added, whatever failed in between',
 'A FieldBuilder (and appendField/appendFields) gives the type with exactly the fields, IDs and nesting it was asked for - the same object as that type made in any other way; a ValueBuilder gives a new structure with exactly the fields and values it was given. A type is also refused when made from lists of names and types that do not match, miss a type or use a name twice. A name used twice with different types, invalid names, mismatched nesting and values a builder cannot hold are refused with an exception, leaving the builder as it was. A step that runs out of memory leaves the builder as it was and can be repeated (ValueBuilder::add of a whole structure may have taken over part of it). A finished FieldBuilder starts afresh, a ValueBuilder can build again; what was built no longer depends on the builder or on what it was built from.',
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all sequences of building steps including wrong ones, several threads building on each other\'s results, any failing allocation',
 'The suite builds a few structures in straight lines.',
 ['src/factory/FieldCreateFactory.cpp', 'src/pv/valueBuilder.cpp', 'src/pv/valueBuilder.h', 'src/pv/pvIntrospect.h'], [('FieldBuilder, ValueBuilder', 'FieldCreateFactory.cpp FieldBuilder::*, valueBuilder.cpp ValueBuilder::*')], [('fieldNames/fields, children', 'what was added so far', 'pvIntrospect.h FieldBuilder, valueBuilder.h ValueBuilder')], ['types and values built', 'exceptions'])
prop('C27', 'Standard structures are the normative ones, whoever asks, first or again',
 'For every value type and every property list, the standard field functions (scalar, scalarArray, enumerated, structureArray, unionArray, regUnion, variantUnion and the getters) give the structure with the normative ID, "value" first and then exactly the listed properties with their normative types, in fixed order whatever the order of the list - the same type object each time. valueAlarm has the limits of the value\'s type, and is refused with a logic_error for values that cannot have one. The standard PV functions give a new structure of that type each time, holding initial values (and the given choices). This holds for the first request and all later ones, from any number of threads, and a request that runs out of memory can be repeated and leaves nothing behind.',
 ['inputs', 'schedules', 'fault_sequences'], 'all value types, property lists and orders of requests from several threads, any failing allocation',
 'The suite builds a handful of standard structures in one thread and prints them.',
 ['src/factory/StandardField.cpp', 'src/factory/StandardPVField.cpp', 'src/pv/standardField.h', 'src/pv/standardPVField.h'], [('createProperties and the prebuilt property types', 'StandardField.cpp StandardField::createProperties, StandardField constructor'), ('value creation', 'StandardPVField.cpp')], [('alarmField, timeStampField, ...', 'prebuilt types', 'standardField.h')], ['types and values returned', 'exceptions'])
SE = ['src/factory/PVDataCreateFactory.cpp', 'src/factory/PVStructure.cpp', 'src/factory/PVUnion.cpp', 'src/misc/serializeHelper.cpp', 'src/misc/pv/byteBuffer.h', 'src/misc/bitSet.cpp', 'src/misc/status.cpp']
prop('C20', 'Any value survives serialization over any segmentation and byte order',
 'Serializing any value of any type and deserializing it into a value of the same type yields an equal value, whatever the byte order, the buffer sizes and the points at which the stream is flushed or refilled, and consumes exactly the bytes produced. The byte stream is the one pvAccess defines, independent of the segmentation. An array decoded is announced once, when it holds its new value. Bit sets, statuses, sizes and strings obey the same. The other legal forms a peer may use - long sizes, null strings and bit sets, bit sets with trailing zero bytes - are read as what they mean.',
 ['inputs', 'schedules', 'fault_sequences'], 'all types and values, both byte orders, every segmentation of both streams (sender flushes, receiver short reads), any reader start state',
 'testSerialization uses one big buffer that never fills or runs dry, so no value ever crosses a segment boundary.',
 SE, [('flush/ensure protocol', 'pv/serialize.h and every serialize/deserialize')], [], ['bytes on the simulated link', 'decoded values'])
prop('C21', 'Replicas updated with changed-field deltas converge to the sender',
 'If a sender transmits an initial full structure and then, per update, a bit set of changed fields followed by those fields (a set bit for a structure meaning all of it), a receiver applying the updates in order holds after each one exactly the sender\'s values, and fields not covered are untouched and, if arrays, not announced. Consecutive updates may be merged by combining the bit sets and sending only the latest values; a bit set may be compressed (one bit for a structure all of whose fields are marked), which changes nothing of this.',
 ['inputs', 'histories', 'fault_sequences'], 'all structure types, update histories, segmentations, merges (slow receiver) and reconnections',
 'The suite checks two hand-written deltas in one buffer.',
 ['src/factory/PVStructure.cpp', 'src/misc/bitSet.cpp', 'src/copy/requestmapper.cpp'], [('bit walk with sub-structure skip', 'PVStructure.cpp serialize/deserialize with BitSet')], [('BitSet', 'changed fields', 'bitSet.h')], ['receiver values'])
prop('C22', 'A stream cut at any byte is reported and corrupts nothing',
 'If the byte stream ends at any point, the decoder asks for more data and passes on the stream\'s failure as an exception. It never reads beyond the bytes it was given or returns a made-up value, leaks nothing, and the objects involved stay usable, so that decoding a complete stream afterwards gives the right value. The same holds for an output stream that fails at any flush.',
 ['inputs', 'crash_points', 'fault_sequences'], 'every cut point and failing flush of any stream of types, values and bit sets',
 'No test cuts a stream.',
 SE, [('ensureData before each read', 'every deserialize')], [], ['exceptions', 'heap state', 'later decodes'])
prop('C23', 'Corrupted or hostile bytes never break memory safety or type safety',
 'Decoding arbitrary bytes as a type description, value, bit set, status, size or string either succeeds with a well-formed result or throws a standard exception. It never accesses memory out of bounds, follows a null or wrongly typed object, leaks, or recurses or loops without bound, and later decoding of valid data is unaffected.',
 ['inputs', 'fault_sequences'], 'all byte strings, in particular valid streams with flipped, inserted, deleted, duplicated and transposed bytes',
 'The suite feeds valid bytes, plus a handful of hand-made bad ones.',
 ['src/factory/FieldCreateFactory.cpp'] + SE, [('type-code switch and checks', 'FieldCreateFactory.cpp FieldCreate::deserialize')], [], ['exceptions', 'heap state'])
prop('C24', 'Type descriptions survive the wire, with or without the transport\'s type cache',
 'Decoding an encoded type description yields the identical interned type, also when the transport sends types by identifier after first sight, over any segmentation and byte order, and after reconnection with empty caches. The encoding is the one pvAccess defines.',
 ['inputs', 'histories', 'fault_sequences'], 'all types, all orders of type exchange over a caching transport, all segmentations, reconnects',
 'The suite\'s transport never caches types, so the cached path has never run in a test.',
 FC, [('cachedSerialize/cachedDeserialize', 'FieldCreateFactory.cpp, pv/serialize.h')], [], ['decoded types', 'bytes'])
prop('C25', 'Transports may move array bytes directly without changing the result',
 'A transport that accepts arrays for direct sending or receiving, for any subset of them, delivers the same values, announcements and bytes as one that does not. The sender\'s data is never modified and array data given away for direct transfer stays valid until it has been sent.',
 ['inputs', 'fault_sequences'], 'all values and every pattern of acceptance and refusal of direct transfer',
 'No test transport ever accepts a direct transfer.',
 ['src/factory/PVDataCreateFactory.cpp', 'src/misc/pv/serialize.h'], [('directSerialize/directDeserialize', 'PVDataCreateFactory.cpp PVValueArray')], [], ['decoded values', 'bytes'])
prop('C26', 'A published record converges at every subscriber, through stalls and reconnects',
 'A record is changed by several threads under a lock, post handlers mark the fields put (each put of a scalar or array announces its field exactly once), timer callbacks copy marked fields for each subscriber through its request mapper, and threads send them over links that stall, break and are set up again. Each update that arrives carries, in order, exactly the state it was taken from and the marks of what changed, and changed again, since the one before; a put by a subscriber changes and announces exactly the fields put. Once changes and faults stop, every subscriber holds the record\'s values within bounded time, and shutting down in any order leaves nothing behind.',
 ['schedules', 'histories', 'crash_points', 'fault_sequences', 'inputs'], 'any record type, selections, periods, change and put histories over several threads, link cuts and stalls at any byte, reconnections, clock steps, failing allocations, order of shutdown',
 'No test puts the parts together; they are only wrong together under schedules and faults.',
 ['src/misc/timer.cpp', 'src/misc/thread.cpp', 'src/misc/event.cpp', 'src/misc/bitSet.cpp', 'src/copy/requestmapper.cpp', 'src/factory/PVStructure.cpp', 'src/factory/PVDataCreateFactory.cpp', 'src/property'], [('post handlers', 'PVField.cpp PVField::postPut'), ('change sets', 'bitSet.cpp BitSet::or_and and relatives')], [('pending and overrun bit sets', 'what a subscriber has not been told', 'bitSet.h')], ['updates received', 'record values', 'post handler calls', 'heap state'])
prop('C30', 'A failed allocation is reported and loses or corrupts nothing',
 'If any memory allocation fails during an operation, the operation throws std::bad_alloc (or another standard exception) and leaks nothing. Existing types, values, views and library-wide tables stay valid and consistent, locks are released, and repeating the operation once memory is available succeeds with the normal result.',
 ['crash_points', 'fault_sequences', 'inputs'], 'failure of the n-th allocation (once or from then on) in any operation on types, values, requests, JSON, timers or threads',
 'No test injects allocation failures.',
 ['src/factory', 'src/misc', 'src/copy', 'src/json'], [('RAII and exception-safe update order', 'whole library')], [], ['exceptions', 'heap state', 'results of the retry'])
JS = ['src/json/parsehelper.cpp', 'src/json/parseinto.cpp', 'src/json/parseany.cpp', 'src/json/jprint.cpp']
prop('C31', 'JSON parsing does not depend on how the stream delivers the text',
 'Parsing a JSON text from a stream gives the same structure, value or error as parsing it from memory, whatever the chunking and whitespace or line breaks between tokens, and a text cut short or a stream that fails is reported as an error. In a target that has a value already, exactly the fields named in the text change; elements are added to arrays (a fixed size array is replaced). A failed parse leaks nothing and leaves the target usable.',
 ['inputs', 'fault_sequences'], 'all JSON texts and layouts, all chunkings, cut points and read errors',
 'The tests parse whole strings from memory with one layout.',
 JS, [('line reader feeding the JSON parser', 'parsehelper.cpp yajl_parse_helper')], [], ['parsed values', 'exceptions'])
prop('C32', 'Printed JSON reads back as the same value; write failures are reported',
 'For every value that JSON can represent (finite normal numbers above the least 64-bit integer, valid UTF-8 text, no null elements, no unions), printing it and parsing the text into a value of the same type gives an equal value, in every formatting style. A stream that refuses output at any point leads to an error or a failed stream state, never to a crash, leak or an endless loop, and the printed value is unchanged.',
 ['inputs', 'fault_sequences'], 'all values and options, every failing write',
 'The tests print one structure.',
 JS, [('yajl_gen based printer', 'jprint.cpp')], [], ['text', 'stream state'])
prop('C33', 'Request mapping keeps a selected copy in step with its base structure',
 'For any base structure and any request, the mapper\'s selected structure contains exactly the selected fields with their base types, and fields asked for that do not exist are named in a warning; copying from the base with a set of changed base fields updates exactly the corresponding selected fields and marks exactly those, and copying back updates exactly the selected base fields. Over any history of updates and lossy, merged delivery the requester\'s copy of selected fields equals the base. A refused or failed selection leaves the mapper as it was.',
 ['inputs', 'histories', 'fault_sequences'], 'all structures, requests, change histories, deliveries',
 'testCreateRequest maps a few hand-written requests once.',
 ['src/copy/requestmapper.cpp', 'src/copy/createRequest.cpp', 'src/copy/pv/createRequest.h'], [('base2req/req2base index maps', 'requestmapper.cpp')], [('base2req, req2base', 'offset correspondence', 'requestmapper.cpp')], ['copied values and bit sets'])

prop('C40', 'Value conversion between scalar types is exact or refused',
 'Casting between scalar types and strings yields the nearest representable value or throws on text that does not parse or is out of range.',
 ['inputs'], 'all values of all pairs of types', 'A test samples a few pairs.',
 ['src/misc/typeCast.cpp', 'src/misc/parseToPOD.cpp'], [('castUnsafe', 'typeCast.h')])
prop('C41', 'BitSet algebra equals set algebra',
 'Bit set operations (and, or, xor, and_not, or_and, next set/clear bit, cardinality) agree with the same operations on sets of integers.',
 ['inputs'], 'all sets', 'A test samples a few sets.', ['src/misc/bitSet.cpp'], [('word-array operations', 'bitSet.cpp')])
prop('C42', 'Time stamps are normalised, exactly ordered and follow the clock',
 'A time stamp read from the clock lies between the clock\'s readings around the call, also while the clock is stepped. Setting, adding, subtracting (seconds or fractions), converting and comparing time stamps agrees with integer nanosecond arithmetic, a fraction to within two nanoseconds, for times before and after the epoch and however far apart; the nanosecond part always lies between 0 and 999999999.',
 ['inputs', 'histories', 'fault_sequences'], 'all sequences of operations on time stamps by several threads while the wall clock runs and is stepped',
 'testTimeStamp samples a few values from the real clock.', ['src/property/timeStamp.cpp', 'src/property/pv/timeStamp.h'], [('normalize', 'timeStamp.cpp TimeStamp::normalize')], [('secondsPastEpoch, nanoseconds', 'the time', 'timeStamp.h')], ['values returned by TimeStamp'])
prop('C43', 'Request strings parse to the structure the grammar defines',
 'Every request string of the grammar gives the structure it denotes; every other string is refused with a message and a position.',
 ['inputs'], 'all strings', 'A test parses a few strings.', ['src/copy/createRequest.cpp'], [('request parser', 'createRequest.cpp')])
prop('C44', 'Property helpers read and write exactly the structure they are attached to',
 'Alarm, time stamp, display, control and enumerated helpers attach exactly to structures with the fields they need (a time stamp also from inside such a structure), and say truthfully whether they are attached. While attached, get() returns the current fields whoever wrote them, set() stores what it was given, announcing each changed field once, and fails only when a field is immutable; no other field is touched. Detached they refuse, and a failed attach leaves them detached. They keep the structure alive.',
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'all structures and histories of attaching, reading, setting and writing the fields directly by several threads under one lock, with failing allocations',
 'The suite attaches each helper to one matching structure.', ['src/property'], [('attach/get/set', 'src/property/pv*.cpp')], [('attached field pointers', 'fields in use', 'src/property/pv/pv*.h')], ['values read', 'post handlers', 'isAttached'])

NA = {
 'C40': 'a pure function of its argument: no scheduling, time, I/O, fault or multi-party behaviour for a simulator to control',
 'C41': 'a pure function of its operands with no schedule, I/O or fault; its use for change propagation is decided in C21, C26 and C33',
 'C43': 'a pure function of one string held in memory: nothing for a simulated schedule or fault to act on (allocation failure in it is covered by C30)',
}
TODO = 'check under construction'
FAMILY = 'deterministic simulation with fault injection: '
ids = [p['id'] for p in P]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 sim/check.py %s quick' % i, thorough_cmd='python3 sim/check.py %s thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=FAMILY + c['technique'], level=c.get('level', 'exploration'), level_note=c['note']))
m = dict(version=1, setup_cmd='python3 sim/build.py >/dev/null', checks=checks,
    not_applicable=[dict(property=i, reason=NA.get(i, TODO)) for i in ids if i not in CHECKS],
    notes='One binary per scenario file: the library sources of /repo compiled with memory-access instrumentation against a simulated OSI layer (threads, mutexes, events, clocks, heap). No hooks in /repo. See DESIGN.md.')
for i in CHECKS:
    assert i in ids, i
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
