#!/usr/bin/env python3
"""Writes properties.jsonl (the texts below) and MANIFEST.json (from props.py)."""
import json, os
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
T = []


def P(id, title, statement, over, text, why, files, mech, observe=()):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe))))


P('P01', 'A message delivers exactly the bytes that were sent',
  'When a send meets a matching receive, the receive buffer\'s elements, in the order of its datatype, hold the bytes of the sender\'s elements in the order of theirs, whatever the two datatypes, the counts, the kind of send or receive call and which side was posted first. No other byte of the receive buffer and no byte of the send buffer changes, and the status names source 0 and the sender\'s tag.',
  ['inputs', 'configurations'], 'all datatypes, counts, contents, tags, posting orders and call kinds',
  'the tests send a dozen fixed layouts with fixed contents, sender and receiver using the same type',
  ['send.c', 'recv.c', 'copy.c', 'req.c'], [('element-wise copy at match time', 'copy.c'), ('matching at posting', 'send.c, recv.c')], ['receive buffer', 'MPI_Status'])
P('P02', 'Messages match by tag, source and communicator, in posting order',
  'A receive takes the oldest waiting message on its own communicator whose tag and source it accepts (exact values or the wildcards), and a send goes to the oldest waiting receive that accepts it. A message never crosses from one communicator to another, and a posted operation that nothing matches stays pending without touching its buffer.',
  ['histories', 'inputs'], 'all histories of sends and receives, with any tags, on one and on several communicators',
  'the tests post one or two messages at a time, mostly with distinct fixed tags',
  ['send.c', 'recv.c', 'list.c', 'comm.c'], [('pending lists per communicator searched from the oldest', 'send.c, recv.c'), ('list order', 'list.c')], ['receive buffers', 'MPI_Status'])
P('P03', 'Requests live until completed; blocking calls return or end the program',
  'A request completes exactly when its message has been matched: completing it sets the handle to the null request, testing it earlier leaves it pending, and testing or waiting for a null request succeeds at once. Freeing a pending request lets its operation complete later without any effect on others. A blocking call whose partner is already there returns with the message; one that could never be satisfied in a single process ends the program instead of returning.',
  ['histories', 'inputs'], 'all histories of posts, tests, waits and frees, and every blocking call after any pending operations',
  'the tests wait for each request once, after its partner was posted; none frees a request or blocks for ever',
  ['req.c', 'send.c', 'recv.c'], [('completion flag and handle release', 'req.c'), ('pending operation lists', 'send.c, recv.c')], ['request handles', 'process termination'])
P('P04', 'Calls that complete several requests report exactly the complete ones',
  'Each of the any, all and some forms of test and wait completes exactly the requests its definition says, sets those and only those handles to null, and gives each its own index and status while leaving every other array element alone. Null requests are ignored, an array with nothing active is reported as undefined, and statuses may be ignored.',
  ['inputs', 'histories'], 'all mixtures of null, complete and pending requests, with and without statuses',
  'the tests call these with arrays in which every request is already complete',
  ['req.c'], [('loops over the request array', 'req.c')], ['indices, flags, statuses and request handles'])
P('P05', 'A status counts what was received, not what was asked for',
  'After a receive the element count is the number of basic elements that arrived and the item count is that number divided into items of the datatype asked about, or undefined when it does not divide evenly. This holds for messages shorter than the receive buffer, partial items, any datatype asked about and receive counts as large as an int.',
  ['inputs'], 'all layouts, message lengths, receive counts and query datatypes',
  'the count queries are called by none of the tests',
  ['getcount.c', 'recv.c', 'send.c', 'copy.c'], [('element count stored in the status', 'recv.c, send.c'), ('division into items', 'getcount.c')], ['MPI_Get_count', 'MPI_Get_elements'])
P('P06', 'A probe sees exactly the message a receive would get',
  'A probe finds a message exactly when a receive with the same communicator, source and tag would complete at once, and reports that message\'s source, tag and size. Probing consumes nothing and disturbs nothing, and a blocking probe that nothing can satisfy does not return.',
  ['histories', 'inputs'], 'all histories of sends, receives and probes with any tags',
  'no test probes',
  ['probe.c'], [('search of the waiting sends', 'probe.c')], ['flag', 'MPI_Status'])
P('P07', 'The null process sends and receives nothing',
  'Every send, receive and probe that names the null process succeeds at once, moves no data and leaves pending operations alone; its receive status has the null process as source, any tag as tag and a count of zero. This holds for any tag, count, datatype and buffer.',
  ['inputs'], 'all calls that take a source or destination, any tag, count, datatype and pending operations',
  'no test uses the null process',
  ['send.c', 'recv.c', 'probe.c', 'req.c'], [('early completion', 'send.c, recv.c, probe.c')], ['MPI_Status', 'request handles'])
P('P08', 'Handles of live objects are distinct and keep their meaning',
  'However many objects are alive, and in whatever order others are created and freed, every live handle is non-null, differs from all others and keeps denoting its own object. A freed handle is set to null and its slot may be used again without harm to any other object.',
  ['histories'], 'creation and freeing orders across every growth step of the handle table',
  'the tests hold a handful of objects, so the table never grows past its first block',
  ['handles.c'], [('blocks of handles and a free list', 'handles.c')], ['handles'])
P('P09', 'Balanced use leaves no memory behind; pending types survive being freed',
  'A program that completes or frees whatever it makes can repeat this any number of times without the memory the library holds growing. A datatype may be freed while an operation that uses it is still pending, and the operation then completes as if it had not been.',
  ['histories'], 'pairs of balanced rounds of every kind of object, repeated',
  'the tests exit after each object has been used once, and nothing counts allocations',
  ['handles.c', 'list.c', 'req.c', 'type.c', 'comm.c'], [('recycling of handles, list items and types', 'handles.c, list.c, type.c')], ['live heap blocks'])
P('P10', 'Each datatype constructor builds the layout MPI defines',
  'Every datatype constructor, applied to any legal arguments and to predefined or derived types, describes exactly the sequence of basic elements and offsets that MPI defines for it. Zero counts, zero or negative displacements, overlapping order and nesting are included, and the arguments are not changed.',
  ['inputs'], 'all small shapes of every constructor, nested in one another',
  'the tests build about fifteen fixed shapes',
  ['type.c'], [('flattening into a list of elements and offsets', 'type.c')], ['MPI_Pack', 'MPI_Unpack', 'messages'])
P('P11', 'Extent, bounds and size of a datatype follow its definition',
  'The lower bound, upper bound, extent and size of every datatype are those that follow from its layout, including explicit lower and upper bound markers anywhere in a structure, types without elements, and offsets beyond the range of an int. Successive items of a count are that extent apart, and an extent is the upper bound minus the lower.',
  ['inputs'], 'any displacement and stride within 2^44, markers in every position',
  'the tests never ask for a bound and place no marker',
  ['type.c', 'type_const.c'], [('bounds computed while constructing', 'type.c')], ['MPI_Type_lb/ub/extent/size'])
P('P12', 'Every predefined datatype has its own entry of the right size',
  'Each predefined datatype constant is distinct from the others, has the size and extent of the C or Fortran type it names, needs no commit and moves exactly that many bytes per item.',
  ['inputs'], 'all predefined datatypes, any content',
  'the tests use eight of the forty-five',
  ['type_const.c', 'type.c', 'mpi.h'], [('table of predefined types', 'type_const.c')], ['MPI_Type_size', 'messages'])
P('P13', 'Datatypes are independent: duplicating, deriving and freeing',
  'A duplicate or a type derived from another keeps its own layout and commit state when the original is freed, and freeing any type changes no other. Freeing sets the handle to null, and communication with a type that was never committed is refused.',
  ['histories'], 'all histories of create, duplicate, derive, commit and free over several datatypes',
  'the tests never free a type while a derived one is in use and never duplicate one',
  ['type.c', 'handles.c'], [('copying of type descriptions', 'type.c')], ['MPI_Type_size/extent', 'messages'])
P('P14', 'Pack and Unpack are inverse, advance exactly and respect the buffer',
  'Packing appends exactly the elements\' bytes at the position given and advances it by their size; unpacking with any datatype of the same elements reads them back and advances equally. A pack or unpack that does not fit between the position and the end of the buffer, for any position and buffer size, ends the program without touching memory outside the buffer. The reported pack size is always enough, and a packed buffer sent as a packed message arrives intact.',
  ['inputs'], 'all layouts, buffer sizes, positions and contents',
  'the tests pack one sequence into a buffer with room to spare',
  ['pack.c', 'copy.c'], [('room test and position update', 'pack.c')], ['buffers', 'position'])
P('P15', 'Data beyond two gigabytes is copied from and to the right place',
  'Messages, collectives and packing find the right bytes when a count, extent, stride or displacement puts them beyond the range of a 32-bit offset.',
  ['inputs'], 'offsets of one to six gigabytes in every copying operation, any content',
  'the tests never use a buffer larger than a few kilobytes',
  ['copy.c', 'collective.c', 'pack.c', 'type.c'], [('offset arithmetic', 'copy.c, collective.c')], ['buffers'])
P('P16', 'Each collective is the copy MPI defines for one process',
  'On a communicator of one process every collective places the elements of the send buffer (at their displacement) into the receive buffer (at theirs) exactly as MPI defines, for any datatypes and counts; reductions and scans yield the operand itself. Nothing else in either buffer changes.',
  ['inputs'], 'all collectives, datatypes, counts, displacements, roots and contents',
  'the tests run a few collectives with one datatype and zero displacements',
  ['collective.c', 'copy.c'], [('copying between the buffers', 'collective.c')], ['buffers'])
P('P17', 'MPI_IN_PLACE leaves the data in place',
  'Every collective that allows the in-place marker accepts it and changes no byte of the buffer, whatever the arguments MPI says are then ignored.',
  ['inputs'], 'all such collectives, any value of the ignored arguments',
  'one test uses the marker, in two of the collectives',
  ['collective.c', 'mpi.c'], [('early return on the marker', 'collective.c')], ['buffers'])
P('P18', 'A collective that expects more than was contributed is refused',
  'A collective in which the receiving side expects more elements than the sending side contributes ends the program instead of reading beyond what was contributed or returning with made-up data.',
  ['inputs'], 'all collectives, layouts and counts with a larger receiving side',
  'no test passes mismatched counts',
  ['copy.c', 'collective.c'], [('element count comparison', 'copy.c')], ['process termination'])
P('P19', 'Ranks and roots other than those of the one process are refused',
  'Every call given a rank, source, destination or root that does not exist in a world of one process ends the program instead of returning, also with the in-place marker; rank 0, the null process and the wildcards are accepted wherever they are legal between processes of one communicator.',
  ['inputs'], 'every such argument of every call, any 32-bit value',
  'the tests pass only rank 0',
  ['send.c', 'recv.c', 'probe.c', 'collective.c', 'comm.c', 'cart.c', 'ic_merge.c'], [('rank tests', 'all of these')], ['process termination'])
P('P20', 'Groups behave as sets of the one process',
  'Union, intersection, difference, inclusion and range inclusion of groups give exactly the group set algebra gives, never alter their operands, and refuse ranks that do not exist. Translating ranks yields rank 0 or undefined according to membership, and communicators made from a group exist exactly when the group contains the process.',
  ['inputs', 'histories'], 'expressions of several operations; any rank and range values',
  'no test uses groups',
  ['group.c', 'comm.c'], [('two group values', 'group.c')], ['group handles', 'translated ranks'])
P('P21', 'Each communicator is its own message space with one process',
  'Every communicator made by duplicating, splitting, creating, or making and merging intercommunicators has size 1 and rank 0, carries its own messages only, and can be freed without any effect on others or on their pending messages. A null communicator results exactly where MPI says so (an undefined color, an empty group).',
  ['histories', 'inputs'], 'all histories of constructions and frees with messages pending; any color and key',
  'the tests duplicate one communicator and split one',
  ['comm.c', 'ic_merge.c', 'cart.c', 'handles.c'], [('a new object with its own pending lists', 'comm.c')], ['communicator handles', 'messages'])
P('P22', 'Cartesian topologies return the dimensions and periods given',
  'A cartesian communicator reports dimensions of 1, coordinates of 0 and the periods it was created with, also after duplication and after other topologies were made and freed, writes no more entries than asked for, and is a communicator like any other.',
  ['inputs', 'histories'], 'any number of dimensions up to 4, any periods, any number asked for',
  'no test creates a topology',
  ['cart.c', 'comm.c'], [('stored periods', 'cart.c')], ['output arrays'])
P('P23', 'Fortran message calls do what the C calls do',
  'Every point-to-point, probe, count and request call made through its Fortran entry point has the same effect as the C call with the same arguments: it stores success in the error code, honours the Fortran markers for ignored statuses, uses indices from 1, and changes no input argument.',
  ['inputs', 'histories'], 'the quantifiers of the message properties, over the Fortran interface',
  'the Fortran tests use a few calls with fixed arguments and check the data only',
  ['send.c', 'recv.c', 'req.c', 'probe.c', 'getcount.c'], [('by-reference wrappers', 'beside each C function')], ['arguments', 'error code'])
P('P24', 'Starting from Fortran verifies that both languages agree',
  'Initialisation from Fortran succeeds when the constants, status layout and type sizes of the two languages agree, and ends the program when a checked constant or type size differs. After it the Fortran markers for ignored statuses and in-place buffers are recognised, the thread level asked for is reported, and every constant has one value in both headers.',
  ['inputs', 'configurations'], 'any value of each constant passed, any distance of the pairs of variables, every constant of the Fortran header',
  'the tests start once with the shipped headers, so a missing comparison shows nowhere',
  ['fort.F90', 'mpi.c', 'mpif.h', 'mpi.h'], [('comparison of the arguments with the C constants', 'mpi.c'), ('argument list', 'fort.F90')], ['process termination', 'marker behaviour'])
P('P25', 'Returned strings fit their buffers and say their length',
  'The processor name, error string and library version are terminated within the buffer sizes MPI\'s constants promise, nothing beyond those is written, and the reported length is the length of the string. This holds for any host name (long, unterminated or unobtainable) and any error code.',
  ['inputs', 'fault_sequences'], 'any error code, any host name and failure of the system call',
  'the tests read the version once; no test asks for a name or an error string',
  ['mpi.c'], [('bounded copies and forced termination', 'mpi.c')], ['buffers', 'length'])
P('P26', 'Start, state query, finish and abort behave as documented',
  'The library reports itself initialised exactly from initialisation on, however it was started, with a world of one process of rank 0; finishing succeeds whatever was left behind. Aborting ends the program with exactly the code given.',
  ['inputs', 'histories'], 'all ways to start, states at the end, thread levels and abort codes',
  'the tests start once and finish once; no test aborts',
  ['mpi.c', 'handles.c'], [('initialised flag', 'mpi.c')], ['exit code', 'flag'])
P('P27', 'The clock reads the system clock and never goes back',
  'The wall clock value is the system clock\'s seconds and microseconds to within a microsecond, a later reading is never smaller, and the difference of two readings is the elapsed time. When the system clock cannot be read the program ends instead of returning a made-up time.',
  ['inputs', 'fault_sequences'], 'any second of the next 250 years with listed microseconds; any two readings; a failing clock',
  'no test looks at the value of the clock',
  ['time.c'], [('conversion to seconds', 'time.c')], ['MPI_Wtime'])
P('P28', 'The internal list is a sequence',
  'The list on which all message queues are built behaves as a sequence: appended and prepended elements keep their order, searches return the oldest match, deletion removes exactly the element named and its size is the number of elements, in any history of operations and with the internal checks on or off.',
  ['histories', 'configurations'], 'all histories of list operations up to the bound, both build configurations',
  'the tests reach the list only through queues that hold one or two elements',
  ['list.c', 'listops.h', 'listP.h'], [('doubly linked items with a free list', 'list.c')], ['list contents'])
P('P29', 'Handle conversions, user operations, info and addresses are faithful',
  'Converting a handle between C and Fortran and back yields the same handle, a user-defined operation can be created, used and freed without affecting data, info objects accept any key and value without changing them, and the difference of two addresses is the distance of the locations.',
  ['inputs'], 'any handle value, operand, key, value and location',
  'the tests call none of these',
  ['op.c', 'info.c', 'type.c', 'comm.c', 'group.c', 'req.c'], [('identity conversions', 'op.c, comm.c, group.c, req.c')], ['results'])
P('P30', 'With type checking built in, only matching element types are delivered',
  'In a build with type checking, a message or collective in which a delivered element\'s type differs between the two sides ends the program, while every transfer with matching types, and every packed transfer, works exactly as without it.',
  ['inputs', 'configurations'], 'all pairs of predefined types and short sequences of types on both sides',
  'the tests are built without type checking',
  ['copy.c'], [('comparison of element types while copying', 'copy.c')], ['process termination', 'buffers'])
P('P31', 'Other Fortran real sizes are honoured throughout',
  'A library configured for other sizes of REAL and DOUBLE PRECISION uses those sizes for every predefined type that depends on them, in messages, in derived types and in the start-up verification.',
  ['configurations', 'inputs'], 'the documented non-default configurations, all predefined types, any content',
  'the tests are built in the default configuration only',
  ['type.h', 'type_const.c', 'type.c', 'mpi.c'], [('configured sizes', 'type.h')], ['MPI_Type_size', 'messages'])
P('P32', 'Fortran datatype and packing calls do what the C calls do',
  'Every datatype constructor, query, commit, free, pack and unpack call made through its Fortran entry point has the effect of the C call with the same arguments: it stores success in the error code, reads each argument with the kind the interface documents, writes no more than the result and changes no input argument.',
  ['inputs', 'histories'], 'the quantifiers of the datatype properties, over the Fortran interface',
  'the Fortran tests build a dozen fixed types',
  ['type.c', 'pack.c'], [('by-reference wrappers', 'beside each C function')], ['arguments', 'error code'])
P('P33', 'Fortran collective, group and communicator calls do what the C calls do',
  'Every collective, group, communicator and topology call made through its Fortran entry point has the effect of the C call with the same arguments, honours the Fortran in-place marker, stores success in the error code and changes no input argument.',
  ['inputs', 'histories'], 'the quantifiers of the corresponding C properties, over the Fortran interface',
  'the Fortran tests use three collectives and no group or topology call',
  ['collective.c', 'comm.c', 'group.c', 'cart.c', 'ic_merge.c'], [('by-reference wrappers', 'beside each C function')], ['arguments', 'error code'])
P('P34', 'A call changes only what it is documented to change',
  'Whatever other correct calls are made meanwhile, in C or from Fortran, every pending operation, completed request, communicator, datatype, group and status that a call does not name stays as it was and later behaves as if the call had not been made. Every correct call returns success and leaves its send buffers, input arrays and by-value arguments unwritten.',
  ['histories', 'inputs'], 'all sequences of calls of every kind beside pending and completed operations of any tags and contents',
  'the tests use one kind of call at a time and look only at its outputs',
  ['send.c', 'recv.c', 'probe.c', 'req.c', 'collective.c', 'comm.c', 'group.c', 'cart.c', 'type.c', 'pack.c', 'copy.c', 'list.c', 'handles.c'],
  [('shared handle table and list items', 'handles.c, list.c'), ('queues per communicator', 'comm.c, send.c, recv.c'), ('reference-counted datatypes', 'type.c')], ['all live objects', 'input arguments'])
P('P35', 'Diagnostic builds do what the normal build does',
  'A library configured to print information or to expose its internals (--enable-info, --enable-test-internal) builds, and every call does what it does in the normal build: the same matches, deliveries, statuses, results and terminations, no memory touched or kept in addition.',
  ['configurations', 'histories', 'inputs'], 'the histories and inputs of the message, request, probe and communicator properties, in the documented diagnostic configurations',
  'the tests are built in the default configuration only, and the diagnostic one did not compile',
  ['send.c', 'recv.c', 'probe.c', 'comm.c', 'type.c'], [('statements under INFO and TEST_INTERNAL', 'send.c, recv.c, probe.c, comm.c, type.c')], ['buffers', 'statuses', 'process termination'])
P('P36', 'The Fortran calls are there under every supported naming',
  'For each supported way a Fortran compiler names external procedures (lower case with one or two underscores, lower case alone, upper case) the library builds, every Fortran entry point is present under that name, no two share a name, and each does what it does under the default naming.',
  ['configurations', 'inputs'], 'every supported naming, every entry point, the inputs of the Fortran properties',
  'the tests are built with the naming of one Fortran compiler; under upper-case names the library did not build',
  ['mpiP.h', 'type.c', 'collective.c', 'send.c', 'recv.c', 'req.c', 'comm.c', 'group.c'], [('FC_FUNC(lower, UPPER)', 'mpiP.h and beside each C function')], ['symbol names', 'arguments', 'error code'])

NA = []

if __name__ == '__main__':
    assert [t['id'] for t in T] == list(PROPS), 'properties and checks differ'
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for t in T:
            f.write(json.dumps(t) + '\n')
    checks = []
    for t in T:
        p = PROPS[t['id']]
        checks.append(dict(
            property=t['id'], quick_cmd='python3 check.py %s' % t['id'], thorough_cmd='python3 check.py %s --thorough' % t['id'],
            technique='path-forking symbolic execution of the library\'s LLVM bitcode, decided by z3 (bit-vectors%s)' % (', floating point' if t['id'] == 'P27' else ''),
            level='model_checking',
            level_note='Every path and every input value within the bounds: %s. Outside: %s. Trusts the encoder and z3; sampled paths and all counterexamples are replayed on a native build.' % (p['bounds'], p.get('outside', ''))))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='bash sx/build.sh', checks=checks, not_applicable=NA), f, indent=1)
        f.write('\n')
