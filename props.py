"""What each check runs, and the bounds it states.  The texts of the properties are in
properties.jsonl; MANIFEST.json is written by mkmanifest.py."""
COMMON_ASSUMPTIONS = [
    'LLVM bitcode of the current /repo sources made by clang -O0 on x86-64 stands for the code; sampled paths are rerun on a gcc build and must agree',
    'the encoder (sx) and z3 are trusted; sampled paths and counterexamples are rerun natively, the thorough tier re-asks cvc5 and a second z3',
    'malloc does not fail; stdio calls have no effect beyond their return value',
    'the program is the only one using the library (one thread, one process)',
]
F = ['-DFAPI']
R = range


def run(h, cases, covers=(), **k):
    return dict(harness=h, cases=list(cases), covers=covers if isinstance(covers, dict) else list(covers), **k)


def tier(t, h, cases, covers=(), **k):
    return run(h, cases, covers, tier=t, **k)


def many(**k):
    return run('many.c', R(8), ['made'], opts=['--instr', '400000000'], time=400, **k)


def long(cases, **k):
    return run('long.c', cases, ['long'], opts=['--instr', '400000000'], time=400, **k)


HIST_OUT = 'longer histories; operations interleaved from several threads'
PROPS = {
    'P01': dict(
        runs=[run('p2p.c', R(11), ['full message']), long([0, 1]), run('bot.c', list(R(4)) + list(R(6, 10)), ['done']), run('gap.c', [13], ['moved'], opts=['--instr', '400000000'])],
        bounds='one message: 14 layouts of 5 basic types against each other, 6 layouts of (char,int,double) against each other and all 45 predefined types; counts 0..2 sent and 0..3 received; 8 ways of posting; any tag, any byte content; messages of 257, 33000 and 65537 elements with any content at 8 places; 17, 130 and 1100 items of six layouts with gaps; absolute addresses from MPI_BOTTOM; null buffers of empty messages',
        bounds_thorough='as quick with every basic type for every layout and mode, counts 0..3 and 0..4',
        outside='larger counts and layouts; the contents are symbolic bytes, so values are not sampled'),
    'P02': dict(
        runs=[run('hist.c', list(R(0, 3)) + list(R(10, 16)) + list(R(40, 45)) + list(R(30, 34)), ['finished']), long(R(30, 34))],
        bounds='histories of 6 posts (send, receive with a tag, receive with any tag; 5 when a receive with a tag is first) on one communicator, 4 on two; 2..4 sends followed or preceded by as many receives; histories of 5 operations with probes and MPI_Request_free among them; every post followed by a full observation, then a drain; any tags, any values; 300 waiting messages or receives taken in three orders',
        bounds_thorough='histories of 7 posts on one communicator, 6 on two',
        outside=HIST_OUT),
    'P03': dict(
        runs=[run('hist.c', R(20, 23), ['finished', 'freed']),
              run('life.c', R(9), {**{i: ['returned'] for i in R(9)}, 5: ['to itself', 'through pending operations']}),
              run('ign.c', R(12), ['same'])],
        bounds='histories of 5 operations (post, test, free a request, wait; 4 when a receive with a tag is first) then a drain; each blocking call after up to 3 pending operations with any tags on two communicators',
        bounds_thorough='histories of 6 operations',
        outside=HIST_OUT),
    'P04': dict(
        runs=[run('multi.c', R(6)), run('multi.c', R(6), defs=['-DN=7', '-DFEW']), long(R(24, 30))],
        bounds='up to 4 requests, each null, complete (send or receive), pending (send or receive) or with MPI_PROC_NULL; with and without statuses; any tags and values; up to 7 requests each null, complete or pending; a second call after the first; arrays of 300 requests',
        outside='more than 7 requests in other states than those of long.c'),
    'P05': dict(
        runs=[run('cnt.c', R(5), {0: ['counted', 'partial'], 1: ['counted', 'partial'], 2: ['counted'], 3: ['counted', 'partial'], 4: ['counted']}),
              run('cnt.c', [5, 7], {5: ['counted'], 7: ['counted', 'partial']}), run('multi.c', [2, 3]), long([0, 1, 2, 6])],
        bounds='every layout of the menu as sent and received type, partial last items, receive counts any int from the message length up to 2^31-1; the count seen by a probe and by the receive after it; any number of items up to 2^31-1 elements asked for in any layout; other types asked of the same status; messages of 257, 33000 and 65537 elements with any content at 8 places',
        outside='receiving (as opposed to probing) messages of more items than long.c does'),
    'P06': dict(
        runs=[run('hist.c', R(30, 35), {30: ['finished', 'probe', 'probed nothing'], 31: ['finished'], 32: ['finished'], 33: ['finished']}),
              run('cnt.c', [3], ['counted', 'partial']), run('cnt.c', [5], ['counted']), run('cnt.c', [6]), long([1, 30])],
        bounds='histories of 5 operations (send, receive, MPI_Iprobe and MPI_Probe with a tag or any tag, MPI_Request_free) with any tags; probed sizes for every layout of the menu, and of any count of it up to 2^31-1',
        bounds_thorough='histories of 6 operations',
        outside=HIST_OUT),
    'P07': dict(
        runs=[run('pnull.c', R(12), ['done'])],
        bounds='each call with MPI_PROC_NULL alone and with pending operations of any tag; any tag, any nonnegative count, several datatypes, null and non-null buffers',
        outside='none known within one call'),
    'P08': dict(
        runs=[run('hand.c', [0, 1, 2, 3, 4, 5, 9, 20, 21, 22, 23], ['used']), run('hand.c', R(30, 44), ['used']), run('hand.c', [10], opts=['--instr', '400000000'], time=400), tier('thorough', 'hand.c', R(6, 9), ['used'])],
        bounds='258 and 514 live objects of one kind and 780 of three kinds mixed, freed and remade at the edges of the table blocks; 2200 objects of each kind; 200000 requests; 14 ways of making an object, three of ending it, in every ordered pair, then 35 more of all ways',
        bounds_thorough='also 772 objects and ten edge positions',
        outside='more than a few blocks of the handle table; exhaustion of the table'),
    'P09': dict(
        runs=[run('res.c', R(24), ['balanced']), run('res.c', R(120, 125), ['freed while pending'])],
        bounds='every ordered pair of 24 kinds of balanced round, repeated 290 times; heap blocks live after every round; each derived-type constructor freed between posting and matching',
        bounds_thorough='1200 repetitions',
        outside='rounds of more than two kinds'),
    'P10': dict(
        runs=[run('ctor.c', R(19), ['observed', 'unpacked']), long(R(2, 10)), many(), run('deep.c', R(13), ['received'])],
        bounds='every constructor with counts and block lengths 0..3, displacements and strides -3..5 (in several units), one and two levels of nesting; three levels of 13 constructions; any content; types of 257 to 65537 elements made in eight ways, from up to 700 blocks; 450000 and 1050000 blocks, of which three at any displacement are not empty, within 8 MB of stack',
        bounds_thorough='wider menus for every argument, every base type, 0..3 items',
        outside='large counts in nested types; deeper nesting'),
    'P11': dict(
        runs=[run('bounds.c', R(15), ['looked']), run('predef.c', [3], ['derived']), long(R(2, 10)), run('deep.c', R(100, 113), ['bounded'])],
        bounds='displacements and strides any value within +-2^44 for one level; 256 values of every residue and beyond 2^34 in nested types; markers in every position; four levels of 13 constructions; types of 257 to 65537 elements made in eight ways, from up to 700 blocks; the widest element after 0 to 40 narrower ones',
        outside='arithmetic at the limits of MPI_Aint; deeper nesting'),
    'P12': dict(
        runs=[run('predef.c', [0], ['distinct']), run('predef.c', [1], ['sized']), run('predef.c', [2], ['moved']), run('predef.c', [3], ['derived']), run('p2p.c', [10], ['full message'])],
        bounds='all 45 predefined types; any content; structures, indexed and vector types and duplicates made of each', outside='none known'),
    'P13': dict(
        runs=[run('dup.c', R(5), ['finished']), run('dup.c', [5, 15], ['uncommitted']), run('dup.c', list(R(10, 15)), ['finished', 'empty']), run('deep.c', R(13), ['received'])],
        bounds='histories of 5 operations (create, with elements or without, duplicate, derive, commit, free) over 3 datatype variables; every live type observed after every step; three levels of 13 constructions, freed on the way',
        bounds_thorough='histories of 6 operations; four levels', outside='longer histories'),
    'P14': dict(
        runs=[run('pk.c', R(7), {0: ['packed'], 1: ['packed'], 2: ['fits'], 3: ['fits'], 4: ['sent'], 5: ['sized'], 6: ['packed']}), long([10]), run('bot.c', [4, 10], ['done']), run('gap.c', [14], ['moved'], opts=['--instr', '400000000'])],
        bounds='two items of any layouts of the menu packed in turn and unpacked with other layouts; any buffer size and any start position in the int range; any content; 257, 33000 and 65537 elements packed in two parts; 17, 130 and 1100 items of six layouts with gaps',
        outside='more than two items; counts above a few'),
    'P15': dict(
        runs=[run('big.c', R(9), ['moved'])],
        bounds='offsets of 1..6 GiB from extents, displacements, counts and strides in messages, packing and collectives; any content',
        outside='the buffers are sparse: bytes between the touched blocks are zero and checked near the ends only'),
    'P16': dict(
        runs=[run('coll.c', list(R(11)) + [60], ['copied']), long(R(11, 24)), run('bot.c', [5, 11], ['done']), run('gap.c', list(R(13)) + [15], ['moved'], opts=['--instr', '400000000'])],
        bounds='every collective, 14 layouts of a basic type on each side, counts 0..2, displacements -1..2, three communicators; any content; 257, 33000 and 65537 elements in every collective; 17, 130 and 1100 items of six layouts with gaps',
        bounds_thorough='every basic type', outside='larger counts'),
    'P17': dict(
        runs=[run('coll.c', R(20, 30), ['in place']), run('gap.c', [15], ['moved'], opts=['--instr', '400000000'])],
        bounds='every collective that takes MPI_IN_PLACE; the arguments MPI ignores take any value; 17, 130 and 1100 items of six layouts with gaps',
        outside='MPI_IN_PLACE where MPI does not allow it'),
    'P18': dict(
        runs=[run('coll.c', R(40, 49))],
        bounds='every collective, every layout pair and count pair of the menu in which the receiver expects more elements than were contributed',
        outside='larger counts'),
    'P19': dict(
        runs=[run('badarg.c', [x for x in R(30) if x != 23], ['accepted']), run('badarg.c', [23])],
        bounds='every call that takes a rank, source, destination, root or leader: any 32-bit value', outside='none known'),
    'P20': dict(
        runs=[run('grp.c', [0, 1, 2, 3, 4], {0: ['algebra'], 1: ['included'], 2: ['translated'], 4: ['groups of communicators']}), long([34])],
        bounds='expressions of 3 set operations over the world group and the empty group; any ranks and ranges; up to 4 ranks translated; 300 ranks translated',
        bounds_thorough='expressions of 4 set operations', outside='longer expressions'),
    'P21': dict(
        runs=[run('comm.c', [0, 1, 2, 3, 4, 5, 6, 8], ['delivered'])],
        bounds='histories of 4 constructions and frees (dup, split, create, cart, intercommunicators and their merge) with messages pending on every live communicator; any colors and keys',
        bounds_thorough='histories of 5', outside='longer histories'),
    'P22': dict(
        runs=[run('cart.c', [0, 1, 2], {0: ['asked'], 1: ['asked']}), long([35])],
        bounds='1..4 dimensions with any periods, duplicated, freed and made again; 0..n dimensions asked for; 300 dimensions',
        outside='more than 4 dimensions'),
    'P23': dict(
        runs=[run('p2p.c', R(11), ['full message'], defs=F), run('multi.c', R(6), defs=F),
              run('life.c', R(9), {i: ['returned'] for i in R(9) if i != 5}, defs=F), run('pnull.c', R(12), ['done'], defs=F), run('ign.c', R(12), ['same'], defs=F),
              run('cnt.c', R(5), ['counted'], defs=F), run('hist.c', [20, 22, 30, 31, 33, 41, 42], ['finished'], defs=F),
              run('badarg.c', [x for x in R(30) if x != 23], ['accepted'], defs=F), long([0, 1] + list(R(24, 34)), defs=F), run('bot.c', R(6, 10), ['done'], defs=F)],
        bounds='the bounds of the message properties, each call made through its Fortran entry point; input arguments compared before and after',
        outside='the Fortran compiler; by-descriptor arguments'),
    'P24': dict(
        runs=[run('finit.c', [0, 1, 4], {0: ['started'], 1: ['started'], 4: ['compared']}, gen='fgen'),
              run('finit.c', [2, 3], ['consistent'], defs=['-DNOGEN'])],
        bounds='each constant passed at start with any value (datatypes: any single-element predefined one); each pair of consecutive variables at any distance up to 8192; every constant of the Fortran header that the C header has; the Fortran start-up code itself, from gfortran\'s intermediate representation',
        outside='distances beyond 8192; Fortran compilers other than gfortran'),
    'P25': dict(
        runs=[run('str.c', [0, 1, 2], {0: ['named'], 1: ['error string'], 2: ['version']}),
              run('str.c', [0, 1, 2], {0: ['named'], 1: ['error string'], 2: ['version']}, defs=F)],
        bounds='any error code; host names of every length 0..300 with any characters, terminated or not, or no name at all',
        outside='none known'),
    'P26': dict(
        runs=[run('cyc.c', [0, 1, 2], {0: ['started'], 2: ['finalized']}), run('cyc.c', [0, 1, 2], {0: ['started'], 2: ['finalized']}, defs=F)],
        bounds='three ways to start, eight states of the library, any abort code, any thread level',
        outside='calls after MPI_Finalize'),
    'P27': dict(
        runs=[run('wtime.c', [0, 1, 3, 4, 21, 23, 101], ['read'], opts=['--fp'], time=300), run('wtime.c', [90, 190]),
              tier('thorough', 'wtime.c', [2] + list(R(5, 20)) + [20, 22, 24, 25, 26, 27, 123], ['read'], opts=['--fp'])],
        bounds='any second within 2^33 with 4 microsecond values; two readings: any second near 2^31, up to 1023 s apart; a failing clock',
        bounds_thorough='20 microsecond values; two readings any time within 2^33 seconds apart, 8 pairs of microseconds',
        outside='microsecond values not listed (the symbolic division is out of reach of the solvers here)'),
    'P28': dict(
        runs=[run('list.c', [0, 1, 2, 4, 5, 10, 11, 12, 13, 14], ['sequence'], optional=True), run('list.c', [0, 1, 2, 4, 5, 10, 11, 12, 13, 14], ['sequence'], lib=['-DCHECKS'], optional=True),
              long([30, 31, 32, 33]), run('hist.c', [0, 10, 30], ['finished'], lib=['-DCHECKS'])],
        bounds='histories of 5 list operations against an array, with and without the internal checks; lists of 3 to 300 items emptied in five orders; queues of 300 messages and receives, and histories of posts with the internal checks on, through the public calls',
        bounds_thorough='histories of 7', outside='longer histories'),
    'P29': dict(
        runs=[run('misc.c', [0, 1, 2, 3]), run('misc.c', [0, 1, 2, 3], defs=F)],
        bounds='any handle value for the conversions; any operand of a user operation; 300 operations alive; any info key and value of 7 characters, keys up to 254 and values up to 1023 long in 200 entries; addresses of any offset within a buffer',
        outside='none known'),
    'P30': dict(
        runs=[run('tcheck.c', [0, 1, 2, 3], ['matched'], lib=['-DTYPE_CHECKING']),
              run('p2p.c', R(8), ['full message'], lib=['-DTYPE_CHECKING']), run('pk.c', R(7), lib=['-DTYPE_CHECKING']),
              run('coll.c', list(R(11)) + list(R(20, 30)), lib=['-DTYPE_CHECKING'])],
        bounds='every pair of single-element predefined types; sequences of up to 3 elements of 3 types, 1 or 2 items, on both sides; sequences of 2 to 40 elements differing in any one place or nowhere; and the bounds of the message, packing and collective properties in this configuration',
        outside='longer sequences of mixed types'),
    'P31': dict(
        runs=[run(h, c, lib=l, **k) for l in (['-DCONFIG_FORT_REAL=16', '-DCONFIG_FORT_DOUBLE=32'], ['-DCONFIG_FORT_REAL=8', '-DCONFIG_FORT_DOUBLE=16'])
              for h, c, k in (('predef.c', [0, 1, 2, 3], {}), ('p2p.c', [10], {}), ('p2p.c', [10], dict(defs=F)), ('dup.c', [0], {}), ('finit.c', [2, 3], dict(defs=['-DNOGEN'])))],
        bounds='the two non-default configurations 16/32 and 8/16: all predefined types, one message of each, start-up with any wrong constant or size',
        outside='other sizes'),
    'P32': dict(
        runs=[run('ctor.c', R(19), ['observed', 'unpacked'], defs=F), run('bounds.c', R(14), ['looked'], defs=F),
              run('predef.c', [0, 1, 2, 3], defs=F), run('dup.c', R(5), ['finished'], defs=F), run('dup.c', [5], ['uncommitted'], defs=F),
              run('pk.c', R(7), defs=F), run('big.c', R(9), ['moved'], defs=F), run('misc.c', [3], ['addresses'], defs=F), long(R(2, 11), defs=F), many(defs=F), run('bot.c', [10], ['done'], defs=F), run('deep.c', R(13), ['received'], defs=F)],
        bounds='the bounds of the datatype and packing properties, each call made through its Fortran entry point',
        outside='the Fortran compiler'),
    'P33': dict(
        runs=[run('coll.c', list(R(11)) + [60], ['copied'], defs=F), run('coll.c', R(20, 30), ['in place'], defs=F), run('coll.c', R(40, 49), defs=F),
              run('grp.c', [0, 1, 2, 3, 4], defs=F), run('cart.c', [0, 1, 2], defs=F), run('comm.c', [3], ['delivered'], defs=F),
              tier('thorough', 'comm.c', [0, 1, 2, 4, 6], ['delivered'], defs=F), run('res.c', R(120, 125), ['freed while pending'], defs=F),
              tier('thorough', 'hand.c', [0, 1, 2], ['used'], defs=F), long(list(R(11, 24)) + [34, 35], defs=F), run('bot.c', [11], ['done'], defs=F)],
        bounds='the bounds of the collective, group, communicator and topology properties (2 set operations; histories starting with one kind of construction), each call made through its Fortran entry point',
        outside='the Fortran compiler'),
    'P34': dict(
        runs=[run('mix.c', R(16), ['mixed']), run('mix.c', R(16), ['mixed'], defs=F)],
        bounds='a standing state of 4 requests (pending send, pending receive, complete, null process), 4 communicators, 3 datatypes, a group, an operation and a status, with any tags and contents; every ordered pair of 64 kinds of call on it, followed by one of two others, and each kind repeated 280 times with another in between, in C and through the Fortran entry points; everything observed before, between and after',
        bounds_thorough='eight third calls, 1100 repetitions',
        outside='longer sequences; other standing states'),
    'P35': dict(
        runs=[run(h, c, cov, lib=['-DINFO', '-DTEST_INTERNAL'], must_build=True, **k)
              for h, c, cov, k in (('hist.c', [0, 10, 20, 22, 30, 31, 33], [], {}), ('life.c', R(9), {i: ['returned'] for i in R(9) if i != 5}, {}), ('multi.c', R(3), [], {}), ('pnull.c', R(12), ['done'], {}),
                                   ('comm.c', [0, 2, 3, 4], ['delivered'], {}), ('cnt.c', [3, 5], [], {}), ('res.c', [0, 7, 20, 120], [], {}),
                                   ('mix.c', [0, 4, 8, 12], ['mixed'], {}), ('mix.c', [2, 10], ['mixed'], dict(defs=F)))],
        bounds='with --enable-info and --enable-test-internal: the histories of posts, tests, frees and probes (some of the first operations), the calls with pending operations, completion of several requests, the null process, communicator histories, and some standing states of P34, each with the bounds of its own property',
        outside='the rest of the histories; what is printed'),
    'P36': dict(
        runs=[run(h, c, cov, lib=['-UHAVE_CONFIG_H', '-D' + m], must_build=True, **k) for m in ('FORTRAN_CAPS_', 'FORTRAN_GNUF2C', 'FORTRAN_SAME')
              for h, c, cov, k in (('names.c', [0], ['named'], {}), ('finit.c', [2, 3], [], dict(defs=['-DNOGEN'])), ('ctor.c', [0, 1, 2], ['observed'], dict(defs=F)),
                                   ('mix.c', [2], ['mixed'], dict(defs=F)), ('coll.c', [0, 5, 20, 21], [], dict(defs=F)), ('grp.c', [0], [], dict(defs=F)),
                                   ('comm.c', [3], ['delivered'], dict(defs=F)), ('misc.c', R(4), [], dict(defs=F)), ('str.c', [0, 1, 2], [], dict(defs=F)),
                                   ('cyc.c', [0], [], dict(defs=F)), ('multi.c', R(6), [], dict(defs=F)), ('p2p.c', [10], [], dict(defs=F)), ('pnull.c', [0], [], dict(defs=F)))],
        bounds='the three other Fortran namings (upper case, unchanged, two underscores): every pair of the 88 entry points, and some cases of the Fortran message, datatype, collective, group, communicator and start-up properties, each with the bounds of its own property',
        outside='the remaining cases of those properties in these configurations; the Fortran compiler'),
}
