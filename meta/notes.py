DESIGN = {}
DESIGN['C01'] = '''**From:** arbitrary handles (empty, same block, different blocks; share count a symbol below 2^31). **Oracle:** counting:
after each operation the count of each block has changed by the change in the number of handles that refer to it; the
payload goes exactly when it reaches zero. **Bounds:** none on histories (induction); one operation at a time. **Cost:** 2 s.
**Beyond tests:** share counts and aliasing patterns are universally quantified.'''

DESIGN['C02'] = '''**Obligation:** each access of an operation to the count cell of an existing block is an atomic read-modify-write, and
destruction is decided by the value this operation returned. Holds for all schedules because none is enumerated. **Cost:** 2 s.'''

DESIGN['C03'] = '''All orders of value, error, registration, chaining on one promise and its chained promise; callbacks are unknown
functions that may return or throw. **Oracle:** a contract automaton of deliveries. **Bounds:** each handler registered once,
up to four operations on a promise. **Cost:** 11 s.'''

DESIGN['C04'] = '''Lock set on every load and store of the promise object between the end of its construction and the start of its
destruction; lock balance at every normal and exceptional exit. **Cost:** 6 s.'''

DESIGN['C05'] = '''Monitor discipline; the state is havocked at each acquisition and wake-up, so the number of other threads and their
schedules are not bounded. Clock values are symbols, so "gives up only after the time asked for" is an inequality between
terms. **Cost:** 2 s.'''

DESIGN['C06'] = '''Typestate of the thread entry (as handed to the thread library) and the owner's operations, the loop returning any
status or throwing anything, the stop flag changing at each read. **Cost:** 3 s.'''

DESIGN['C07'] = '''Operations are issued and completed in every order; the loop is its contract. Results, lengths and positions are
symbols. **Bounds:** three outstanding reads (four in the thorough tier), mixes of two or three operations; the order of
delivery of more follows from the parking structure but is not enumerated. **Cost:** 10 s.'''

DESIGN['C08'] = '''Each fallible call site is forked into success and failure with a symbolic number; a failing path has to raise that
number. The error object is analysed for every way to build and copy it. **Cost:** 3 s.'''

DESIGN['C09'] = '''Arguments are split at the limits of the result type; the facts of each path decide whether it may return. **Cost:** 2 s.'''

DESIGN['C10'] = '''Reader: every operation, width 0..32, bit offset 0..7, from every kind of buffer state of C11's invariant; the result
as bits over symbolic stream bytes. Writer: the memory after against the memory before, bit for bit. **Bounds:** page size
and positions symbolic (pages of at least 5 bytes). **Cost:** 21 s on 8 cores.'''

DESIGN['C11'] = '''An inductive invariant over the reader's buffers, checked for construction and for every operation, whether it returns
or raises, with every behaviour of the storage (now, later, short, end). Loops are cut by the invariant itself.
**Cost:** 95 s on 8 cores.'''

DESIGN['C12'] = '''Inductive invariant of the buffer, four instantiations. Sizes, contents, arguments are symbols; allocation fails or not.
**Cost:** 2 s.'''

DESIGN['C17'] = '''Tables are evaluated from their own source (constants), look-ups recognised as linear maps over GF(2), loops cut by
an inferred invariant, each segment compared with the definition of the remainder. **Cost:** 38 s.'''

DESIGN['C18'] = '''Loops cut, phase = number of bits pending; each segment compared bit for bit. Alphabets evaluated for all 256 values.
**Cost:** 1 s.'''

DESIGN['C13'] = '''Inductive invariant of the string over the buffer of C12; texts are symbolic, strstr and the like answer at a symbolic place. **Cost:** 6 s.'''
DESIGN['C14'] = '''The splitter over the strings of C13; a search answers with a symbolic place behind the one before, or nothing. **Cost:** 30 s.'''
DESIGN['C15'] = '''`console_command` interpreted; the strings of C13, `std::map` and `std::vector` are contracts, an unknown set of commands is
materialised as it is looked at. One arbitrary argument in an arbitrary state stands for all. **Cost:** 4 s.'''
DESIGN['C16'] = '''Each operation of both queues from each shape a queue can have (none, one, a row, around the end), one round of every
loop from every state. Putting sees growing as a contract (everything in larger memory, refused, one dropped, raised), growing sees
putting as one: each is decided on its own. **Cost:** 6 s.'''
DESIGN['C19'] = '''Arithmetic compared in the canonical form of truncating quotients, texts as pieces, the C library uninterpreted. **Cost:** 4 s.'''

DESIGN['C20'] = '''Each operation of each storage from every state that satisfies its invariant (position, capacity and content are
symbols), the invariant established by the constructor and preserved. `fread`, `fwrite`, `fseek`, `ftell`, `fflush`, `ferror`
and the uv file are contracts with every result. **Cost:** 3 s.'''


DESIGN['C21'] = '''The copy runs against a storage contract whose answers come at once, later, or never (it raises). Between any two
steps of the copying thread the environment may deliver. **Oracle:** the requests partition the range, what is written is
what was delivered, the lifetime of the copy's state covers every callback. **Bounds:** three pieces of symbolic length (14 of
constant length), two preemptions (three in the thorough tier). **Cost:** 16 s on 8 cores.'''

DESIGN['C22'] = '''Interpreted with handlers that only record. The letter is every byte in turn, for each option of each shape of a line up to
the bound; texts of values stay unknown, so that what is handed over can only be decided by place. **Cost:** 4 s.'''

DESIGN['C23'] = '''Starts and ends are symbols; each order of the comparisons made by the code and by `std::sort`, `std::min_element` or
whatever else it uses is a path, on which the joined times are compared as linear terms. **Bounds:** three streams (four in the thorough tier).
**Cost:** 10 s (thorough 60 s).'''

DESIGN['C24'] = '''`H264Nal` is interpreted with a unit of any size whose bytes are symbols; the loop is cut by an inferred invariant, and each
piece between two cuts has to take and give bytes as the reference does. **Oracle:** 7.3.1 of ISO/IEC 14496-10: 00 00 03 gives 00 00, any other byte
itself; a trailing 03 that follows no two zeros is data. **Bounds:** units of 1 to 2^28 - 1 bytes. It found that the last byte was dropped when
it was 3 (67 42 03 gave two bytes), repaired. **Cost:** 3 s.'''
DESIGN['C25'] = '''The classes made by the flavor compiler are translated from `mpeg2ts.fl` on every run, so that the order and width of the
fields are those of the current file. **Oracle:** a reader of ISO/IEC 13818-1 packets over the bits written, the payload being compared byte by byte
with the symbolic bytes of the buffer. **Bounds:** none on the length (K * 184 + R, K symbolic, each R in turn); one pid. Tables (PAT, PMT) are C26's.
**Cost:** 60 s on 8 cores.'''
DESIGN['C26'] = '''`CTSWrite` and the memory stream its sections are built in are interpreted for lists of 0 to 40, 64, 72, 80, 128 and 202 streams
(thorough: each number up to 202, the most a section can hold), with symbolic types, pids, clock pid and counter. **Oracle:** a reader of ISO/IEC 13818-1 program tables over the bits
written; `crc_32` (C17) is replaced by a symbol that remembers the bytes it was given, which have to be those before it. **Bounds:** the numbers
of streams above; one program. **Cost:** 15 s, thorough 2 minutes.'''
