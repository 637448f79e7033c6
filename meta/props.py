PROPS = []


def P(id, title, statement, over, q, tests, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, over=over, q=q, tests=tests, files=files, mech=mech)
    d.update(kw)
    PROPS.append(d)


AI = 'abstract interpretation of the LLVM IR of every entry point (path-sensitive, loops widened), no execution'

P('C01', 'A shared resource is destroyed exactly once, with its last handle',
  '''A resource given to a counting handle stays alive as long as any handle refers to it and is destroyed (or handed to
  its clean-up function) exactly once, when the last one stops referring to it. Copying, assigning (also to itself),
  comparing, dereferencing and destroying handles, empty or not, never frees it early, frees it twice, leaks it or
  leaves the share count wrong. Using an empty handle to reach the resource raises an error instead of dereferencing
  nothing.''',
  ['histories', 'inputs'], 'every operation on handles from every consistent configuration of handles and any share count',
  'The tests build a few handles and check a counter; they never assign a handle to itself or drive a share count they did not build step by step.',
  ['src/mg/cresource.h'],
  [('shared block with the pointer, the share count and the clean-up function', 'src/mg/cresource.h CInternalResource'),
   ('attach/detach on construction, copy, assignment, destruction', 'src/mg/cresource.h CResource')],
  state=[('share count', 'number of handles that refer to the block', 'CInternalResource')],
  technique='inductive per-operation abstract interpretation with an ownership/typestate heap domain',
  level='proof',
  note='''Every operation is interpreted from an arbitrary consistent state (share count symbolic), so histories of any
  length are covered by induction over operations; trusts the abstract interpreter and its C++ runtime models.''')

P('C02', 'Share counts of resource handles are safe to update from several threads',
  '''Two threads may copy, assign and drop their own handles to the same resource at the same time: no update of the share
  count is lost and exactly one of them sees it reach zero.''',
  ['schedules'], 'every interleaving of handle operations of two or more threads',
  'No test shares a handle between threads, and a lost update needs an interleaving of single instructions.',
  ['src/mg/cresource.h'], [('atomic share count', 'src/mg/cresource.h CInternalResource')],
  technique='effect analysis of every access to the count cell on all abstract paths', level='proof',
  note='''Every access to the count of an existing block must be an atomic read-modify-write whose own result decides the
  destruction; sound for all schedules because it does not enumerate any.''')

P('C03', 'A promise delivers one outcome to the matching handler, whatever the order',
  '''Whatever the order in which a promise gets its value or error and its handlers are registered or chained, the success
  handler runs at most once and only with the promised value, the error handler runs at most once and only with the
  promised error or with what a success handler threw, and a chained promise then gets the value produced or the error
  raised upstream. An outcome that arrived before its handler is not lost.''',
  ['histories', 'schedules'], 'every order of value, error, registration and chaining; handlers that return or throw',
  'The tests register handlers first and use one order per case; no test chains after completion or throws from each handler.',
  ['src/mg/promises.h'], [('stored value or error delivered on late registration', 'src/mg/promises.h promise::then/set_*'),
                          ('chaining by nested promise', 'src/mg/promises.h')],
  technique='abstract interpretation of all operation orders against a delivery contract', level='proof',
  note='''All orders of up to four operations per promise (the operations commute beyond that) with unknown handler
  behaviour; contract written from the documented meaning, not from the code.''')

P('C04', 'Promise state is only touched under its lock, and every lock is released',
  '''From the end of its construction, every read and write of the state of a promise happens while its own lock is held,
  and every operation, also one that ends because a handler threw, leaves the lock exactly as it found it.''',
  ['schedules', 'histories'], 'every interleaving of two threads using the same promise; handlers that return or throw',
  'A data race or a lock left behind by an exception shows only under a particular schedule, which the tests do not force.',
  ['src/mg/promises.h', 'src/mg/core/thread.h', 'src/mg/core/thread.cpp'],
  [('scoped lock in each operation', 'src/mg/promises.h auto_lock'), ('recursive lock', 'src/mg/core/thread.cpp')],
  technique='lock-set analysis over all abstract paths', level='proof',
  note='Every access to the promise object is checked for the lock and every exit for lock balance; trusts the mutex itself.')

P('C05', 'A signalled event is seen by every waiter, and only a signalled one',
  '''After an event is signalled every thread waiting for it, or starting to wait before it is reset, stops waiting; no
  wake-up is lost. A wait returns, and a timed wait or a query reports success, only if the event was signalled; a timed
  wait gives up only after the time asked for has passed, however often it wakes early. Every use of the event's state
  is synchronised and leaves its lock free.''',
  ['schedules', 'inputs'], 'every interleaving of signal, reset and (timed) wait by any number of threads, spurious wake-ups included',
  'Lost and spurious wake-ups need a particular interleaving of a few instructions; the tests wait for one event in one thread.',
  ['src/mg/core/thread.cpp', 'src/mg/core/thread.h'],
  [('state, mutex and condition variable of the event', 'src/mg/core/thread.cpp signal_event')],
  state=[('signalled flag', 'the event was signalled and not reset since', 'signal_event')],
  technique='monitor-discipline analysis (lock set, dominating observation, broadcast under lock) of all abstract paths', level='proof',
  note='''Rely/guarantee: the state is arbitrary after each acquisition of the lock and each wake-up, so all interleavings
  and any number of threads are covered; trusts mutex and condition variable.''')

P('C06', 'The loop thread runs callbacks in isolation and hands its failures to the owner',
  '''The event loop of a loop thread runs only while the (recursive) loop lock is held, and the thread does not hold it while
  it waits for work. What a callback throws never leaves the thread unhandled: it is kept, and the owner gets it, once,
  after it has joined the thread, which happens exactly once if the thread was started and never otherwise. The thread
  ends only after it was stopped, then does end, drains the loop first and signals its end; what it shares with other
  threads is synchronised.''',
  ['schedules', 'histories', 'fault_sequences'],
  'every status and exception of the loop, stop requested at any time, each order of start, stop, end, join and destruction',
  'The tests run a loop thread once to completion; they do not stop it at other times, throw in it from each place or drop it unstarted.',
  ['src/mg/core/uvbase.h', 'src/mg/core/uvbase.cpp', 'src/mg/core/thread.h', 'src/mg/core/thread.cpp'],
  [('loop thread body', 'src/mg/core/uvbase.cpp uvloopthread::run'), ('owner side', 'src/mg/core/uvbase.h uvloopthread::end'),
   ('thread start and join', 'src/mg/core/thread.cpp cthread')],
  technique='typestate and lock-set analysis over all abstract paths of the thread entry and the owner-side operations', level='proof',
  note='''Every path of the thread body with the loop returning any status or throwing and the stop flag changing at any
  read; trusts libuv and the event of C05.''')

P('C07', 'Every file operation completes exactly once, with its own result',
  '''Each asynchronous operation on a file (open, read, write, close) that was accepted runs its handler exactly once with
  the data, length or error of that very operation, in whatever order the event loop finishes them, and reads are
  delivered in the order they were issued; a rejected one raises its error, and a short write counts as an error. An
  operation uses the position and bytes current when it was issued, its memory lives until it is done, and everything it
  allocated is released exactly once. Closing or destroying a file first waits for what is outstanding, without keeping
  the loop from finishing it, and closes an open file exactly once.''',
  ['schedules', 'histories', 'fault_sequences'],
  'every order of completion and every result of up to four outstanding operations, rejected submissions, closing at any time',
  'The thread pool nearly always finishes requests in order, so the tests never see the reordering, failure and late-completion paths.',
  ['src/mg/core/file.h', 'src/mg/core/file.cpp', 'src/mg/promises.h'],
  [('completion callback and reordering of reads', 'src/mg/core/file.cpp cfile::uv_file_cb'),
   ('issued and served counters', 'src/mg/core/file.h cfile::do_outstanding')],
  state=[('parked reads', 'completed reads waiting for an earlier one', 'cfile::_unordered_buffer')],
  technique='protocol (typestate) analysis of issue and completion in every order by abstract interpretation, with ownership and lock-set rules',
  level='proof',
  note='''Results, lengths and positions are symbolic; orders are exhaustive for three reads (four in the thorough tier) and for
  mixes of two or three reads and writes; trusts the loop's contract of one callback per accepted request.''')

P('C08', 'No failure of the system is ignored, and each keeps its error number',
  '''When a call of the library into the event loop, thread, lock or file primitives fails, the operation that made it raises
  an error; for the event loop and thread primitives it carries that very error number, however the error object is built
  or copied. Success is never turned into an error, and the answers "lock busy", "timed out", "not there yet" (when the
  file is to be created) and "directory already there" are not treated as failures.''',
  ['fault_sequences'], 'every failing call with every error number, at every call site of the core library',
  'The tests make almost no primitive fail; a failing thread, lock or loop primitive cannot be provoked from a test.',
  ['src/mg/core/uvbase.h', 'src/mg/core/thread.cpp', 'src/mg/core/file.cpp', 'src/mg/core/file.h', 'src/mg/core/nx/util.cpp', 'src/mg/exception.h'],
  [('error check raising the number', 'src/mg/core/uvbase.h UVCHECK, src/mg/exception.h MGCHECK'), ('error object', 'src/mg/exception.h mgexception')],
  technique='error-flow analysis of every fallible call site on all abstract paths', level='proof',
  note='''Every fallible call of every operation is forked into success and failure with a symbolic error number; a path that
  ends normally, or raises another number, is a violation.''')

P('C10', 'The bit stream reads and writes exactly the bits asked for',
  '''Reading n bits (0 to 32) at any position returns exactly the next n bits of the underlying bytes, most significant
  first (sign extended or little endian where asked for), and moves by n; probing does not move; the end of the data is
  raised exactly when fewer than n bits are left. Writing n bits changes exactly these bits of the output, and flushing
  hands the whole bytes written to the storage, in order, once. Reading and writing never touch memory outside the buffers.''',
  ['inputs', 'histories'], 'every bit offset, every width, any position, contents and buffer state',
  'The tests use a few offsets and widths far from the end of the data and of the buffer.',
  ['src/mg/core/bitstream.h'],
  [('reading', 'src/mg/core/bitstream.h bitstream_base::_nextbits'), ('writing', 'src/mg/core/bitstream.h bitstream_base::_putbits'),
   ('flushing', 'src/mg/core/bitstream.h bitstream_base::_flush_buf')],
  state=[('bit position', 'bits of the stream before the next one', 'bitstream_base::_tot_bits')],
  technique='abstract interpretation with a bit-level (GF(2) and conjunctions) value domain over symbolic stream bytes', level='proof',
  note='''Each operation from an arbitrary buffer state satisfying the invariant proved inductive by C11; offsets and widths
  enumerated, everything else symbolic.''')


P('C11', 'Buffering of the bit stream reader never loses, repeats or invents data',
  '''Whatever mix of reading, probing, skipping, aligning, seeking, byte reads and end tests is used, the reader's position
  is the sum of what was consumed, and its buffers hold exactly the bytes of the storage at that position, whether the
  storage delivers at once, later, in short pieces or ends. Skips, seeks, byte reads and the end-of-data answers are
  exact. The reader never waits for data it did not request, never touches what a read on its way uses, and stays inside its buffers.''',
  ['inputs', 'histories', 'schedules'], 'every history of operations, every position, length and page size, every delivery of the storage',
  'The tests read small files sequentially; buffer switches at odd positions with a late or short delivery are not sampled.',
  ['src/mg/core/bitstream.h'],
  [('filling and switching the buffers', 'src/mg/core/bitstream.h bitstream_base::fill_buf'), ('delivery', 'src/mg/core/bitstream.h bitstream_base::set_size'),
   ('skipping', 'src/mg/core/bitstream.h bitstream_base::_skipbits'), ('byte reads', 'src/mg/core/bitstream.h bitstream_base::_read')],
  state=[('buffers', 'stream bytes around the position', 'bitstream_base::_buf, _shadow')],
  technique='inductive invariant (dataflow over an abstract reader state) checked by abstract interpretation, loops cut by the invariant', level='proof',
  note='''Invariant checked after construction and after every operation from every invariant state; pages of at least 5 bytes,
  symbolic otherwise; one user thread plus the storage's completion.''')


P('C15', 'Every argument of a command line reaches its command with the value written',
  '''Every argument that begins with one or two minus signs gives exactly one value to exactly one command: the declared one of that name, else for a one-letter name the one with that shortcut, else a new one that is neither needed nor has a shortcut.
  The value is the text behind the first separator, colon or equals sign, whichever comes first; without one it is empty, or reads as true for a switch; nothing of one argument is left over for the next.
  Reading succeeds exactly if every needed command has a value, a missing one is named, values and help are those of the commands declared, and a name cannot be declared twice.''',
  ['inputs', 'histories'], 'every command line (texts below 2^30 bytes) and every set of declared commands; values read exist',
  'The tests read one command line of two commands; names without values, both separators, shortcuts, repeated commands and values carried over between arguments never occur.',
  ['src/mg/cmdline.h'],
  [('reading', 'src/mg/cmdline.h console_command::process'), ('declaring', 'src/mg/cmdline.h console_command::add'), ('values', 'src/mg/cmdline.h console_command::get_value, set_value, command_specified')],
  technique='abstract interpretation with the set of commands and the strings as contracts; the loop over the arguments cut by an inductive invariant', level='other',
  note='''At most three commands are met while going through the set (the loops treat each alike); the arguments themselves are unbounded.''')
P('C16', 'Queued items come out complete, in order, and only policy drops them',
  '''What is put in a fixed or growing queue is the item and the bytes given, behind the last item, in memory that no other item uses; what is looked at or taken is the first item, and taking or deleting it leaves all others as they were.
  An item is refused only if there is no room (the growing queue: no memory), in the way asked for, and changes nothing; an item is removed to make room only if there is none and the policy says so, the first one first; growing moves every item in its order and releases the memory from before.
  Nothing outside the queue's memory is touched, the memory is used under the lock (looking apart), the lock is left on every path, and the memory is released once.''',
  ['inputs', 'histories', 'faults'], 'every state of a queue, every item and length, every policy, memory failing at every point; memory below 2^30 bytes',
  'No test uses the queues; wrapped queues, items that fit to the byte, counters that overflow and memory that is missing need long histories.',
  ['src/mg/media/fixed_queue.h', 'src/mg/media/media_queue.h'],
  [('putting', 'src/mg/media/fixed_queue.h cfixed_queue::push'), ('taking', 'src/mg/media/fixed_queue.h cfixed_queue::pop, delete_item, pick_next, clear'), ('growing', 'src/mg/media/media_queue.h grow_queue::no_space')],
  technique='abstract interpretation from every state of the queue, the loops cut by inferred inductive invariants; growing and putting decided against each other as contracts', level='proof',
  note='''The states are an inductive invariant: items in a row or around the end of the memory; sizes, places and counts are symbols. That a loop ends is not decided.''')
P('C17', 'The checksum of sections is the CRC-32 of exactly their bytes',
  '''For every content, length, alignment and start value the checksum returned is the remainder of exactly the given
  bytes under the polynomial 0x04C11DB7, most significant bit first (CRC-32/MPEG-2); each byte is read once, in order,
  and nothing outside the buffer is touched. The answer does not depend on whether the tables were built before.''',
  ['inputs'], 'every content, length, alignment and start value',
  'Tests compare a few packets; a wrong table entry or a wrong tail of unaligned data needs the right byte values to show.',
  ['src/mg/media/wincrc.cpp'],
  [('checksum', 'src/mg/media/wincrc.cpp av_crc'), ('tables', 'src/mg/media/wincrc.cpp av_crc_init')],
  technique='dataflow over GF(2): table look-ups recognised as linear maps, loops cut by an inferred invariant (Houdini)', level='proof',
  note='''Table construction is evaluated as constants; lengths, contents, alignment and start value are symbolic.
  Concurrent first use is out of scope.''')

P('C19', 'Times and durations are exact and their text names the same instant',
  '''A time of now holds the clock's instant and the calendar fields of its zone; distances between two times are the exact
  difference in the unit asked for (towards zero), and the elapsed clock is that distance; a time given by text or by date has the fields given.
  The text of a time is its date, time, three digits of milliseconds and the zone (Z, or sign, two digits of hours and of minutes);
  a duration is the sum of its parts, gives the same parts back and is written as hours:minutes:seconds.milliseconds.''',
  ['inputs'], 'every instant within 29000 years of 1970, every offset below a day, every duration below 2^62 units of 100 ns',
  'The tests look at times of today only and compare one or two texts; signs, zero padding, years before 1970 and rounding never occur.',
  ['src/mg/core/nx/ctime.cpp', 'src/mg/media/hnano.h'],
  [('distances', 'src/mg/core/nx/ctime.cpp Seconds/Minutes/Hours/Days/TotalHNano'), ('text', 'src/mg/core/nx/ctime.cpp ToXml'),
   ('durations', 'src/mg/media/hnano.h HundredNano, hns')],
  technique='path-sensitive abstract interpretation with a canonical form of truncating quotients; strings as sequences of pieces', level='proof',
  note='''The C library calendar and clock are uninterpreted. The offset of the local zone is the one in force now, as documented
  by the code, not the one of the instant. That strings store what they are given is not decided here.''')

P('C12', 'The growable buffer keeps what was committed and never leaves its storage',
  '''Adding to the growable buffer appends exactly the elements given (also when they come from the buffer itself), grows
  the storage when needed, and keeps every element committed before; reading returns exactly the committed elements that
  are there; going back, clearing and writing one element change nothing else. No operation leaves the storage, loses or
  frees it twice, and a failed allocation leaves the buffer as it was.''',
  ['inputs', 'histories'], 'every buffer state (size, position, growth step, contents), every argument, allocation failures',
  'The tests add a few strings to one buffer; they never combine growth with self-insertion, failed allocation or other element sizes.',
  ['src/mg/cbuffer.h'], [('growth', 'src/mg/cbuffer.h CBuffer::growth/prepare'), ('position and size', 'src/mg/cbuffer.h CBuffer'),
                         ('going back', 'src/mg/cbuffer.h ResetBuffer')],
  technique='inductive per-operation abstract interpretation with symbolic memory contents', level='proof',
  note='''Four instantiations (element sizes 1, 4, 12; 64- and 32-bit sizes), symbolic sizes below 2^40 (2^30) elements;
  documented preconditions (position + n <= size for a commit, index < size) are assumed.''')

P('C18', 'Base64 text is the standard one and decodes to the bytes encoded',
  '''For every bytes and every split into blocks the encoder writes exactly the standard base64 text of all bytes (alphabet,
  padding at the end of the text), and the decoder gives back exactly the bytes of the characters of the alphabet, in order,
  skipping every other character. Both report the number of characters they wrote, write nothing else and read each byte given once.''',
  ['inputs'], 'every content, length and split into blocks, every character value',
  'Tests encode one or two short texts in one block; the state carried between blocks and characters outside the alphabet are not sampled.',
  ['src/b64/src/cencode.cpp', 'src/b64/src/cdecode.cpp'],
  [('encoding', 'src/b64/src/cencode.cpp base64_encode_block, base64_encode_blockend'), ('decoding', 'src/b64/src/cdecode.cpp base64_decode_block'),
   ('alphabets', 'base64_encode_value, base64_decode_value')],
  technique='loops cut by an inferred invariant (Houdini) whose phase is the bits pending; bit-level terms; alphabets evaluated over all values', level='proof',
  note='''The decoder is assumed to have room for one byte more than it decodes, as its interface needs.''')

P('C20', 'A storage delivers and stores exactly the bytes at its position',
  '''Reading a storage delivers, once, exactly the bytes at its position, as many as asked for or as there are until the end,
  and moves the position behind them; writing stores exactly the bytes given at the position and changes nothing else.
  The end is reported when no byte is left, moving the position goes to exactly that place (also beyond 4 GiB), and a failing file raises its error instead of delivering less.''',
  ['inputs', 'histories', 'faults'], 'every position, length, content and state of each storage; every result of the C library',
  'Tests read small files front to back; positions beyond the end or beyond 4 GiB, interleaved reads and writes, short writes and failing devices never occur.',
  ['src/mg/media/TBitstream.h', 'src/mg/core/file.h', 'src/mg/core/file.cpp'],
  [('memory', 'src/mg/media/TBitstream.h fixed_memory_read, fixed_memory_write'), ('stdio file', 'src/mg/core/file.h sync_file_bitstream'),
   ('uv file as a storage', 'src/mg/core/file.h file_bitstream')],
  technique='inductive per-operation abstract interpretation from every state; the C library files as contracts', level='proof',
  note='''Clients of the memory stream do not write from inside a completion. What the uv file does with a request is C07.''')

P('C09', 'Conversions between number types keep the number or raise an overflow',
  '''Converting a length, position or time to another number type gives the same number when the other type can hold it
  (for floating point the nearest one, or the whole part), and raises the overflow error otherwise: never a truncated,
  wrapped or undefined number, also not for negative numbers, infinity and what is no number.''',
  ['inputs'], 'every argument of every conversion function',
  'The tests convert small sizes; the limits of the types are never reached.',
  ['src/mg/core/core.h'], [('conversions', 'src/mg/core/core.h U64_DBL, DBL_U64, U64_i64, U64_U32, ST_i32, ST_u32, is_u32')],
  technique='path-sensitive abstract interpretation over intervals: the facts of a path against the range of the type', level='proof',
  note='''64-bit builds. is_u32 accepts 0..INT32_MAX, as its assertion says. Places that convert without these functions are not covered here.''')

P('C21', 'Copying a stream writes exactly the bytes asked for, and ends after the last one',
  '''copy_stream requests the bytes from the start to the limit (or the end of the source) once each, in pieces of at most a chunk,
  and writes what is delivered once, unchanged and in order, with one flush at the end.
  Whether the storages answer at once or later, from another thread, in any order, it neither returns nor raises before
  nothing is on its way and nothing uses its state, and it never waits for something that cannot come.''',
  ['inputs', 'schedules', 'faults'], 'every start, limit, length and chunk; every order of answers; every place at which a storage raises',
  'Tests copy one file with one chunk size; the interleavings of deliveries with the copying thread, limits inside a chunk and failing storages never occur.',
  ['src/mg/core/bitstream.cpp'], [('copy', 'src/mg/core/bitstream.cpp copy_stream'), ('callbacks', 'src/mg/core/bitstream.cpp _ccopy_stream')],
  technique='abstract interpretation of all interleavings with a non-deterministic environment; lock sets', level='other',
  note='''Positions, lengths and chunks are symbols, but the number of pieces is bounded (three symbolic pieces, 14 constant ones) and so is the
  number of preemptions (two, more in the thorough tier; completions during a wait are not counted). Storages are contracts (C20, C07).''')

P('C13', 'A string operation gives exactly the text it stands for',
  '''Every string operation (assigning, adding text, numbers, formatted text and hex, comparing, searching both ways, sub strings, cloning, converting to numbers)
  gives exactly the text, position, order or number it stands for, also for texts that are memory of the string itself.
  It changes no other string than those sharing its buffer by assignment, leaves the texts given unchanged, and reads and writes only inside the texts and the buffer.''',
  ['inputs', 'histories', 'faults'], 'every content, length and capacity of the string; every text, number and position given; aliasing and sharing',
  'The tests build a few short strings; empty strings, full buffers, positions behind the end, texts inside the string and shared buffers never occur.',
  ['src/mg/alxstring.h', 'src/mg/cbuffer.h', 'src/mg/core/nx/util.cpp'],
  [('strings', 'src/mg/alxstring.h CstringT'), ('text of the C library', 'src/mg/core/nx/util.cpp')],
  technique='inductive per-operation abstract interpretation from every string; the C library as contracts', level='proof',
  note='''Strings of char below 2^30 bytes. Hex conversion is decided for 0 to 3 bytes of every value, searching backwards for up to three occurrences.
  Numbers read from a text are assumed to fit their type; formatted text is what vsnprintf makes of the arguments given.''')

P('C14', 'Splitting gives the text between the separators, replacing changes only them',
  '''Splitting a text by a separator gives, in order, the text before, between and behind its occurrences, one field more than there are occurrences, and ends also for an empty separator;
  each field is a text of its own, and splitting again gives the fields of the new text only. Replacing gives the text with every occurrence, and nothing else, replaced.
  The texts given are not changed and can go afterwards.''',
  ['inputs', 'histories'], 'every text, separator and replacement; repeated use of one splitter',
  'The tests split a few texts once; empty fields, separators at the ends, empty separators and a second split never occur.',
  ['src/mg/splitter.h', 'src/mg/alxstring.h'],
  [('splitting', 'src/mg/splitter.h Csplitter'), ('replacing', 'src/mg/splitter.h replace')],
  technique='abstract interpretation over symbolic texts; the occurrences found are a symbolic sequence', level='other',
  note='''At most three occurrences (two when replacing), one more in the thorough tier: the loops treat each alike.''')

P('C22', 'Each option letter reaches its own handler once, with exactly its own values',
  '''For every command line each argument beginning with a minus sign or slash calls the handler of its letter, upper or lower case alike, exactly once and in the order written; it is given the number and the place of the values up to the next option, and no values (a null pointer) when there are none.
  A question mark asks for the usage and is remembered, a letter without a handler reaches the default handler and is told, a sign alone reaches none, and a line without arguments shows the usage.
  Values before the first option and options of earlier lines reach no handler.''',
  ['inputs'], 'every letter and every order of options and values up to four arguments (five in the thorough tier)',
  'No test reads option letters; lone signs, empty values, options without values behind others with some, and each of the letters need their own line.',
  ['src/mg/cmdline.h'],
  [('reading', 'src/mg/cmdline.h Cmdline::process'), ('handlers', 'src/mg/cmdline.h Cmdline::Dispatch')],
  technique='abstract interpretation of every shape of a command line with recording handlers', level='other',
  note='''Each letter is a constant in turn, the texts of the values are unknown; lines are bounded in length.''')

P('C23', 'Joined streams move together, by the least that lets each follow its own end',
  '''For every number of streams with any starts and ends, the time at which each stream is joined is its new start moved by one and the same difference for all of them, so that they stay in step; no stream is joined before its predecessor ended, and the difference is the least with that property.
  Asking again, computing a second time and computing again after further streams were given all give the times of what is known then.''',
  ['inputs', 'histories'], 'every start and end; one to three streams (four in the thorough tier); repeated computing',
  'No test joins media; the order in which the longest difference comes, and a second computation, are chosen by the media joined.',
  ['src/mg/media/MediaJoin.h'],
  [('joining', 'src/mg/media/MediaJoin.h CMediaJoin::Compute'), ('time of a stream', 'src/mg/media/MediaJoin.h CMediaJoin::GetJoinTime')],
  technique='abstract interpretation of the joining with all times symbols, every order of the comparisons', level='other',
  note='''The number of streams is bounded, the times are not (below 2^60).''')

P('C24', 'A NAL unit decoded is its bytes without those inserted against start codes',
  '''For a NAL unit of any size and content, the bytes decoded are those of the unit with every 00 00 03 replaced by 00 00 and every other byte kept, the first and the last included; the reference and type numbers are those of the first byte.
  Nothing beyond the unit is read, nothing beyond the room for the result is written, and a unit decoded in place gives the same as one decoded elsewhere.''',
  ['inputs', 'histories'], 'every unit of every size, decoded once or after another one, elsewhere or in place',
  'No test decodes a unit; those that end just after an inserted byte, or with one that only looks inserted, are few of all.',
  ['src/mg/media/h264nal.h'],
  [('decoding', 'src/mg/media/h264nal.h H264Nal::decode_nal'), ('in place', 'src/mg/media/h264nal.h H264Nal::decode_nal_in_place')],
  technique='abstract interpretation to the bytes read and written, loop cut by an inferred invariant', level='proof',
  note='''The bit stream is taken at its word (C10, C11). A unit has at least one byte and fewer than 2^28.''')
P('C25', 'A transport stream carries every byte of a payload once, in whole packets',
  '''For every payload length, pid, counter and time, the packets written are 188 bytes each, carry the pid, follow the counter of the packet before, and their payloads joined are exactly the bytes given; the start is marked on the first packet only, and so are the random access point and the clock reference when they were asked for, also when the payload ends just short of a packet.
  Adaptation fields have the length they state; a stream that is filled up gets packets without data until its counter is a multiple of sixteen.
  The header of an elementary packet states the times given to the millisecond, and the number of bytes that follow, or 0 when that does not fit.''',
  ['inputs', 'histories'], 'every payload length and content, with and without random access and clock; every time; every counter',
  'No test writes a transport stream; lengths a byte or two around the room left in a packet, and those that do not fit in 16 bits, are a handful of all.',
  ['src/mg/media/tswrite.h', 'src/mg/media/mp4/mpeg2ts.fl'],
  [('packets', 'src/mg/media/tswrite.h CTSWrite::output_ts'), ('header', 'src/mg/media/tswrite.h CPESWrite'), ('layout', 'src/mg/media/mp4/mpeg2ts.fl Transport_Packet, Adaptation_Field, PesData')],
  technique='abstract interpretation down to the bits written, loops cut by inferred invariants; classes translated from the syntax description', level='proof',
  note='''The flavor compiler is not in the sandbox: the classes of mpeg2ts.fl are translated by engine/flavor.py, so a fault of that compiler itself is not seen.''')
P('C26', 'The tables of a transport stream list exactly its streams, under their checksum',
  '''However many streams are added, the tables written list the one program with the pid its table really has, then each stream once, in order, with the type and pid given, and the stream the clock is in.
  Each section states its length, is marked as valid, first and last, ends in the CRC-32 of exactly the bytes before it, and is the same each time it is written.
  Its packets follow the counter that was set, also when a table takes more than one of them.''',
  ['inputs', 'histories'], 'every type, pid and counter; lists of none to 202 streams (quick: a sample); tables written once and again',
  'No test writes the tables; lists that just fill a packet or need a second one, and tables written again, are never tried.',
  ['src/mg/media/tswrite.h', 'src/mg/media/mp4/mpeg2ts.fl'],
  [('tables', 'src/mg/media/tswrite.h CTSWrite::output_sections_tables'), ('streams', 'src/mg/media/tswrite.h CTSWrite::add_pam, set_pcr_pid'), ('layout', 'src/mg/media/mp4/mpeg2ts.fl Program_Association_Section, Program_Map_Section')],
  technique='abstract interpretation down to the bits written; classes translated from the syntax description', level='other',
  note='''Exhaustive in types, pids and counters, for the numbers of streams listed. The flavor compiler is not in the sandbox: its classes are translated by engine/flavor.py. That `crc_32` is the CRC-32 is C17.''')
