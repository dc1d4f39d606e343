"""Writes properties.jsonl (kept as a script so that the text is reviewable in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
SB='stream2py/stream_buffer.py'; BR='stream2py/buffer_reader.py'; SR='stream2py/source_reader.py'
SS='stream2py/stream_source.py'; LD='stream2py/utility/locked_sorted_deque.py'; SD='stream2py/utility/sorted_deque.py'
SC='stream2py/utility/sorted_collection.py'; RW='stream2py/utility/reader_writer_lock.py'
UT='stream2py/util.py'; SI='stream2py/simply.py'; HT='stream2py/sources/http.py'; PK='pack.py'

p('C01','Every opened source is closed exactly once, and read only while open',
 "Whenever a stream is started and its source opens successfully, the source is closed exactly once when that run ends, whether it ends by a stop request, by an error raised while reading or storing an item, or because the start itself fails after the open. The source is never read before its open has returned nor after its close has been called, and a source whose open failed is neither read nor closed.",
 ['fault_sequences','schedules','histories'],'every point at which a user source can raise, every moment at which a stop can be requested, every number of reads',
 'Tests use sources that never raise from open/read/close and stop at a handful of moments; they never look at whether close ran on an error path.',
 [SB],[('start opens, then starts the reading thread; the reading loop closes in a finally',SB+':StreamBuffer.start/_open/_run')],
 observe=['calls of the source object: open, read, close'])
p('C02','However reading ends, the stream is reported as stopped',
 "When reading ends for any reason (stop request, an error from reading, a rejected item, a close that raises) every reader of that run reports the stream as stopped and the stream reports itself as not running. A failing close never escapes the reading thread, and a start that fails leaves the stream reported as not running. An error from reading, or from storing an item, always ends the run: nothing is read after it. Before that, between a successful start and the first of those reasons, both report it as running.",
 ['fault_sequences','schedules'],'every fault position in a run and every order of stop request and fault',
 'Tests only stop streams explicitly and with sources that do not fail.',
 [SB,BR],[('finally block of the reading loop sets the stop event before closing',SB+':StreamBuffer._run')],
 state=[('stop event','one per run; set means the run is over',SB)],observe=['StreamBuffer.is_running','BufferReader.is_stopped'])
p('C03','Each non-None value read is stored exactly once, in read order',
 "Every value other than None that the source's read returns is stored in the buffer exactly once, unmodified, before the source is read again. None is never stored, and values that are merely falsy (0, '', empty containers) are stored like any other.",
 ['inputs','histories'],'every sequence of values a source can return, including None and falsy ones, and every length of run',
 'Tests feed a few truthy tuples; they never feed falsy values nor check every value is stored.',
 [SB],[('the reading loop appends under the write lock when data is not None',SB+':StreamBuffer._run, _SourceBuffer.append')],observe=['contents seen by readers'])
p('C04','With auto-drop off nothing is evicted; explicit drop is exact',
 "With auto-drop off the source is not read while the buffer already holds its maximum number of items, so an item only ever leaves the buffer through an explicit drop; with an unlimited buffer reading never pauses, and with auto-drop on reading never pauses because of fullness. An explicit drop removes exactly the requested number of oldest items and nothing else, and it is refused with RuntimeError, without removing anything, while auto-drop is on.",
 ['histories','inputs','configurations'],'every buffer size including unlimited, both auto-drop modes, every fill level and drop count',
 'No test uses auto_drop=False or drop at all.',
 [SB,SD],[('fullness test before reading',SB+':StreamBuffer._run'),('drop',SB+':StreamBuffer.drop; '+SD+':SortedDeque.drop')],observe=['source reads','buffer contents'])
p('C05','The buffer is a bounded window that always keeps the newest items',
 "A sorted deque with a maximum length never holds more than that many items, and appending to a full one discards exactly the oldest item. The maximum length survives clear, copy and replacing the key function; changing the maximum length keeps the newest items that fit and keeps the key function.",
 ['histories','inputs'],'every maximum length, fill level and sequence of operations',
 'One test appends past the limit for two sizes; nothing exercises the limit after re-keying, clearing or copying.',
 [SD,LD],[('two deques with the same maxlen',SD+':SortedDeque.__init__ and the maxlen/key setters')],observe=['len, iteration, maxlen of the collection'])
p('C06','The sorted collections stay sorted and consistent with their index',
 "After construction and after any insert, right-insert, append, remove, drop, clear or key change, iteration yields the items in non-decreasing key order and every lookup works on exactly those items, i.e. the key index has one entry per item, equal to that item's key, in the same order. Insert adds to the left of equal keys and right-insert to the right; remove deletes exactly one occurrence, the first one equal to the argument. An append whose key is not greater than the newest key raises ValueError and changes nothing. An append whose key cannot be compared with the newest raises the error of the comparison and changes nothing.",
 ['histories','inputs'],'every collection content, key function and operation sequence',
 'The doctest builds one four-element collection; the demo block at the end of the module is never run by the suite.',
 [SC,SD],[('parallel _keys/_items updates',SC+':SortedCollection; '+SD+':SortedDeque')],observe=['iteration and lookups'])
p('C07','Key lookups return exactly the item their comparison promises',
 "In a sorted collection or sorted deque, find(k) returns the first item with key equal to k, find_le/find_lt the last with key <=/< k, find_ge/find_gt the first with key >=/> k, and the newest-item variant the last item provided its key is > k; when no item qualifies, and only then, they raise ValueError. range(start, stop, step) returns, as a list, every step-th item whose key is within both inclusive bounds (ValueError for a step that is not positive), and membership, index and count consider exactly the items whose key equals the argument's key.",
 ['inputs'],'every content (including duplicates, empty, single item) and every probe key',
 'Doctests probe one small collection with distinct keys.',
 [SC,SD],[('bisect on the key index',SC+':SortedCollection.find*; '+SD+':SortedDeque.range/find_last_gt/index/count')],observe=['return values of lookups'])
p('C08','Shared buffer data is only touched under the matching lock',
 "Every operation of readers and of the reading loop that inspects the shared buffer (other than asking its length or its key function) does so while holding its shared or exclusive lock, and every one that changes it holds the exclusive lock. The lock is released exactly once on every exit, including when the operation or a user key function raises, and nothing obtained from the buffer is evaluated lazily after the release.",
 ['schedules','fault_sequences'],'every interleaving of readers and the reading loop and every exception position inside a locked region',
 'Tests run one reader thread against a slow writer; a missing lock or a leaked one on an error path is not observable there.',
 [BR,SB,LD],[('reader_lock / writer_lock context managers',LD+':RWLockSortedDeque')],observe=['lock acquire/release around deque accesses'])
p('C09','Writers exclude everyone, readers share, waiting writers go first',
 "The reader-writer lock gives a writer exclusive access: no reader or other writer is inside while a writer is. Any number of readers may be inside together, the first one in locks writers out and the last one out lets them in. Once a writer is waiting no new reader is admitted before it, and releasing leaves the lock as it was before the matching acquire.",
 ['schedules'],'every number of reader and writer threads and every interleaving of their acquire and release steps',
 'The unit tests shipped inside the lock module use time.sleep schedules and are not even collected by the suite.',
 [RW],[('two light switches and three plain locks',RW+':RWLock, _LightSwitch')],observe=['order of acquire/release on the underlying locks'])
p('C10','No thread waits, sleeps or re-enters while holding buffer access',
 "A thread that holds read or write access to the shared buffer never requests access to the same buffer again, never sleeps, never waits for another thread, never calls into the source's read, open or close, and never hands a value to consumer code (yields) before giving the access back. Hence a slow source or a slow consumer never blocks other readers, and readers cannot deadlock with the writer.",
 ['schedules','programs'],'every reader operation with every combination of options, and the reading loop, under every interleaving',
 'A re-entrant read deadlocks only when a writer arrives between two acquisitions, microseconds apart.',
 [BR,SB,LD],[('critical sections limited to lookup',BR+'; '+SB)],observe=['calls made between acquire and release'])
p('C11','Reading never changes shared data or another reader',
 "No read operation (read, next, iteration, range, head, tail, with or without peeking) adds, removes, reorders or replaces anything in the shared buffer, and it changes nothing of any other reader of the same buffer; every iteration of a stream (iter on the stream buffer) and next() on it go on independently of one another and of every reader. Multi-item results are freshly built lists, so changing a result affects neither the buffer nor other readers.",
 ['histories','programs'],'every sequence of reader operations by any number of readers',
 'Tests use two readers and compare cursors once.',
 [BR,SD],[('per-reader cursor fields; list(islice(...)) copies',BR+'; '+SD+':range_by_index')],observe=['buffer contents and other readers after an operation'])
p('C12','Peeking leaves the cursor; reading moves it to the last item returned',
 "A successful read, range, head or tail without peek sets the reader's last-seen item to the last item it returned and the last-seen key to that item's key; with peek both stay unchanged. When an operation returns nothing or raises, the cursor is left exactly as it was.",
 ['inputs','histories','fault_sequences'],'every operation, option combination, cursor position and buffer content',
 'Doctest covers one content, with items always available.',
 [BR],[('last_item property setter',BR+':BufferReader._setlast_item')],state=[('cursor','last seen item and its key',BR)],observe=['last_item, last_key'])
p('C13','Sequential reads return the next items, without gap or repeat',
 "A read returns the oldest buffered item on a reader that has not seen any item, and otherwise the first buffered item whose key is greater than the last-seen key. With a size n greater than 1 it returns the list of the first n consecutive such items, or all of them if fewer are buffered and exactness was not requested; with n = 1 it returns the item itself. Items still buffered are therefore never skipped or returned twice by successive non-peeking reads.",
 ['inputs','histories'],'every buffer content, cursor position and read size',
 'Tests check a couple of sequential reads on a continuously growing counter.',
 [BR,SD,SC],[('find_gt + index + range_by_index',BR+':BufferReader.read')],observe=['return value of read'])
p('C14','Exact-size reads succeed exactly when enough items are buffered',
 "With strict size requested, a read of n > 1 items either returns exactly n items or raises ValueError with the cursor unchanged; it raises when at least one but fewer than n unseen items are buffered and only then (no unseen item at all is the missing-item case). Without it, a shorter list is returned instead of an error.",
 ['inputs'],'every read size against every number of available items, in particular equality',
 'strict_n is not tested.',
 [BR],[('bound comparison in read',BR+':BufferReader.read')],observe=['return value of read'])
p('C15','"No item" is None or an error, as the caller asked',
 "When no qualifying item exists, read, tail and a cursor-moving range return None if the caller (or, for read and range, the reader's default) asked to ignore missing items, and raise an error (a ValueError or an IndexError) otherwise; they never raise for a missing item when asked to ignore it, and never return None when not asked. A peeking range without items is an empty list, unless it asked for new items or for an item at or above its end and there is none at all: then that too is None or an error, as asked. When a qualifying item exists the option makes no difference.",
 ['inputs','configurations'],'every operation, option combination, empty and non-empty buffers, fresh and advanced cursors',
 'Tests use ignore_no_item_found with read only, mostly with items present.',
 [BR],[('except clauses in read/range/tail',BR+':BufferReader')],observe=['return values and exceptions'])
p('C16','Reader defaults apply exactly when an argument is not given',
 "The read size, peek, exactness and ignore-missing options fixed when a reader is made (directly, by a stream, or by a stream source's open_reader) are used by read for every argument left unspecified, and an explicitly given argument, including False, always wins. The deprecated reader.next(n, peek, ignore_no_item_found, strict_n) is read with exactly those arguments. Iteration and the built-in next() use the reader's size, peek and exactness options but always ignore missing items.",
 ['configurations','inputs'],'every combination of constructor options and call arguments',
 'Tests construct readers with default options only.',
 [BR],[('_read_kwargs / defaulted_values',BR+':BufferReader.__init__, read, __next__')],observe=['return value and cursor after read'])
p('C17','Iteration ends only once the stream was stopped and then found drained',
 "next() on a reader raises StopIteration, and a for loop over a reader ends, only if the stream was already stopped before a lookup that found no further item; while the stream runs without new data next() returns None and the for loop keeps waiting; on a stream that was stopped before and is drained, next() raises StopIteration. A for loop never yields None and yields every result next() produces, in order.",
 ['schedules'],'every interleaving of the last append, the stop and the reader\'s lookup',
 'The window between the empty lookup and the stop check is microseconds wide; tests stop the stream long before.',
 [BR],[('order of stop check and lookup',BR+':BufferReader.__next__, __iter__')],observe=['StopIteration, end of iteration'])
p('C18','Blocking read returns an item, or None only after stop',
 "A blocking read returns as soon as a lookup succeeds and returns exactly what the equivalent non-blocking read would; it returns None only if the stream was already stopped before a lookup that found nothing, and a missing item never makes it raise. Between two fruitless lookups it always pauses.",
 ['schedules','configurations'],'every interleaving of append, stop and lookup, every option combination',
 'Two tests, with data present or the stream long stopped.',
 [BR],[('polling loop',BR+':BufferReader.read')],observe=['return value of read(blocking=True)'])
p('C19','Polling loops pause for the configured time after every fruitless attempt',
 "Whenever the reading loop gets no data (or is paused because the buffer is full), a reader iteration finds no item, or a source iteration gets no valid data, it sleeps for its configured interval before trying again, and it does not sleep after a successful attempt. The reading loop's interval is the stream's own setting if that is a number (zero included), else the source's setting if that is a number, else a fixed default.",
 ['configurations','histories'],'every loop path without data, every combination of configured intervals including 0 and None',
 'Tests do not observe sleeping; a busy loop passes them all.',
 [SB,BR,SR],[('time.sleep in each polling loop',SB+':StreamBuffer._run/__init__; '+BR+':__iter__; '+SR+':__iter__')],observe=['time.sleep calls'])
p('C20','Each start is a fresh session isolated from earlier ones',
 "Every start gives the stream a new empty buffer and a new stop flag; readers made during an earlier run keep seeing that run's items and its stopped state, and the stream's own next() reads from the new run. Starting again first stops the previous run and waits until its reading loop, including the close of the source, has finished before the source is opened again, so two runs never read the source or write a buffer concurrently.",
 ['histories','schedules'],'every sequence of start/stop/failure and every timing of a slow or failing source',
 'Tests restart once, with fast sources that have finished long before.',
 [SB],[('per-start stop event, buffer and thread',SB+':StreamBuffer.start/_set_read_to_buffer_thread_and_source_buffer')],observe=['readers of different runs','source open/read/close order'])
p('C21','Readers are created only from, and bound to, the current session',
 "Making or attaching a reader before the stream has been started raises StreamNotStartedError, a Stream2PyError; afterwards it yields a reader bound to the current run's buffer, stop flag and source info, of the reader class the source asks for (by its buffer_reader_class, or a stream source's reader_cls option; else a plain BufferReader), with the given options passed on; an attached reader keeps its options and its cursor. Creation cannot observe a start in progress, and the info of a started stream is the source's info even while the buffer is still empty.",
 ['schedules','histories','configurations'],'every moment relative to start, every reader class and option set',
 'Tests create readers after start has returned and data has arrived.',
 [SB,'stream2py/exceptions.py'],[('start_lock; isinstance check; buffer_reader_class',SB+':StreamBuffer.mk_reader/attach_reader/_open')],observe=['mk_reader, attach_reader, source_reader_info'])
p('C22','A shared source stays open exactly while it has open readers',
 "A stream source is started when its first reader is opened and stopped exactly when its last open reader is closed; opening further readers while it runs neither restarts nor reopens it. Closing the same reader more than once counts once, and opening a reader after everything was closed starts the source again with a fresh buffer.",
 ['histories'],'every interleaving of opening and closing any number of readers, with repeated closes',
 'One test opens two readers and closes one.',
 [SS,BR],[('open-reader counter and onclose callback',SS+':StreamSource; '+BR+':BufferReader.close')],state=[('open readers','number of readers opened and not yet closed',SS)],observe=['source open/close calls, is_stopped of readers'])
p('C23','Leaving a context always cleans up and never hides the error',
 "Leaving a with-block over a stream buffer, a helper-made stream buffer, a reader or a source reader performs its clean-up (stop, stop, close callback, close) on every exit, and an exception raised in the block propagates unchanged. Entering yields the object itself (the stream buffer for the helper), and a reader made directly from a stream buffer can be closed or used as a context without error.",
 ['fault_sequences','programs'],'every way of leaving the block: normally, by return or by any exception',
 'Tests leave blocks normally.',
 [SB,BR,SR,SI],[('__enter__/__exit__/finally',SB+', '+BR+', '+SR+', '+SI)],observe=['stop event, source close, propagated exception'])
p('C24','The all-in-one helper wires the user callables faithfully',
 "The helper's stream opens with the user's open function once per start, reads by calling the user's read function on what open returned, closes by calling the close function on that same object, orders items by the user's key function (or by the item itself) and describes itself with the user's info function. With enumeration on, each data item is delivered as a pair of its consecutive index within the run (from 0) and the data; a read that returns None is passed on as no data, never as an item, and does not consume an index.",
 ['inputs','configurations'],'every combination of supplied and omitted callables, both enumeration modes, every pattern of None reads',
 'The helper has no test at all.',
 [SI],[('SimplifiedSourceReader',SI+':mk_stream_buffer')],observe=['calls of the user callables, delivered items'])
p('C25','The HTTP source sends the configured request and releases the response',
 "Opening the HTTP source sends a request with exactly the configured URL, method, headers and body (GET carries no body; text bodies are sent encoded). Reads use the configured read arguments, every non-empty chunk is delivered as a pair of time and chunk, decoded exactly when an encoding is configured, the end of the response is reported as no data, and the reported byte count is the number of raw bytes delivered. Closing releases the open response and closing again does nothing.",
 ['configurations','inputs','histories'],'every method/body/header/encoding combination and every read/close history',
 'No network in tests; only construction of the object is exercised.',
 [HT],[('urllib request built in the constructor and opened in open',HT+':HTTPResponseReader')],observe=['the request handed to urllib, info, read results'])
p('C26','Context-wrapping a callable validates and forwards faithfully',
 "Wrapping a callable as a context rejects, with an error that is a TypeError, a non-callable, an enter function that cannot take one argument, and an exit function that can take neither four arguments nor arbitrary positional ones. Calling the wrapper calls the wrapped function with the same arguments and returns its result; entering and leaving call this wrapper's own enter function with the wrapped function, and its own exit function with the wrapped function and the three exception arguments, returning what they return, also when the wrapped callable is itself such a wrapper. Other attributes of the wrapper are those of the wrapped callable.",
 ['inputs','programs'],'every callable and enter/exit function shape, including nested wrapping',
 'Tests wrap one bound method with valid functions.',
 [UT],[('ContextualizeCall and the validation classes',UT)],observe=['calls received by the supplied functions'])
p('C27','Range reads return exactly the requested, and only new, items',
 "A reader's range returns the buffered items whose keys lie within the inclusive bounds, every step-th of them. With only-new requested it returns only items after the reader's cursor; with start rounding the lower bound becomes the largest buffered key at or below it if there is one; with stop rounding the upper bound becomes the smallest buffered key at or above it, and if there is none it is reported as a missing item. When nothing buffered lies after the cursor, a range under only-new is reported as a missing item.",
 ['inputs','histories'],'every content, bounds, step, cursor and option combination',
 'Tests use a few ranges well inside the buffered data and none of the rounding options.',
 [BR,SD],[('range',BR+':BufferReader.range; '+SD+':SortedDeque.range')],observe=['return value of range'])
p('C28','Head is the oldest and tail the newest buffered item',
 "head returns the oldest buffered item and tail the newest, independent of the reader's cursor; with only-new requested, tail returns the newest item only if its key is greater than the last-seen key (or nothing was seen yet) and otherwise reports a missing item.",
 ['inputs','histories'],'every content and cursor',
 'Doctest shows one example each.',
 [BR,SD],[('head/tail/find_last_gt',BR+'; '+SD)],observe=['return values'])
p('C29','Iterating a source yields exactly its valid data, in order',
 "Iterating a source reader or stream source yields each non-None value its read returns, exactly once and in read order, and nothing else; a missing value makes the iteration wait and continue, never end with an error. The quick source reader uses its own validity test instead of the None test and hands each rejected value to its no-data hook.",
 ['inputs','histories'],'every sequence of read results, including None and falsy values',
 'Tests iterate over a few truthy integers and never reach a None.',
 [SR,SS],[('__iter__ loops',SR+'; '+SS)],observe=['yielded values'])
p('C30','A source reader\'s closed flag tells the truth',
 "A source reader reports closed until it is opened, not closed inside its context, and closed again after leaving the context normally or by an exception of the block. The source readers the library itself provides (quick, HTTP, helper-made) also report it correctly when opened and closed by direct calls, as a stream does; if the open fails they still report closed.",
 ['histories','fault_sequences'],'every sequence of open/close/context use, with failing opens',
 'One doctest with one source class.',
 [SR,HT,SI],[('_closed flag',SR+':SourceReader')],observe=['closed property'])
p('C31','Library operations never fail on a missing attribute or name',
 "No operation of the library's public classes and functions refers to a module-level name that is not defined or, through its own instance or class, to an attribute or method that neither its class hierarchy nor its own initialisation provides; calls between the library's own functions pass arguments the callee accepts.",
 ['programs','histories'],'every statement of every function, including rarely executed branches',
 'Python resolves names and attributes only when the line runs; rarely used branches (timestamps of stream sources, closing plain readers) are not executed by tests.',
 ['stream2py/*.py','pack.py'],[('attribute and name resolution over the class hierarchy','whole package')],observe=['AttributeError, NameError, TypeError from library code'])
p('C32','Copies and serialised forms rebuild an equal collection',
 "Copying a sorted collection or sorted deque, rebuilding it from its dictionary form, or rebuilding it from its pickling recipe gives a collection of the same class with the same items in the same order, the same key function and the same maximum length, and later changes to one do not affect the other. If the key function of a collection can be pickled, or none was given, its pickling recipe can be, also after the collection was copied, cleared, re-keyed or given another maximum length.",
 ['inputs','histories'],'every content, key function and maximum length',
 'Not tested.',
 [SC,SD],[('copy, to_jdict/from_jdict, __reduce__',SC+'; '+SD)],observe=['the rebuilt collection'])
p('C33','Rewriting the configuration file cannot lose existing sections',
 "Writing a configuration section keeps every other section of an existing file, and every step that can reject the given values (pre-processing them, parsing the existing file, storing them in the configuration) happens before the file is opened for writing, so a rejected write leaves the file's content as it was. Reading with no section named returns every section, each passed through the post-processing function.",
 ['fault_sequences','inputs'],'every existing file content and every failing value',
 'Only the pure helper functions of the packaging module have doctests.',
 [PK],[('read, update, then open for writing',PK+':write_configs/read_configs')],observe=['file content, returned mapping'])
p('C38','The options a stream is made with are those in force',
 "The maximum length, auto-drop mode and pause interval given when a stream is made (to the stream buffer itself, to a source reader's stream_buffer, to a stream source's configure_buffer, or to the all-in-one helper) are the ones every run of that stream obeys: at most that many items, the newest ones, are held (no limit if it is None); with auto-drop off the source is not read while the buffer is full, with it on, or left out, reading never pauses for fullness; every pause is the given interval. Of several configurations of a stream source before its start the last one counts, it affects no other source, and configuring a source that has already been started raises ValueError and changes nothing.",
 ['configurations','histories'],'every combination of options, each way of making a stream, every length of run',
 'Tests build most streams directly with one combination of options; none looks at what the other ways pass on, and none uses auto_drop=False.',
 [SB,SS,SR,SI],[('options stored by each entry point and passed to the stream buffer',SB+':StreamBuffer.__init__; '+SS+':StreamSource.configure_buffer/_ensure_buffer; '+SR+':SourceReader.stream_buffer; '+SI+':mk_stream_buffer')],
 observe=['source reads','sleep calls of the reading thread','buffer contents'])
p('C39','Each read operation sees one state of the buffer',
 "Whatever the reading loop stores or evicts while a read operation (read, next, range, head, tail) is under way, its result is the one the operation gives on a single state the buffer had during the operation: items are never combined from, and positions never carried over between, different states.",
 ['schedules'],'every moment at which items may be appended or evicted relative to the lock acquisitions of one operation, every buffer content, cursor and argument',
 'Tests run a slow source; no item is ever stored or evicted between two steps of the same read.',
 [BR,LD],[('each operation takes the shared lock once around all it looks at',BR+':BufferReader.read, range, head, tail')],observe=['results of read operations while the buffer changes'])
p('C40','A source tells how it was made and when it was last opened',
 "The info of a quick source, and of a stream made by the all-in-one helper without an info function, gives the time stamp taken when the source was last opened (none for a quick source never opened) and the text of the instance opened; opening a quick source again also resets its count of data read. Readers keep being told what held when their run was opened. A time stamp is the current time in whole units, microseconds unless the class says otherwise. The info of the HTTP source gives the URL, method, headers, body, response format and encoding it was made with; a source reader that tells nothing has an empty info.",
 ['histories','configurations','inputs'],'every clock, every sequence of opens and closes, every unit of time, every combination of arguments',
 'Doctests print the info of example sources that define their own; no test opens a quick source twice or changes the unit.',
 [SR,SS,SI,HT],[('open sets open_time and read_idx',SR+':QuickSourceReader.open/info; '+SI+':SimplifiedSourceReader'),('time stamps',SR+':SourceReader.get_timestamp; '+SS+':StreamSource.get_timestamp'),('arguments kept',HT+':HTTPResponseReader.__init__/info')],
 observe=['info of sources','source_reader_info of readers'])
p('C34','Stopping takes effect within a bounded time',
 "A stop request returns within a bounded time and, unless the source's read blocks, the reading thread has finished by then.",
 ['schedules'],'every source speed and thread schedule','Real-time bound; tests measure nothing.',
 [SB],[('fixed one-second wait',SB+':StreamBuffer.stop')],observe=['elapsed time of stop'])
p('C35','Waiting readers and writers are eventually served',
 "Every thread waiting for buffer access eventually obtains it provided no writer stream is continuous and every holder releases.",
 ['schedules'],'infinite fair schedules','Liveness over infinite schedules.',
 [RW],[('queue lock and light switches',RW)],observe=['progress of waiting threads'])
p('C36','Lookups cost logarithmic time and appends constant time',
 "Key lookups on a buffer of n items perform O(log n) comparisons and appends O(1).",
 ['inputs'],'every buffer size','Cost bound over unbounded sizes; tests measure nothing.',
 [SC,SD],[('bisect',SC)],observe=['number of key comparisons'])
p('C37','Version increment and string formatting helpers compute correct values',
 "Incrementing a version adds one to its last component, url joining uses exactly one separator between parts, and recursive template formatting reaches its fixed point or reports what is missing.",
 ['inputs'],'every string input','Numerical and textual results over all strings.',
 [PK],[('increment_version, ujoin, format_str_vals_of_dict',PK)],observe=['return values'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: 
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
