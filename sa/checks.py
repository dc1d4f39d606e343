"""The registry of checks: property -> scenarios (proof functions) and the rule applied."""

ORDER = 'Keys of items are assumed to be totally ordered by a pure key function.'
CHECKS = {}


def check(pid, scenarios=(), rule='', assumptions=(), **kw):
    CHECKS[pid] = dict(scenarios=list(scenarios), rule=rule, assumptions=list(assumptions), **kw)


check('C07', ['c07'], 'Every lookup of both collection classes is interpreted abstractly on an '
      'arbitrary sorted collection and an arbitrary probe key; on every path the result must be the '
      'element at the position the comparison defines, or ValueError exactly when there is none.',
      [ORDER])

for _p, _r in (
        ('C12', 'the cursor afterwards is compared with the last item returned, or with the cursor '
         'before'),
        ('C13', 'the result is compared with the buffered items from the first one after the '
         'cursor on'),
        ('C14', 'success, the number of items and the cursor are compared with the number of '
         'unseen items'),
        ('C15', 'the outcome (None, error, result) is compared with whether an item qualifies'),
        ('C16', 'the outcome and the cursor are compared with a call giving every option'),
        ('C27', 'the result is compared with the slice of the buffered items the bounds define'),
        ('C28', 'the result is compared with the first and last buffered item')):
    check(_p, [_p.lower()], 'Each reader operation is interpreted abstractly on an arbitrary buffer '
          '(any number of items with strictly increasing keys), an arbitrary cursor (nothing seen, '
          'or any item, buffered or not) and every combination of its options; on every path '
          + _r + '.', [ORDER])

check('C05', ['c05'], 'Every operation of a sorted deque with an arbitrary maximum length (any '
      'number of items) is interpreted abstractly; its contents afterwards are compared with the '
      'newest items that fit.', [ORDER])
check('C06', ['c06'], 'Every changing operation of both collection classes is interpreted '
      'abstractly on an arbitrary sorted collection and an arbitrary argument; iteration, length '
      'and the lookups of an arbitrary key afterwards are compared with those of the expected '
      'sorted list.', [ORDER])
check('C32', ['c32'], 'Copying, the dictionary form and the pickling recipe are interpreted '
      'abstractly on arbitrary collections (of both classes and of subclasses); the result is '
      'compared with the original, and stays so when either is changed.', [ORDER])

check('C11', ['c11'], 'Each reader operation is interpreted abstractly on an arbitrary buffer shared '
      'with other readers; the buffer, its index and what the other readers then see are compared '
      'with before, also after the result was changed by its receiver.', [ORDER])
_LIVE = ('the reader is interpreted abstractly against an environment that, whenever the reader '
         'looks at the stop event, may append any number of items and may stop the stream; '
         'every loop is analysed to a fixpoint (any number of rounds).')
check('C17', ['c17'], 'next() and iteration: ' + _LIVE + ' At every end of the iteration the stream '
      'must be stopped and no buffered item unseen; every value must be the next item.', [ORDER])
check('C18', ['c18'], 'Blocking reads: ' + _LIVE + ' None requires a stopped and drained stream, any '
      'other result must be the next items.', [ORDER])

_RUN = ('The stream buffer is interpreted abstractly on an arbitrary source (any number of items and '
        'of reads without data) whose operations may fail in each of the listed ways, with stop '
        'requests at any look of the reading loop at its stop flag; loops are analysed to a '
        'fixpoint. ')
check('C01', ['c01'], _RUN + 'At every open, read and close, and at the end, the state of the source '
      'must allow it.', [ORDER])
check('C02', ['c02'], _RUN + 'What the stream and its readers report is compared with whether '
      'reading has ended.', [ORDER])
check('C03', ['c03'], _RUN + 'At every read and at the end the contents of the buffer are compared '
      'with the values read so far.', [ORDER])
check('C04', ['c04'], _RUN + 'With auto-drop off, drops of any size occur at any look of the loop at its '
      'stop flag; at every read and every look the contents are compared with the values read and not '
      'dropped.', [ORDER])
check('C19', ['c19'], _RUN + 'Every pause is compared with the last attempt (it must have been '
      'fruitless, and the next attempt must not come before it) and with the configured interval; the '
      'same for the iteration of readers and of each kind of source.', [ORDER])
check('C20', ['c20'], _RUN + 'Starts are repeated at any moment of the previous run (also from another '
      'thread while the loop is inside a read or close); at the second open the previous loop must have '
      'ended, and readers of both runs are compared with the items of their own run.', [ORDER])
check('C21', ['c21'], _RUN + 'Readers are made and attached before, during (by another thread) and after '
      'starts; the outcome, buffer, stop flag, info, class and options are compared with the current '
      'run.', [ORDER])

check('C22', ['c22'], 'Histories of any length of opening and closing the readers of a stream source '
      '(any number of them open all the time, others coming and going, closing repeatedly) are '
      'interpreted abstractly to a fixpoint; after every step the opens of the source and the stop '
      'flags of the readers are compared with the number of open readers.', [ORDER])

check('C23', ['c23'], 'Contexts of stream buffers, of the helper, of readers and of source readers are '
      'interpreted abstractly with a block that is left in every way (end, return, break, continue, '
      'any kind of exception), with failing opens and closes; the clean-up done, the value entered and '
      'the exception that leaves the block are compared with what they have to be.', [ORDER])

check('C24', ['c24'], 'The helper is interpreted abstractly with arbitrary user callables, every subset '
      'of the optional ones and any sequence of reads with and without data (loops to a fixpoint); the '
      'arguments every callable receives, the items delivered and their indices are compared with what '
      'the callables returned.', [ORDER])

check('C25', ['c25'], 'The HTTP source is interpreted abstractly with arbitrary URL, method, headers, '
      'body, encoding and read arguments against a model of urllib that returns arbitrary chunks; the '
      'request sent, the items, the byte count and the release of every response are compared with the '
      'configuration and the chunks.')

check('C29', ['c29'], 'The iteration of each kind of source is interpreted abstractly over an arbitrary '
      'sequence of reads (no data, any data, false data) to a fixpoint; every value given out must be '
      'the one just read, no valid value may be passed over, rejected values go to the hook.')
check('C30', ['c30'], 'Sources are opened, read and closed abstractly in any order, by contexts, direct '
      'calls and streams, with failing opens; after every step the flag is compared with the last '
      'successful operation.')

check('C26', ['c26'], 'ContextualizeCall is interpreted abstractly for functions of every shape of '
      'signature up to six parameters (functions, lambdas, methods, classes, callable objects, '
      'partials), arbitrary arguments and results, and nested wrapping; what is rejected and what the '
      'supplied functions receive is compared with the signatures and the arguments.')

_OPS = ('Every operation of readers (all option combinations, key functions that fail at any call), of '
        'the reading loop, of drops and of the owner of a stream is interpreted abstractly on an '
        'arbitrary buffer; ')
check('C08', ['c08'], _OPS + 'every access to the data and the index of the buffer is an obligation: shared '
      'or exclusive access must be held, exclusive access for changes; each access is given back '
      'exactly once on every path.', [ORDER])
check('C10', ['c10'], _OPS + 'at every request for access, pause, wait, lock, call of the source and value '
      'handed out no access to a buffer may be held.', [ORDER])

check('C33', ['c33'], 'Reading and writing configurations is interpreted abstractly over models of the '
      'ini parser and of files, with failures at every step that can reject a value; the order of the '
      'steps relative to the opening of the file for writing, and the sections in the file afterwards, '
      'are compared with those before.')


def _resolve(repo, tier):
    from . import resolve
    return resolve.run(repo, tier)


check('C31', [], 'In the syntax trees of all modules of the package (tests apart) and of pack.py, every '
      'name is resolved by the compiler\'s scoping rules, every local name needs a binding on some path '
      'before it is read, every imported name must be defined by its module, every attribute a method '
      'takes from its own instance or class must be provided by the class hierarchy, by its '
      'initialisation, or by the callers of a private method beforehand, every attribute of an object '
      'whose class is known by that class, and the arguments of every call of a function, class or '
      'method of the library must fit its parameters.',
      ['Classes with an unknown base, computed attribute names or own attribute lookup are not '
       'decided; test cases inside the library are left alone.'],
      run=_resolve, technique='whole-program name, attribute, class-type and call-arity resolution over '
      'the syntax tree (scope tables, class linearisation, may-bound dataflow)',
      level_note='Static analysis of the current source: each reported construct is a definite '
      'reference to something no part of the program provides; attributes reached through objects of '
      'unknown class are not decided.')


def _rwlock(repo, tier):
    from . import rwlock
    return rwlock.run(repo, tier)


check('C09', [], 'The steps reader and writer threads take (locks acquired and released, shared '
      'attributes read and written under which locks) are extracted from the source by abstract '
      'interpretation; for the lock itself and for the access contexts of the locked deque (blocks that '
      'end and that fail) every reachable configuration is compared with the rules: nobody beside a '
      'writer, no release of a lock that is free, nobody waits while nobody is inside, readers are not '
      'kept out by readers, a reader that starts while a writer waits gets in after it, and with '
      'nobody inside the lock is as it was. First for a few threads exactly (a violation is reported '
      'with its interleaving), then for any number by counter abstraction over the places of the '
      'steps.', ['A thread that acquired access releases it once; nothing interrupts a thread inside the '
                 'lock operations; a lock handed over goes to any waiting thread.'],
      run=_rwlock, technique='synchronisation skeleton extracted from the source; lockset analysis; '
      'reachability fixpoint over a counter abstraction (any number of threads)')

check('C38', ['c38'], _RUN + 'The stream is made in each of the ways the library offers, with any '
      'combination of options; every read, every pause and the contents of the buffer are compared '
      'with those options.', [ORDER])
check('C39', ['c39'], 'Each read operation is interpreted abstractly while, before every access it makes '
      'to the buffer, an environment may append any number of items and evict any number of the oldest; '
      'on every path the result must be the one of a single one of the states it had access to.', [ORDER])

check('C40', ['c40'], 'The ready-made sources are made, opened, closed and opened again under abstract '
      'interpretation with an arbitrary clock; what their info gives is compared with the arguments '
      'and with the time of the last open.', [])
