"""Source of properties.jsonl (python3 vf/gen.py writes it)."""
P = []
def p(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech])))

p('C01', 'Timers and sleeps fire in deadline order and never early',
  'A task that sleeps for some milliseconds, or a timer callback scheduled for some milliseconds, is never resumed or called before that much time has passed, for any requested duration. Pending sleepers and timers are kept ordered by deadline, none lost or changed by the arrival of another, and each is resumed or called exactly once per expiry (a repeating one is scheduled again one full period later). The elapsed time a sleep reports is the real elapsed time in milliseconds.',
  ['inputs', 'histories'], 'every duration, every current time, every set of already pending deadlines, every order of scheduling and expiry',
  'test-time and test-actor use a handful of short delays; they never reach large durations, equal deadlines or an arbitrary pending list.',
  ['src/events.c', 'include/events.h'], [('add_timeout', 'src/events.c'), ('events_actor_timeout', 'src/events.c'), ('events_execute', 'src/events.c'), ('delay', 'src/events.c'), ('task_wait_system', 'src/events.c')],
  [('sleep queue', 'tasks ordered by alarm_time', 'src/events.c'), ('timers', 'callbacks ordered by alarmtime', 'src/events.c')])

p('C02', 'The ready queue is first-in first-out and loses no task',
  'Tasks made ready are run in the order they became ready: adding a task puts it behind every task already waiting, taking one takes the oldest, and removing a given task leaves all the others waiting in their order. No operation on the queue drops, duplicates or reorders another task. An empty queue yields no task.',
  ['inputs', 'histories'], 'every queue content and length, every position of the removed task',
  'Existing tests run a few tasks to completion; they do not look at the queue from arbitrary states, nor remove from the middle.',
  ['src/events.c'], [('enqueue', 'src/events.c'), ('dequeue', 'src/events.c'), ('task_remove', 'src/events.c')],
  [('run_queue', 'doubly linked list of ready tasks', 'src/events.c')])

p('C03', 'Descriptor inactivity timeouts fire late enough, once, and for the right one',
  'A descriptor given an inactivity timeout of some seconds receives a timeout notification no earlier than that timeout allows, and only while it is still registered with that timeout. Clearing or renewing the timeout cancels the earlier one, and no other descriptor is notified in its place. Each expiry notifies its descriptor exactly once.',
  ['inputs', 'histories'], 'every descriptor number, every timeout in seconds, every current time and position of the timeout wheel',
  'The tests set one short timeout on one descriptor; wheel wrap-around, renewals, and several descriptors due together are not reached.',
  ['src/events.c', 'src/epoll.c'], [('events_set_timeout', 'src/events.c'), ('events_handle_timeout_internal', 'src/events.c'), ('events_poll_once', 'src/events.c')],
  [('timeout wheel', 'per-slot bit vectors of descriptors', 'src/events.c')])

p('C04', 'Only registered descriptors are called back, only for events they asked for',
  'The callback registered for a descriptor is called exactly for the readiness the kernel reports for it (readable, writable, hang-up), with the argument given at registration. Adding, changing and removing a descriptor keeps the loop\'s record, its count of active descriptors and the kernel\'s interest set in step. After removal the descriptor is never called back again, and invalid requests are refused without changing anything.',
  ['inputs', 'histories'], 'every descriptor number, event mask, previous registration state, and kernel report',
  'The tests register a few descriptors with the common masks; changes of mask, errors, re-use by another loop and removal during dispatch are not enumerated.',
  ['src/events.c', 'src/epoll.c'], [('events_add', 'src/events.c'), ('events_del', 'src/events.c'), ('events_set_event', 'src/events.c'), ('events_update_internal', 'src/epoll.c'), ('events_poll_once_internal', 'src/epoll.c')],
  [('fds table', 'one record per descriptor: loop, events, callback', 'src/events_internal.h')])

p('C05', 'Arrays hold exactly the elements put in, in order',
  'Appending adds one element at the end; pop and shift return and remove the last and the first element; remove takes out exactly the element at the index and ignores an index past the end; copy, range and construction from arguments produce exactly the listed elements in order; reset empties. No operation changes, drops, duplicates or reorders any other element, or touches memory outside the array. A tuple refuses every change.',
  ['inputs', 'histories'], 'every array length and capacity, every index, every element value',
  'test-arrays checks a few arrays of under ten elements at fixed indexes.',
  ['src/arrays.c', 'include/arrays.h'], [('data_append', 'src/arrays.c'), ('data_append_item', 'src/arrays.c'), ('data_pop', 'src/arrays.c'), ('data_shift', 'src/arrays.c'), ('data_remove', 'src/arrays.c'), ('data_copy', 'src/arrays.c'), ('range', 'src/arrays.c')],
  [('array_metadata_s', 'type, size and capacity in front of the elements', 'src/arrays.c')])

p('C06', 'The per-thread task deque loses and duplicates nothing',
  'Used by one thread at a time, the deque behaves as a double-ended sequence of tasks: push adds at the bottom, take removes the most recently pushed, steal removes the oldest, and peeking or querying the size changes nothing. Growing the deque keeps every task and its position. Taking or stealing from an empty deque yields nothing and leaves it empty and usable.',
  ['inputs', 'histories'], 'every deque size, fill and index position, every sequence of push, take and steal by a single thread',
  'No test exercises the deque directly; programs only push a handful of tasks and steal them, never reaching growth or the empty boundary.',
  ['src/deque.c'], [('deque_push', 'src/deque.c'), ('deque_take', 'src/deque.c'), ('deque_steal', 'src/deque.c'), ('deque_resize', 'src/deque.c')],
  [('top/bottom', 'index range of live tasks modulo the array size', 'src/events_internal.h')])

p('C07', 'Deferred calls run exactly once, last registered first',
  'Every function deferred in a scope runs exactly once when the scope unwinds, in the reverse of the order of registration, with the argument it was registered with. Allocations tied to the scope are released once. A second unwind of the same scope runs and frees nothing.',
  ['inputs', 'histories'], 'every number and mix of deferred calls and scope-owned allocations within the scope\'s capacity',
  'test-defer registers a few calls in one order; it cannot see double frees, lost entries or other mixes.',
  ['src/except.c', 'src/events.c'], [('scope_deferred', 'src/except.c'), ('scope_unwind', 'src/except.c'), ('deferred_unwind', 'src/events.c'), ('deferring', 'src/events.c')],
  [('defer_arr', 'the deferred calls of a scope, oldest first', 'src/events_internal.h')])

p('C08', 'Exceptions reach the innermost matching handler; protected values are released',
  'A thrown exception is delivered to the innermost enclosing try block, with its name, location and message; a handler runs only for the exception it names (or any), and an exception nobody handles propagates outward after the finally part. Entering and leaving try blocks restores the enclosing block exactly. Values registered for release on an exception are released once, newest first, and not after being unregistered.',
  ['inputs', 'histories'], 'every nesting, every registered value, every throw point',
  'test-exceptions fixes a few nestings and two or three exceptions; it does not vary registrations or the state left behind.',
  ['src/except.c', 'include/except.h'], [('ex_throw', 'src/except.c'), ('try_start', 'src/except.c'), ('try_next', 'src/except.c'), ('try_finish', 'src/except.c'), ('ex_protect_ptr', 'src/except.c'), ('ex_unprotected_ptr', 'src/except.c')],
  [('context chain', 'stack of active try blocks per thread', 'src/except.c')])

p('C09', 'Base64 encoding and decoding are inverse and stay in bounds',
  'Encoding any text gives its standard padded base64 form, decoding that form gives back the same bytes, and a string passes the base64 test exactly when it is not empty and consists only of the base64 alphabet and the padding sign. Both directions write only inside the destination and refuse a destination that is too small. Decoding refuses text with other characters or whose length is not a multiple of four.',
  ['inputs'], 'every byte string and every destination size',
  'test-arrays style checks use one or two sample strings; lengths modulo 3, padding and too-small buffers are not swept.',
  ['src/arrays.c'], [('str_encode64', 'src/arrays.c'), ('str_decode64', 'src/arrays.c'), ('str_is_base64', 'src/arrays.c')])

p('C10', 'String helpers return exactly the text they promise, within bounds',
  'Copying with a limit, trimming, padding, repeating, concatenating, replacing, splitting, searching, counting, comparing without case, changing case and formatting numbers give exactly the text or answer their documentation promises, for empty, boundary and longest inputs too. The source text is never changed unless the operation is documented to work in place. None of them reads or writes outside the strings and buffers it is given.',
  ['inputs'], 'every string content and length, every count, position and limit',
  'The tests call each helper on one or two ordinary strings; empty strings, negative numbers, zero lengths and absent needles are left out.',
  ['src/arrays.c'], [('str_lcpy', 'src/arrays.c'), ('trim', 'src/arrays.c'), ('str_pad', 'src/arrays.c'), ('str_repeat', 'src/arrays.c'), ('str_swap_ex', 'src/arrays.c'), ('str_split_ex', 'src/arrays.c'), ('str_itoa', 'src/arrays.c'), ('mempos', 'src/arrays.c')])

p('C11', 'A parsed URI is exactly its parts, and malformed ones are refused',
  'Parsing a URI yields scheme, user, password, host, port, path, query and fragment that are exactly the corresponding pieces of the text, with control characters replaced, and a port that is the written number in 0..65535. Text that is not a URI (an over-large or non-numeric port, a missing host) is refused. Parsing never reads outside the text and never changes it.',
  ['inputs'], 'every text, in particular every placement of the delimiters',
  'test-parse_uri has a dozen fixed URIs; delimiter placements and over-long ports are not explored.',
  ['src/arrays.c'], [('url_parse_ex2', 'src/arrays.c'), ('parse_uri', 'src/arrays.c')])

p('C12', 'A task\'s result is its own, available once it is ready',
  'Every task with a result gets a fresh result number, and its result slot is created not ready. Storing a result makes exactly that task\'s slot ready with exactly that value; asking for a result returns that value and nothing else, and asking for one that is not ready, cancelled or unknown is reported as such. Growing the result table preserves every stored result.',
  ['inputs', 'histories'], 'every number of tasks, every result number and value, every table size',
  'The tests await a few results from a small table; growth, cancelled and unknown numbers are not reached.',
  ['src/events.c'], [('tasks_create_result', 'src/events.c'), ('tasks_result_set', 'src/events.c'), ('results_for', 'src/events.c'), ('task_is_ready', 'src/events.c')],
  [('results', 'table of result slots indexed by result number', 'src/events_internal.h')])

p('C13', 'A promise delivers its value once, to its own waiter, with its error',
  'A value placed in a promise is exactly the value read from it, the promise is done only after a value was placed, and it is read without changing it. Queued work carries its function, arguments and thread to the worker unchanged, and an error in the worker is reported to the requester as that error. Work is spread over the workers in rotation.',
  ['inputs', 'histories'], 'every value, every argument list, every number of workers and requests (one thread at a time)',
  'test-queue_work and test-future queue a few jobs with simple values.',
  ['src/future.c'], [('promise_set', 'src/future.c'), ('promise_get', 'src/future.c'), ('queue_work', 'src/future.c'), ('queue_get', 'src/future.c')])

p('C14', 'Reads, writes and copies transfer every byte, in order, or report the error',
  'A completed write has handed the kernel every byte of the buffer, in order and once, however the kernel splits the transfer or reports it would block. Copying a file transfers the whole file or fails, and a failure is reported as the failure the system gave. A read reports exactly the bytes received, and end of stream as zero.',
  ['inputs', 'fault_sequences'], 'every buffer and file length, every sequence of short transfers, would-block reports and errors from the kernel',
  'The tests move a few short messages that never split; short transfers and errors cannot be provoked from a test.',
  ['src/async_io.c', 'src/os_unix.c'], [('async_write', 'src/async_io.c'), ('async_read', 'src/async_io.c'), ('os_copyfile', 'src/os_unix.c')])

p('C15', 'Stand-in descriptors never alias and never leak into real ones',
  'A descriptor number handed out for a process, watch or other non-kernel resource is valid, distinct from every one still in use, and maps to exactly the resource it was made for until it is freed. A freed number maps to nothing and can be handed out again. Invalid numbers are recognised as invalid, and closing a stand-in closes only what it stands for.',
  ['inputs', 'histories'], 'every table state, every number',
  'Tests create one or two such descriptors; exhaustion, reuse and invalid numbers are not reached.',
  ['src/os_unix.c'], [('events_new_fd', 'src/os_unix.c'), ('events_valid_fd', 'src/os_unix.c'), ('events_get_fd', 'src/os_unix.c'), ('events_free_fd', 'src/os_unix.c'), ('os_close', 'src/os_unix.c')])

p('C16', 'Sorting yields an ordered permutation of its input',
  'Sorting a buffer of equally sized elements leaves exactly the same elements, ordered by the given comparison, for any element count and size. The comparison is only ever given elements of the buffer and the caller\'s argument. Nothing outside the buffer is touched.',
  ['inputs'], 'every element count, element size and content, every comparison that is a total order',
  'No test sorts more than a few elements.',
  ['src/arrays.c'], [('memsort', 'src/arrays.c')])

p('C17', 'A generator hands over each yielded value once, in order',
  'Each value a generator yields is received by its consumer exactly once and in the order yielded. The generator does not run ahead of its consumer and its consumer does not see a value before it is yielded. A finished generator yields no further value.',
  ['inputs', 'histories'], 'every sequence of yields and requests, every value',
  'test-yielding runs one short generator.',
  ['src/events.c'], [('yielding', 'src/events.c'), ('yielded', 'src/events.c')])

p('C18', 'Memory wrappers return usable, aligned, zeroed memory and keep errno',
  'Allocation through the library returns memory of at least the requested size, zeroed where promised and aligned where promised, from the allocator the program installed; resizing keeps the contents. Freeing accepts null and does not disturb the error number. Installing allocators takes effect for all of them or none.',
  ['inputs', 'configurations'], 'every size and alignment, every installed allocator',
  'No test installs an allocator or asks for aligned memory.',
  ['src/events.c'], [('events_set_allocator', 'src/events.c'), ('events_memalign', 'src/events.c'), ('events_free', 'src/events.c'), ('events_calloc', 'src/events.c')])

p('C19', 'Addresses and host:port texts are read exactly or refused',
  'A dotted address with a port, a bare port or a host:port text is read as exactly those four octets and that port number. Text that is not of that form is refused. Reading never writes outside its buffers, and leaves its input as documented.',
  ['inputs'], 'every text',
  'The tests bind and connect to one or two fixed local addresses.',
  ['src/async_io.c', 'src/os_unix.c'], [('async_parse_addr', 'src/async_io.c'), ('str_parseip', 'src/async_io.c')])

p('C20', 'File-watch reports name each change once and completely',
  'Every file-system notification read from the kernel is reported to the watcher exactly once, in order, with the file name and the kind of change the kernel gave. Names are passed on complete. Decoding never reads outside the bytes received.',
  ['inputs'], 'every batch of notifications of every length',
  'The one watch test fails in this environment and decodes one event at a time.',
  ['src/os_unix.c'], [('inotify_handler', 'src/os_unix.c'), ('inotify_next', 'src/os_unix.c')])

p('C21', 'Each signal calls exactly its registered handlers, once per delivery',
  'A delivered signal calls the handler registered for it exactly once, with its argument, and no other handler. Registering again for the same signal replaces the earlier registration; removing it stops calls and restores the default. Registration beyond the capacity, or of an invalid signal, is refused.',
  ['inputs', 'histories'], 'every signal number, every state of the table',
  'The tests register one signal once.',
  ['src/events.c'], [('events_add_signal', 'src/events.c'), ('events_del_signal', 'src/events.c'), ('events_sig_handler', 'src/events.c')])

p('C22', 'A spawned process gets the requested environment and its exit is reported',
  'A process is started with exactly the program, arguments and environment entries requested, each name paired with its value in full. Its exit status is reported as the status it exited with. Building its argument and environment lists never reads or writes outside them.',
  ['inputs'], 'every argument list and environment entry, every exit status',
  'test-spawn starts two programs with short arguments.',
  ['src/os_unix.c', 'src/async_io.c'], [('exec_addenv', 'src/os_unix.c'), ('exec_wait', 'src/os_unix.c')])

p('C23', 'Command-line options are found exactly as given',
  'An option registered with a short or long name is reported present exactly when it appears on the command line, and its value is exactly the text that was given for it. Arguments are never modified. Reading options never looks outside the argument list.',
  ['inputs'], 'every argument list',
  'test-getopts checks one command line.',
  ['src/getopt.c'], [('getopt_has', 'src/getopt.c'), ('getopts', 'src/getopt.c')])

p('C24', 'Switching tasks preserves everything a task was doing',
  'A task that is switched away from and later resumed continues exactly where it left off, with its local state, stack and registers intact. A task never overruns its stack silently. Switching returns to exactly the task that was chosen.',
  ['programs', 'schedules'], 'every program and every interleaving of its tasks',
  'Tests run small tasks; the guarantee is about every program.',
  ['src/asm.c', 'src/events.c'], [('coro_switch', 'src/asm.c'), ('task_switch', 'src/events.c')])

p('C25', 'Tasks moved between threads run exactly once under every interleaving',
  'When several threads run tasks, each task is run by exactly one of them, and none is lost, whatever the interleaving of pushes, takes and steals. A result, a promise or a group is completed exactly once and its waiter is woken. Shutting down waits for the work in progress.',
  ['schedules'], 'every interleaving of the worker threads',
  'A test run samples a few interleavings.',
  ['src/deque.c', 'src/future.c', 'src/events.c'], [('deque_steal', 'src/deque.c'), ('deque_push', 'src/deque.c')])

p('C26', 'Waiting for a group of tasks returns exactly when all have finished',
  'Waiting for a group returns only after every task of the group has finished, and does return then. The results it gives are those of exactly those tasks. Other tasks keep running meanwhile.',
  ['schedules', 'histories'], 'every group size and completion order',
  'test-waitgroup and test-task_group use a few tasks in one order.',
  ['src/events.c'], [('waitfor', 'src/events.c'), ('waitgroup', 'src/events.c')])

p('C27', 'Encrypted connections carry the same bytes and verify their peer',
  'Data written on an encrypted connection arrives unchanged and in order, and a connection is only established with a peer whose certificate checks out as configured. A failed handshake is reported. Closing ends the encrypted session.',
  ['inputs', 'fault_sequences'], 'every message and every handshake outcome',
  'The TLS module cannot be built here.',
  ['src/async_tls.c'], [('tls_reader', 'src/async_tls.c'), ('tls_writer', 'src/async_tls.c')])
