CLAIMS = {
 'C01': 'Ordering, deadlines, expiry and elapsed time are discharged for every duration and clock value; the pending lists are of bounded length, represented by their neighbours where the operation only touches those. Assumes the clock source and that the scheduler gives control back.',
 'C02': 'Queue operations are discharged for a queue of any length (the untouched part is represented by opaque links); pooled tasks and group waiting are bounded. Assumes context switching works (C24).',
 'C17': 'The waiting loops are bounded by a number of turns of the other side; values and states are unconstrained. Assumes context switching works (C24).',
 'C03': 'The wheel is checked on tables of 32 descriptors with any times, marks and timeouts; the clock is the one the loop takes once per turn. Timeouts ending beyond the wheel are excluded.',
 'C19': 'Bounded: every text up to the stated length, and every text of digits in the stated shapes. White space and signs inside the text, which sscanf skips, are excluded; so are version six addresses, for which only memory safety is checked. str_parseip was repaired but has no contract.',
 'C18': 'Discharged for every size, address and installed allocator (aligned requests up to 2^40 bytes). Assumes the system allocator is correct.',
 'C15': 'Mapping, assigning, freeing, closing and reading are discharged for any number over a table of 4 entries with any contents; handing out a number and growing the table are loops over the table, so bounded by its size. The kernel calls are taken to behave as documented. The numbers share the range of kernel descriptors by design; that overlap is not judged.',
 'C21': 'Registration, removal and delivery are discharged for any table of handlers and any signal number; the loop bookkeeping is checked for two signal numbers. A handler that changes its own registration is checked for five places in the table. Assumes signals are not delivered in the middle of a registration and the system calls work as documented.',
 'C04': 'Registration, change and removal are discharged for any record, mask and kernel answer over a table of 3 descriptors; a polling pass for up to 3 reports. epoll is taken to behave as documented.',
 'C05': 'Contracts on append, remove, pop, shift and the views are discharged for every capacity up to 2^20; typed append and construction loops are bounded. Assumes the allocator and memmove behave as libc documents. Growth past capacity is a recorded known finding.',
 'C09': 'The acceptance test is proved by a loop contract over the real function; encoding and decoding are bounded by text length.',
 'C10': 'Number formatting and the loop-free helpers are discharged for every input; text loops are bounded by text length, for every content.',
 'C16': 'Bounded by element count and size, for every content.',
 'C06': 'Push, take, steal, peek, size and growth are checked from any index position and content, for a bounded array size. Sequential use by one thread only; the atomics are taken at their sequential meaning.',
 'C07': 'Scope unwinding and registration with a bounded number of entries; array operations are used through their C05 contracts. Registration during the unwinding itself is excluded.',
 'C22': 'Starting and waiting are discharged for any descriptors and kernel answers (waiting: up to 3 interruptions); the environment and argument texts are bounded by length, for every content. A program name containing a comma is excluded (the documented separator). A positive wait timeout blocks until the child ends; not judged.',
 'C08': 'Entering, leaving, throwing and propagating are discharged for any state; registered values and names are bounded in number and length. setjmp and longjmp are trusted; so is delivery of a signal as an exception. fence() is not covered.',
 'C13': 'The value and the error number are unconstrained; the number of turns waited is bounded. A list as the result of a thread is not covered (the same step is, in queue_get). One thread at a time; what several threads do at once is C25.',
 'C14': 'Whole-buffer reads, writes and the copy of a file are discharged by loop contracts for any number and size of partial transfers; os_copyfile is bounded. The kernel calls are taken to behave as documented.',
 'C23': 'Bounded by the number and length of arguments, for every content. A word asking for help ends the search, by design; so a help word as the value of an earlier option is excluded. A value that looks like an option counts as one: the interface knows no list of options.',
 'C12': 'Result numbers and values are unconstrained; the table is of bounded size. Single-threaded use.',
}
NA = {
 'C24': 'The guarantee is about hand-written assembly and the machine stack, which a C contract verifier does not see.',
 'C25': 'A property of all interleavings of several threads: sequential function contracts say nothing about it (the single-threaded part is C06, C12 and C13).',
 'C26': 'A liveness and scheduling property of whole runs across coroutine switches; no contract over one call expresses it.',
 'C27': 'The TLS module is not compiled in this environment (its library is absent), so there is no code under test to attach contracts to.',
}
