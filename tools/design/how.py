# how each property is decided: (what is specified and analysed, oracle, bounds)
HOW = {
'H01': ('Every load, store and bulk copy of the HTTP readers and writers is an obligation: offset ≥ 0 and offset + size ≤ size of the region, where the caller\'s buffer has an unknown size from 1 and the text an unknown length.',
        'The size given with the buffer; the terminator of the text; the members of the stream objects.',
        'None: all sizes and lengths. The stream buffer is a model that delivers any byte or ends or throws at any call.'),
'H02': ('The turn (the state a reader or writer is in) is a ghost variable, set to each of its values; each of the operations is called at each turn. The harness asserts: out of turn → logic error thrown, no call of the stream buffer, same turn; in turn → the next turn according to a table written from RFC 7230.',
        'A hand-written table of the message grammar in the harness, independent of the constants of the library.',
        'None. Sequences follow by induction over the turn; the turn is the only state the operations depend on (the others are havoc).'),
'H03': ('A ghost counts operations on the stream since it ended, failed, or since the last character was consumed; it must stay below a constant, at every loop head, so no loop can continue on a dead stream.',
        'The count: at most a few looks per consumed character, and a fixed number after the end.',
        'None on input. Whether a *live* stream ends is the peer\'s business.'),
'H04': ('The model records the last two bytes consumed; when an element returns with the stream still good, they must be CR LF (or the colon).', 'RFC 7230 line ends.', 'None.'),
'H05': ('The model of the output classifies every byte that is written (exact sets of byte values): CR, LF, other control, visible. A ghost automaton accepts text, then CR, then LF, then nothing.', 'RFC 7230: field content has no control characters but the tab.', 'None: the text is any string.'),
'H06': ('At return of a reader, the domain must know a terminator inside the buffer (`vf_is_text`), the count reported must not exceed what the model delivered, and for a body must equal it.', 'Bytes the model delivered.', 'None.'),
'J01': ('As H01, for JSON: the token buffer has any size from one token; the reader\'s own members (bit set of levels, digits of a number) are bounded by their declared size, also within the object.', 'Declared sizes.', 'The depth limit is a template argument: 64 and 8 levels are looked at, each with every depth.'),
'J02': ('As H03 for JSON.', 'Operations per character.', 'None.'),
'J03': ('The ghost is the state of a push-down automaton for the JSON grammar over the characters the model delivers: expected next character classes, and the container that is open. The reader\'s level bits are compared with the ghost\'s at the top three levels.', 'RFC 8259.', 'Nesting: any depth; three levels around the current one are followed exactly, the others by an invariant.'),
'J04': ("The characters the writer emits are an output automaton's input: quotes around strings and names, escapes for quotes, backslashes and control characters, a colon after a name, a comma exactly between elements, the matching bracket. Every operation runs in every state of a writer.", 'RFC 8259, written as an automaton in the harness.', 'Digits of numbers come from the C library and are a model that yields number characters; depth by an invariant on the level bits, three levels exactly.'),
'J05': ('Each token in each state of the writer: where the grammar forbids it the stream must be not good afterwards; where it allows it, the next state must be that of the grammar.', 'A table of which token may follow which, in the harness.', 'As J04.'),
'J06': ('A buffer of each size from none: too small ⇒ logic error and the model of the stream was not called; else no logic error.', 'Size of a token.', 'None.'),
'J07': ('`vf_is_text` on the string at return.', 'Size of the token buffer.', 'None.'),
'S01': ('open, dup-like assignments and close of descriptors are models on three ghost descriptors with a typestate (never opened, open, closed). Each constructor, operation, move, and destructor of the socket classes runs from every state of a socket; close of a descriptor that is not open, use after close, or an open one nobody has at the end is a violation. addrinfo lists likewise.', 'POSIX: a descriptor is closed once, by whoever owns it.', 'Three descriptors; all results of all calls.'),
'S02': ('The results of bind, connect, listen, getaddrinfo are ghosts; a call that returns normally must be justified by a success.', 'Man pages of the calls.', 'Lists of addresses of any length.'),
'S03': ("The descriptor, kind of socket, buffer and size are unknown; the models of send/recv assert that they are only called with an open descriptor, the right kind and no more than the caller's buffer; the result is compared with theirs.", 'POSIX.', 'None.'),
'S04': ('As S01 for SSL and SSL_CTX objects: a typestate per object (none, live, released), moved between sockets; use after release, a second release, and a live one that nobody has are violations. Every step of the set-up and the handshake may fail.', 'OpenSSL documentation: who frees what.', 'One context and two sessions at a time, as in the classes.'),
'S05': ('The results of SSL_connect, SSL_accept, verification set-up and loading of certificates are ghosts; a call that does not throw must be justified by them, and reading/writing asserts them.', 'OpenSSL documentation.', 'None.'),
'S06': ('The stream buffer over a socket: get and put pointers stay inside their arrays, what sync and overflow hand to send() is exactly what was put since, in order; underflow shows exactly what receive() delivered; a move takes what is pending with it.', 'The sequence of bytes, as ranges of the arrays.', 'Buffers of the size in the class; any fill.'),
'L01': ('Every call of put_any & co. on a log pointer that may be null, in all harnesses.', 'The pointer is not null in that state.', 'None.'),
'L02': ('Every formatted diagnostic in all harnesses: the format must be a constant (read from the IR), its conversions must agree with the IR types of the arguments in number, width and kind; an argument of %s must be a terminated text in that state, or the precision must lie within its region.', 'ISO C printf.', 'None.'),
'T01': ('As H01 for lines of several sizes; each operation on a line in any fill; severities up to the maximum.', 'Declared sizes.', 'Lines of 17, 32, 100, 128, 256 characters.'),
'T02': ('The table is a model that counts and inspects the lines it is given, and may throw; a ghost counts lines per text. Reaching std::terminate is an obligation that must be unreachable.', 'One line per flush of a line that has text.', 'None.'),
'T03': ('Filter and severity are unknown; entries written are compared with the order of severities.', 'severity of entry ≤ severity of filter ⇔ written.', 'None.'),
'V01': ('pins are counted per page in ghosts by a model of the pool; each constructor, assignment, move, free, destructor from every state of one or two references.', 'Pins = references that point to the page.', 'Two pages stand for all, as references only compare positions.'),
'V02': ('mmap, munmap, msync, close are models; ghosts say which of four pages is mapped where, and how often each is pinned. Every operation on every table of three slots that satisfies the invariant (slots in use are dense, unique; totals cover the parts).', 'Ghost of the mappings.', 'Three slots (four when full); four pages; sums of counters as linear forms.'),
'V03': ('A list is a few pages around the place of change, plus far pages with unknown positions; the links of every page in view are compared with what they must be after success, and with what they were after failure.', 'Doubly linked list.', 'Lists of any length by locality: code reads only pages it has pinned, and asking for any other page is a violation.'),
'V04': ('open, lseek, write, ftruncate, close on a ghost file; the list of free pages is a list as in V03 that starts in the root page; the pool\'s calls re-enter the list and are unrolled 16 calls deep.', 'The ghost file: whole pages, grows at the end.', '16 nested calls, which suffices (an obligation).'),
'V05': ('The pages around the place of change, with any counts of items, and an item at any place on any of them that is watched: its place afterwards is computed from the counts, and the page must hold it there. Items are bytes at symbolic offsets that memory copies move.', 'The sequence of items: the watched item keeps its distance to the change.', 'Pages with room for 508 items and for one; three neighbours, by locality as in V03. Ranges: three items, chosen places.'),
 'V07': ('A map over three modelled pages. The keys have no values: a comparison with the key that is looked for is answered by the place of the other key on its page, of which a symbolic number come before the wanted one. So the outcome of the search is decided for every number of keys and every place, whatever way the search takes. The levels, the path and the items are containers whose calls are modelled.', 'The number of keys before the wanted one, and the page that the last key not greater leads to.', 'At most two levels of keys; keys on a page are in order and unlike (V05 keeps the order of items). Splits and merges of pages are left out, so update_key_levels is analysed without them.'),
 'V06': ('A stream over a string whose containers are replaced by a model of a sequence; the stream is in any state (at any place, with or without a character held in either direction), then one call.', 'Which characters were appended or read by the call, and what is held after it; longer histories follow by induction over what is held.', 'The string itself is decided by V03 and V05. A character that was written and never flushed is not appended.'),
'E01': ('Modelled HTTP stream (typestate of request and response), file, counters, threads; the handlers are analysed on their own, and replaced by any response where the request as a whole is analysed.', 'Message order and the sum of the sizes of the body against the number that was formatted.', 'None.'),
'E02': ('The same; texts that arrive fill their buffer, the root dir is a string of any length.', 'Sizes of the buffers.', 'None.'),
'E03': ('A segment ".." is put at a symbolic place of the resource; strstr returns some place up to it. No file may be touched then, and otherwise only the path.', 'No call of stat or open.', 'The search uses strstr; a hand-written scan would need a loop invariant the analyser does not find.'),
'E04': ('Thread-modular: one request is analysed while the shared atomics return any value others can cause (a flag that is set stays set); ghosts record its own increments, decrements, looks at the flag and claims of completion, and their order is asserted.', 'The protocol that makes the signal unique: count, look, respond, uncount, look, claim, signal.', 'Sequentially consistent atomics, as in the source.'),
'E05': ('Ghost listener and connection: bound, listening, accepted, handed over.', 'Order of the calls and fate of each connection.', 'None.'),
'E06': ('Modelled HTTP stream (typestate of request and response), file, counters, threads; the handlers are analysed on their own, and replaced by any response where the request as a whole is analysed.', 'The outcome as a table of method, kind of file and success of opening.', 'None.'),
'H07': ('The harness of H02 and H05; a ghost says whether something was put since the last flush.', 'Nothing is left unflushed when the call returns.', 'None.'),
 'M01': ('Modelled file buffer (open, closed, what is in the put area), clock and `snprintf`; the constructors, `reopen` and the move are interpreted.', 'A typestate of the file, the room that is left for a name, and terminated texts.', 'Where the folder ends in the name is decided for two short folders, room and bounds for all.'),
 'M02': ('The same model; what the file buffer keeps or writes out is arbitrary.', 'A ghost counts what went to the file; the decision is compared with the size or the age.', 'None.'),
 'G01': ('Modelled bus: taking the lock makes the address arbitrary (what other threads left), with the remembered one equal to it; every operation is interpreted with every failure.', 'Rely and guarantee: the set address is that of the target at every transfer, the lock is held then, and the remembered address is the set one when the lock is released.', 'A failure to set an address leaves the address unchanged.'),
 'G02': ('The same model.', 'A ghost records whether the transfer was done or refused; the result is compared with it, with a log and without.', 'None.'),
 'G03': ('The same model; the structures handed to the system are read by it.', 'Kind, direction, register and value of the structure at the transfer, and of the results after it, as linear expressions; bounds of every access.', 'The kernel is trusted not to deliver more than 32 bytes of a block.'),
 'G04': ('Modelled `open`, `close` and `ioctl`, each of which may fail.', 'A typestate per descriptor: not handed out, open, closed; numbers of open descriptors at the ends; terminated texts.', 'Three descriptors are told apart.'),
 'G05': ('The same model, with a pin.', 'Contents of the request; a ghost records what the pin was read as or set to.', 'None.'),
 'G06': ('Constructors and setters interpreted with arbitrary arguments.', 'Every divisor is shown to be at least 1; the register and value of every put.', 'Clocks up to 1 GHz; widths up to 2^32 microseconds; how accurate a pulse is remains undecided.'),
 'G07': ('Modelled reads that may fail, on an arbitrary word; one channel is looked at at a time, while the others do anything.', 'Ghosts record whether the channel was read; results are compared with the word.', 'Calibration is decided for two channels; conversion to physical units is floating point and not decided; the distance is decided for the limits of 10, 400 and 500 cm.'),
 'G08': ('Modelled threads, locks and conditions; taking the lock, also when waiting ends, makes arbitrary what others may set.', 'A typestate of the thread; flags at every sleep; what is set is published under the lock before notification.', 'That a wait of limited time ends, and that notified threads run, is trusted.'),
 'G09': ('The same model; the level of the line is a ghost.', 'The level at every sleep on a constant level and at the end.', 'How long pulses are is not decided.'),
 'D01': ('A date is built up from its parts (cycle of 400 years, century, group of 4 years, year, month, day, each any value in its range; a time from hours to nanoseconds), the number of days or nanoseconds is their sum, and the real conversion is interpreted on that sum.', 'Each part of the result is the part it was built from; the calendar of the harness is the Gregorian one, 1 March to 28 or 29 February.', 'Cycles 0 to 70 (28,000 years), which is beyond what a clock in 64-bit nanoseconds can tell; moments before 1970 are not decided.'),
 'D02': ('All pairs of timestamps, split into earlier day, later day, same day and earlier, later or same time.', 'All six comparisons against the order of the pair.', 'None.'),
 'A01': ('Every class and mapping is interpreted on whole ranges of characters, from -128 to 127, that its definition takes or leaves.', 'The definitions, written down as ranges in the harness.', 'None.'),
 'A02': ('Texts are built of letters that agree (in case, or but for case) up to a place and then end, reach the limit or differ there.', 'The result of the comparison.', 'The place is at most the third character; longer texts rest on the loop treating every place alike. The bounds of reading texts of any length are not decided.'),
 'B01': ('The stream buffer over ranges of any size, moved after any amount of reading and writing.', 'The six pointers of std::basic_streambuf, which its documentation ties to what is read and written.', 'Amounts up to 2^30, the most that std::basic_streambuf can step at once; char only.'),
}
