# The properties: what they say, and which obligations of which harness decide them.
# use: (harness, topics of obligations, [regex of entries])
AI = 'abstract interpretation of LLVM IR'
TRUST = ('Proof by abstract interpretation over every value of the inputs, including all streams and all faults of the modelled calls. '
         'Trusted: clang front end, the analyser, the models of external functions in harness/.')
PROPS = {}
NA = {}
def P(id, title, statement, over, text, why, files, mech, use, min=1, note='', technique=AI, **k):
    assert len(title) <= 80, (id, len(title))
    PROPS[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, use=use, min=min, note=(TRUST + ' ' + note).strip(), technique=technique, **k)
def N(id, title, statement, over, text, why, files, mech, reason):
    assert len(title) <= 80, (id, len(title))
    NA[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason)

HTTP = ['src/http.h', 'src/i/http.i.h', 'src/ascii.h', 'src/i/stream.i.h']
P('H01', 'HTTP streams never touch memory outside the caller\'s buffer',
  'Whatever bytes arrive, whatever non-empty buffer the caller passes and however the stream fails, reading an element of an HTTP message stores only inside that buffer and reports a count that fits it. Writing an element reads only inside the text it was given.',
  ['inputs', 'fault_sequences'], 'every input, every buffer size from 1, every text, every element, every state the stream may be in',
  'The tests read a few well-formed messages into roomy buffers; an overflow needs an element that ends exactly at the last bytes of a buffer.',
  HTTP, [('bounded copy of characters', 'src/http.h http_istream::get_chars'), ('separator check in header values', 'src/http.h http_istream::get_header_value'), ('protocol checks', 'src/http.h http_istream::get_protocol')],
  [('http_read', {'bounds'}), ('http_write', {'bounds'}), ('http_write_body', {'bounds'})], 20)
P('H02', 'HTTP elements can only be read and written in message order',
  'An HTTP stream accepts an element only in its turn; a call out of turn is rejected with a logic error, consumes and emits nothing, and leaves the turn unchanged. After an accepted element the turn is that of the next element of the message, and reset starts a new message.',
  ['histories', 'inputs'], 'every element called at every turn, with every input and text, on every stream state; sequences follow by induction over the turn',
  'Tests call the elements in the right order on good streams; 8 x 26 combinations of turn and call, each with failing streams, are not tried.',
  HTTP, [('turn', 'src/http.h http_state::assert_next'), ('advance after reading', 'src/http.h http_istream::set_gstate'), ('advance after writing', 'src/http.h http_ostream::set_pstate')],
  [('http_read', {'order'}), ('http_write', {'order'}), ('http_write_body', {'order'})], 50)
P('H03', 'HTTP readers stop when the stream ends or fails',
  'Once the input of an HTTP reader has ended or failed, the running call does only a fixed number of further operations on the stream and returns; on a live stream it looks at a character only a fixed number of times before it consumes it. So no call spins on a dead connection or on input it cannot use.',
  ['fault_sequences', 'inputs'], 'end or failure of the stream at every character of every input, and streams that are dead to begin with',
  'Tests end the input only at the end of complete messages.',
  HTTP, [('loops stop on a stream that is not good', 'src/http.h http_istream::get_chars, skip_chars, get_bytes, get_header_value')],
  [('http_term', {'term'})], 10)
P('H04', 'HTTP readers accept an element only with its delimiter',
  'A reader leaves the stream good after a line of the message only if CR LF was consumed at its end, and after a header name only if the colon was consumed. A bare CR, a missing line end or a missing colon makes the stream not good.',
  ['inputs', 'fault_sequences'], 'every input and every end or failure of the stream',
  'Tests feed well-formed lines only; accepting other delimiters is how requests are smuggled.',
  HTTP, [('line end', 'src/http.h http_istream::skip_crlf'), ('colon', 'src/http.h http_istream::get_header_name')],
  [('http_term', {'framing'})], 3)
P('H05', 'HTTP writers emit no control characters but their own line ends',
  'Whatever text the caller passes for any element but the body, the only CR and LF characters an HTTP writer emits are the CR LF that end the line, emitted once and at the end, and every other character is a visible ASCII character, a blank or a tab. While the stream is good, each element ends the way the format asks for: a line end after protocol (request), reason phrase, header value and headers, text after the others.',
  ['inputs', 'fault_sequences'], 'every text of every length for every element, and every failure of the stream',
  'Tests write benign text; header injection needs line ends hidden in a value.',
  HTTP, [('character classes', 'src/ascii.h is_abcprint, is_token, is_digit'), ('filtered copy', 'src/http.h http_ostream::put_chars'), ('line end', 'src/http.h http_ostream::put_crlf')],
  [('http_write', {'frame'})], 30)

P('H07', 'HTTP writers send each element before their call returns',
  'When a call that writes an element of an HTTP message returns and the stream is good, everything the element consists of has been flushed to the other side. So a peer never waits for an element that was written, whatever is written later or not at all.',
  ['inputs', 'fault_sequences', 'histories'], 'every element with every text, every failure of the stream',
  'Tests write into buffers that show what was written whether it was flushed or not.',
  HTTP, [('flush with every element', 'src/http.h http_ostream::set_pstate'), ('flush', 'src/stream.h ostream::flush')],
  [('http_write', {'sent'}), ('http_write_body', {'sent'})], 7)

JSON = ['src/json.h', 'src/i/json.i.h', 'src/ascii.h', 'src/i/stream.i.h']
P('J01', 'JSON streams never touch memory outside the caller\'s buffers and their own',
  'Whatever bytes arrive, whatever token buffer of at least one token the caller passes and however the stream fails, reading a token stores only inside that buffer and inside the reader, and the nesting depth stays within the limit of the reader. Writing a token reads only inside the text it was given and stores only inside the writer.',
  ['inputs', 'fault_sequences'], 'every input, every buffer size, every text, every depth, every state the stream may be in',
  'The tests read short well-formed documents into roomy buffers; an overflow needs a string, number or nesting that ends exactly at a limit.',
  JSON, [('bounded copy of characters', 'src/json.h json_istream::get_chars, get_or_skip_string'), ('digits of a number', 'src/json.h json_istream::get_or_skip_number'), ('nesting limit', 'src/json.h json_state::push_level, pop_level'), ('escaping', 'src/json.h json_ostream::put_string_content')],
  [('json_read', {'bounds'}), ('json_write', {'bounds'}), ('json_write3', {'bounds'})], 18)
P('J02', 'JSON readers stop when the stream ends or fails',
  'Once the input of a JSON reader has ended or failed, reading a token or skipping a value does only a fixed number of further operations on the stream and returns; on a live stream a character is looked at only a fixed number of times before it is consumed. So no truncated or malformed document makes the reader spin.',
  ['fault_sequences', 'inputs'], 'end or failure of the stream at every character of every input, at every depth, and streams that are dead to begin with',
  'Tests end the input only at the end of complete documents.',
  JSON, [('loops stop on a stream that is not good', 'src/json.h json_istream::get_chars, skip_chars, get_or_skip_string, skip_value')],
  [('json_read', {'term'})], 10)
P('J03', 'JSON readers accept a token only where the grammar allows it',
  'A JSON reader delivers a token on a good stream only if the open arrays and objects allow it there: names only directly inside an object and followed by a colon, values only where a value may stand, a closing bracket only for the level that is open, elements only when a comma or the closing bracket follows. The reported nesting follows the brackets, and anything deeper than the limit is refused.',
  ['inputs', 'histories'], 'every state of the nesting (up to four levels) and every input',
  'Tests read well-formed documents and a few malformed ones; mismatched brackets in each context are not tried.',
  JSON, [('token dispatch', 'src/json.h json_istream::get_or_skip_token'), ('nesting', 'src/json.h json_state::push_level, pop_level, set_expect_property')],
  [('json_nest', {'nest'}), ('json_nest3', {'nest'})], 40, note='The nesting limits of the analysed instances are 2 and 4.')
P('J04', 'JSON writers emit well-formed tokens and separators',
  'While the stream is good, every token a JSON writer accepts is emitted completely and as JSON demands: literals spelled right, strings and names quoted with quotes, backslashes and control characters escaped, a colon after a name, a comma exactly between the elements of an array and between the properties of an object, and the matching bracket.',
  ['inputs', 'histories', 'fault_sequences'], 'every kind of token in every state of the writer (nesting up to four levels), every text of every length, every failure of the stream',
  'Tests write a handful of documents with plain ASCII text.',
  JSON, [('separators', 'src/json.h json_ostream put_ functions, _skip_comma'), ('string contents', 'src/json.h json_ostream::put_string_content')],
  [('json_write', {'json'}), ('json_write3', {'json'})], 100, note='The text of numbers is left to the C library.')
P('J05', 'JSON writers refuse a token in the wrong place',
  'A JSON writer accepts a value where a value may stand, a name only directly inside an object, and a closing bracket only for the level that is open; any other token, and nesting beyond the limit, leaves the stream not good. After an accepted token the reported nesting follows the brackets and the next token of the document is accepted.',
  ['histories', 'inputs'], 'every kind of token in every state of the writer (nesting up to four levels)',
  'Tests write well-formed documents; the combinations of token and state are not tried.',
  JSON, [('expected property', 'src/json.h json_state::expect_property, set_expect_property'), ('nesting', 'src/json.h json_state::push_level, pop_level')],
  [('json_write', {'order'}), ('json_write3', {'order'})], 70)
P('J06', 'A JSON reader rejects a token buffer that cannot hold a token',
  'Reading a token without a buffer, or with one smaller than a token, is rejected with a logic error before any input is consumed; any larger buffer is accepted.',
  ['inputs'], 'every buffer size, every input, every state of the stream',
  'One size is tested.',
  JSON, [('argument checks', 'src/json.h json_istream::get_token')],
  [('json_read', {'args'})], 1)

SOCK = ['src/socket.h', 'src/i/socket.i.h']
TLS = ['src/openssl_socket.h', 'src/i/openssl_socket.i.h']
P('S01', 'A socket closes its descriptor exactly once and never leaks it',
  'However the calls of the operating system fail and whichever exceptions that causes, every descriptor and address list a socket obtains is given back exactly once: by closing, by destruction, or by the socket it was moved to. A socket holds at most one descriptor, is open exactly while it holds one, and never uses one it has given back.',
  ['fault_sequences', 'histories'], 'every combination of failures of the system calls, for every public call in every state of the socket, with address lists of any length',
  'Tests connect to the loopback successfully; failures of socket, bind, connect, accept and of the handshake are not injected.',
  SOCK + TLS, [('closing', 'src/socket.h basic_socket::close, ~basic_socket'), ('failed bind', 'src/socket.h basic_socket::tie'), ('moving', 'src/socket.h basic_socket(basic_socket&&)'), ('accepting', 'src/socket.h tcp_server_socket::accept')],
  [('socket_own', {'fd'}), ('tls_own', {'fd'})], 40)
P('S02', 'Failures of the system reach the caller of a socket',
  'If the operating system refuses to create, bind, connect, listen or accept, the call throws; if it does not throw, the socket really is bound, connected, listening or accepted; a socket that could not be bound is closed again. Binding a socket twice and an unknown address family are rejected, and a call the system carried out does not throw.',
  ['fault_sequences', 'inputs'], 'every combination of failures of the system calls, address lists of any length of which each entry may fail',
  'Tests do not make the system calls fail.',
  SOCK, [('trying the addresses', 'src/socket.h basic_socket::tie'), ('listen', 'src/socket.h tcp_server_socket::listen'), ('accept', 'src/socket.h tcp_server_socket::accept_fd')],
  [('socket_own', {'report'})], 8)
P('S03', 'No data moves through a socket that is closed',
  'Sending and receiving on a socket that is not open, or to an address on a socket that is not a datagram socket, is rejected with a logic error before the operating system is asked. Otherwise the call does not throw, touches only the caller\'s buffer and reports at most the number of bytes asked for, none if the system failed.',
  ['inputs', 'fault_sequences'], 'every size, buffer, address and result of the system',
  'Tests transfer on open sockets only.',
  SOCK + TLS, [('checks before a transfer', 'src/socket.h client_socket::send, receive')],
  [('socket_own', {'io', 'bounds'}), ('tls_own', {'bounds'}, 'H_client_(send|receive)')], 8)
P('S04', 'TLS contexts and sessions are released exactly once',
  'Whatever step of setting up a TLS socket or of the handshake fails, each context and session is released exactly once and never used afterwards; moving a socket hands them over. A client accepted by a server releases its session but not the context of the server.',
  ['fault_sequences', 'histories'], 'every combination of failures of the TLS library and the system calls',
  'Tests set up TLS successfully.',
  TLS, [('construction', 'src/openssl_socket.h constructors'), ('release', 'src/openssl_socket.h destructors'), ('moving', 'src/openssl_socket.h move constructors')],
  [('tls_own', {'tls'})], 20)
P('S05', 'TLS data moves only after a handshake with the verification asked for',
  'A TLS connect or accept that does not throw has finished a handshake over the descriptor of the socket, with the peer verified exactly if the caller asked for it; a server that requires client certificates refuses a client without one. A server without certificate and key does not come into being, and no data moves through a TLS socket that is closed.',
  ['configurations', 'fault_sequences'], 'both settings of verification, every combination of failures of the TLS library',
  'Tests use certificates that are accepted and a client without verification.',
  TLS, [('handshake', 'src/openssl_socket.h connect_handshake, accept'), ('verification', 'src/openssl_socket.h constructors')],
  [('tls_own', {'tlsio'})], 10, note='What the TLS library does inside a handshake is trusted.')
P('S06', 'A socket stream carries exactly the bytes of the connection',
  'The characters read from a socket stream are the bytes received, each delivered once and in order, and the stream ends when the connection ends or fails and not earlier, whatever the value of the bytes. The characters written are sent once and in order, at the latest when the stream is flushed, and a character that could not be sent is reported.',
  ['inputs', 'fault_sequences', 'histories'], 'every byte value, end and failure of the connection at every byte; reading and writing in any state of the buffer, also across a move',
  'Tests carry ASCII over connections that stay up.',
  SOCK, [('reading', 'src/socket.h socket_streambuf::underflow'), ('writing', 'src/socket.h socket_streambuf::overflow, sync'), ('moving', 'src/socket.h socket_streambuf(socket_streambuf&&)')],
  [('socket_buf', {'sb'})], 20)

ALLH = ['http_read', 'http_write', 'http_write_body', 'json_read', 'json_write', 'socket_own', 'tls_own', 'socket_buf', 'vmem_page', 'vmem_linked', 'vmem_table', 'vmem_file', 'vmem_container', 'endpoint', 'multifile', 'gpio_bus', 'gpio_line', 'gpio_dev', 'map']
VMEM = ['src/vmem.h', 'src/i/vmem_pool.i.h', 'src/x/vmem_pool.x.h', 'src/i/vmem_linked.i.h', 'src/x/vmem_linked.x.h', 'src/i/vmem_layout.i.h']
P('H06', 'What an HTTP reader delivers is a terminated text of what it read',
  'Every element but the body that an HTTP reader delivers into a buffer is a text that ends inside the buffer; a header value that did not fit makes the stream not good. For a method, resource, header name, status code and reason phrase the reported length is that of the text and does not exceed what was read, and the reported length of a body is exactly the number of bytes read.',
  ['inputs', 'fault_sequences'], 'every input, every buffer size from 1, every end or failure of the stream',
  'Tests read elements into buffers that were zeroed or are longer than the element.',
  HTTP, [('end of a text', 'src/http.h http_istream::get_chars'), ('count of a body', 'src/http.h http_istream::get_bytes')],
  [('http_read', {'text'})], 25)
P('J07', 'The text of a JSON token is terminated inside the buffer',
  'Every string and property name that a JSON reader delivers while the stream is good is a text that ends inside the token buffer the caller passed, whatever the input and however small the buffer.',
  ['inputs', 'fault_sequences'], 'every input, every buffer size, every nesting, every end or failure of the stream',
  'Tests read short strings into buffers that were zeroed.',
  JSON, [('end of a string', 'src/json.h json_istream::get_or_skip_string')],
  [('json_read', {'text'})], 1)
P('L01', 'Every component works without a log',
  'Readers, writers, sockets, servers and stores accept a null log: whatever path a call takes, also when it fails or throws, no log entry is written through a null log.',
  ['configurations', 'fault_sequences', 'inputs'], 'every path of every analysed call, with a log and without',
  'Tests pass a log to most components, and to the failing paths of nearly all.',
  HTTP + JSON + SOCK + TLS + VMEM, [('guarded diagnostics', 'every put_any call')],
  [(h, {'nulllog'}) for h in ALLH], 300, noreach=True)
P('L02', 'The arguments of every diagnostic match its format',
  'Every log entry and every text formatted by the library uses a constant format whose conversions agree in number, kind and width with the arguments; a text argument is terminated, or limited to characters that exist. So producing a diagnostic reads only memory it was given.',
  ['inputs', 'fault_sequences', 'configurations'], 'every path that reaches a diagnostic, with every text, length and error code it may report',
  'Tests run with a fixed filter and do not check what is read; a mismatch is undefined behaviour that often prints a plausible text.',
  HTTP + JSON + SOCK + TLS + VMEM, [('diagnostics', 'every put_any call'), ('exceptions', 'src/exception.h')],
  [(h, {'format'}) for h in ALLH + ['log_line']], 300, noreach=True, assume=['no text is longer than INT_MAX characters'])

LOG = ['src/table.h', 'src/i/table.i.h', 'src/log.h', 'src/i/log.i.h', 'src/buffer_streambuf.h']
P('T01', 'Formatting a line never leaves the buffer of the line',
  'Whatever is formatted into a line or a log entry, in whatever order and however long it is, and whatever severity an entry has, writing stays inside the buffers of the line and reading inside the text or buffer the caller passed. What does not fit is cut off, and the text of the line is terminated.',
  ['inputs', 'histories'], 'every sequence of texts, binary chunks, thread ids and flushes on a line, every length, every severity; lines of 17, 32, 100, 128 and 256 characters',
  'Tests format short texts into long lines.',
  LOG, [('formatting', 'src/table.h line_ostream::put_anyv'), ('binary chunks', 'src/table.h line_ostream::put_binary'), ('thread id', 'src/table.h line_ostream::put_thread_id'), ('indentation', 'src/log.h test_line_ostream::put_props')],
  [('log_line', {'bounds', 'text'})], 80)
P('T02', 'A line is written once, complete, and without throwing',
  'A line reaches its table exactly once, when it is flushed or ends, also if it was moved meanwhile; it is never empty and ends with a line end. Whatever the stream behind a table or log throws, formatting and logging throw nothing.',
  ['histories', 'fault_sequences'], 'every sequence of operations on a line, an exception of the stream at every operation',
  'Tests write to a buffer that never fails, and look at the lines of a few sequences.',
  LOG, [('flushing', 'src/table.h line_ostream::flush'), ('moving', 'src/table.h line_ostream(line_ostream&&)'), ('catching', 'src/table.h table_ostream::put_line')],
  [('log_line', {'line', 'nothrow'})], 15, explain='The exit through std::terminate is an obligation that must not be reachable.')
P('T03', 'A log writes exactly the entries its filter lets through',
  'An entry, binary entry or blank line is written if there is no filter or its severity is at least as high as that of the filter, and not written otherwise; an entry that is a text becomes exactly one line.',
  ['inputs', 'configurations'], 'every category, severity, tag and text, every filter and none, all kinds of lines of the library',
  'Tests try a few severities.',
  LOG, [('filtering', 'src/log.h log_ostream::put_anyv, put_binary, put_blank_line'), ('severity order', 'src/log.h log_filter::is_enabled')],
  [('log_line', {'entry'})], 15)

P('V01', 'A page reference keeps its page pinned exactly while it exists',
  'However references to pages are created, copied, moved, assigned and destroyed, and whatever fails meanwhile, a page is pinned once for every reference that points to it and is unpinned when the reference goes away. A reference points to its page or place on the page only while that page is pinned, points nowhere after it was moved or its page was freed, and freeing gives a page back once.',
  ['histories', 'fault_sequences'], 'every way to make, copy, move, assign, free and destroy references, to the same and to different pages, with every failure of the pool',
  'A pin too many shows only when every mapped page is pinned, one too few only when the page is replaced while it is used; the tests do neither.',
  VMEM, [('page references', 'src/x/vmem_pool.x.h vmem_page'), ('references to places', 'src/x/vmem_pool.x.h vmem_ptr')],
  [('vmem_page', {'pin', 'free', 'ptr'})], 25)
P('V02', 'The table of mapped pages never unmaps a pinned page or maps a page twice',
  'Whatever the history of pins, a page that is pinned stays mapped where it is, every page of the file is mapped at most once, and pinning fails only when mapping fails or every page of the table is pinned. A page is synchronised when it is unpinned for the last time, and a pool that ends unmaps every page, closes its file once, and logs its totals whatever they are; after a move only the new pool does.',
  ['histories', 'fault_sequences'], 'every content of a table of three pages and of a full one of four, every number of pins, every failure of mapping, unmapping and synchronising',
  'Tests use tables that are large enough, and no call of the system fails in them.',
  VMEM, [('pinning', 'src/x/vmem_pool.x.h vmem_pool::lock_page'), ('unpinning', 'src/x/vmem_pool.x.h vmem_pool::unlock_page'), ('replacing', 'src/x/vmem_pool.x.h vmem_pool::unmap_mapped_page'), ('closing', 'src/x/vmem_pool.x.h vmem_pool::~vmem_pool')],
  [('vmem_table', {'map', 'pin', 'table', 'divide'}), ('vmem_table4', {'map', 'pin', 'table', 'divide'})], 60, assume=['the counts of pins of a page stay below 2^28'], note='The code that is analysed is the template with a table of three pages, the least a pool may have, and with one of four.')
P('V03', 'A list of pages stays linked in both directions',
  'Whatever list of pages is given, and whichever page cannot be pinned, inserting, erasing and splicing leave a list in which the successor of each page names it as predecessor and the ends are the ends of the chain, with exactly the pages that should be in it in their order. An operation that fails reports it and leaves the list as it was; only an erased page is given back, and it is given back once.',
  ['histories', 'fault_sequences'], 'lists of any length, every place in them, every failure to pin a page; pages far from the place of the change stand for any number of pages',
  'Tests never fail to pin a page, and look at few lists from the front only.',
  VMEM, [('inserting', 'src/x/vmem_linked.x.h vmem_linked::insert_nostate'), ('erasing', 'src/x/vmem_linked.x.h vmem_linked::erase_nostate'), ('splicing', 'src/x/vmem_linked.x.h vmem_linked::splice')],
  [('vmem_linked', {'link', 'free', 'pin'})], 60)
P('V04', 'A pool file holds whole pages, and free pages are used again',
  'A pool is opened on an empty file, which gets a root page and a start page, or on a file of whole pages whose signature, version and page size are right; anything else is rejected and closed. Afterwards the file grows only by whole pages at its end and never shrinks by one, a page that is handed out comes from the free pages before the file grows and is free no longer, and a page that is given back becomes free and is no other.',
  ['fault_sequences', 'inputs', 'histories'], 'files of any size and header, free lists of any length, every failure and every incomplete write of the system',
  'Tests open the files they made themselves, and no call of the system fails in them.',
  VMEM, [('opening', 'src/x/vmem_pool.x.h vmem_pool::open_pool_or_throw'), ('verification', 'src/x/vmem_pool.x.h vmem_pool::verify_root_page_or_throw'), ('adding a page', 'src/x/vmem_pool.x.h vmem_pool::create_page'), ('free pages', 'src/x/vmem_pool.x.h vmem_pool::pop_free_page_pos, push_free_page_pos')],
  [('vmem_file', {'file', 'verify', 'alloc', 'pin', 'deep'})], 60, note='Calls that re-enter the free list are followed 14 calls deep; that no path goes deeper is an obligation.')
P('V05', 'Inserting and erasing keeps every other item of a container in its order',
  'Wherever an item is inserted or erased, in a container of any length whose pages hold any number of items, every other item stays in its order, the item is where it was put, the counts of items agree, and no page is without items or holds more than fit. The place that is returned is that of the new item or of the item behind the erased one. A change that fails leaves the container as it was, and only a page whose items are gone is given back.',
  ['histories', 'fault_sequences'], 'every place in a page with any number of items, with and without a page before and behind, every way of balancing, every failure to pin or get a page; items of which many or only one fit on a page',
  'An item moves to another page only when a page is full or empties, at certain places with certain counts; the tests meet a few of them, and none in which a page cannot be pinned.',
  VMEM, [('inserting', 'src/x/vmem_container.x.h vmem_container::insert2, insert_with_overflow'), ('erasing', 'src/x/vmem_container.x.h vmem_container::erase2, erase_from_many'), ('balancing', 'src/x/vmem_container.x.h vmem_container::balance_merge_next, balance_merge_prev'), ('iterating', 'src/x/vmem_container.x.h vmem_container::next, prev')],
  [('vmem_container', {'item', 'pin', 'free', 'bounds'}), ('vmem_container1', {'item', 'pin', 'free', 'bounds'})], 500, assume=['a page that is pinned can be pinned again, which V02 establishes'], note='Ranges of items are checked at chosen places of pages with chosen counts, single items at every place with any count.')

ENDP = ['src/endpoint.h', 'src/i/endpoint.i.h', 'src/ascii.h', 'src/http.h']
P('E01', 'An endpoint answers a request with one complete response',
  'Whatever request arrives, and whatever file it asks for, the built-in handlers of an endpoint send one response in message order: protocol, status code, reason phrase, headers and body. It announces the length of its body, and the body has exactly that length unless the file shrinks meanwhile, and is never longer.',
  ['inputs', 'fault_sequences', 'configurations'], 'every method, resource, root dir, prefix, size and kind of file, every change of the size of the file while it is sent, with and without a log',
  'The tests of the repository do not include the endpoint; a wrong length shows only with files whose size is not a multiple of the chunk or that change while they are sent.',
  ENDP, [('request', 'src/endpoint.h endpoint::process_request'), ('file response', 'src/endpoint.h endpoint::process_file_request'), ('simple response', 'src/endpoint.h endpoint::send_simple_response')],
  [('endpoint', {'response'})], 60, note='That the HTTP stream itself keeps the order is H02; the file is a model with a size and reads that may come short.')
P('E02', 'An endpoint keeps every part of a request inside its buffers',
  'Whatever root dir is configured and whatever request arrives, the method, the path made of root dir and resource, the protocol, the length of the body and the chunks of a file stay inside the buffers they are put in. A root dir that would leave no room for a resource is rejected when the endpoint is made.',
  ['inputs', 'configurations'], 'every root dir, including none, every request and every size of file',
  'A path overflows only with a root dir or resource close to the limit.',
  ENDP, [('path', 'src/endpoint.h endpoint::process_request'), ('limit of the root dir', 'src/endpoint.h endpoint::endpoint'), ('chunks', 'src/endpoint.h endpoint::process_file_request')],
  [('endpoint', {'fits', 'bounds'})], 8)
P('E03', 'An endpoint reads no file outside its root dir',
  'A request for a static file opens or examines only the file whose path is the root dir followed by the resource, and nothing at all when a segment of the resource is "..", wherever in the resource it is.',
  ['inputs'], 'every resource, with a parent segment at any place of it or none, and every root dir',
  'Traversal needs a request that no test and no ordinary browser sends.',
  ENDP, [('check of the resource', 'src/endpoint.h endpoint::has_parent_segment'), ('files', 'src/endpoint.h endpoint::process_file_request'), ('path', 'src/endpoint.h endpoint::process_request')],
  [('endpoint', {'inside'})], 3, note='Links inside the root dir are followed: whoever makes them decides that. The place of the parent segment is symbolic; the search for it is the C library\'s strstr.')
P('E04', 'Shutdown of an endpoint completes once, and after the last request',
  'Every request is counted before it looks whether shutdown was requested and uncounted once when it is done, on every path, and it sends its response only in between and only if shutdown was not requested before. The request that counts down to zero after shutdown was requested completes it, and of several that do only one signals, so the completion is signaled exactly once and no response is sent after it.',
  ['schedules', 'histories'], 'every interleaving with other requests: the counter and the flags may have any value other threads can give them whenever they are looked at',
  'The windows between counting, looking at the flag and signaling are a few instructions wide.',
  ENDP, [('counting', 'src/endpoint.h endpoint::process_request'), ('completion', 'src/endpoint.h endpoint::end_request'), ('request for shutdown', 'src/endpoint.h endpoint::process_rest_request')],
  [('endpoint', {'shutdown'})], 19, note='One request is followed through its operations on the shared counter and flags, which are sequentially consistent atomics; that each request obeys the protocol implies the statement for all of them together.')
P('E05', 'An endpoint serves every connection it accepts until shutdown',
  'Starting an endpoint binds to the configured port, listens with the configured queue size before it accepts, and hands each accepted connection to one detached thread that processes it. It stops accepting only after shutdown was requested.',
  ['histories', 'configurations'], 'every configuration and any number of connections, any value of the counter and flags',
  'No test starts an endpoint.',
  ENDP, [('accepting', 'src/endpoint.h endpoint::start'), ('threads', 'src/endpoint.h endpoint::process_request_thread_func')],
  [('endpoint', {'serve'})], 6)
P('E06', 'The status of a response tells what became of the request',
  'A request for a static file gets 405 unless its method is GET, 404 if there is no such file, it is not a regular file or it cannot be opened, and otherwise 200 with the whole file; a REST request gets 200 by default. The reason phrase is that of the status code, and the content type is the one of the extension of the file.',
  ['inputs', 'fault_sequences'], 'every method and resource, every outcome of examining and opening the file, every extension',
  'No test asks an endpoint for a file, let alone one that is a directory or cannot be opened.',
  ENDP, [('file response', 'src/endpoint.h endpoint::process_file_request'), ('REST response', 'src/endpoint.h endpoint::process_rest_request'), ('content type', 'src/endpoint.h endpoint::get_content_type_from_path')],
  [('endpoint', {'outcome'})], 11)


MULTI = ['src/multifile.h', 'src/i/multifile.i.h']
P('M01', 'Every file of a stream of files has its own complete name in the folder',
  'A stream that writes a series of files opens each file, after closing the one before, under a complete and terminated name that is made from the time right before and lies in the folder. A folder that is missing, or too long to leave room for a name, is rejected with a logic error and no file; an empty folder is the current one. A stream that was moved goes on in the same folder.',
  ['inputs', 'histories', 'fault_sequences'], 'every folder up to and beyond the longest one, every outcome of opening a file, every moment of a move',
  'Tests use one short folder; a name that is cut off needs the longest one.',
  MULTI, [('open the first file', 'src/multifile.h multifile_streambuf::multifile_streambuf'), ('replace the file', 'src/multifile.h multifile_streambuf::reopen'), ('move', 'src/multifile.h multifile_streambuf::multifile_streambuf(multifile_streambuf&&)')],
  [('multifile', {'file', 'bounds', 'format', 'text'})], 30)
P('M02', 'A file is replaced once it has reached its size or its age, and not before',
  'A stream that limits the size of its files replaces the file at the first sync at which the characters that went to that file have reached the limit, and one that limits the age at the first sync at which the time since the file was opened has reached it; otherwise the file is kept. Each character that goes to the file counts once, whether it was put one by one, in a block, or left a full buffer. A file that could not be synced is reported and not replaced.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of characters and blocks, everything the buffer may keep or write out, every outcome of a sync, every time',
  'No test writes enough to have a file replaced, or waits long enough.',
  MULTI, [('size', 'src/multifile.h size_multifile_streambuf::sync'), ('count', 'src/multifile.h size_multifile_streambuf::xsputn'), ('age', 'src/multifile.h duration_multifile_streambuf::sync')],
  [('multifile', {'rotate'})], 9)

GPIO = ['src/gpio.h'] + ['src/%s/%s.%s.h' % (d, n, d) for n in ('gpio_chip', 'gpio_line', 'gpio_smbus', 'gpio_smbus_pwm', 'gpio_smbus_motion', 'gpio_smbus_grayscale', 'gpio_smbus_motion_tracker', 'gpio_pwm_emulator', 'gpio_ultrasonic') for d in ('i', 'x')] + ['src/i/gpio_base.i.h', 'src/i/gpio_pwm_base.i.h', 'src/i/gpio.i.h']
P('G01', 'A bus transfer reaches the device it was meant for',
  'Whatever other threads do with the same bus, every transfer happens while the bus is set to the address of its own target, and the address the bus object remembers is the one the bus is really set to. No lock is left held.',
  ['schedules', 'fault_sequences'], 'every address other threads may have left behind, every failure of taking the lock, of setting the address and of the transfer',
  'There is no hardware in the tests; a race between two threads needs a particular moment.',
  GPIO, [('transfer', 'src/x/gpio_smbus.x.h gpio_smbus put_* and get_*'), ('set the address', 'src/x/gpio_smbus.x.h gpio_smbus::ensure_address')],
  [('gpio_bus', {'target', 'lock'})], 35)
P('G02', 'A bus operation reports success exactly when the transfer was done',
  'A read or write on the bus succeeds if the transfer was done and fails if the address could not be set, the transfer was refused or the data is too long for one transfer, with and without a log.',
  ['fault_sequences', 'configurations', 'inputs'], 'every failure of the lock, of setting the address and of each transfer, with and without a log, blocks of every length',
  'There is no hardware in the tests.',
  GPIO, [('report', 'src/x/gpio_smbus.x.h gpio_smbus put_* and get_*')],
  [('gpio_bus', {'report'})], 9)
P('G03', 'A bus transfer carries the data of its operation',
  'An operation on the bus is one transfer of its own kind, direction and register that carries the given byte, word in the byte order of the target, or block with its length; reading returns what was transferred, in the byte order of the host, and a failed read changes nothing. Memory outside the given buffers is not touched.',
  ['inputs', 'fault_sequences'], 'every byte, word, register and block length, both byte orders, every failure',
  'There is no hardware in the tests.',
  GPIO, [('data', 'src/x/gpio_smbus.x.h gpio_smbus put_* and get_*'), ('byte order', 'src/x/gpio_smbus.x.h gpio_smbus::swap_bytes')],
  [('gpio_bus', {'data', 'bounds'})], 30)
P('G04', 'Chips, lines and buses release every descriptor exactly once',
  'A bus and a line own one open descriptor from construction, across moves, to destruction; chips and failed constructions own none. Only open descriptors are used, and names given to the system are terminated texts that fit.',
  ['fault_sequences', 'histories'], 'every failure of opening, closing and querying; every order of destruction after a move',
  'There is no hardware in the tests.',
  GPIO, [('bus', 'src/x/gpio_smbus.x.h gpio_smbus::init'), ('line', 'src/x/gpio_line.x.h gpio_line::gpio_line'), ('move', 'src/x/gpio_line.x.h gpio_line(gpio_line&&)'), ('chip', 'src/x/gpio_chip.x.h gpio_chip')],
  [('gpio_bus', {'fd', 'text'}), ('gpio_line', {'fd', 'text', 'bounds'})], 65)
P('G05', 'A line is the pin it was asked for, and its level is the level of the pin',
  'A line requests exactly its own pin in its own direction. Reading it returns the level of the pin or, if it could not be read, an invalid level; writing it sets the pin and returns the level, and a failed or meaningless write returns an invalid level; waiting for a level succeeds only when that level was read. Chip and line information is marked valid exactly when it was delivered.',
  ['inputs', 'fault_sequences'], 'every pin, level, flag and failure of the system',
  'There is no hardware in the tests.',
  GPIO, [('request', 'src/x/gpio_line.x.h gpio_line::gpio_line'), ('levels', 'src/x/gpio_line.x.h get_level, put_level, expect_level'), ('information', 'src/x/gpio_chip.x.h chip_info, line_info')],
  [('gpio_line', {'line', 'level', 'info'})], 25)
P('G06', 'Pulse widths are computed without division by zero and reach their registers',
  'Constructing a pulse generator with any frequency, clock and pulse width divides nothing by zero, and puts the period in its registers unless it is rejected. Setting a duty cycle puts one value in the duty register: 0 for none and the whole period for 100 percent or more.',
  ['inputs', 'fault_sequences'], 'every frequency, every clock up to 1 GHz, every pulse width and duty cycle; every outcome of a transfer',
  'There is no hardware in the tests; the divisor is 0 only for particular frequencies.',
  GPIO, [('period', 'src/x/gpio_smbus_pwm.x.h gpio_smbus_pwm::gpio_smbus_pwm'), ('duty', 'src/x/gpio_smbus_pwm.x.h gpio_smbus_pwm::set_duty_cycle'), ('period of the emulator', 'src/i/gpio_pwm_base.i.h gpio_pwm_period')],
  [('gpio_dev', {'duty', 'divide'})], 10)
P('G07', 'A sensor delivers what it measured, or nothing',
  'Every channel of a motion or grayscale sensor that is asked for is read once from its own register, at the address and on the bus of the sensor; the measurement is what the channel delivered, and a channel that was not asked for or could not be read measures nothing. A motion sensor at rest is calibrated to what it measures. A distance sensor waits for an echo as long as the given distance takes, and reports that distance if there is none.',
  ['inputs', 'fault_sequences', 'histories'], 'every measurement of every channel, every combination of failed reads; several measurements of distance one after another',
  'There is no hardware in the tests.',
  GPIO, [('motion', 'src/x/gpio_smbus_motion.x.h get_measurements, calibrate'), ('grayscale', 'src/x/gpio_smbus_grayscale.x.h get_values'), ('distance', 'src/x/gpio_ultrasonic.x.h measure_distance')],
  [('gpio_dev', {'motion', 'gray', 'sonic', 'device'})], 140)
P('G08', 'The helper threads of devices start, wake up and end with their owner',
  'A pulse emulator and a motion tracker run one helper thread from a successful construction to destruction, and none after a failed construction. A helper thread never goes to sleep when it was told to run or quit, is woken up when it is told, is told to quit before it is waited for, and ends only then.',
  ['schedules', 'fault_sequences'], 'every moment at which another thread sets what the helper thread waits for, every failure of a construction',
  'No test starts these threads; a lost wake-up needs a particular moment.',
  GPIO, [('tracker', 'src/x/gpio_smbus_motion_tracker.x.h'), ('emulator', 'src/x/gpio_pwm_emulator.x.h')],
  [('gpio_dev', {'thread', 'wake'})], 20)
P('G09', 'Emulated pulses keep to their duty cycle at the ends',
  'The level of an emulated line is low while it rests without duty and high while it rests with full duty, the helper thread rests only on a constant level, and it leaves the line low. A duty cycle is taken over as given, and one above 100 percent as 100 percent.',
  ['schedules', 'inputs'], 'every duty cycle and every moment of changing it',
  'No test starts the emulator.',
  GPIO, [('helper thread', 'src/x/gpio_pwm_emulator.x.h gpio_pwm_emulator::thread_func'), ('duty', 'src/x/gpio_pwm_emulator.x.h gpio_pwm_emulator::set_duty_cycle')],
  [('gpio_dev', {'pulse'})], 3)

STAMP = ['src/timestamp.h', 'src/i/timestamp.i.h']
P('D01', 'A timestamp is the date and time of its moment',
  'A timestamp of a moment since the start of 1970 has the year, month and day of the Gregorian calendar, with a 29 February in every year divisible by 4 except the centuries not divisible by 400, and the hour, minute, second and fractions of that moment.',
  ['inputs'], 'every day from 1 January 1970 for 28,000 years, every nanosecond of a day',
  'Tests take a few dozen dates; the days around the end of February of leap years and centuries are the ones that go wrong.',
  STAMP, [('calendar', 'src/timestamp.h timestamp::reset_date, reset_date_if_done'), ('clock', 'src/timestamp.h timestamp::reset_time'), ('days and rest', 'src/timestamp.h timestamp::reset')],
  [('dates', {'date', 'time'})], 300)
P('D02', 'Timestamps are ordered as their moments',
  'Of two timestamps the one with the earlier day is before the other, and on the same day the one with the earlier time; the comparisons for equal, not equal, before, after, not after and not before agree with that order for every pair.',
  ['inputs'], 'every pair of timestamps',
  'Tests compare a handful of pairs.',
  STAMP, [('comparisons', 'src/timestamp.h timestamp::operator==, !=, <, >, <=, >=')],
  [('dates', {'order'})], 15)

ASCII = ['src/ascii.h']
P('A01', 'Characters are classed and mapped as the formats define them',
  'For every character, negative ones included, the classes (ASCII, digit, hexadecimal, letter, upper, lower, space, control, printable, HTTP separator and token, JSON space and string content) hold exactly for the characters of their definition. Case mapping changes letters of the other case only, and a hexadecimal digit has its value.',
  ['inputs'], 'every character for every class and mapping',
  'Tests see the classes through a few messages; a class that is one character too wide lets a header or a token be smuggled.',
  ASCII, [('classes', 'src/ascii.h is_*'), ('case', 'src/ascii.h to_upper, to_lower'), ('hexadecimal', 'src/ascii.h hex'), ('HTTP', 'src/ascii.h http::is_separator, is_token'), ('JSON', 'src/ascii.h json::is_space, is_string_content')],
  [('ascii', {'class'})], 40)
P('A02', 'Texts are equal exactly up to their end or the limit',
  'Two texts are equal if their characters are the same, or the same but for the case of letters where case does not count, up to the common end or the given number of characters, and unequal if a character before that differs. No text equals a missing one.',
  ['inputs'], 'texts of letters that agree in up to two characters, followed by an end, a limit or any difference; the limit is any number',
  'Tests compare a few words; the limit and the letters next to the alphabet are not tried.',
  ASCII, [('comparison', 'src/ascii.h are_equal and its short forms')],
  [('ascii', {'compare'})], 8)

BUFS = ['src/buffer_streambuf.h']
P('B01', 'A stream over memory covers the memory it was given, and keeps its place',
  'A stream buffer over memory reads and writes exactly the given ranges, starting at their beginning. One that is moved goes on reading and writing where the original was.',
  ['inputs', 'histories'], 'every range and every place reading and writing has reached',
  'Tests move no such buffer after use.',
  BUFS, [('ranges', 'src/buffer_streambuf.h basic_buffer_streambuf::reset'), ('move', 'src/buffer_streambuf.h basic_buffer_streambuf(basic_buffer_streambuf&&)')],
  [('buffer', {'area', 'place'})], 6)
MAPF = ['src/x/vmem_map.x.h', 'src/i/vmem_map.i.h', 'src/vmem_util.h']
P('V07', 'A map finds a key exactly if it holds it, and puts a new key in its place',
  'A map finds the item of a key, however many items and keys its pages hold and wherever the key is among them, and finds nothing for a key it does not hold or cannot read. A key goes in once, before the first that is greater, and the keys that lead there are never greater than it; what is erased is the item of the key. Walking through a map is walking through its items, and a constant map is the same map.',
  ['inputs', 'histories', 'fault_sequences'], 'every number of keys on every page, every place of the key among them, up to two levels of keys, every failure to pin a page',
  'Tests fill small maps in order; keys below the first or at the edge of a page and pages that cannot be pinned are not tried.',
  MAPF, [('search', 'src/x/vmem_map.x.h vmem_map::find2, key_item_pos'), ('insertion', 'src/x/vmem_map.x.h vmem_map::insert2'), ('erasure', 'src/x/vmem_map.x.h vmem_map::erase, erase2'), ('walk', 'src/x/vmem_map.x.h vmem_map::next, prev, begin_itr, end_itr')],
  [('map', {'find', 'path', 'insert', 'keys', 'step', 'pin'})], 300,
  note='What a page that is split or merged does to the levels above it is not part of it.')
P('V06', 'A string in a pool is read and written as a stream, character by character',
  'What is written to a stream over a string in a pool is appended to the string in order, each character once, no later than the stream is flushed. Reading hands out the characters of the string in order, each once, tells every character from the end, and a stream that is moved loses and repeats nothing.',
  ['inputs', 'histories', 'fault_sequences'], 'every character, every place, everything a stream may hold, every failure to append or read',
  'The test writes and reads digits and spaces.',
  ['src/x/vmem_string.x.h', 'src/i/vmem_string.i.h'], [('reading', 'src/x/vmem_string.x.h vmem_basic_string_streambuf::underflow'), ('writing', 'src/x/vmem_string.x.h vmem_basic_string_streambuf::overflow, sync'), ('move', 'src/x/vmem_string.x.h vmem_basic_string_streambuf(vmem_basic_string_streambuf&&)')],
  [('string_buf', {'append', 'read', 'moved'})], 30)

N('V08', 'A map of any size keeps every item within reach of its key',
  'After any history of insertions and erasures, however many levels of key pages it grew or gave back, every item of a map is found by its key, and stepping through the map delivers all items once in the order of their keys.',
  ['histories'], 'every history of insertions and erasures, any number of pages and levels',
  'Tests grow one map in one order; the shape of the tree depends on the whole history.',
  ['src/x/vmem_map.x.h', 'src/x/vmem_container.x.h'], [('key levels after a change of the value level', 'src/x/vmem_map.x.h update_key_levels'), ('search from the root', 'src/x/vmem_map.x.h find2')],
  'A statement about the whole tree: it needs an inductive shape invariant (ordered, balanced, separators bound subtrees) over an unbounded number of pages that live behind a file. The analysis here abstracts a fixed number of pages and has no shape domain; the steps it can decide (search within a page and descent, the way that is handed to an update, one insertion or erasure in a page) are claimed as V05 and V07.')
N('V09', 'What a pool held when it was closed is there when it is opened again',
  'The containers of a pool that was closed in good order hold the same items when the file is opened again, by the same program or another.',
  ['histories', 'crash_points'], 'every content, every point at which the process may end',
  'Tests reopen a few pools; what reaches the file depends on the kernel and the moment.',
  ['src/x/vmem_pool.x.h', 'src/vmem.h'], [('pages are written back when unmapped', 'src/x/vmem_pool.x.h')],
  'That stores to a shared mapping reach the file, and in which order after a crash, is decided by the kernel at run time, and the library promises no order of its own (no journal, no synchronisation point to check). What the source decides, whole pages, mapped once and unmapped once, is claimed as V02 and V04.')
N('J08', 'Numbers and texts of JSON survive being written and read again',
  'A token that a writer emits, read by a reader, gives the same token: the same text, the same truth value, and the number to the digits that were written.',
  ['inputs'], 'every text and every number',
  'Tests compare a handful of values.',
  ['src/json.h', 'src/i/json.i.h'], [('number conversion', 'src/json.h get_number'), ('number emission', 'src/json.h put_number')],
  'Equality of two unbounded character sequences through a printf and a strtod of the C library: the domain here relates lengths, places and classes of characters, not the values of whole texts, and the decimal conversions lie outside the source. Which characters may be emitted and accepted is claimed as J03 and J04.')
N('G10', 'Emulated pulses keep the frequency and the width that was asked for',
  'An emulated pulse-width signal has the frequency and the duty cycle it was given, within the resolution of the system timer, for as long as it runs.',
  ['schedules', 'configurations'], 'every frequency and duty cycle, every schedule of the threads',
  'Tests cannot run without the hardware, and measure nothing.',
  ['src/x/gpio_pwm_emulator.x.h', 'src/i/gpio_pwm_emulator.i.h'], [('loop of the emulator', 'src/x/gpio_pwm_emulator.x.h')],
  'A matter of the scheduler and the clock at run time, which no argument over the source bounds. The order and the ends of the pulses are claimed as G08 and G09.')
