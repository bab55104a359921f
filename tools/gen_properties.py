#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

H = 'include/vrtgen/'
PK = H + 'packing/'
T = 'src/vrtgen/backend/cpp/templates/'
FD = T + 'macros/function_defs/'
M = 'src/vrtgen/parser/model/'

prop('P01', 'Subfield accessors read and write their VITA 49.2 bit positions',
 'In every fixed-layout structure of the packing library (packet header, class identifier, control/acknowledge mode word, trailer, state/event indicators and the structured context fields) writing a subfield puts its value in exactly the bits VITA 49.2 assigns to it on the wire, and reading it yields exactly those wire bits. A reader and its writer therefore always address the same bits with the same width and signedness.',
 ['inputs', 'programs'], 'every subfield accessor of every fixed-layout structure, every value representable in the subfield',
 'the Catch2 tests write a few values per structure; wrong widths, bit positions of rarely used subfields, or reader/writer pairs that are wrong in the same way pass them',
 [PK+'header.hpp', PK+'prologue.hpp', PK+'command.hpp', PK+'trailer.hpp', PK+'state_event_indicators.hpp', PK+'cif0.hpp', PK+'cif1.hpp', PK+'cif2.hpp', H+'types/packed.hpp'],
 [('bit-packed word get/set', H+'types/packed.hpp'), ('per-structure accessors', PK+'*.hpp')])
prop('P02', 'Writing one subfield never disturbs any other subfield',
 'Assigning any value, including one that does not fit, to one subfield of a packed word leaves every bit that belongs to other subfields of the structure as it was. An out-of-range value is at worst truncated to its own subfield.',
 ['inputs', 'histories'], 'every subfield writer, every previous content of the structure and every argument value of the parameter type (out-of-range included)',
 'tests assign in-range values to fresh objects and look at the assigned subfield',
 [H+'types/packed.hpp', PK+'header.hpp', PK+'prologue.hpp', PK+'cif0.hpp', PK+'cif1.hpp'],
 [('read-modify-write of the packed word', H+'types/packed.hpp: packed::set'), ('subfield writers', PK+'*.hpp')])
prop('P03', 'Field-presence indicators use the bit VITA 49.2 gives each field',
 'Each context indicator word and each warning/error indicator word represents the presence of a field by the one bit VITA 49.2 assigns to that field, reading and writing the same bit. The warning and error words use the same bit for a field as the context word they mirror, and no two fields of a word share a bit.',
 ['inputs', 'programs'], 'every indicator of every indicator word of the library',
 'tests touch single indicators of some words; sibling words are never compared with each other or with the standard exhaustively',
 [PK+'cif0.hpp', PK+'cif1.hpp', PK+'cif2.hpp', PK+'cif7.hpp', PK+'indicator_fields.hpp', PK+'command.hpp'],
 [('indicator accessors', PK+'indicator_fields.hpp, cif*.hpp, command.hpp')])
prop('P04', 'Fixed-size structures encode and decode the same bytes in network order',
 'For each fixed-size structure the reported encoded size, the number of bytes encoding writes and the number of bytes decoding reads are the same, decoding what was encoded restores every subfield, and multi-byte numbers are big-endian on the wire at the offset VITA 49.2 gives them. Encoding never writes a byte the object did not initialise, in particular for a freshly constructed object.',
 ['inputs', 'programs'], 'every fixed-size structure of the packing library, every object value',
 'tests round-trip a handful of values through the library itself, where a symmetric mistake cancels out and an uninitialised byte usually reads as zero',
 [PK+'cif0.hpp', PK+'cif1.hpp', PK+'cif2.hpp', PK+'prologue.hpp', H+'types/packed.hpp', H+'types/swap.hpp', H+'types/uuid.hpp'],
 [('size / pack / unpack triples', PK+'*.hpp'), ('byte swapping', H+'types/swap.hpp')])
prop('P05', 'Variable-size structures: reported size, encoder and decoder agree',
 'For every list- or record-valued structure, for every number of elements, the reported size equals the bytes the encoder writes and the bytes the decoder consumes. The element counts written on the wire are the ones the decoder uses, elements follow in the same order with the same width, and multi-byte elements are big-endian.',
 ['inputs'], 'every list/record structure, every element count and every combination of optional parts',
 'tests encode one or two short lists; counts of zero, optional parts present or absent and wide elements are hardly sampled',
 [PK+'cif0.hpp', PK+'cif1.hpp'],
 [('gps ascii, context association lists, index list, sector step/scan, array of records encoders and decoders', PK+'cif0.hpp, cif1.hpp')])
prop('P06', 'Scaled numeric fields use the VITA 49.2 radix, same on both sides',
 'Every field exposed as a real number is converted to and from its wire integer with the number of fraction bits VITA 49.2 specifies for it and with a wire integer of the right width and signedness. The reading and the writing direction of a field always use the same scaling.',
 ['inputs', 'programs'], 'every real-valued accessor of the library, and every real-valued field in the specification model and generated packets',
 'tests use a few values, for which a wrong rounding or an equally wrong radix on both sides goes unnoticed',
 [H+'types/fixed.hpp', PK+'cif0.hpp', PK+'cif1.hpp', M+'cif0.py', M+'cif1.py', 'src/vrtgen/parser/model/types/basic.py', FD+'common.jinja2', FD+'cif.jinja2'],
 [('fixed-point conversion', H+'types/fixed.hpp'), ('field scaling tables', M+'cif0.py, cif1.py')])
prop('P07', 'Optional indicators: value bit and enable bit always move together',
 'For indicators that carry a separate enable bit, reading yields a value only when the enable bit is set, writing a value sets its enable bit, and clearing resets both value and enable. The enable bit touched is always the one belonging to that indicator.',
 ['inputs', 'histories'], 'every enable-gated indicator of data trailers and state/event words, in the library and in generated user-defined trailers and discrete I/O',
 'tests exercise most indicators one at a time from a zero word; a cross-wired enable for one of them or a reset that forgets a bit is only visible from particular previous states',
 [PK+'trailer.hpp', PK+'state_event_indicators.hpp', T+'macros/types/user_class.jinja2', M+'data.py', M+'cif1.py'],
 [('gated getters/setters/resetters', PK+'trailer.hpp, state_event_indicators.hpp'), ('user-defined trailer code', T+'macros/types/user_class.jinja2')])
prop('P08', 'Enumerated wire values agree between the standard, library and generator',
 'Every enumerator of the packing library carries the code point of VITA 49.2, and the specification model uses the same code point for the enumerator of the same meaning. Within an enumeration no two meanings share a code point and each code point fits its wire field.',
 ['programs'], 'every enumerator of every wire enumeration in both implementations',
 'tests use a few enumerators and compare library against library',
 [PK+'enums.hpp', 'src/vrtgen/parser/model/types/enums.py'],
 [('C++ enumerations', PK+'enums.hpp'), ('Python enumerations', 'src/vrtgen/parser/model/types/enums.py')])
prop('P09', "The generator's layout model agrees with the wire library",
 'The bit position, width and word grouping the specification model assigns to every packed field equal those of the wire library and VITA 49.2, indicator bits included. No two packed fields of a word overlap in the model.',
 ['programs', 'configurations'], 'every packed field of every section of the specification model',
 'the model tests read back a few attributes; generated-code tests only cover fields used in the sample specifications',
 [M+'base.py', M+'prologue.py', M+'command.py', M+'cif0.py', M+'cif1.py', M+'cif2.py', M+'cif7.py', M+'data.py', 'src/vrtgen/parser/model/types/packing.py'],
 [('packed tags', M+'*.py')])
prop('P10', 'Specification literals map to the code points they name',
 'Every literal spelling a specification file may use for an enumerated option (timestamp formats and modes, spectrum, state/event enables, organisation identifiers, identifier formats, action modes, sizes and the like) selects the code point of that meaning. A spelling that is not a known literal is rejected rather than silently mapped.',
 ['inputs', 'configurations'], 'every literal table and every input string',
 'tests use some spellings and some invalid ones; the tables are not covered exhaustively',
 ['src/vrtgen/parser/value.py', 'src/vrtgen/parser/loader.py', 'src/vrtgen/parser/model/types/enums.py'],
 [('literal tables', 'src/vrtgen/parser/value.py')])
prop('P11', 'Specification options are honoured uniformly and unknown ones rejected',
 'For every section of a specification, each field option accepts required and optional (or the values it carries) with the same meaning and in any order, and changes that field and only what follows from it. A key that is not an option of the section, a value of the wrong form or out of range, or text where a mapping belongs, is an error; no option is silently ignored or applied to a different field.',
 ['inputs', 'configurations'], 'every section type, every key and every option form',
 'tests parse a modest set of specification fragments; silent acceptance of a misspelt key or an ignored mode in a rarely used section is invisible to them',
 ['src/vrtgen/parser/__init__.py', 'src/vrtgen/parser/loader.py', M+'base.py', M+'command.py', M+'data.py', M+'prologue.py', M+'cif0.py', M+'cif1.py', M+'cif7.py', M+'context.py', M+'information.py'],
 [('section validation and mapping', M+'base.py and overriding sections'), ('constructors for sections', 'src/vrtgen/parser/loader.py')])
prop('P12', 'Packet definitions are independent of one another',
 'Parsing or generating one packet definition never changes another packet, whatever the order or number of definitions and files processed in one run. In particular no default value, field or table object is shared between definitions.',
 ['histories', 'configurations'], 'every sequence of definitions and files handled by one process',
 'tests parse each definition in isolation or in one fixed order',
 [M+'base.py', M+'cif0.py', M+'cif1.py', M+'cif2.py', M+'cif7.py', M+'command.py', M+'context.py', M+'data.py', M+'prologue.py', M+'information.py', 'src/vrtgen/parser/loader.py', 'src/vrtgen/parser/__init__.py', 'src/vrtgen/backend/cpp/generator.py'],
 [('field defaults', M+'*.py'), ('loader state', 'src/vrtgen/parser/loader.py')])
prop('P13', 'An acknowledge definition mirrors the control packet it responds to',
 'An acknowledge packet takes over from its control packet every part the exchange needs: for each field the control carries, the corresponding warning and error indicator is enabled when validation or execution acknowledgement is requested and the state field when state is requested, under the same names and in every indicator word. An acknowledge that names no earlier control packet is rejected.',
 ['configurations', 'inputs'], 'every control packet definition and every acknowledge derived from it',
 'the sample specifications derive acknowledgements for a few fields of the first and second indicator words',
 [M+'command.py', M+'cif0.py', M+'cif1.py', M+'cif2.py', 'src/vrtgen/parser/__init__.py'],
 [('update from control', M+'command.py'), ('responds-to lookup', 'src/vrtgen/parser/__init__.py')])
prop('P14', 'Code generation is a deterministic function of the specification',
 'Generating twice from the same specification and options yields the same files with the same content: the output does not depend on hash ordering, time, randomness, environment, directory enumeration or on earlier runs. Output is only written under the requested output directory.',
 ['configurations', 'histories'], 'every specification, every process environment',
 'tests generate once per specification and compare nothing across runs or hash seeds',
 ['src/vrtgen/main.py', 'src/vrtgen/backend/generator.py', 'src/vrtgen/backend/jinja.py', 'src/vrtgen/backend/cpp/generator.py', 'src/vrtgen/backend/cpp/type_helpers.py', T],
 [('file emission', 'src/vrtgen/backend/cpp/generator.py'), ('templates', T)])
prop('P15', 'A specification or generation error makes the tool fail visibly',
 'Whenever a specification cannot be parsed, violates a rule, or code cannot be generated for it, the command line tool ends with a non-zero status and a message naming the problem. It never reports success after dropping or skipping a packet.',
 ['inputs', 'fault_sequences'], 'every invalid specification, every failing generation step, every command line',
 'tests check that parser objects raise; the path from the error to the process exit status is not exercised',
 ['src/vrtgen/main.py', 'src/vrtgen/parser/__init__.py', 'src/vrtgen/parser/loader.py', 'src/vrtgen/backend/cpp/generator.py'],
 [('error propagation to exit', 'src/vrtgen/main.py'), ('rule violations raised', 'src/vrtgen/parser/**')])
prop('P16', 'Every accepted specification generates code that compiles',
 'For every specification the tool accepts, each generated file is well-formed C++ against the library headers: all names it uses are declared, every declared member function is defined, and types agree. This holds for each field as required and as optional in each packet kind, for every acknowledge combination and for every command transport.',
 ['configurations', 'programs'], 'every packet kind x field x mode, acknowledge option combinations, transports',
 'the test build compiles a few dozen sample packets; template branches for other fields and combinations are never compiled',
 [T, 'src/vrtgen/backend/cpp/type_helpers.py', 'src/vrtgen/backend/cpp/generator.py', H],
 [('templates', T), ('type mapping', 'src/vrtgen/backend/cpp/type_helpers.py')])
prop('P17', 'Generated packets place every field at its VITA 49.2 offset, everywhere',
 'In a generated packet each present field lies at the offset determined by the VITA 49.2 order and the sizes of the present fields before it. Construction, every later mutation and decoding of received bytes compute the same offsets, and the minimum size equals the sum of the required fields.',
 ['configurations', 'histories', 'inputs'], 'every specification, every combination of present optional fields, every sequence of mutations',
 'sample packets have few optional fields and tests walk a few mutation orders',
 [FD+'constructors.jinja2', FD+'bytes_required.jinja2', FD+'cif.jinja2', T+'ack_packet.cpp.jinja2', T+'packet.cpp.jinja2'],
 [('offset tables in constructors', FD+'constructors.jinja2'), ('offset recomputation', FD+'cif.jinja2'), ('minimum size', FD+'bytes_required.jinja2')])
prop('P18', 'Optional fields: indicator, packet bytes and declared length stay in step',
 'After any sequence of setting and clearing optional fields in a generated packet, the serialised packet contains a field exactly when its presence indicator (and that of its indicator word) is set in the serialised indicator words. Every change of the packet length is reflected in the serialised header length, and setting a field a second time replaces its value without growing the packet.',
 ['histories', 'configurations'], 'every optional field of every kind, every sequence of set/clear/serialise operations',
 'tests set and clear single fields once; orders of operations and words other than the first are not covered',
 [FD+'cif.jinja2', T+'macros/types/weif.jinja2', T+'ack_packet.cpp.jinja2', T+'packet.cpp.jinja2', FD+'data.jinja2'],
 [('setters, resetters and synchronisation', FD+'cif.jinja2, '+T+'macros/types/weif.jinja2, '+T+'ack_packet.cpp.jinja2')])
prop('P19', 'Generated field accessors: reader and writer use the same bytes and form',
 'For every scalar field of a generated packet the writer stores the value big-endian, in the width and scaling of the field, at the offset of that same field, and the reader loads it from there with the same width, scaling and byte order. A field declared with a constant value serialises that value, in a freshly constructed packet, as well as in its declared header, class identifier and stream identifier.',
 ['inputs', 'configurations'], 'every scalar field of every generated packet, every value',
 'tests read back what they wrote for a few fields, so mistakes made alike on both sides or in rarely generated fields survive',
 [FD+'cif.jinja2', FD+'common.jinja2', FD+'command.jinja2', FD+'timestamp.jinja2', FD+'stream_id.jinja2', FD+'header.jinja2', FD+'class_id.jinja2', FD+'constructors.jinja2', 'src/vrtgen/backend/cpp/type_helpers.py'],
 [('accessor macros', FD+'*.jinja2'), ('literal rendering', 'src/vrtgen/backend/cpp/type_helpers.py')])
prop('P20', 'Packet identification accepts exactly the packets of that definition',
 'Identifying a received packet compares every header, class identifier and control/acknowledge property the definition fixes, each read from its own position in the packet, and nothing the definition leaves open. A packet of another definition differing in a fixed property is never accepted, and every packet produced by the definition itself is accepted.',
 ['inputs', 'configurations'], 'every definition, every received packet',
 'tests match packets of a few definitions against themselves and one or two others',
 [FD+'match.jinja2', FD+'constructors.jinja2'],
 [('match functions', FD+'match.jinja2')])
prop('P21', 'Received data is never read or copied beyond its end',
 'A received buffer shorter than the packet header, than the length the header declares, or than the minimum of the definition is refused by identification before any of the missing bytes is read, and decoding never copies more than the buffer holds.',
 ['inputs', 'fault_sequences'], 'every buffer length and content',
 'tests only feed complete packets',
 [FD+'match.jinja2', FD+'constructors.jinja2'],
 [('length checks', FD+'match.jinja2, constructors.jinja2')])
prop('P22', 'A control request is answered with the acknowledgements it asked for',
 'For every received datagram, message or read that holds one of its control packets, a controlled node calls the validation handler once if validation is requested and the execution handler once if execution or state is requested (one handler produces both), and sends exactly the requested acknowledgement kinds, in the order validation, execution, state, each to the requester and carrying the message identifier and, where the definition has them, the stream, controllee and controller identifiers of the request. Every control packet of the information class that can request something is looked for, on every command transport, in exactly the bytes received; data that is no such packet, and failed receives, cause neither a handler call nor an answer, and no received data ends the listener.',
 ['inputs', 'configurations', 'histories'], 'every control packet definition and acknowledgement request combination, every transport, every outcome of receiving, identifying, decoding and sending',
 'the generated node code is only syntax-checked by the build; no test runs it',
 [T+'controllee_base.hpp.jinja2', T+'controllee.hpp.jinja2', H+'packing/packing.hpp'],
 [('listener loop', T+'controllee_base.hpp.jinja2')])
prop('P23', 'Acknowledge warnings/errors: fields, indicator words and flags agree',
 'In a generated validation/execution acknowledgement, a warning or error is serialised exactly when its indicator is set in its own indicator word, the extension indicator of the first word is set exactly when the further word is present, and the warning and error flags of the acknowledge word tell whether any are present. Warnings never affect error parts or the reverse, and serialising repeatedly does not change the packet.',
 ['histories', 'configurations'], 'every warning/error field of every indicator word, every sequence of set/clear/serialise',
 'tests cover single warnings in the first two words',
 [T+'macros/types/weif.jinja2', T+'ack_packet.cpp.jinja2', T+'ack_packet.hpp.jinja2', FD+'constructors.jinja2'],
 [('warning/error setters and resetters', T+'macros/types/weif.jinja2'), ('synchronisation', T+'ack_packet.cpp.jinja2')])
prop('P24', 'Messaging client: shared queues are consistently locked, waiters are woken',
 'Each message queue of the messaging client is accessed, by callbacks and by callers, only while the lock that belongs to it is held, and waiting for a message uses that same lock. Adding a message wakes a waiter of that queue, a message is delivered to at most one caller in arrival order, and stopping wakes every waiter. State shared between clients is only touched under a lock common to them, and members a running delivery or worker uses are only changed under a common lock.',
 ['schedules'], 'every interleaving of the delivery callbacks with callers and with shutdown',
 'no test runs the messaging client',
 [H+'nats/client.hpp'],
 [('queues, mutexes and condition variables', H+'nats/client.hpp')])
prop('P25', 'Messaging handles are released exactly once and never leak',
 'Every connection, subscription, message and inbox handle obtained from the messaging system is released exactly once on every path, including failure paths, replacement by a new one and destruction, and is not used afterwards. An object that owns a handle cannot be duplicated into a second owner of it. When the members of a client are destroyed, every subscription delivering to it has been released and its worker thread has been joined.',
 ['histories', 'fault_sequences', 'schedules'], 'every sequence of connect, subscribe, publish, stop and destruction, every failure',
 'no test runs the messaging client',
 [H+'nats/client.hpp', H+'nats/message.hpp'],
 [('handle ownership', H+'nats/client.hpp, message.hpp')])
prop('P26', 'Sockets: one owner per descriptor, closed once, failures reported',
 'Every socket descriptor the library opens or accepts is owned by exactly one object and closed exactly once, also when it is replaced or an operation fails, and a closed socket reports itself as not open. Every failing system call is reported to the caller as a failure, never as success or as data. Operations apply to the address, bytes and settings given, for IPv4 and IPv6 alike.',
 ['histories', 'fault_sequences'], 'every sequence of open/bind/connect/accept/send/receive/close and every system call failure',
 'no test opens a socket',
 [H+'socket/socket_base.hpp', H+'socket/tcp.hpp', H+'socket/udp.hpp', H+'socket/socket_endpoint.hpp'],
 [('descriptor ownership', H+'socket/socket_base.hpp'), ('endpoints', H+'socket/socket_endpoint.hpp')])
prop('P27', 'Commands go out whole; replies come only from complete matching data',
 'Sending a command sends the whole packed packet once, to the configured controlled node, with a message identifier no earlier command of that controller had and with its controller identifier, and awaiting replies never changes where later commands go. Sending returns normally only if the packet was sent completely and every requested acknowledgement was received in time: each taken, in the order validation, execution, state, from bytes that were received and not yet used for another, which identify as an acknowledgement of the expected kind, and no acknowledgement that was not requested is reported. A failed or incomplete send, a failed receive, a timeout or a foreign reply is reported as an error, on every transport.',
 ['inputs', 'fault_sequences', 'histories'], 'every sequence of replies, errors, lengths and timeouts, every request combination, every transport',
 'no test runs the command exchange',
 [H+'utility.hpp', H+'nats/utility.hpp', T+'macros/controller/controller.jinja2'],
 [('send and await acknowledgement', H+'utility.hpp, nats/utility.hpp'), ('command functions', T+'macros/controller/controller.jinja2')])
prop('P28', 'Messaging calls carry exactly what the caller passed and report the outcome',
 'Every operation of the messaging client hands the messaging system exactly the subject, group, server address, reply subject and bytes the caller gave, in the form of subscription asked for, and returns the status the messaging system reported. Names, addresses and received bytes are returned exactly as the messaging system reports them, with nothing added or cut off.',
 ['inputs', 'histories', 'fault_sequences'], 'every operation in every state of the client, every argument, every outcome of the messaging system',
 'no test runs the messaging client',
 [H+'nats/client.hpp', H+'nats/message.hpp'],
 [('subscribe, publish, connect and receive', H+'nats/client.hpp'), ('message wrapper', H+'nats/message.hpp')])
prop('P29', 'Node threads end before what they use; packets are handed over whole, once',
 'Starting a controller\'s receiver or a controlled node\'s listener runs exactly one thread however often it is started, stopping or destroying the node tells the thread to end and waits for it, and it has ended before any member or handler it uses is destroyed; no sequence of starts, stops and destruction ends the program. The receiver hands every received data or context packet to the listener registered for its definition exactly once, decoded from exactly the bytes received, and nothing else; sending a data or context packet sends the whole packed packet once to the configured destination or reports an error. A node whose socket, connection, subscription or reply inbox cannot be set up is not constructed, and an endpoint that cannot be bound or connected is reported.',
 ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every sequence of starts and stops by one thread, every outcome of receiving, sending and set-up, listeners registered before receiving starts',
 'no test runs a generated node',
 [T+'controller.hpp.jinja2', T+'macros/controller/controller.jinja2', T+'controllee_base.hpp.jinja2', T+'controllee.hpp.jinja2'],
 [('receiver thread', T+'controller.hpp.jinja2'), ('listener thread', T+'controllee_base.hpp.jinja2')])
prop('N01', 'Fixed-point values survive a round trip to within half a step',
 'For every real value inside the range of a scaled field, writing and then reading it returns the value to within half of the smallest representable step.',
 ['inputs'], 'every real number in range of every scaled field',
 'tests sample a few exactly representable values',
 [H+'types/fixed.hpp'], [('rounding conversion', H+'types/fixed.hpp')])
prop('N02', 'A requested acknowledgement arrives within its time limit',
 'A controller that requests an acknowledgement from a live controlled node receives it before the wait time limit, for every transport.',
 ['schedules', 'fault_sequences'], 'every network and thread schedule',
 'no test runs two nodes',
 [H+'utility.hpp', T+'controllee_base.hpp.jinja2'], [('timed waits', H+'utility.hpp')])
prop('N03', 'Textual identifiers survive formatting and parsing',
 'A universally unique identifier or organisation identifier formatted as text and parsed again is the same identifier, for every identifier and every accepted spelling.',
 ['inputs'], 'every 128-bit identifier and every accepted spelling',
 'tests convert a few identifiers',
 [H+'types/uuid.hpp', 'src/vrtgen/parser/value.py'], [('text conversion', H+'types/uuid.hpp')])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
