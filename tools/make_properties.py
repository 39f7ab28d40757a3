#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list of properties is kept here, as data."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": hook,
        },
    })

prop("C01", "Receiving reassembles exactly the messages that were sent",
     "For every well-formed chunk stream, however the messages of different chunk streams are interleaved and whatever message lengths and chunk sizes are in use, the chunk reader delivers exactly the messages that were completed, each once, in the order in which their last chunks arrived. Each is delivered with the payload, length, type and stream IDs the peer sent, and no history of earlier messages on any chunk stream changes that.",
     ["inputs", "histories"],
     "all sequences of messages over all chunk stream IDs, all legal interleavings of their chunks, all message lengths (0, below, equal to, multiples of and above the chunk size), all chunk sizes, histories of thousands of messages",
     "The reader tests decode four hand-written streams of at most two 8-byte messages with uncompressed headers; interleaving, long histories, boundary lengths and many simultaneous partial messages are never sampled.",
     ["chunk/default_reader.go", "chunk/builder.go", "chunk/header.go", "chunk/default_normalizer.go"],
     [("per chunk stream builders, removed when complete", "chunk/default_reader.go: Recv, builder, removeBuilder"),
      ("bytes left and payload parts", "chunk/builder.go: Read, Append, Build")],
     ["values received from chunk.Reader.Chunks()"],
     [("builders", "the partially received message of each chunk stream", "chunk/default_reader.go"),
      ("left", "payload bytes still to come", "chunk/builder.go"),
      ("readSize", "maximum payload of one chunk", "chunk/default_reader.go")])

prop("C02", "Compressed chunk headers resolve against their own chunk stream only",
     "A type 1, 2 or 3 chunk header inherits every field it omits from the preceding chunk of its own chunk stream and never from another one: type 1 the message stream ID, type 2 also the length and the type, type 3 everything. Timestamps and timestamp deltas are reported as they stood on the wire, including extended timestamps, which also follow the type 3 headers of a chunk stream whose last explicit timestamp was extended.",
     ["inputs", "histories"],
     "all sequences of header types 0-3 over any number of chunk streams, interleaved at every chunk boundary, with every combination of field values and with and without extended timestamps",
     "Three normaliser tests use one chunk stream, one predecessor and check one or two fields each; cross-stream inheritance, type inheritance and extended timestamps on compressed headers are not tested.",
     ["chunk/default_normalizer.go", "chunk/normalizer.go", "chunk/message_header.go", "chunk/header.go", "chunk/default_reader.go"],
     [("last header per chunk stream", "chunk/default_normalizer.go: Normalize, fillPartialHeader, fillEmptyHeader"),
      ("extended timestamp detection", "chunk/message_header.go: HasExtendedTimestamp; chunk/header.go: Read")],
     ["Header of each chunk received from chunk.Reader.Chunks()", "chunk.Normalizer.Normalize result"],
     [("headers", "last resolved header of each chunk stream", "chunk/default_normalizer.go")])

prop("C03", "Chunk size changes and aborts act exactly where they appear",
     "A Set Chunk Size message governs every chunk whose header follows it and none before it, including the remaining chunks of messages already under way on other chunk streams, and is consumed rather than delivered; one that is too short or asks for size zero is reported as an error and changes nothing. An Abort message discards the partially received message of the chunk stream it names and nothing else, and is itself delivered.",
     ["inputs", "histories"],
     "all positions of Set Chunk Size and Abort messages relative to the chunks of other messages, all sizes and payload lengths, all named chunk streams, repeated changes",
     "No test sends either message through the reader; tests only set the read size by calling the setter before any byte is read.",
     ["chunk/default_reader.go", "control/control_set_chunk_size.go", "control/control_abort_message.go"],
     [("in-band chunk size", "chunk/default_reader.go: updateChunkSize, SetReadSize, Recv"),
      ("removal of a partial message", "chunk/default_reader.go: removeBuilder")],
     ["chunk.Reader.Chunks(), Errs() and ReadSize() between wire positions"],
     [("readSize", "maximum payload of one chunk", "chunk/default_reader.go"),
      ("builders", "partial messages", "chunk/default_reader.go")])

prop("C04", "Decoding depends on the bytes alone, not on how they arrive",
     "The messages delivered for a byte sequence are the same however the transport fragments it, down to single bytes and including data that arrives together with the end of input. Each message is delivered as soon as its last byte has arrived, without waiting for more input. When the input ends or fails inside a message nothing of that message is delivered, everything completed before is, and the error is reported.",
     ["inputs", "fault_sequences", "schedules"],
     "all fragmentations of all well-formed byte sequences; end of input or a transport error after every byte position",
     "Every test hands the reader a complete in-memory buffer; short reads, waiting for input and truncation are not exercised apart from one empty builder read.",
     ["chunk/default_reader.go", "chunk/builder.go", "spec/bytes.go", "chunk/basic_header.go", "chunk/message_header.go"],
     [("full reads", "spec/bytes.go: ReadByte, ReadBytes; chunk/builder.go: Read"),
      ("delivery before the next header is read", "chunk/default_reader.go: Recv")],
     ["chunk.Reader.Chunks() and Errs() after each fragment, at quiescence"])

prop("C05", "No input can crash or wedge the receiver",
     "Whatever bytes a peer sends, the receive path never panics, and never blocks or spins while input is available and its outputs are being taken: it goes on to deliver messages, report errors or wait for input. Every message it delivers has a payload of exactly the length its header declares.",
     ["inputs", "fault_sequences"],
     "all byte sequences: well-formed, malformed, truncated, hostile field values, control messages with wrong lengths, arbitrary bytes",
     "Tests contain no malformed chunk stream at all; the space of inputs is unbounded.",
     ["chunk/default_reader.go", "chunk/builder.go", "chunk/message_header.go", "control/default_parser.go", "spec/binary.go"],
     [("length check of in-band control payloads", "chunk/default_reader.go: updateChunkSize"),
      ("payload accounting", "chunk/builder.go")],
     ["process survival, quiescence, and len(Data) against Header.MessageHeader.Length of every delivered chunk"])

prop("C06", "Sending emits conforming chunks for every message",
     "Writing a message emits its header once and then its payload in order in pieces of exactly the write size (the last may be shorter), each piece after the first preceded by a type 3 header naming the same chunk stream, with the extended timestamp repeated if the message has one, and nothing else. This holds for every chunk stream ID, header form, payload length and write size, so that a peer reading with that chunk size recovers the message. A transport failure is returned to the caller, and the message passed in is left unchanged.",
     ["inputs", "configurations", "fault_sequences"],
     "all chunk stream IDs 2-65599, header types 0-3, timestamps, payload lengths, write sizes, sequences of messages, and transport failures after any number of bytes",
     "Two tests write one 8-byte message on chunk stream 18 with write sizes 8 and 4; larger chunk stream IDs, extended timestamps, boundary lengths, repeated use and failing transports are not tried.",
     ["chunk/default_writer.go", "chunk/header.go", "chunk/basic_header.go", "chunk/message_header.go"],
     [("splitting loop", "chunk/default_writer.go: Write"),
      ("header encoding", "chunk/header.go: Write")],
     ["bytes reaching the io.Writer, and the error returned by chunk.Writer.Write"],
     [("writeSize", "maximum payload of one chunk", "chunk/default_writer.go")])

prop("C07", "Messages written concurrently do not corrupt one another",
     "Any number of goroutines may write messages to one connection at the same time: every message reaches the wire exactly once with its chunks contiguous and unaltered, and each goroutine's messages keep their order. The same message value may be written to several connections at once, and the write size and read size may be read and set meanwhile, without data races.",
     ["schedules"],
     "all interleavings of concurrent writers at the granularity of transport writes, with messages of one and of many chunks on equal and different chunk streams",
     "No test writes from two goroutines; the endpoints of one client (control stream, net connection, net stream, data stream) share one writer, so this is the normal mode of use.",
     ["chunk/default_writer.go", "chunk/default_reader.go", "client/client.go"],
     [("whole message assembled before one transport write", "chunk/default_writer.go: Write"),
      ("guarded sizes", "chunk/default_writer.go: WriteSize, SetWriteSize; chunk/default_reader.go: ReadSize, SetReadSize")],
     ["bytes reaching the io.Writer under concurrent Write calls"])

prop("C08", "Header encoding and decoding are exact inverses",
     "For every value of every field, encoding a chunk header produces the protocol's layout: the shortest form of the chunk stream ID, 24-bit big-endian timestamp and length, one byte of type, little-endian message stream ID, and a 32-bit big-endian extended timestamp exactly when the timestamp field is 0xFFFFFF. Decoding consumes exactly those bytes, whatever follows them, and yields the same values; input that ends early yields an error.",
     ["inputs"],
     "all field values of all four header types and all chunk stream IDs 2-65599, every truncation",
     "Tests check seven fixed headers; IDs 63, 64, 319, 320 and 65599, extended timestamps when writing, byte order of large stream IDs and truncated input are not covered.",
     ["chunk/basic_header.go", "chunk/message_header.go", "chunk/extended_timestamp.go", "chunk/header.go", "spec/binary.go", "spec/bytes.go"],
     [("field codecs", "spec/binary.go"), ("forms of the chunk stream ID", "chunk/basic_header.go: Read, Write")],
     ["chunk.Header.Read and Write on byte buffers"])

prop("C09", "Received messages reach exactly their own stream, in order",
     "Every message received is handed to the stream of its chunk stream ID, exactly once, in arrival order, and to no other; it waits for its consumer and is never dropped or replaced while the parser is open. Every error met while reading is passed on exactly once and does not disturb the messages around it.",
     ["histories", "schedules"],
     "all sequences of messages and errors over single and combined streams, all orders and timings in which consumers take from the streams and from the error channel",
     "Parser tests use a mock reader that produces at most one error and no message at all.",
     ["chunk/parser.go", "chunk/stream.go", "chunk/multi_stream.go"],
     [("dispatch loop", "chunk/parser.go: Recv"), ("stream lookup", "chunk/parser.go: Stream")],
     ["receives from Stream.In() and Parser.Errs(), at quiescence"],
     [("streams", "chunk stream ID to stream", "chunk/parser.go")])

prop("C10", "The stream registry is consistent and all-or-nothing",
     "Asking for one chunk stream yields the same stream for the same ID every time and distinct streams for distinct IDs, from any goroutine and before or after messages have arrived on it. Asking for several at once succeeds only if none of them exists yet and then creates them all; otherwise it fails and creates none; asking for none fails.",
     ["histories", "schedules"],
     "all sequences and concurrent interleavings of single and combined requests over any IDs, mixed with arriving messages",
     "Four tests make at most two sequential requests; partial creation, later requests for members of a combined stream and concurrent requests are not tested.",
     ["chunk/parser.go"],
     [("lock around lookup and creation", "chunk/parser.go: Stream (smu)")],
     ["results of chunk.Parser.Stream"],
     [("streams", "chunk stream ID to stream", "chunk/parser.go")])

prop("C11", "Combined streams lose, duplicate and reorder nothing per source",
     "A combined stream delivers every message of every stream added to it exactly once and unchanged, keeping each source's order, whenever the sources were added. Waiting for its end returns, and the combined stream ends, only after every source has ended and all their messages have been taken; a source that ends early does not affect the others.",
     ["schedules", "histories"],
     "any number of sources added before or after messages flow, all interleavings of sends, source closes, receives and the wait for the end",
     "One test forwards two messages and one closes two idle sources; messages in flight at close, later additions and larger fan-ins are not tested.",
     ["chunk/multi_stream.go"],
     [("one forwarding goroutine per source, counted by a wait group", "chunk/multi_stream.go: Append, AwaitClose")],
     ["receives from MultiStream.In(), return of AwaitClose"],
     [("wg", "sources still open", "chunk/multi_stream.go")])

prop("C12", "Closing the receive path always completes and ends every stream",
     "Closing a chunk parser returns whatever the parser and its reader are doing at that moment: waiting for input, holding a message or an error nobody is taking, or reading. Afterwards its error channel and every stream it had handed out are ended (a combined one once what it had already taken from its sources has been taken), nothing beyond the message under way is received any more, nothing panics, and the reader stops as soon as it is not waiting for input.",
     ["schedules", "histories", "crash_points"],
     "Close called at every point of every history of input, consumption and errors",
     "The only close test uses a mock reader whose own Close does nothing and in which nothing is in flight.",
     ["chunk/parser.go", "chunk/default_reader.go", "chunk/multi_stream.go"],
     [("close signalling", "chunk/parser.go: Close, Recv; chunk/default_reader.go: Close, Recv")],
     ["return of Parser.Close, closed state of every Stream.In() and of Errs()"],
     [("closer", "close request", "chunk/parser.go, chunk/default_reader.go")])

prop("C13", "The handshake succeeds only for a faithful peer",
     "The server handshake succeeds if and only if the peer opens with version 3 and its final packet returns the challenge sent on this connection unchanged in all 1528 bytes; the times in that packet do not matter. Any other version, any difference in the challenge, and a read or write failure or end of input at any point make it fail with an error, after which it reads and writes nothing more.",
     ["inputs", "fault_sequences"],
     "all version bytes, all C1/C2 packets, all corruptions of the returned challenge, truncation after every byte, read and write faults at every operation",
     "Tests call each step in isolation with one matching and one mismatching packet; no test runs the whole exchange, and corruption at a particular byte or a fault at a particular operation is not tried.",
     ["handshake/handshaker.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/server_ack_sequence.go", "handshake/packet_ack.go"],
     [("sequence loop stops at the first error", "handshake/handshaker.go: Handshake"),
      ("challenge comparison", "handshake/server_ack_sequence.go: Read"),
      ("version check", "handshake/version_sequence.go: Read")],
     ["result of Handshaker.Handshake, reads and writes on the connection"],
     [("current", "the step in progress", "handshake/handshaker.go")])

prop("C14", "The handshake exchange is byte-exact and in protocol order",
     "The server writes nothing before it has accepted the version byte, then writes the version, and only after the client's complete first packet writes its own packet followed by an echo that carries the client's time and challenge: 3073 bytes in all. It consumes exactly the client's 3073 handshake bytes however they are fragmented and leaves every later byte for the chunk stream. Each handshake sends a challenge of its own, not reused from another.",
     ["inputs", "schedules", "histories"],
     "all contents and fragmentations of the client's bytes, with and without pipelined data after them, any number of handshakes in one process",
     "No test runs the whole exchange over one connection or looks at what is left unread.",
     ["handshake/handshaker.go", "handshake/version_sequence.go", "handshake/client_ack_sequence.go", "handshake/packet_ack.go"],
     [("step order", "handshake/handshaker.go: Handshake; Next of each sequence"),
      ("packet layout", "handshake/packet_ack.go: Read, Write"),
      ("random challenge", "handshake/client_ack_sequence.go: NewClientAckSequence")],
     ["bytes written and consumed at every quiescent point of Handshaker.Handshake"])

prop("C15", "Control messages survive packaging and parsing unchanged",
     "For each of the six control messages and every value of its fields, packaging gives one chunk on chunk stream 2 and message stream 0 with the message's type, its exact protocol payload and matching length, and parsing that chunk gives an equal message (a chunk size above 0xFFFFFF is capped to it when sent). Parsing a chunk of any other type, or one whose payload is too short, gives an error and no message; messages parsed earlier are never affected by later ones.",
     ["inputs", "histories"],
     "all six message types, all field values, all payload lengths, all type IDs, sequences of parses",
     "Codec tests only check reading of one random value per type (writing is never asserted); the parser test covers one type, and short payloads are not tested.",
     ["control/default_chunker.go", "control/default_parser.go", "control/control.go", "control/control_abort_message.go", "control/control_acknowledgement.go", "control/control_event.go", "control/control_set_chunk_size.go", "control/control_set_peer_bandwidth.go", "control/control_window_ack_size.go"],
     [("type registry", "control/control.go: Controls; control/default_parser.go: NewParser, Parse"),
      ("envelope", "control/default_chunker.go: Chunk")],
     ["control.Chunker.Chunk and control.Parser.Parse results"])

prop("C16", "Control streams relay every message once, in order, through errors",
     "A running control stream delivers every control message received from its chunk stream exactly once and in order, and writes every message submitted to it exactly once and in order, whichever direction is busy. Every item that cannot be parsed, packaged or written is reported by exactly one error, and does not affect the items before or after it.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of valid and invalid incoming chunks, submitted messages, packaging and transport failures, and all timings of the consumers",
     "Each stream test passes a single item with a mock parser or packager; sequences, mixed directions and recovery after an error are not tested.",
     ["control/stream.go"],
     [("select loop", "control/stream.go: Recv")],
     ["receives from Stream.In() and Errs(), bytes written, acceptance of sends on Out(), at quiescence"])

prop("C17", "Control streams stop cleanly and survive the end of their input",
     "Closing a running control stream completes as soon as the item in progress has been taken, and then its incoming and error channels are ended and nothing more is delivered or written. The end of the incoming chunk stream neither crashes nor stops the control stream: it can still send messages and still be closed.",
     ["schedules", "histories", "crash_points"],
     "close, and end of the chunk stream, at every point of every history of traffic",
     "No test closes a control stream or lets its chunk stream end.",
     ["control/stream.go"],
     [("closer and deferred closes", "control/stream.go: Close, Recv")],
     ["return of Stream.Close, closed state of In() and Errs(), process survival"])

prop("C18", "Commands and media are dispatched to exactly the right endpoint",
     "Each chunk received by the command manager goes to exactly the endpoint of its class and to no other, in arrival order: chunk stream 3, or 8 on message stream 0, to the net connection; type 20 on chunk stream 4, or on 8 with message stream 1, to the net stream; types 8, 9 and 18 on chunk stream 4 to the data stream; everything else to none. An all-of gate is open only if it has members and all are open, an any-of gate only if at least one member is.",
     ["inputs", "histories"],
     "all combinations of chunk stream ID, message stream ID and type, all gate expressions, all sequences of chunks",
     "Gate tests use constant gates; the real routing table is never consulted by any test.",
     ["cmd/gate.go", "cmd/manager.go"],
     [("gates", "cmd/gate.go: NetConnGate, NetStreamGate, DataStreamGate"), ("dispatch loop", "cmd/manager.go: Dispatch")],
     ["Gate.Open; what arrives at each endpoint of cmd.Manager"])

prop("C19", "Net connection, net stream and data stream relay reliably",
     "Each endpoint turns every parsable chunk it is given into one delivered command or frame, in order, writes every response, status or frame submitted exactly once and in order, and reports exactly one error for each item that cannot be parsed or written, without affecting other items. Closing it completes once the item in progress has been taken, after which it delivers and writes nothing more and the channels of a net stream or data stream are ended; the end of its input neither crashes it nor stops it from sending or being closed. Media frames are relayed with the header and payload they arrived with.",
     ["histories", "schedules", "fault_sequences"],
     "all sequences of valid and invalid chunks, submissions, transport failures, ends of input and closes, all consumer timings",
     "Each endpoint test passes one item; sequences, recovery after errors, closing and the end of input are not tested.",
     ["cmd/conn/net_conn.go", "cmd/stream/net_stream.go", "cmd/data/stream.go", "cmd/data/data.go", "cmd/stream/status.go", "cmd/conn/default_chunker.go"],
     [("select loops", "cmd/conn/net_conn.go: Listen; cmd/stream/net_stream.go: Listen; cmd/data/stream.go: Recv")],
     ["the endpoints' channels and the bytes written, at quiescence"])

prop("C20", "Stopping the command manager stops it and its endpoints",
     "Closing a running command manager ends its dispatch loop: no chunk is dispatched afterwards. If it manages its endpoints, all three are started with it and all three are stopped with it, without a panic, whatever chunks and submissions preceded the close and even if the incoming stream has already ended.",
     ["schedules", "histories"],
     "close at every point of every history of dispatched chunks, with managed and unmanaged endpoints, with the incoming stream open or ended",
     "No test closes a manager.",
     ["cmd/manager.go"],
     [("dispatch loop and deferred cleanup", "cmd/manager.go: Dispatch, startChildren, cleanupChildren, Close")],
     ["termination of Dispatch, closed state of the endpoints' channels"])

prop("C21", "A client session starts only after its handshake and loses nothing",
     "A client reads no chunk and delivers nothing before its handshake has succeeded, and never if it failed; after success every message that follows, pipelined with the handshake or not, reaches the control stream (chunk stream 2) or the command endpoints (chunk streams 3, 4, 5 and 8), in order per chunk stream. The server turns each accepted connection into exactly one client bound to that connection, and sessions do not affect one another.",
     ["inputs", "schedules", "histories"],
     "all fragmentations of a session's bytes, failing and succeeding handshakes, any number of simultaneous connections",
     "Client and server tests construct one object each and exchange no byte.",
     ["client/client.go", "server/server.go", "rtmp.go"],
     [("chunk reading started after the handshake", "client/client.go: Handshake"),
      ("one client per connection", "server/server.go: Accept")],
     ["client.Client channels over a scripted connection; server.Server.Clients()"])

prop("C22", "Outgoing commands are packaged correctly and independently",
     "Every response and status message sent is one chunk with the protocol's chunk stream, message stream, type and matching length, whose payload is that message's own content. Building, changing or sending one message, on this or any other connection, never changes another that is already built.",
     ["histories", "schedules"],
     "all sequences and concurrent interleavings of building status messages and responses of any size",
     "Tests build one message at a time and compare it before building another.",
     ["cmd/stream/status.go", "cmd/conn/default_chunker.go", "cmd/conn/marshallable.go", "cmd/data/data_frame.go"],
     [("payload assembly", "cmd/stream/status.go: AsChunk; cmd/conn/default_chunker.go: Chunk")],
     ["chunks returned by AsChunk, Chunk and Marshal, re-read after later ones were built"])

prop("C23", "Delivered messages and the decoder do not share state",
     "A message once delivered belongs to its consumer: nothing received later changes its header or payload, and whatever the consumer does to it has no effect on how anything received later is decoded or on any other delivered message.",
     ["histories", "schedules"],
     "all histories in which consumers keep and modify delivered messages while further messages, compressed against the same chunk stream, are decoded",
     "No test keeps a message past the next one or modifies one.",
     ["chunk/default_normalizer.go", "chunk/default_reader.go", "chunk/builder.go"],
     [("copied headers and payloads", "chunk/default_normalizer.go: StoreHeader, SetLast; chunk/builder.go: Build")],
     ["delivered chunks re-read at the end of a history, and decoding after they were modified"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
