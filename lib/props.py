"""The properties and their checks."""
import reader

PROPS = {}
ABOUT = {}


def add(ids, fn, technique, note):
    for p in ids:
        PROPS[p] = fn
        ABOUT[p] = (technique, note)


TRUST = (" Trusted: TLC, the Go runtime's synctest quiescence, and the harness's transports and recorders. "
         "The specification is explored exhaustively at small scope; the code is bound to it by finitely many traces.")

add(("C01", "C02", "C03", "C04", "C23"), reader.check,
    "TLA+ (ChunkReader, ChunkStreamMC), TLC; generated behaviours replayed into chunk.Reader, recorded traces validated",
    "The receiver is specified byte by byte. TLC explores it composed with a conforming peer, samples of whose wires "
    "are replayed into the real reader along with random longer histories; each recorded history (fragments fed, "
    "bytes taken, messages, errors, chunk sizes) must be a behaviour of the specification." + TRUST)

add(("C05",), reader.hostile,
    "TLA+ (Receiver, HostileMC refining it), TLC; generated and random hostile wires, recorded traces validated",
    "Receiver allows taking input, delivering messages of their declared length and reporting errors, and nothing "
    "else; crashes, hangs and input left alone have no action. Undisciplined wires enumerated by TLC and random ones "
    "go through the real reader and parser." + TRUST)

import writer  # noqa: E402

add(("C06",), writer.check,
    "TLA+ (ChunkWriter, WriterMC), TLC; generated histories replayed into chunk.Writer, recorded wires validated",
    "The encoder is specified byte by byte and TLC checks that ChunkReader recovers every message from it. Wires of the "
    "real writer (generated histories, random messages, every chunk stream ID class and format, transports that fail "
    "after any number of bytes) must be exactly what the specification emits." + TRUST)
add(("C07",), writer.check,
    "TLA+ (ChunkWriter with concurrent writers), TLC; traces of concurrent writes validated; race detector build",
    "Recorded call/return histories of goroutines writing to shared connections, whose Write calls are delayed at "
    "random, must be explained by atomic emissions between call and return. Data races are left to the race detector "
    "on the same scenarios: absence of races is not something the specification can decide." + TRUST)

import codec  # noqa: E402

add(("C08",), codec.check,
    "TLA+ (RtmpWire, CodecMC), TLC; encode and decode observations of the real code validated",
    "TLC checks on boundary values that the specified codec is an inverse pair, prefix-free and uses the shortest form; "
    "what the real codec does with those headers, with random ones, with every class of chunk stream ID, with prefixes "
    "and with arbitrary bytes must be what the specification says." + TRUST)

import demux  # noqa: E402

add(("C09", "C10", "C12"), demux.check,
    "TLA+ (Demux, DemuxMC), TLC; generated and random histories run against chunk.Parser, recorded traces validated",
    "Demux says who may get which item, in what order, what requests return and what must have happened at rest. TLC "
    "checks that a goroutine-per-stream design implements it; the real parser, over a fake and the real reader, is "
    "driven through histories and everything its users see up to quiescence must be a behaviour of Demux." + TRUST)
add(("C11",), demux.fanin,
    "TLA+ (FanIn, FanInMC), TLC; generated and random histories run against chunk.MultiStream, recorded traces validated",
    "FanIn says what a combined stream may deliver and when it and the wait for its end may, and must, be over. TLC "
    "checks that a design with one forwarder per source implements it; the real one is driven through histories of "
    "sends, ends, additions, takes and waits, and what came of them must be a behaviour of FanIn." + TRUST)

import hand  # noqa: E402

add(("C13", "C14"), hand.check,
    "TLA+ (Handshake, HandshakeMC, HandshakeScripts), TLC; generated scripts run against handshake.Handshaker, traces validated",
    "TLC checks, with real bytes at reduced lengths and two connections, that the specified server accepts exactly "
    "faithful clients and never waits for nothing. Client scripts generated at reduced lengths are mapped to the real "
    "ones; every read and write the real handshaker makes, in order, must be one the specification allows." + TRUST)

import ctl  # noqa: E402

add(("C15",), ctl.codec,
    "TLA+ (ControlCodec, ControlMC), TLC; packaging and parsing by the real code validated",
    "TLC checks on boundary values that packaged messages parse as themselves and short ones are refused; what the real "
    "chunker and parser do with those messages, random ones, every type ID at every short length, and histories in "
    "which earlier results are looked at again, must be what the specification says." + TRUST)
add(("C16", "C17"), ctl.streams,
    "TLA+ (Duplex, DuplexMC, ControlCodec), TLC; generated and random histories run against control.Stream, traces validated",
    "Duplex says what an endpoint may hand out, write and report, in what order, what must have happened at rest and what "
    "closing means; TLC checks that a select loop implements it. Real control streams, alone and behind a real parser, "
    "are driven through histories of both directions, errors, blocked transports, ends and closes." + TRUST)

import cmds  # noqa: E402

add(("C19",), cmds.endpoints,
    "TLA+ (Duplex, DuplexMC, Amf0, Commands), TLC; generated and random histories run against the three endpoints of cmd",
    "As for control streams, with Commands saying which payloads are commands and frames, what they are read as and what "
    "is sent. TLC checks that the specified encoding is prefix-free and invertible. The real conn.NetConn, "
    "stream.NetStream and data.Stream are driven, compiled against a stand-in for the AMF0 library." + TRUST)
add(("C22",), cmds.packages,
    "TLA+ (Packaging, PackagingMC, Commands), TLC; histories of packaging by the real code validated; race detector",
    "Packaging says what each package must look like when built and every time it is looked at again. TLC checks that "
    "buffers of one's own implement it and shared ones do not. The real code packages messages in generated and random "
    "histories, concurrently, and through several endpoints; all packages are looked at again at the end." + TRUST)
add(("C18", "C20"), cmds.dispatch,
    "TLA+ (Dispatch, DispatchMC, Gates, Commands), TLC; generated and random histories run against cmd.Manager",
    "Dispatch says which endpoint may hand out what, what must have come out at rest, and what closing the manager means "
    "for it and its endpoints; TLC checks that a loop handing chunks to the endpoints' loops implements it and that the "
    "gates are the classes. The real manager is driven through histories, and with every type on many chunk and message "
    "streams; random gate expressions are evaluated by both." + TRUST)

import session  # noqa: E402

add(("C21",), session.check,
    "TLA+ (Session, SessionMC, Acceptor, AcceptorMC, Handshake, ChunkReader), TLC; sessions of client.Client and server.Server",
    "Session joins the handshake, the chunk reader and the endpoints: what may come out of a client and when, and what must "
    "have at rest; Acceptor says which connections become clients. TLC checks that this repository's loops implement both. "
    "Real clients are driven through generated and random sessions, alone and several at once, in a bubble and over TCP "
    "behind a real server, with accepting made to fail; what came of them must be behaviours of the two." + TRUST)
