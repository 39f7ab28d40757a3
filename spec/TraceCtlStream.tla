---------------------------- MODULE TraceCtlStream ----------------------------
(***************************************************************************)
(* Traces of control streams against Duplex, with ControlCodec for what    *)
(* the items are.                                                          *)
(***************************************************************************)
EXTENDS TraceDuplex, ControlCodec

CtlDelivered(x, y) == y = Parsed(x.type, x.data)
CtlWritten(x, c) == Envelope(c, x.m)
CtlWellFed(x) == (x.bad # "") = Refused(x.type, x.data)
=============================================================================
