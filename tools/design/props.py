# per property: what is specified and proved, against what oracle, why tests cannot reach it
T={}
T['C01']="""Each encoder (symbolic, index, attribute, class, instance segments; the whole path builder) is run on an arbitrary value and
its bytes are compared with the format of the CIP specification, written in the contract as byte equations; each decoder is run on
arbitrary bytes and must give back what the encoder would have encoded, consume exactly its length, or fail. No bound. Paths in text
form are covered for one and two arbitrary numbers (with and without brackets and spaces) and for port, four part address, number."""
T['C02']="""The item cursor (CIPItem Read/Byte/Uint16/... /Seek/Reset/Rest/Serialize) is specified as a data type: abstract state (content,
position), each method from any content and position. Any sequence of calls follows by induction over the methods."""
T['C03']="""Serialise and deserialise of every scalar, arrays, Go and controller strings, structures with tags: the bytes are the little endian
content (bit equations), deserialising returns the value; list loops by invariant."""
T['C04']="""Common-packet-format items: building then parsing is the identity (ghost offsets of the items as loop invariant facts),
parsing arbitrary bytes either gives items lying one after the other inside the data or an error."""
T['C05']="""Encapsulation framing on both sides of the client: the frame sent for any payload, the frame received from any stream in any
segmentation (vcConn is an arbitrary net.Conn: every read returns an arbitrary non-empty prefix, writes and reads fail anywhere)."""
T['C06']="""readValue for every type code and all data against the little endian content; bits of values against the binary representation."""
T['C07']="""Tag paths: for every text, index and bit the path built from a name is the concatenation of the segments, by name parts; parse of the name
and the cache of paths (a cached path equals a fresh one)."""
T['C08']="""Every write function: the request bytes for every value, the outcome for every reply."""
T['C09']="""Every read function, attributes of objects included: requests, decoding, errors; reassembly of fragments by a loop invariant over a ghost buffer, against the contract of
one fragment exchange, which is verified on its body."""
T['C10']="""ReadList, ReadMulti, ReadMap, WriteMulti: every placement of the parts in a multiple service reply, with a status for each part; the
splitting by connection size."""
T['C11']="""Pack/Unpack against the layout rules as an independent oracle (offset arithmetic in the contract)."""
T['C12']="""The server's connection loop by invariants: what is read is always a whole frame of the stream, in step; every handler for all bytes:
no run-time panic, as every index, nil dereference, slice bound and assertion is an obligation."""
T['C13']="""Every place the client decodes bytes of a peer (replies of every kind of request): no panic and no value made up from cut data."""
T['C14']="""Server requests: for all bytes of each kind, over any transport, the reply has the status, service, context and data the request asks for,
against the tag provider's contract; tags published as attributes of a class and the symbol list included."""
T['C15']="""Forward open/close: ids unique, connections found by their ids, closed connections gone, from any table."""
T['C16']="""Map provider and path router: read-after-write, frame (other tags stay), errors change nothing, from any map. Cyclic IO: the sending
and the receiving loop by one arbitrary message each (the loops run for ever), providers for every content."""
T['C17']="""List identity and list services: announce, decode, equality, for all attributes; truncated data."""
T['C18']="""The lock of the client as a monitor with an invariant: proved at every release, assumed at every acquire after any interference by other
callers that keeps it (rely/guarantee). The network may fail at every operation."""
T['C19']="""Data table buffers: representation invariant (indices and batch numbers in order, placement of slots) kept by every operation from any
buffer; decoding of the answer for any sizes and content."""
T['C20']="""Tagged structures and tag groups: each value goes to the field whose tag it is, by reflection over the real types; accessors for every
dynamic type."""
T['C21']="""Program exports: every value of every declared type in every radix is rendered in the contract and imported again; text that is no number
is an error, with strconv as the oracle for decimal text; the tags of controllers and programs, structures, arrays; comments of rungs, points and tags."""
T['C22']="""Tag listing: requests for pages, every page content, termination (an instance that does not grow is an error); programs and members."""
