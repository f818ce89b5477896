#!/usr/bin/env python3
"""The property list. Writes properties.jsonl (run by mkmanifest.py)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    a={"files":files.split(),"mechanism":[{"name":n,"where":w} for n,w in mech],"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state],"observe_at":list(observe),"hook_needed":None}
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over.split(),"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Logical path segments encode, measure and decode consistently",
 "A class, instance, attribute or element segment is encoded in the smallest of the 8, 16 and 32 bit formats that holds its value, starting with the segment type that announces this format, with the value little endian, and the length it reports is the number of bytes it encodes to. Decoding a class, instance or attribute segment at the front of any data gives the encoded value and consumes exactly the segment, and anything else at the front is an error. The path builder keeps the path built so far and appends exactly the encoding of each requested segment (ports, addresses and slots are one byte each), and appends nothing once it has failed. A path in text form, numbers and addresses separated by commas, is one byte for each number and, for an address, its length and text in whole words, announced in the port before it; other text is an error.",
 "inputs histories","every value, every data following it, every path built before",
 "Tests encode a handful of values; the format boundaries, the decoder on arbitrary bytes and the appending to arbitrary paths range over all inputs.",
 "cip_definitions.go path.go types.go",
 [("segment encoders and decoders","cip_definitions.go CIPClass/CIPInstance/CIPAttribute/CIPElement Bytes, Len, Read"),("path builder","path.go PathBuilder")],observe=["bytes returned by Bytes and PathBuilder.Bytes, Len, value and position after Read"])
p("C02","Reading received items returns exactly the bytes at the cursor",
 "Reading a byte, an integer, a float or raw bytes from a received item returns the little endian content at the current position and advances the position by exactly the size read. A number that does not lie wholly within the data is an error that returns zero and leaves the position alone, and no read ever changes the data or looks outside it.",
 "inputs histories","every item content and every position in it",
 "Tests read a few fixed items; short and empty data and every position are only reachable by quantifying over the data.",
 "items.go",[("cursor","items.go CIPItem.Read, Rest, Reset, Byte, Int16..Uint64, Float32, Float64, DeSerialize")],[("position","offset of the next unread byte","items.go CIPItem.Pos")],["values returned, position, data"])
p("C03","Building an item appends exactly the encoding of each value",
 "Adding values to an outgoing item keeps the bytes already in it and appends, in argument order, the little endian, unpadded encoding of each: numbers, booleans, byte sequences, structures of them, and exactly the bytes of values that serialize themselves. A string takes one 88 byte slot, a 32 bit length that never exceeds the 84 bytes carried followed by the zero padded text, and a list of strings takes one slot per string. The length in the item's header is always the number of bytes in the item.",
 "inputs histories","every prior content, every value, every list of up to 1000 strings",
 "Tests serialize single values into empty items; over-long strings, lists and arbitrary earlier content need all inputs.",
 "items.go",[("serialization","items.go CIPItem.Serialize, Write, newItem")],[("item content","bytes to send and their count in the header","items.go CIPItem.Data, Header.Length")],["item data and header"])
p("C04","Item lists are framed and parsed exactly",
 "A list of items is sent as a zero interface handle, a zero timeout, the item count and then each item's type, length and data, in order, with nothing after the last item; lists or items too long for their 16 bit counts are refused. Reading a list from any received bytes succeeds when every announced item lies within them, gives as many items as announced, each with the type, length and data transmitted and its read position at the start, and consumes exactly the list.",
 "inputs","every list of up to 1000 items, every received byte sequence",
 "Tests cover the two item lists a controller usually sends; counts, lengths and truncation are input dependent.",
 "items.go",[("framing","items.go serializeItems, readItems, CIPItem.Bytes")],observe=["bytes sent, items returned, bytes consumed"])
p("C05","Encapsulation frames are sent whole and received whole",
 "A request is sent as one frame whose header carries the command, the exact payload length, the session handle and the client's context with zero status and options, followed by the payload parts in order, and a payload that does not fit the length field is refused; sending reports success only when every byte was handed to the connection in order. Receiving delivers the next frame's header fields and exactly its payload, however the transport splits the bytes, leaves the following frame untouched, and reports an error when the stream ends inside the frame.",
 "inputs schedules fault_sequences","every payload, session and context, every segmentation of the byte stream, every point where it ends",
 "Tests need a real controller; segmentation of the stream, truncation and write failures cannot be enumerated by examples.",
 "sendreceive.go client.go",[("framing","sendreceive.go sendMsgBuild, sendData, recvData, newEIPHeader")],[("session","session handle and context echoed in every frame","client.go Client.SessionHandle, Context")],["bytes written to and consumed from the connection, header and payload returned"])
p("C06","Controller data types map to Go values and back without loss",
 "Every atomic controller type that can be decoded has one size and one Go type: decoding it consumes exactly that size and gives the little endian value (a bool is true unless its byte is zero), short data is an error, and the controller type chosen for a Go value, or a pointer to or list of such values, is the one that decodes to it. Reading a bit of a decoded integer gives that bit of its binary representation for every integer type; a bit the type does not have, or a value of another type, is an error.",
 "inputs","every type code, every data, every bit number",
 "Tests read a few types; all type codes, values and bit numbers together are not sampled.",
 "types.go read.go write.go",[("type table","types.go CIPType.Size, readValue, GoVarToCIPType"),("bit access","read.go getBit")],observe=["value and error returned, bytes consumed"])
p("C07","Tag names are encoded as the path they denote",
 "A tag name is encoded as its dot separated parts in order, each as a symbolic segment of its exact length and text padded to an even length, followed by one element segment per array index; a bit suffix addresses a bit of an integer and is not part of the path. A name that is not valid is refused and never encoded as the path of another tag, and encoding does not depend on names encoded before (a name the controller listed before may be encoded as the instance path it was listed with).",
 "inputs histories","every tag name, every sequence of names",
 "Tests encode a dozen names; malformed indexes, long names, spaces and cache effects depend on the input and history.",
 "ioi.go path.go",[("encoding","ioi.go newIOI, marshalIOIPart, parse_tag_path"),("decoding","server_router.go getTagFromPath")],observe=["encoded path bytes"])
p("C08","A write is acknowledged only if the controller accepted it",
 "Writing a number, a text, a list or a structure sends one write request for that tag with the type, element count and exact encoding of the value (for a structure, the checksum of its type and its packed fields), and returns success exactly when the reply reports success. A batch of writes sends one request whose parts carry each tag's own type, count and value, and succeeds only when the reply accepts every part. Any other status, a malformed reply or a lost connection is returned as an error.",
 "inputs fault_sequences","every value and every reply",
 "Tests need a controller that accepts everything; failing replies are not exercised.",
 "write.go udt_write.go pack.go",[("writing","write.go Client.Write, WriteMulti"),("batches","udt_write.go WriteMap, checkMultiWriteReply")],observe=["request bytes, returned error"])
p("C09","A read returns the controller's data, whole and in order, or an error",
 "A read requests the tag with the number of elements wanted and returns data exactly when the reply reports success and carries all of it in the type asked for: the values are those of the reply, in order (bits, texts, structures and attributes of objects included). Data delivered in fragments is reassembled in order without loss or repetition by asking for the next fragment at the offset already received, until the controller reports the last one. Any other status, a short or malformed reply or a lost connection is an error.",
 "inputs histories fault_sequences","every reply and every sequence of fragments",
 "Fragmented transfers and error replies depend on what the controller sends; tests use canned replies.",
 "read.go types.go",[("reading","read.go Read, Read_single, readArray"),("fragments","read.go readFragmented, sendFragReadRequest")],observe=["value returned, offsets requested"])
p("C10","Batched reads pair every tag with its own reply",
 "A batch of reads is split into requests that fit the connection, each with a correct offset table, and every tag receives the value or error of the reply part that answers it. A reply with other than one part per requested tag, and a part that reports failure or is short, is an error.",
 "inputs histories","every list of tags and every reply",
 "The number and size of tags and the layout of replies vary beyond what samples reach.",
 "read.go partialread.go",[("batching","read.go readList, ReadMap, ReadMulti"),("splitting","partialread.go ReadList, countIOIsThatFit")],observe=["request bytes, values returned"])
p("C11","Structures are packed and unpacked with the controller's layout",
 "Packing a structure puts every field at the offset the controller's alignment rules give it (a number is aligned to its own size, a nested structure and each structure of an array to its largest member), with consecutive booleans sharing bits, and reports the number of bytes written. Unpacking the packed bytes gives back the same structure and short data is an error.",
 "inputs programs","every value of the structures, every data",
 "Layouts are tested for a few values of a few structures.",
 "pack.go lgxtypes",[("layout","pack.go Pack, Unpack")],observe=["bytes written, values read, counts"])
p("C12","No request can crash the server",
 "Whatever bytes a client sends on a connection to the server, the server answers, reports an error or closes that connection; it never panics and it keeps reading requests at frame boundaries.",
 "inputs histories","every request byte sequence",
 "Malformed requests are unbounded; tests send well formed ones.",
 "server.go server_connected.go server_unconnected.go server_router.go",[("request handling","server.go handlers")],observe=["panics, replies"])
p("C13","No reply can crash the client",
 "Whatever bytes a controller sends in answer to a request, the client returns a value or an error; it never panics and never reads outside the reply.",
 "inputs","every reply byte sequence for every kind of request",
 "Malformed replies are unbounded; tests use well formed ones.",
 "read.go write.go getattr.go listidentity.go listservices.go listsubtags.go listmembers.go connect.go",[("reply parsing","client methods")],observe=["panics, returned errors"])
p("C14","Server replies identify the request they answer",
 "Every reply carries the service code of the request with the reply bit, the request's connection and sequence numbers, session and context, and a status that is zero exactly when the service was performed. A multiple service reply has one part per request part, at the offsets it announces.",
 "inputs","every request",
 "Tests check single exchanges.",
 "server.go server_connected.go server_unconnected.go",[("replying","server handlers")],observe=["reply bytes"])
p("C15","Server connections are found by the ids they were opened with",
 "A connection opened with a forward open gets an id of its own, is found under its own ids and no other until it is closed, and is closed only by a forward close of its originator, which leaves all others open.",
 "histories inputs","every sequence of opens and closes",
 "Histories of opens and closes are unbounded.",
 "server_connections.go server.go",[("registry","server_connections.go")],observe=["lookup results"])
p("C16","Server tags hold what was last written to them",
 "A tag read from a tag provider gives what was last written to that tag, whole arrays or single elements, and writing one tag leaves all others as they were. Paths are routed to the provider registered for them, and unknown tags or paths and writes of the wrong shape are errors that change nothing. A provider of cyclic inputs and outputs sends its packed inputs, numbered, while its connection is open, and holds whole the outputs last received for its connection.",
 "histories inputs","every sequence of reads, writes and registrations",
 "Histories of reads and writes are unbounded.",
 "server_router.go server_io.go server.go",[("tag storage","server_router.go MapTagProvider"),("routing","server_router.go PathRouter"),("cyclic IO","server_io.go IOProvider, server.go ioConnection, serveUDP")],observe=["values read, errors"])
p("C17","Identity and service announcements survive the round trip",
 "What a server announces about its identity is what a client decodes from the announcement: vendor, device type, product code, revision, status, serial number, product name and state. Truncated announcements are errors.",
 "inputs","every identity, every reply",
 "Tests use one identity.",
 "listidentity.go server_listidentity.go listservices.go",[("identity","listidentity.go, server_listidentity.go")],observe=["decoded identity"])
p("C18","Request and response stay paired on a shared connection",
 "Each request is written and its response read while holding the connection exclusively, and the lock is released on every path; a failed exchange closes the connection.",
 "schedules fault_sequences","every interleaving of callers and every failure",
 "Interleavings and failures are not sampled.",
 "sendreceive.go connect.go disconnect.go",[("exclusion","sendreceive.go send_recv_data, connect.go, disconnect.go")],observe=["lock state, connection state"])
p("C19","Data table buffers map tags to distinct slots and correct values",
 "Every tag added to a data table buffer, alone, in a group or from a tagged structure, can be read back by its name (and into the variable given for it) with the value the controller reported for it, and removing a tag affects no other. Tags are sent to the controller once, and a failed or cut answer is an error.",
 "histories inputs","every sequence of adds, removes and replies",
 "Histories of adds and removes are unbounded.",
 "datatable.go",[("buffer","datatable.go DataTableBuffer")],observe=["values read, entry list"])
p("C20","Tag groups deliver each value to the field that asked for it",
 "Reading or writing a structure of tagged fields moves each value between its tag and its own field, leaves untagged fields alone, and reports a value of the wrong type as an error. Reading a tag group gives for each of its tags the value of that tag, in the type it is asked for or an error.",
 "inputs programs","every structure of tagged fields, every set of values",
 "Field shapes and values are unbounded.",
 "read.go udt_write.go taggroup.go taggroup_readmap.go",[("structures","read.go ReadMulti, setField; udt_write.go multi_to_dict"),("groups","taggroup.go, taggroup_readmap.go")],observe=["field values, tags written"])
p("C21","Values in exported program files are imported unchanged",
 "Each value of a program export that is imported (tags of the controller and of programs, members of structures, elements of arrays) is the Go value of its declared type and radix under its own name, strings are imported unchanged, and text that is not a value of its type is an error. Comments of rungs and of module points and descriptions of tags are imported unchanged under their own location. A file that leaves out collections is imported without them.",
 "inputs","every tag definition and value text",
 "Tests load one file.",
 "l5x",[("import","l5x")],observe=["imported values"])
p("C22","Listing a controller's tags visits every tag once",
 "Listing tags asks for the next page after the last tag received until the controller reports the end, returns every tag received exactly once with its name, type and dimensions, and stops; system and module entries are left out. A failed or cut page, or one that does not get further, is an error. Programs and the members of templates are listed as the controller reports them.",
 "inputs histories","every sequence of pages",
 "Pagination depends on the controller's pages.",
 "listalltags.go listsubtags.go listallprograms.go listmembers.go",[("pagination","listalltags.go ListAllTags; listsubtags.go ListSubTags"),("programs and templates","listallprograms.go, listmembers.go")],observe=["tags returned, requests sent"])

d=os.path.dirname(os.path.abspath(__file__))
def write():
    with open(d+'/properties.jsonl','w') as f:
        for x in P: f.write(json.dumps(x)+"\n")
if __name__=='__main__': write()
