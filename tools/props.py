AI = "abstract interpretation over SSA (relational intervals, nil-ness, dynamic types, function contracts)"
SOUND = ("Sound over-approximation of all inputs for the SSA subset it models; what it can not decide it reports. "
         "Trusts the Go type checker, go/ssa, the models of library calls, and the stated assumptions in the evidence file. ")
PROPS = []
NA = []
def P(id, title, statement, over, all, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files, mech=mech, tech=tech, note=note))
def N(id, title, statement, over, all, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, all=all, why=why, files=files, mech=mech, reason=reason))

P("R01", "No datagram crashes a running client",
  "Whatever bytes and source address a received datagram has, handling it in a running client never panics: a malformed datagram is reported or dropped, and the client keeps running.",
  ["inputs", "histories"], "for every datagram, of every length and content, from every sender, in every state of the client's transactions and subscriptions",
  "The tests decode a handful of well-formed frames; a panic needs one particular truncated or contradictory frame out of 2^(8*1500).",
  ["device.go", "encoding/*.go", "tsm/transactions.go", "utsm/utsm.go", "utsm/subscriber.go", "datalink/udp.go"],
  [("receive loop and handler of datagrams", "device.go"), ("bounds checks of the decoder", "encoding/decoder.go")],
  AI, SOUND + "Every instruction that can panic and is reachable from the receive loop and its goroutines is an obligation.")

P("R02", "No byte string crashes the decoder",
  "Every decoding operation that the encoding package exports returns on every byte string, with a value or an error, and never panics.",
  ["inputs"], "for every byte string given to every exported decoding operation, including truncated, oversized and contradictory ones",
  "The tests decode what the encoder produced; they do not reach hostile lengths, tags and truncations.",
  ["encoding/*.go"],
  [("length checks before every read", "encoding/decoder.go"), ("declared lengths against the remaining input", "encoding/appdata.go")],
  AI, SOUND + "Every instruction that can panic and is reachable from an exported method of the decoder is an obligation.")

P("R03", "Decoding always terminates",
  "Decoding or handling any received byte string ends after a bounded number of steps: no content makes the client or a decoding operation loop forever.",
  ["inputs"], "for every byte string given to every exported decoding operation and to the handler of datagrams",
  "A loop that makes no progress needs one particular malformed list; the tests use well-formed ones.",
  ["encoding/*.go", "device.go"],
  [("loops that consume input or count up", "encoding/readmultiple.go"), ("end of input ends a list", "encoding/readmultiple.go")],
  AI + ", ranking arguments over consumed bytes and bounded counters", SOUND + "Termination of single steps (library calls) is trusted.")

P("R04", "Memory used to decode is bounded by what was received",
  "No length or count that a received message declares makes a decoding operation allocate more memory than the received bytes justify.",
  ["inputs"], "for every byte string given to every exported decoding operation",
  "A test would have to hit a message whose declared length exceeds its content at the one place without a check.",
  ["encoding/*.go"],
  [("declared lengths against the remaining input", "encoding/decoder.go")],
  AI, SOUND + "Bounds the size of each single allocation; the number of allocations is bounded by the termination argument of the loops.")

P("R05", "A message that ends too early is reported",
  "When a decoding operation needs a byte that the message does not have, the caller learns of it: the operation returns an error or leaves one in the decoder, and never silently completes the message with made-up values.",
  ["inputs"], "for every byte string given to every exported decoding operation, and every position at which it can end",
  "The tests have few truncated messages; each field of each message is a separate place to forget the error.",
  ["encoding/*.go"],
  [("sticky error of the decoder", "encoding/decoder.go"), ("error results", "encoding/*.go")],
  AI + ", failed reads tracked to the result", SOUND + "Says that the error is reported, not which error it is.")

THM = "abstract interpretation over SSA with trace partitioning, compared with an executable specification interpreted in the same domain"
THMNOTE = ("The specification (checker/thm) and the module's source are interpreted together, abstractly, for all values of the quantified parameters; nothing is run. "
           "What can not be decided is reported. Trusts the Go type checker, go/ssa and the models of library calls. ")

P("W01", "Application values survive encoding and decoding",
  "Null, booleans, unsigned and signed 32-bit integers, reals, doubles, character strings, enumerated values and object identifiers are encoded by Encoder.AppData in exactly the octets of clause 20.2 (shortest length of integers, extended lengths of long strings), and Decoder.AppData turns these octets back into the same value (an enumerated one into its number), consuming exactly them. Values of other Go types are rejected with an error that the encoder keeps; a binary present value is encoded as an enumerated one and only an unsigned number is accepted for it.",
  ["inputs"], "for every value of these types, every text shorter than 2 GiB, and whatever octets follow",
  "The tests sample a few values; boundaries between encoded lengths, signs and rejected types are each a separate place to be wrong.",
  ["encoding/appdata.go", "encoding/encoder.go", "encoding/decoder.go"],
  [("application tagged values", "encoding/appdata.go"), ("integers, texts and tags", "encoding/encoder.go")],
  THM, THMNOTE)

P("W02", "Well-formed values of other devices are decoded as the standard says",
  "Decoder.AppData decodes every well-formed primitive value (Null, boolean, unsigned and signed of one to four octets, real, double, octet string, UTF-8 or UCS-2 character string, bit string of up to two and of fifteen octets, enumerated, date, time, object identifier; with extended lengths too) to the value that clause 20.2 gives it and consumes exactly its octets: in particular the sign of integers, the order of bits, the unused bits, a year that counts from 1900 or is unspecified. The special values of dates are those of the standard (13 and 14 for odd and even months, 32, 33 and 34 for the last, odd and even days). Values of impossible lengths, of unsupported character sets and of reserved types, and bit strings of more than fifteen octets, are reported as errors.",
  ["inputs"], "for every content of the octets of such a value, and whatever octets follow",
  "Encoders of other devices choose lengths and values that the tests do not have.",
  ["encoding/appdata.go", "encoding/decoder.go", "btypes/bitstring.go", "btypes/datetime.go"],
  [("decoding of application tagged values", "encoding/appdata.go"), ("bit strings", "btypes/bitstring.go")],
  THM, THMNOTE)

P("W03", "Network headers are sent as the standard defines them",
  "Encoder.NPDU writes version, control flags (network message, destination, source, reply expected, priority), destination network, address length and address, source network, address length and address, hop count, message type and vendor id in the order and under the conditions of clause 6.2.2; the address lengths are those of the addresses that follow.",
  ["inputs"], "for every network header, with and without source and destination, with addresses of 0 to 255 octets",
  "The tests have a few headers, none with all combinations of source, destination and message.",
  ["encoding/npdu.go"], [("network header", "encoding/npdu.go"), ("control bits", "encoding/npdu.go")],
  THM, THMNOTE)

P("W04", "Network headers of other devices are decoded as the standard defines them",
  "Decoder.NPDU takes from every well-formed network header its version, priority, flags, source and destination networks and addresses, hop count, message type and vendor id, and leaves the decoder at the first octet of the APDU or message; the networks of I-Am-Router-To-Network are listed in order, each once, and the number of Network-Number-Is is the network of the source.",
  ["inputs"], "for every well-formed network header, with addresses of 0 to 255 octets, and whatever octets follow; lists of up to three networks",
  "One misplaced octet shifts everything behind it, and each combination of flags has its own layout.",
  ["encoding/npdu.go"], [("network header", "encoding/npdu.go"), ("control bits", "encoding/npdu.go")],
  THM, THMNOTE)

P("W05", "APDU headers are sent and understood as the standard defines them",
  "The headers of confirmed and unconfirmed requests and of unsegmented complex acknowledgements are encoded as in clause 20.1 (flags, limits of segments and sizes, invoke id, sequence and window only when segmented, service), and the headers of confirmed and unconfirmed requests, simple and unsegmented complex acknowledgements and errors (class and code, with or without enclosing tags) are decoded to their fields, leaving the parameters that follow. Other types of message are neither sent nor taken for answers.",
  ["inputs"], "for every value of every field of a header, sizes up to 1476, and whatever octets follow",
  "The tests have one header of each kind; limits are coded in steps and flags combine.",
  ["encoding/apdu.go"], [("headers", "encoding/apdu.go"), ("coded limits", "encoding/apdu.go")],
  THM, THMNOTE)

P("W06", "ReadProperty and WriteProperty requests are octet-exact",
  "ReadProperty and WriteProperty requests hold exactly the octets of clauses 15.5 and 15.9: invoke id, service, object, property, array index only when one is asked for, the value between its tags, the priority only when there is one. Object types above 1023, instances above 4194303, properties above 4194303, requests without a property, values that can not be encoded and non-binary values of binary outputs and binary values are rejected with an error.",
  ["inputs"], "for every invoke id, object, property, array index, priority, and every real, text and unsigned value",
  "The tests encode a handful of requests, without checking the octets.",
  ["encoding/readprop.go", "encoding/writeprop.go"],
  [("request to read", "encoding/readprop.go"), ("request to write", "encoding/writeprop.go")],
  THM, THMNOTE)

P("W07", "ReadPropertyMultiple and WritePropertyMultiple requests are octet-exact",
  "A ReadPropertyMultiple request that is encoded without an error holds exactly the octets of clause 15.7 for its objects and properties, in order, each array index only when one is asked for; a WritePropertyMultiple request holds those of clause 15.10, each with its value and, if it has one, its priority. A valid request is not rejected; one with an object identifier out of range or a value that can not be encoded is, wherever in the list that is.",
  ["inputs"], "for every list of objects with every list of properties to read; for writes and rejections, lists of up to two objects or properties with every identifier, value and priority",
  "The shape of the message is nested lists; the tests have one of each.",
  ["encoding/readmultiple.go", "encoding/writemultiple.go"],
  [("access specifications", "encoding/readmultiple.go"), ("write access specifications", "encoding/writemultiple.go")],
  THM, THMNOTE)

P("W10", "Who-Is and I-Am are octet-exact and survive a round trip",
  "Who-Is is sent as in clause 16.10: with both limits when both are from 0 to 4194302, without limits otherwise; decoding gives the limits back, or -1 for both if there are none. I-Am is sent as in clause 16.10 and decoding gives device, size, segmentation and vendor back.",
  ["inputs"], "for all limits, devices, sizes, segmentations and vendors",
  "Limits and sizes are encoded in one to four octets; the tests have two ranges.",
  ["encoding/whois.go", "encoding/iam.go"],
  [("Who-Is", "encoding/whois.go"), ("I-Am", "encoding/iam.go")],
  THM, THMNOTE)

P("W08", "Answers to ReadProperty are decoded as the standard says",
  "Decoder.ReadProperty takes object, property, array index (or none) and value from every well-formed answer: one value of a type of clause 20.2 as itself, several values as a list in their order, no value as an empty list. Answers that do not start with an object, that have no property, or whose object has no context tag are reported. ReadPropertyAck encodes an answer with exactly these octets.",
  ["inputs"], "for every object, property, array index and every real, unsigned, enumerated, boolean, Null and text value; lists of two and three values",
  "The tests decode one answer; whether an index or a list is there changes the position of everything behind it.",
  ["encoding/readprop.go", "encoding/appdata.go"], [("answer to a read", "encoding/readprop.go")],
  THM, THMNOTE)

P("W09", "Answers to ReadPropertyMultiple are decoded as the standard says",
  "Decoder.ReadMultiplePropertyAck takes from a well-formed answer every object with all its properties, in order: property, array index (or none), and value, a list if there are several values, an empty list if there is none. An error of a property is reported, with its class and code. Answers without object, results, property or value tags where they belong, and lists that do not end, are reported. ReadMultiplePropertyAck encodes answers with exactly these octets.",
  ["inputs"], "for every object identifier, property, array index and value; answers of up to two objects and of up to two properties for one object; lists of up to three values",
  "The nested lists of the answer are told apart by tags only; the tests have one well-formed answer.",
  ["encoding/readmultipleack.go", "encoding/appdata.go"], [("results of a read", "encoding/readmultipleack.go")],
  THM, THMNOTE)

STUB = ("Functions of tsm and utsm that wait (ID, Put, Receive, Subscribe) are replaced by specified ones, a goroutine is taken to run where it is started; "
        "their own guarantees are other properties. ")

P("W11", "What a client sends is one well-formed message to the right device",
  "ReadProperty, WriteProperty, ReadMultiProperty, WriteMultiProperty, IAm, WhatIsNetworkNumber and WhoIsRouterToNetwork hand the data link complete BACnet/IP messages: BVLC header with the true length and the function for unicasts or broadcasts, network header with the network and address of a device behind a router and the hop count, request with the invoke id of the transaction; each is sent to the device asked for (or the broadcast address), a bounded number of times. When the request can not be encoded, is larger than the device takes (read and write of several properties), or there is no free invoke id, nothing is sent and an error is returned; one that the device takes with its network header is sent; when sending fails no answer is awaited and an error is returned. The invoke id is released in all cases.",
  ["inputs", "faults"], "for every device address (local or behind a router), object, property, index, real value and priority; every size the device takes; failing data links and exhausted invoke ids",
  "Tests with real devices are skipped; the wire format is not compared with anything, and failures do not occur in the tests.",
  ["device.go", "readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "iam.go", "whatnetwork.go", "whoisrouter.go", "encoding/bvlc.go", "encoding/npdu.go"],
  [("framing and addressing", "device.go"), ("requests", "readprop.go"), ("size limit", "readmulti.go")],
  THM, THMNOTE + STUB)

P("W12", "The answer decides the result of a request",
  "A read returns the object, property and value of the answer and no error exactly when a complete answer came; a write returns no error exactly when it was acknowledged. A refusal (error), an answer that is cut off, or something that is not an answer gives an error; that of a refusal tells its class and code. An answered request is not repeated; a write or a read of several properties that is not answered is, and the answer to this one decides: nothing of an earlier answer or of another request is in the result. Every sent request is followed by waiting for its answer for a bounded time, and the invoke id is taken and released once.",
  ["inputs", "faults"], "for every object, property, index and value of answers of one object; every error class and code up to 255 with class other than zero, and truncation at every octet but the one before the value; two requests in a row, or two attempts, of three objects",
  "There is no device in the tests that refuses, stops in the middle, or answers late.",
  ["readprop.go", "readmulti.go", "writeprop.go", "writemulti.go", "encoding/readprop.go", "encoding/apdu.go"],
  [("results of reads", "readprop.go"), ("results of writes", "writeprop.go"), ("retries", "readmulti.go")],
  THM, THMNOTE + STUB)

P("W13", "Who-Is asks the range it is told and lists each device once",
  "WhoIs subscribes to the range of instances before it sends, and sends one broadcast message to the broadcast address, with the limits asked for (without limits if none are set) and the network asked for (all networks for a global broadcast). It returns one device per instance, in the order of the first answers, with identifier, limits, vendor, address, network and station of the answer; other events are skipped. A failure to send is reported. The broadcast address of the data link is not changed. WhoIsRouterToNetwork and WhatIsNetworkNumber list all networks that are answered.",
  ["inputs", "histories"], "for every limits from 0 to 2097151, every network, and every contents of up to three I-Am answers mixed with other events",
  "Discovery needs several devices on a network; the tests have none.",
  ["whois.go", "whoisrouter.go", "whatnetwork.go"], [("discovery", "whois.go"), ("networks", "whoisrouter.go")],
  THM, THMNOTE + STUB)

P("W14", "A received datagram reaches exactly whom it is for",
  "A running client gives a simple or unsegmented complex acknowledgement, whole and unchanged, to the transaction with its invoke id, and an error as an error that tells its class and code; it publishes an I-Am once, for the instance it names, with the address it came from (the one that precedes it if a BBMD forwarded it) and the network and station of its source; it publishes the networks of routers and network numbers. Confirmed requests and Who-Is of others, other unconfirmed services, segments, rejects, aborts, other network messages, other BVLC functions, and answers, errors and I-Am messages that are malformed or cut off too early are given to nobody.",
  ["inputs", "histories"], "for every invoke id, service, contents up to 1400 octets, source and destination network and station, as a unicast, a broadcast and a forwarded message",
  "The handler of datagrams is not covered by tests at all.",
  ["device.go", "encoding/npdu.go", "encoding/apdu.go", "encoding/iam.go"],
  [("dispatch of datagrams", "device.go"), ("network header", "encoding/npdu.go")],
  THM, THMNOTE + STUB)

P("W15", "A client's object list is complete or an error",
  "Objects reads the length of the object list of the device, all of its elements in as many steps as the size of the device's answers needs, and name and description of every object of a standard type, and returns exactly the objects of the list with their own names and descriptions. If any of the requests fails, has no or too few values, has values of the wrong type, or is answered for another object, an error is returned.",
  ["inputs", "histories"], "for lists of none, one or two arbitrary objects and longer ones (5, 6, 7, 12) of one type, devices that take 20, 50, 480 or an unknown number of octets; failure, shortness and wrong types of each request",
  "Splitting of long lists at the boundaries needs devices of many sizes; the tests have none.",
  ["objectlist.go", "btypes/device.go", "btypes/object_map.go"],
  [("list in steps", "objectlist.go"), ("names in steps", "objectlist.go")],
  THM, THMNOTE + "ReadProperty and ReadMultiProperty are replaced by a device that answers as specified; their own guarantees are W12. ")

NET = "The client is replaced by one that keeps what it is asked; the guarantees of the client are W11 to W15. "

P("N01", "Reading a point gives the device's value or an error",
  "Read, PointReadFloat32, PointReadBool, PointReadMultiState, ReadString, ReadDeviceName and ReadPointName send exactly one read of the right object, property and array index to the device's own address, network and station. They return the value of the answer, and an error if the device answers with one or with a value of another type: a value that was not read is never made up.",
  ["inputs", "faults"], "for every object, property, index and address of the device; answers of ten types with every value",
  "Tests of the package network need real devices and are skipped.",
  ["network/read.go", "network/points.go", "network/strings.go", "network/device.go", "helpers/data/data.go"],
  [("reads", "network/read.go"), ("points", "network/points.go"), ("types of values", "helpers/data/data.go")],
  THM, THMNOTE + NET)

P("N02", "Writing a point sends exactly the value, property and priority asked for",
  "Write, PointWriteAnalogue, PointWriteBool, PointWriteMultiState, PointReleasePriority, WriteDeviceName and WritePointName send exactly one write of the right object and property, with the given value and priority, to the device. Releasing a priority writes Null with this priority, for priorities 1 to 16 only. Values of types that are not supported are rejected without a request, and the refusal of a device is reported.",
  ["inputs", "faults"], "for every object, property, priority and value, of ten types",
  "A write to the wrong property or priority needs a device to be noticed; the tests have none.",
  ["network/write.go", "network/points.go", "network/strings.go"],
  [("writes", "network/write.go"), ("points and priorities", "network/points.go")],
  THM, THMNOTE + NET)

P("N03", "A priority array is read slot by slot and the highest priority wins",
  "PointReadPriority reads the priority array of the point; slot i of the result has the value of element i, or none if that is Null. HighestFloat32 returns the value of the first slot that has one, and none if there is none. A value that is not an array is reported.",
  ["inputs"], "for arrays of 16 elements, with one arbitrary (real or unsigned below 256) value anywhere, and with arbitrary reals from each slot on",
  "Each of the sixteen slots is handled by code of its own; the tests cover none.",
  ["btypes/priority/priority.go", "network/points.go"],
  [("slots", "btypes/priority/priority.go")],
  THM, THMNOTE + NET)

P("N04", "A device's object list is complete or an error",
  "DeviceObjects returns the objects of the object list in order. If the list can not be read at once, it reads its length and then each element by its index. If any of these reads fails or gives a value of another type, an error is returned and no list. On request it asks the device with Who-Is first and takes over its limits.",
  ["inputs", "faults"], "for lists of up to three arbitrary objects, read at once or in steps; failure and wrong type of each step",
  "Devices that can not send the whole list are rare, and the tests have none at all.",
  ["network/objects.go", "network/read.go"],
  [("object list", "network/objects.go")],
  THM, THMNOTE + NET)

P("N05", "Discovery lists every device that answers, each as itself",
  "DeviceDiscover and NetworkDiscover ask the range they are given and list every device found, each with the instance, limits, address, network, station, name and vendor of its own: what is read about one device is asked of that device, and the limits it announced stay when they can not be read. Failure of Who-Is is reported.",
  ["inputs", "histories"], "for every two different devices, one of them on another network",
  "Mixing up devices needs two devices to be noticed; the tests have none.",
  ["network/discover.go", "network/whois.go", "btypes/device.go"],
  [("devices found", "network/discover.go"), ("networks", "network/whois.go")],
  THM, THMNOTE + NET)

P("N06", "Networks and devices are made as described, or an error is returned",
  "A network is made with a client of exactly the interface, address, port and subnet that are given, runs and closes this client, and reports when it can not be made. A device is asked at exactly the address, port (47808 if none), network and station that are given, with the client of its network. Both are kept under their own id without expiry: another id, or the id of the other kind, gives an error, never a nil result without one. A network of a store knows its description, its id and its store, and a device made on it is kept there.",
  ["inputs", "histories"], "for every interface, address, port, subnet, network, station and limits",
  "The tests make networks only for one interface, and skip without it.",
  ["network/base.go", "network/device.go", "network/store.go", "btypes/device.go"],
  [("networks", "network/base.go"), ("devices", "network/device.go"), ("store", "network/store.go")],
  THM, THMNOTE + NET + "The cache that keeps them is taken to be a map. ")

P("N07", "What is told about points and devices is what they answered",
  "PointDetails asks for the name of the point and, unless it is a binary one, for its unit, and tells the point's own type and identifier with exactly that name and unit and the name of this unit; what was not answered stays empty. GetDevicePoints tells this for every object of the device's list but the device itself, each in its order and under its own name. GetDeviceDetails asks for name, APDU limit, vendor and segmentation of the device and tells each as it was answered.",
  ["inputs", "faults"], "for every point, name, unit and answer of every kind; lists with two further objects of eight types each",
  "A detail shifted to the neighbouring point is seen only with several points; the tests have none without a device.",
  ["network/points.go", "network/discover.go", "btypes/object.go", "btypes/units/unit_string.go"],
  [("points", "network/points.go"), ("points of a device", "network/discover.go")],
  THM, THMNOTE + NET)

P("B01", "Names and numbers are the ones of the standard",
  "A unit, error code, error class, segmentation or network message of the standard has its own name in text, and any other number is told as this number instead of as a name; none of them panics. Each of the object types with a name (inputs, outputs and values, device, file, ...) has the one of the standard, which leads back to it and to no other; every other type is told by its number. Each of the property keys stands for the property of the standard, another key is an error, what Keys lists is a copy, and only the object list is a property of the device. Every constant of units, error codes and classes, object types, properties, services, priorities, segmentation and network messages has the number of the standard, and every service its number and bit.",
  ["inputs"], "for every number and every text; all constants of the tables of the packages under btypes that the standard defines",
  "The texts are found by offsets into generated strings that no test goes through; a constant that is off shifts those below it.",
  ["btypes/object.go", "btypes/property.go", "btypes/units/units.go", "btypes/units/unit_string.go", "btypes/bacerr/bacerr.go", "btypes/bacerr/errorcode_string.go", "btypes/services/services.go"],
  [("units", "btypes/units/unit_string.go"), ("error codes", "btypes/bacerr/errorcode_string.go"), ("object types", "btypes/object.go"), ("properties", "btypes/property.go")],
  "lint of the constants of the type-checked program, and " + THM, THMNOTE)

P("B02", "The objects of a device survive JSON",
  "An object map that becomes JSON and is read back has the same objects, each under its own type and instance and with its own name, whether its type has a name or not; nothing is added or lost, what is in the map already is kept, and a map that is nil is made. Len counts every object. A type that does not exist, and what is not JSON, is reported, and nothing of it is put among other objects.",
  ["inputs", "faults"], "for every type, instance and name; two objects of one or of two types (every type with a named, an unnamed and, if unnamed itself, any unnamed type)",
  "Types are written as text; one that has no name is lost, or taken for another, only in its own case.",
  ["btypes/object_map.go", "btypes/object.go"],
  [("object maps", "btypes/object_map.go"), ("types", "btypes/object.go")],
  THM, THMNOTE + "The package encoding/json is replaced by one that keeps what it is given. ")

SOCK = ("The functions of package net that open sockets and ask interfaces are replaced by specified ones. ")

P("E01", "Addresses of sockets and of BACnet/IP are the same address",
  "UDPToAddress and Address.UDPAddr turn a UDP address into the six octets of clause J.1.2 (address, port in network order) and back, for every IPv4 address in its short or long form and every port; an address of another length is an error and never a panic. The predicates of Address tell a broadcast (all networks, or no octets), a broadcast on a remote network, and the address of a BACnet/IP device apart; SetBroadcast makes a broadcast of an address and undoes it. A data link is opened for IPv4 on the given port (47808 if zero) with the address and the broadcast address of its subnet, from an address with a prefix or from an interface; an IPv6 or malformed address, a port out of range, an interface without IPv4 address or a socket that can not be opened gives an error, no data link and no socket left open. Close closes the socket. A client opens exactly the data link that its builder describes, or is not made; Close closes this data link, and so does ClientClose, whether it closes the log as well or not.",
  ["inputs", "faults"], "for every IPv4 address, port, prefix length and every address of wrong length; failing sockets and interfaces",
  "Tests use the interfaces of one machine.",
  ["datalink/udp.go", "btypes/address.go"],
  [("link", "datalink/udp.go"), ("conversion", "btypes/address.go")],
  THM, THMNOTE + SOCK)

P("E02", "Datagrams are passed on unchanged with their address",
  "Send writes exactly one datagram with exactly the given octets to the address and port of the destination, and nothing to what is not such an address; Receive returns the octets and the address of the sender of the datagram that came, as many as fit, which stay when the next one comes; failures of the socket are returned as errors, and no address or octets are made up.",
  ["inputs", "faults"], "for every datagram, IPv4 address and port; failing sockets",
  "Tests send one message over the loopback interface.",
  ["datalink/udp.go", "btypes/address.go"],
  [("send and receive", "datalink/udp.go")],
  THM, THMNOTE + SOCK)

P("E03", "A device has the address that it is described with",
  "NewDevice gives a device that is described by IP address, port, network number and MS/TP station exactly these: six octets of the address and the port (47808 if zero) in network order, to which messages are sent as a UDP address, the network number, the station, and the device object with its instance (the device id, if no instance is given); the rest of the description stays as it is.",
  ["inputs"], "for every IPv4 address, port, network number, station and instance",
  "The test of the conversion prints its result.",
  ["btypes/device.go", "helpers/ipbytes/ip.go", "btypes/address.go"],
  [("description", "btypes/device.go"), ("octets", "helpers/ipbytes/ip.go")],
  THM, THMNOTE + "net.ParseIP gives the address that a text is written for, and math/big the number of its octets. ")

CHAN = ("Channels hold exactly what is sent, an operation that no other goroutine could ever complete is reported, and timeouts happen when nothing else can. "
        "The instances of the histories are concrete (sizes 1 to 400, up to 300 transactions in a row), their values symbolic. ")

P("W16", "Members of constructed values are decoded as their own types",
  "Members of a constructed property value that have a context tag are decoded by ReadPropertyMultiple as the type that the standard gives that member of that property: object identifiers, unsigned numbers, reals and booleans of actions, shed levels, schedules, references, group members, recipients COV subscriptions, and the times and numbers of time stamps, each with the value that was encoded. A command of an action is decoded whole, every member in its order. A member whose type is not known either is reported or is passed over whole: the property that follows it is not shifted.",
  ["inputs"], "for every value, object and index; members of sixteen properties; members of unknown type with every tag and up to four octets",
  "A tag number means another type in each property; tests have one answer.",
  ["encoding/context_tag.go", "encoding/readmultipleack.go", "encoding/appdata.go"],
  [("types of members", "encoding/context_tag.go"), ("values of answers", "encoding/readmultipleack.go")],
  THM, THMNOTE)

P("W17", "Bit strings keep exactly the bits that are put in",
  "A new bit string is empty and has the room asked for, between none and fifteen octets. Setting a bit or an octet within it changes that and nothing else, the number of bits in use grows to the highest bit set; reading a bit, an octet or all values gives what was set. What is outside of the room is not set, is read as zero, and changes nothing, nor does a number of bits that does not fit.",
  ["inputs"], "for every octet, bit number and number of bits, over two octets; every capacity",
  "Tests set a few bits.",
  ["btypes/bitstring.go"],
  [("bit strings", "btypes/bitstring.go")],
  THM, THMNOTE)

P("C01", "Concurrent transactions have different invoke ids, which are never lost",
  "TSM.ID hands out invoke ids from 1 to 255, never one that is in use, as many at once as the manager was made for (at most as many as there are ids); when there is none left it returns an error once its context ends. An id that is put back becomes free again, exactly one transaction for each; an id that is not in use can not be put back, and this changes nothing. After any number of transactions, failed requests (also such that are given up just when they could have an id) or failed Puts the same number of transactions can be open.",
  ["histories"], "over histories of ID and Put in which any of the ids is put back in any order, wrong ids are put back and ids run out; pooled states are reused or not",
  "The tests open a few transactions.",
  ["tsm/transactions.go"],
  [("ids", "tsm/transactions.go")],
  THM, THMNOTE + CHAN)

P("C02", "An answer reaches its own transaction, once",
  "TSM.Receive returns exactly the value that was sent for its invoke id, at most once; what is sent for other ids, for an earlier transaction with the same id, or after the end of the transaction is not returned. Send never waits: an answer without a transaction, or a second one before the first was received, gives an error. Receive ends with an error when nothing comes within the time that was asked for.",
  ["histories"], "over histories with up to three transactions, any of which is answered, answered twice, answered late or never; pooled states are reused or not",
  "The tests send one answer.",
  ["tsm/transactions.go"],
  [("answers", "tsm/transactions.go")],
  THM, THMNOTE + CHAN)

LATE = ("Goroutines start when the one that runs waits, or at once, and run as far as they come; those that could run are tried in turn. Timeouts happen when nothing else can. ")

P("C03", "Data that goroutines share is only accessed under its lock",
  "The client, the transaction manager and the subscription manager may be used from any number of goroutines at once: whatever of their state is written after it can be known to a second goroutine (transactions, lists of subscribers, times) is read and written only under one mutex that all these accesses have in common, or is synchronised otherwise (channels, pools, atomics).",
  ["schedules"], "for every pair of accesses of the module to the same field, element or variable in functions that a goroutine may run",
  "A data race needs a certain interleaving, and the race detector only sees the ones that happen.",
  ["device.go", "tsm/transactions.go", "utsm/utsm.go", "utsm/subscriber.go"],
  [("transactions", "tsm/transactions.go"), ("subscribers", "utsm/utsm.go"), ("client", "device.go")],
  "lockset analysis over SSA with points-to, ownership and publication analysis",
  "Flow-insensitive points-to for which objects, flow-sensitive locksets for which locks; objects that are not known to others yet are exempt. Fields of the types of other modules are not looked into. ")

P("C04", "No goroutine waits for ever, or while it holds a lock",
  "Every wait of the module for a channel, a wait group or time has an end: another case of the same select that comes (a deadline, or a channel that is closed in every case), room in the channel, or a party that always takes part. Nobody waits while holding a mutex, every mutex that is locked is unlocked on all paths out of the function, none is locked twice by the same goroutine or unlocked when it is not locked, and mutexes are locked in the same order everywhere.",
  ["schedules"], "for every channel operation, wait and mutex operation of the module, and every path to it",
  "A deadlock needs a certain interleaving.",
  ["device.go", "whois.go", "whoisrouter.go", "tsm/transactions.go", "utsm/utsm.go", "utsm/subscriber.go"],
  [("transactions", "tsm/transactions.go"), ("subscribers", "utsm/utsm.go"), ("discovery", "whois.go")],
  "lockset and blocking analysis over SSA with points-to and context sensitivity",
  "Flow-sensitive locksets (must and may) over all functions of the module; the end of a wait is shown from the channel's capacity, its closing or the deadline of a context. ")

P("C06", "Every request gets its own answer through the whole client",
  "With the receiving loop running, a request gets the value its device answered, whatever else is received: answers of no transaction, answers that come twice, requests of others with the same invoke id, or what is not BACnet. Two requests at the same time each get their own device's answer, in whichever order these come. Who-Is finds every device that answers, once, with its own id and address, in whichever order the answers come and are handled.",
  ["schedules", "histories", "inputs"], "for every value, object, device id and address; two requests at once, three devices; messages received in both orders and handled at once or later",
  "Tests need a device on the network.",
  ["device.go", "readprop.go", "whois.go", "tsm/transactions.go", "utsm/utsm.go"],
  [("receiving", "device.go"), ("reading", "readprop.go"), ("discovery", "whois.go")],
  THM, THMNOTE + LATE)

P("C07", "A subscriber gets what is published in its range, once and in order",
  "Manager.Subscribe returns the values that are published for ids in its range (bounds included) while it lasts, each once, in the order of their publication, and nothing else: what it does not take at once waits for it; other subscribers get theirs all the same. It ends without an error when nothing comes for the time that the manager was told, which starts again with every value, or when its whole time is over; after that nothing is kept of it, nothing that is published waits for it, and other subscriptions go on.",
  ["schedules", "histories", "inputs"], "for every range, id and value; up to three publications and two subscribers; goroutines start at once or later",
  "Tests publish a few values at certain times.",
  ["utsm/utsm.go", "utsm/subscriber.go"],
  [("subscriptions", "utsm/utsm.go"), ("deadlines", "utsm/subscriber.go")],
  THM, THMNOTE + LATE)
