"""Text of the properties; tools/gen.py turns it into properties.jsonl and MANIFEST.json."""
B = "include/lamppost/bus/Bus.h"
S = []


def P(id, title, statement, over, text, why, files, mech, technique="", note="", observe=None):
    S.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe or []))


SCHED = "stateless model checking of the real code: controlled scheduler, preemption-bounded exhaustive interleavings"
SEQ = "explicit-state bounded exhaustive enumeration of operation sequences and inputs on the real code against a reference model"
FAULT = "bounded exhaustive enumeration of fault combinations and operation sequences on the real code (stand-in system calls)"
SNOTE = ("All interleavings of each scenario up to the stated preemption bound, at the granularity of every synchronisation and every "
         "conflicting memory access of the code built from /repo; happens-before data races, deadlocks, use of freed memory and crashes are "
         "violations too. Trusts the scheduler in engine/ and the smallness of the scenarios.")
QNOTE = ("Every case inside the stated bound is executed on the code built from /repo (ASan+UBSan) and compared with a reference model "
         "written from the documentation. Trusts the reference model and the bound.")

P("P01", "Every published message reaches every matching subscriber exactly once",
  "While a tree of buses runs, each message published anywhere in it is delivered exactly once to every subscriber in the tree whose topic equals the message's topic or is the catch-all \"/**/*\", and to no other subscriber. Messages published before the root bus is started are delivered once it runs; nothing is lost, repeated or invented however threads interleave, however many messages queue up and however wide or deep the tree is. A subscriber or child bus that is added while messages flow receives every message published after its creation returned, and adding or deleting it never disturbs delivery to the others. Several trees of buses in one process do not disturb one another.",
  ["schedules", "histories"], "All interleavings of publishing threads, subscribing threads and the delivering thread; all sequences of create/publish/subscribe/delete/start/stop operations up to a depth.",
  "The tests publish a handful of messages from one thread and wait; no interleaving of publication, subscription and delivery is controlled.",
  ["src/lamppost/bus/Bus.cpp", "include/lamppost/bus/Bus.h", "src/lamppost/bus/Publisher.cpp", "src/lamppost/bus/Subscriber.cpp"],
  [("message queue and wake-up", "src/lamppost/bus/Bus.cpp:Publish,Run"), ("recursive distribution", "src/lamppost/bus/Bus.cpp:Distribute"), ("topic filter", "src/lamppost/utilities/AntMatcher.cpp:Matches")], SCHED, SNOTE, ["subscriber callbacks"])

P("P02", "Messages arrive in publication order, the same for everybody, without delay",
  "Every subscriber sees the messages of one publishing thread in the order in which that thread published them, and any two subscribers see the messages they both receive in the same order; a message published from inside a callback comes after the message that caused it. An idle running bus hands a new message to its subscribers at once: delivery never waits for a poll interval or for a later message. Setting the system clock forwards or backwards, or a waiting thread that wakes up without reason, changes none of this.",
  ["schedules"], "All interleavings of two or three publishing threads (with own or shared publishers, also publishing from callbacks) and the delivering thread.",
  "Tests publish from one thread, mostly one message, and sleep generously, so reordering and a lost wake-up go unnoticed.",
  ["src/lamppost/bus/Bus.cpp", "include/lamppost/bus/Bus.h", "src/lamppost/bus/Publisher.cpp"],
  [("FIFO queue under a mutex, condition variable", "src/lamppost/bus/Bus.cpp:Publish,Start")], SCHED, SNOTE, ["order and virtual time of subscriber callbacks"])

P("P03", "Subscribers get their own faithful copy of the message",
  "Every subscriber receives exactly the content, topic and sender with which the message was published; the sender of a datagram published on a bus is that bus's name, and a complete message published through a bus keeps the sender it carries. Whatever the publisher does with its datagram after publishing, and whatever a subscriber does with the copy it received, is invisible to all other subscribers.",
  ["schedules", "inputs"], "All interleavings of a publisher that modifies its nested datagram after publishing and subscribers that modify what they receive, on root and child buses.",
  "Tests look at one subscriber that does not modify its copy.",
  ["src/lamppost/bus/Bus.cpp", "src/lamppost/messages/Message.cpp", "src/lamppost/messages/Datagram.cpp", "src/lamppost/bus/Subscriber.cpp", "src/lamppost/bus/Publisher.cpp"],
  [("copy on publish and on delivery", "src/lamppost/bus/Subscriber.cpp:Receive; src/lamppost/messages/RawDatagram.cpp copy"), ("sender is the bus identifier", "src/lamppost/bus/Bus.cpp:Publish")], SCHED, SNOTE, ["messages seen in callbacks"])

P("P04", "After a subscriber is deleted its callback never runs again",
  "Once DeleteSubscriber has returned, the deleted subscriber's callback is never running and never starts again, so everything it uses may be freed; a message that arrives while a callback is being replaced goes to the old or to the new callback, exactly once. Deleting the same subscriber twice, a null subscriber, or one that belongs to another bus has no effect on anybody, and the remaining subscribers keep receiving everything.",
  ["schedules"], "All interleavings of deleting/replacing threads with publications and delivery in progress, on root and child buses.",
  "No test deletes a subscriber while a message is being delivered.",
  ["src/lamppost/bus/Bus.cpp", "src/lamppost/bus/Subscriber.cpp"],
  [("subscriber list mutex held during delivery", "src/lamppost/bus/Bus.cpp:DeleteSubscriber,Distribute"), ("callback mutex", "src/lamppost/bus/Subscriber.cpp:SetMessageCallback,Receive")], SCHED, SNOTE, ["callback entry and exit"])

P("P05", "A deleted publisher publishes nothing, others are unaffected",
  "Once DeletePublisher has returned, Publish on that publisher has no effect: nothing it publishes is delivered. A publication that was accepted before the deletion is still delivered exactly once, and deleting null, an already deleted or a foreign publisher affects nobody.",
  ["schedules"], "All interleavings of threads that delete publishers with threads that publish through the same and other publishers.",
  "No test publishes and deletes concurrently.",
  ["src/lamppost/bus/Bus.cpp", "src/lamppost/bus/Publisher.cpp"],
  [("publisher reset", "src/lamppost/bus/Publisher.cpp:Reset,Publish"), ("publisher list", "src/lamppost/bus/Bus.cpp:DeletePublisher")], SCHED, SNOTE, ["accepted publications and deliveries"])

P("P06", "Stopping a bus always takes effect, and buses can be restarted",
  "Stop on a root bus, called from any thread or from a callback before or at any moment during Start, makes Start return soon and without further outside events; nothing published after Stop returned is delivered by that run and nothing at all is delivered once Start returned. The bus can then be started again, delivers what was published meanwhile and keeps delivering. Stopping and starting a child bus affects delivery to the child and its descendants only, never to its siblings or parents. Setting the system clock, or a waiting thread that wakes up without reason, neither delays nor ends a run.",
  ["schedules"], "All interleavings of Start, one or two Stops, publications and callbacks that stop the bus; several consecutive runs.",
  "The tests stop a bus long after it started and only once.",
  ["src/lamppost/bus/Bus.cpp", "include/lamppost/bus/Bus.h"],
  [("run flag, condition variable and loop", "src/lamppost/bus/Bus.cpp:Start,Stop")], SCHED, SNOTE, ["return of Start", "deliveries before and after"])

P("P07", "Names of sibling buses stay unique and lookups are exact",
  "Among the children of one bus no two ever have the same name: a second creation under a taken name fails with a duplicate-key error and changes nothing, also when two threads create at the same time. Looking up a name returns exactly the child created under it, or fails with a key-not-found error if there is none; an empty name is refused.",
  ["schedules", "histories"], "All interleavings of two creations and a lookup; all sequences of creations and lookups up to length 4 over three names.",
  "The tests create and look up names from one thread.",
  ["src/lamppost/bus/Bus.cpp"], [("existence check and insertion", "src/lamppost/bus/Bus.cpp:CreateChildBus,GetChildBus")], SCHED, SNOTE, ["results of CreateChildBus/GetChildBus"])

P("P08", "Detaching and destroying buses is safe at any time and releases everything",
  "Detaching a subtree or destroying buses while other threads publish on, create in or unsubscribe from them never touches freed memory and never blocks for good, and nothing published in a detached part after the detachment completed reaches the rest. Publishers and subscribers may outlive their bus and are then inert. A bus tree whose owner dropped it releases all its buses, messages, publishers and subscribers.",
  ["schedules"], "All interleavings of detaching, stopping and destroying a root, child or grandchild with publishing and creating threads; heap balance over complete lives.",
  "No test destroys or detaches a bus that is in use, and none measures what is left behind.",
  ["src/lamppost/bus/Bus.cpp", "src/lamppost/bus/Publisher.cpp"], [("parent pointer, Detach, destructor", "src/lamppost/bus/Bus.cpp:Detach,~Bus"), ("publisher reset", "src/lamppost/bus/Publisher.cpp:Reset")], SCHED, SNOTE, ["memory accesses", "heap balance", "deliveries after detach"])

P("P09", "Callbacks may use the bus freely",
  "A subscriber callback may publish, create and delete publishers and subscribers (itself included), replace callbacks, create and look up child buses, create action participants and stop buses, on its own bus and on others, while other threads do the same: no call blocks for good or corrupts state, each takes effect, and delivery to everybody else goes on undisturbed.",
  ["schedules", "histories"], "Every operation out of 13 from a callback on root or child, interleaved with a thread that subscribes, publishes and unsubscribes; chains of publications over callbacks.",
  "Tests' callbacks only record what they got.",
  ["src/lamppost/bus/Bus.cpp", "src/lamppost/bus/Subscriber.cpp"], [("recursive locks and snapshots during distribution", "src/lamppost/bus/Bus.cpp:Distribute")], SCHED, SNOTE, ["deadlock, deliveries, memory accesses"])

P("P11", "Each response goes to the request it answers, once",
  "The response callback given with an action request is called exactly once for that request, with the first response the provider sent for it, whatever order the answers come in, however many requests are in flight from however many consumers, actions and threads, and whatever request and response contain. Requests of one action reach only the providers of that action, and repeated, unknown or stale responses reach nobody. Requests in several trees of buses of one process do not disturb one another.",
  ["schedules", "histories"], "All interleavings of requesting threads, provider and bus thread; all orders of answering three requests, with repeated, unknown and stale responses.",
  "The test sends one request and waits for its one answer.",
  ["src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/bus/ActionProvider.cpp", "include/lamppost/bus/ActionConsumer.h"],
  [("open request table keyed by invocation id", "src/lamppost/bus/ActionConsumer.cpp"), ("request/response topics", "src/lamppost/bus/ActionProvider.cpp")], SCHED, SNOTE, ["response callbacks"])

P("P12", "A blocking request returns its own answer or fails at its deadline",
  "A blocking action request returns the provider's answer to that very request if it arrives before the timeout, and otherwise returns an empty datagram when the timeout has passed, never earlier and never hanging. An answer that arrives late is ignored: it touches no freed memory, is not mistaken for the answer to a later request, and neither answered nor timed out requests leave anything behind. The timeout is measured in elapsed time: setting the system clock, or a waiting thread that wakes up without reason, neither shortens nor prolongs it.",
  ["schedules"], "All interleavings of one or two blocked requests with answers that come never, in time, at the deadline or late, the deadline striking at any point of the exchange.",
  "The tests only cover one answer that comes in time; timing is left to the machine.",
  ["src/lamppost/bus/ActionConsumer.cpp"], [("condition variable wait with timeout", "src/lamppost/bus/ActionConsumer.cpp:Request")], SCHED, SNOTE, ["result, virtual time of return, heap balance"])

P("P13", "Foreign messages on action topics cause no harm",
  "Whatever datagram anybody publishes on the topics that carry an action's requests and responses, no action participant crashes, throws into the bus or calls a callback for it unless it is well-formed and names a matching open request; well-formed requests before, after and at the same time are answered normally.",
  ["inputs", "schedules"], "13 kinds of malformed datagrams on the request and the response topic, ids similar to an open one, each interleaved with good requests.",
  "No test publishes anything malformed on an action topic.",
  ["src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/bus/ActionProvider.cpp"], [("field checks before use", "src/lamppost/bus/ActionConsumer.cpp; src/lamppost/bus/ActionProvider.cpp")], SCHED, SNOTE, ["callbacks, exceptions out of the bus loop"])

P("P10", "A subscription selects exactly its topic",
  "A subscription matches a message if and only if its topic is equal to the message's topic, character by character, or is the catch-all \"/**/*\", which matches every message. Similar topics (prefixes, different case, additional or missing slashes, other patterns with asterisks) never match each other, wherever in the tree subscriber and publisher sit. Topics may be matched by several threads at once.",
  ["inputs", "histories"], "All pairs of patterns and topics up to a length over the characters that matter; 18 similar topics subscribed on two levels and published on both.",
  "The tests compare a few topics only.", ["src/lamppost/utilities/AntMatcher.cpp", "src/lamppost/bus/Bus.cpp", "src/lamppost/bus/Subscriber.cpp"],
  [("topic matching", "src/lamppost/utilities/AntMatcher.cpp:Matches; src/lamppost/bus/Bus.cpp:Distribute")], SEQ, QNOTE, ["match result, subscriber callbacks"])

P("P14", "Generated identifiers are unique",
  "Every identifier the library creates is made of enough randomness (at least 64 bits) never to collide in practice: identifiers created from different random bits differ. An identifier has the documented five-part hexadecimal form, equals its copies and no other identifier, and is printed as its string value; identifiers may be created by any threads at the same time, and every action request gets one of its own.",
  ["inputs", "schedules"], "Blocks of consecutive and of distant values of the entropy source, exhaustively; all interleavings of threads that create identifiers and requests.",
  "A test that creates a few identifiers cannot tell whether others collide.", ["include/lamppost/utilities/Uuid.h", "src/lamppost/bus/ActionConsumer.cpp"],
  [("seeded generator per identifier", "include/lamppost/utilities/Uuid.h:CreateUuid")], SEQ, QNOTE + " Entropy source replaced by a counter.", ["identifiers"])

D = "src/lamppost/messages/Datagram.cpp"
R = "src/lamppost/messages/RawDatagram.cpp"
P("P15", "A reset action provider answers no further requests",
  "Once Reset has returned on an action provider, its callback is not running and is never started again, so that whatever it uses may be freed; requests that arrive afterwards stay unanswered and harm nothing. A provider may be reset at any time from any thread, several times, and from callbacks including its own; answers it still owes can be given, and other providers, consumers and subscribers of the bus go on working.",
  ["schedules"], "All interleavings of requests, the reset (followed by freeing the callback's state) and the delivering bus.",
  "The tests never reset a provider.", ["src/lamppost/bus/ActionProvider.cpp", "include/lamppost/bus/Bus.h"],
  [("callback cleared under the lock it runs under", "src/lamppost/bus/ActionProvider.cpp:Reset,ProcessRequest")], SCHED, SNOTE, ["provider callbacks, use of freed memory"])

P("P16", "Refused calls say why and change nothing",
  "Calls with arguments that cannot be served fail with the documented exception, which names the argument or key: empty bus names and null functions with ArgumentNullException, taken child names with DuplicateKeyException, unknown ones with KeyNotFoundException; deleting null does nothing. A refused call, whenever it is made - before the start, while messages flow on other threads, from a callback, after the stop - changes nothing: buses, subscribers, publishers and open requests go on as before and nothing is left behind.",
  ["schedules", "inputs"], "17 invalid calls x 4 moments, interleaved with traffic and open requests; heap balance.",
  "Tests call some of them on an idle bus and look at the exception's type only.",
  ["src/lamppost/bus/Bus.cpp", "src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/bus/Publisher.cpp"],
  [("argument checks", "src/lamppost/bus/Bus.cpp:Bus,CreateChildBus,GetChildBus; src/lamppost/bus/ActionConsumer.cpp:RequestAsync; src/lamppost/bus/Publisher.cpp:Publisher"), ("exceptions", "src/lamppost/exceptions")], SCHED, SNOTE, ["exceptions, deliveries and responses afterwards"])

P("P17", "A running tree does not grow with what goes on in it",
  "Whatever goes on in a running tree of buses - messages and bursts, subscribers, publishers and callbacks that come and go, answered requests, foreign messages on action topics, refused calls, buses stopped and started, traffic over a link, broken frames, requests to plugins - leaves no memory behind once it is done: the memory in use does not grow with the number of repetitions.",
  ["histories"], "22 activities alone and in pairs and 9 of the plugins, 21 repetitions each; heap balance after each nine.",
  "No test measures memory, and leaks of a few bytes per message never fail one.",
  ["src/lamppost/bus/Bus.cpp", "src/lamppost/bus/ActionConsumer.cpp", "src/plugins/link/Link.cpp", "src/plugins/sysinfo/SysInfo.cpp"],
  [("queue, participant lists, open requests", "src/lamppost/bus/Bus.cpp:Run,DeleteSubscriber,DeletePublisher; src/lamppost/bus/ActionConsumer.cpp:ProcessResponse,Request"), ("messages over the link", "src/plugins/link/Link.cpp:ReceiveMessage,SendZmqMessage")], SCHED, SNOTE, ["blocks allocated by the tree"])

P("P20", "Datagrams behave as typed trees under every sequence of operations",
  "Whatever sequence of assignments, Add, Remove, Clear, key and index accesses is applied to a datagram or to any part of it, whatever was read in between or not and whether a part is named anew or was obtained with [] before and kept, its content is exactly that of the corresponding tree of values, lists and dictionaries: types, counts, keys, order and values agree, every kind of value (bool, int, double, string, string literal, list, dictionary) is stored as what it is, an operation that does not apply fails with the documented exception (invalid operation, unknown key, index out of bounds) and changes nothing. Threads that work on different datagrams, or only read a common one, at the same time do not disturb one another.",
  ["histories", "inputs"], "All sequences of 2-3 operations out of 18 on up to 6 places, longer ones over 8 operations, also with nothing read in between and through parts that are held; all ways to construct. Sizes and values of every magnitude.",
  "The tests exercise single operations in fixed order.", [D, R, "include/lamppost/messages/Datagram.h"],
  [("tree of RawDatagram nodes", "src/lamppost/messages/RawDatagram.cpp"), ("access through proxies", "src/lamppost/messages/Datagram.cpp:operator[]")], SEQ, QNOTE, ["complete observable content after each operation"])

P("P21", "Copies of datagrams and messages are independent",
  "A copy of a datagram, made by construction, assignment, argument passing, storing it in another datagram, or through a message, equals the original at that moment, and from then on no change of any part of either is visible in the other; this includes assigning parts of a datagram to one another (also a container to its own element and the reverse), after which the result is again a proper tree. Threads that work on different datagrams, or only read a common one, at the same time do not disturb one another.",
  ["inputs", "histories"], "All trees up to a size, six ways to copy, six changes at every node of original or copy; all pairs of parts assigned to each other.",
  "The tests copy flat datagrams and change the top level.", [D, R, "src/lamppost/messages/Message.cpp"],
  [("deep copy", "src/lamppost/messages/RawDatagram.cpp copy constructor and assignment")], SEQ, QNOTE, ["content of original and copy"])

P("P22", "Equality of datagrams and messages is equality of content",
  "Two datagrams are equal if and only if they have the same type and value, entry by entry in lists and key by key in dictionaries, no matter how either was built and in which order keys were added; values of different types are never equal. Inequality is its negation and both are symmetric. Two messages are equal if and only if sender, topic and datagram are. Threads that work on different datagrams, or only read a common one, at the same time do not disturb one another.",
  ["inputs", "histories"], "All pairs of flat datagrams over 11 values of all types, all pairs of nested ones up to a size, every value overwritten by every other.",
  "The tests compare a few pairs.", [D, R, "src/lamppost/messages/Message.cpp"], [("structural comparison", "src/lamppost/messages/RawDatagram.cpp:operator==")], SEQ, QNOTE, ["comparison results"])

P("P23", "Reading by path finds exactly the value there or the default",
  "Get with a path of keys separated by slashes returns the value stored under exactly these keys if it exists and has the requested type, and the given default otherwise; it never changes the datagram and never fails, and what was asked before makes no difference. KeyExists is true exactly for the keys that exist. Threads that work on different datagrams, or only read a common one, at the same time do not disturb one another.",
  ["inputs"], "All trees up to a size with all paths up to a length over two keys and the separator; long paths with distortions.",
  "The tests read a few existing paths.", [D, R], [("recursive path lookup", "include/lamppost/messages/Datagram.h:Get; src/lamppost/messages/RawDatagram.cpp")], SEQ, QNOTE, ["value returned, datagram unchanged"])

P("P24", "Messages survive the wire unchanged",
  "Serializing a message to bytes and deserializing them gives a message with the same sender and topic and an equal datagram, for every tree of values: empty lists and dictionaries, extreme and special numbers, strings with any bytes including NUL, any keys, any number of entries, nested up to 4000 levels; serializing leaves the message unchanged and leaves no memory behind. Threads that work on different messages, or only read a common one, at the same time do not disturb one another.",
  ["inputs"], "All trees up to a size, pairs of 26 extreme values in 5 shapes, pairs of 10 senders and topics, nesting up to 4000 levels and up to 1100000 entries.",
  "The tests serialize a handful of simple datagrams.", ["src/lamppost/messages/Message.cpp", D, R, "schemas"],
  [("FlatBuffers schema", "schemas/*.fbs"), ("serialize/deserialize", "src/lamppost/messages/Message.cpp; src/lamppost/messages/RawDatagram.cpp")], SEQ, QNOTE, ["deserialized message", "heap balance"])

P("P25", "Malformed bytes never crash deserialization",
  "Deserializing any byte string either returns a message or fails with the library's operation-failed exception; it never reads outside the given bytes, never crashes, loops or exhausts memory, and a message it does return can be read, copied, compared, printed and serialized. The bytes of a valid message are always accepted. Several threads may deserialize at once.",
  ["inputs"], "11 messages cut at every byte, every byte replaced by every value, every word by 21 values, pairs of bytes; all short buffers; all combinations of missing and inconsistent fields; deep and shared tables, texts and keys.",
  "No test feeds malformed bytes.", ["src/lamppost/messages/Message.cpp", R, D], [("verification before access", "src/lamppost/messages/Message.cpp:Deserialize")], SEQ, QNOTE, ["exception or message, ASan/UBSan"])

P("P26", "JSON documents are read faithfully, broken ones are refused",
  "Parsing a JSON text gives a datagram with exactly its values: objects, arrays, strings with all escapes (also NUL and non-ASCII), integers, floating point numbers, booleans and null, also empty containers and single values as the whole text, with any whitespace. An incomplete text gives an empty datagram, an invalid one never crashes or leaks, and parsing leaves no memory behind. Several threads may parse at once.",
  ["inputs"], "All documents of a grammar up to a nesting depth, pairs of 36 values in 5 shapes, every prefix, every single byte changed, all texts over 16 characters up to a length.",
  "The tests parse a few documents.", [D, R], [("conversion from json-c", "src/lamppost/messages/Datagram.cpp:DeserializeFromJson")], SEQ, QNOTE, ["datagram against an independent JSON reader", "heap balance"])

P("P27", "The sender path of a message follows every hop exactly",
  "Prepending a sender puts exactly that name in front of the sender path; removing one takes exactly one leading occurrence of that complete name away and otherwise changes nothing; WasSentBySender is true exactly if the first hops of the path are that complete name, never for names that only share a prefix. Topic and content are never affected, and what was asked before makes no difference. Threads that work on different messages, or only read a common one, at the same time do not disturb one another.",
  ["histories", "inputs"], "All sequences of prepending and removing 6 names that are prefixes of each other, on 6 starting senders.",
  "The tests prepend and remove one name.", ["src/lamppost/messages/Message.cpp"], [("sender path", "src/lamppost/messages/Message.cpp:PrependSender,RemoveSender,WasSentBySender")], SEQ, QNOTE, ["sender after each operation"])

P("P28", "Byte buffers own exactly the bytes given to them",
  "A RawBytes object holds exactly the bytes given to it and appended, in order, also empty ones, embedded NULs and parts of itself; copies and assignments are independent of the original and of the caller's memory, nothing is freed twice, and null content is refused. Threads that work on different buffers, or only read a common one, at the same time do not disturb one another.",
  ["histories"], "All sequences of up to 4 appends, constructions, copies, assignments (also to itself) and destructions over three objects and four contents.",
  "The tests append once or twice and never copy.", ["src/lamppost/data/RawBytes.cpp"], [("owned storage", "src/lamppost/data/RawBytes.cpp")], SEQ, QNOTE, ["bytes and size", "ASan"])

P("P29", "Filesystem helpers report exactly what is there",
  "Listing a directory gives exactly its entries, files only, directories only or both as asked (symbolic links count as what they lead to), whatever their names, and nothing for something that is not a directory; existence, file and directory tests, file name, base directory, extension and path combination agree with the path, and no file descriptor stays open. Several threads may ask at once.",
  ["inputs"], "All subsets of 9 kinds of directory entries with all filters; all paths over three characters up to a length.",
  "The tests look at one directory.", ["src/lamppost/Filesystem.cpp", "src/lamppost/platformspecific/xnix/Xnix.cpp"], [("directory walk and path splitting", "src/lamppost/Filesystem.cpp")], SEQ, QNOTE, ["results", "open descriptors"])

P("P30", "Configurations compare by content and keep what they are given",
  "Two plugin manager configurations are equal exactly if they have the same search paths in the same order and the same bus, and two application configurations exactly if these and their configuration files agree; comparison is symmetric, never reads outside the lists, and copies equal their originals. Search paths in the settings keep their order and repetitions. Threads that work on different configurations, or only read a common one, at the same time do not disturb one another.",
  ["inputs"], "All pairs of configurations with up to 2 paths, 3 buses and 4 file lists; all sequences of up to 4 added paths.",
  "The tests compare default configurations.", ["src/lamppost/LampPost.cpp", "include/lamppost/LampPostConfiguration.h", "include/lamppost/plugin/PluginManagerConfiguration.h", "src/lamppost/settings/SettingsManager.cpp"],
  [("operator==", "include/lamppost/LampPostConfiguration.h; include/lamppost/plugin/PluginManagerConfiguration.h")], SEQ, QNOTE, ["comparison results"])

P("P31", "Printed datagrams and messages show their complete content",
  "Printing a datagram shows every value, list entry and key exactly once in the documented notation (null, quoted strings, [a, b], {key: value, ...} in key order), whatever its shape and history; a message is printed with sender and topic in front. Printing changes nothing. Threads that work on different messages, or only read a common one, at the same time do not disturb one another.",
  ["inputs"], "All trees up to depth 2 and width 2; all flat datagrams over 13 values including extreme numbers and strings with quotes and NUL.",
  "The tests print a few datagrams.", ["include/lamppost/messages/RawDatagram.h", "include/lamppost/messages/Message.h"], [("stream output", "include/lamppost/messages/RawDatagram.h:operator<<")], SEQ, QNOTE, ["printed text"])

PL = "src/lamppost/plugin/"
P("P40", "Plugin libraries stay open exactly as long as their code is used",
  "Loading templates opens exactly the files of the search paths that are named like plugin libraries, takes the usable ones (whichever of the others cannot be opened, export too little, give no information or an empty identifier) and closes all useless ones at once. A library is open whenever code of it is called or an instance of it exists; it is closed exactly once, after all its instances were stopped, deinitialized and destroyed: when its template is replaced by a later one of the same identifier, unloaded, or the manager is destroyed. Nothing that goes wrong in one plugin (no instance created, an exception on creation, failure to close) affects the others.",
  ["histories", "fault_sequences"], "All sequences of loading, instantiating, unloading and destroying over all combinations of two or three libraries of 10 kinds of faults; 13 kinds of file names as files, directories and links.",
  "The tests load no library at all.", [PL + "PluginManager.cpp", PL + "PluginTemplate.cpp", "include/lamppost/plugin/PluginManager.h"],
  [("library handles", "src/lamppost/plugin/PluginManager.cpp:LoadTemplate,UnloadTemplates")], FAULT, QNOTE + " dlopen, dlsym and dlclose are stand-ins that follow every handle and instance.", ["dlopen/dlsym/dlclose calls, plugin code calls"])

P("P41", "Plugin instances have unique names, their own bus and an orderly end",
  "Every plugin instance gets a name that starts with its template's identifier and is used by no other instance or child bus, a child bus of that name below the bus asked for, and the configuration given. Unloading a template stops each instance's worker, then deinitializes it once, then destroys it, whatever sequence of instantiations (also failing ones), of templates with similar identifiers, of stops and of messages in flight came before; no callback or worker of a plugin runs once it was deinitialized.",
  ["histories", "schedules"], "All sequences of instantiations of two templates whose names can clash, including null and throwing factories and explicit stops; all interleavings of unloading with talking workers and the delivering bus.",
  "The tests create no plugin instances.", [PL + "PluginTemplate.cpp", PL + "PluginInstance.cpp", PL + "PluginManager.cpp"],
  [("indexed instance names", "src/lamppost/plugin/PluginTemplate.cpp:Instantiate"), ("stop, deinitialize, destroy", "src/lamppost/plugin/PluginTemplate.cpp:Unload")], SEQ, QNOTE, ["plugin life-cycle calls"])

P("P42", "A plugin's worker runs once per start and has ended when Stop returns",
  "Starting a plugin runs its Run function on one worker thread; starting it again meanwhile changes nothing, so that never two workers exist. When Stop returns, in whatever thread and however often and concurrently it is called, Run is not executing any more, also if it ended by itself before; stopping a plugin that was not started does nothing. A stopped plugin can be started again, and stopping one plugin does not affect others. A worker that sleeps does so for the duration given, in whatever unit, however many sleep at once.",
  ["schedules", "histories"], "All sequences of 5 starts, stops and waits with three kinds of workers; all interleavings of two threads that start and stop, with the worker.",
  "The tests start no plugin.", [PL + "PluginInstance.cpp", "include/lamppost/plugin/PluginInstance.h"],
  [("worker thread and run flag", "src/lamppost/plugin/PluginInstance.cpp:Start,Stop")], SCHED, SNOTE, ["begin and end of Run, return of Stop"])

P("P43", "The application shuts down in order whenever it is told to",
  "Whenever Stop is called on the application, from another thread or from a SIGINT or SIGTERM handler that interrupts the main thread at any point from the installation of the handlers until main ends, before, while or after it starts up, runs or shuts down, once or twice: the application ends soon and successfully, each plugin having been initialized, run, stopped, deinitialized and destroyed once in this order and each library closed, without deadlock or use of anything freed. It reports being stopped if and only if that is complete. The signal handler allocates nothing and takes no lock the interrupted code may hold.",
  ["schedules", "crash_points"], "One or two signals at every scheduling and output point of main and its threads; all interleavings of Start with another thread that stops and waits; plugins that exchange messages until the end.",
  "The tests start no application, and none can place a signal at a given instruction.", ["src/main.cpp", "src/lamppost/LampPost.cpp", "src/lamppost/platformspecific/xnix/Xnix.cpp", "src/lamppost/bus/Bus.cpp"],
  [("signal handler to Stop", "src/main.cpp:HandleShutdownSignal"), ("start, run, tear down", "src/lamppost/LampPost.cpp:Start,Teardown,Stop")], SCHED, SNOTE + " Signals are delivered by the scheduler; plugin libraries are stand-ins.", ["plugin life-cycle calls, return of main, IsStopped"])

P("P44", "Configuration files create exactly the plugins they list",
  "Starting the application with any list of configuration files creates exactly one instance, with exactly the configuration given, for each usable entry of their plugin lists, in order; entries and files that are missing, malformed, of the wrong type, name unknown plugins or plugins that cannot be created are skipped without affecting the others, and never prevent the application from starting, running and shutting down in order.",
  ["inputs"], "All combinations of up to three of 17 kinds of entries in 12 kinds of documents; all lists of up to 3 files of 7 kinds.",
  "The tests read no configuration file with plugins.", ["src/lamppost/LampPost.cpp", PL + "PluginManager.cpp"], [("reading plugin entries", "src/lamppost/LampPost.cpp:ReadConfigurationFile")], SEQ, QNOTE, ["instances created and their configuration"])

P("P45", "A link carries every message across exactly once, unchanged, never back",
  "While a link runs, every message published on the local tree of buses is handed to ZMQ exactly once for each enabled role, in order, in a form the other end reads as the same sender, topic and content; those that came in through this link are not sent, and senders whose names merely resemble the link's are. Every message that arrives on either role, in however many parts, is published locally exactly once, in order, with the link's name put in front of its sender. Two applications connected by a link thus see each message exactly once, requests across the link are answered, and stopping and restarting the link's worker loses nothing.",
  ["schedules", "inputs"], "All interleavings of publishing threads, the bus, the link's worker and arriving messages, for server, client and both roles; two connected applications.",
  "The tests do not load the Link plugin.", ["src/plugins/link/Link.cpp", "src/lamppost/messages/Message.cpp", "src/lamppost/bus/Bus.cpp"],
  [("wildcard subscriber and sender check", "src/plugins/link/Link.cpp:Initialize"), ("receive loop", "src/plugins/link/Link.cpp:Run,ReceiveMessage")], SCHED, SNOTE + " ZMQ is a stand-in with the documented semantics; frames are not lost.", ["frames sent, messages seen by subscribers"])

P("P46", "Nothing on the wire or in the network set-up can harm a linked application",
  "Frames that are empty, cut off at any length or arbitrary bytes are dropped: the messages before and after them arrive, and the link goes on in both directions. A link opens exactly the sockets its configuration asks for, with the documented defaults; if any ZMQ call fails while it starts up, the roles that could be opened work and nothing else is affected. Taking a link down, at any moment of traffic in both directions, stops forwarding at once, uses each socket from one thread at a time and none after it was closed, and closes all sockets, the messages and the context exactly once; the local bus goes on working.",
  ["inputs", "fault_sequences", "schedules"], "12 malformed messages and every truncation; each failing call during start-up; 36 configurations; all interleavings of taking the link down with traffic.",
  "The tests do not load the Link plugin.", ["src/plugins/link/Link.cpp", "src/lamppost/messages/Message.cpp", "src/lamppost/data/RawBytes.cpp"],
  [("deserialization", "src/plugins/link/Link.cpp:ReceiveMessage"), ("tear-down", "src/plugins/link/Link.cpp:Deinitialize"), ("roles", "src/plugins/link/Link.cpp:Initialize")], FAULT, SNOTE + " ZMQ is a stand-in with the documented semantics.", ["ZMQ calls, messages seen by subscribers"])

P("P47", "The SysInfo plugin answers every request and survives any datagram",
  "While the SysInfo plugin runs, it answers each request to /sysinfoaction, whatever it contains, once with its response message, accepts datagrams of every kind on /sysinfo, and publishes its greeting on /sysinfo at once and then every two seconds exactly if send-datagram is set. Once it was deinitialized, which may happen while requests and datagrams come in, it does none of this any more, and whatever it used may be freed. Setting the system clock does not change the interval.",
  ["inputs", "schedules"], "12 kinds of datagrams on both topics; all interleavings of taking the plugin down with requests and datagrams.",
  "The tests do not load the SysInfo plugin.", ["src/plugins/sysinfo/SysInfo.cpp", "src/lamppost/bus/ActionProvider.cpp"],
  [("action provider and subscriber callbacks", "src/plugins/sysinfo/SysInfo.cpp:Initialize,Deinitialize")], SCHED, SNOTE, ["responses and published datagrams"])

P("P48", "Log lines are written whole",
  "Lines logged by several threads and through several loggers appear in the output complete and unmixed, each exactly once, with prefix and indentation, and those of one thread in order.",
  ["schedules"], "All interleavings of three threads that log to an output which hands over control in the middle of a line.",
  "The tests log from one thread.", ["src/lamppost/log/Log.cpp"], [("lock around the output", "src/lamppost/log/Log.cpp:WriteSynchronized")], SCHED, SNOTE, ["text written to std::cout"])
