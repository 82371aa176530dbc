#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the anchors are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

BUS = "src/lamppost/bus/Bus.cpp"; BUSH = "include/lamppost/bus/Bus.h"
RAW = "src/lamppost/messages/RawDatagram.cpp"; RAWH = "include/lamppost/messages/RawDatagram.h"
DG = "src/lamppost/messages/Datagram.cpp"; DGH = "include/lamppost/messages/Datagram.h"
MSG = "src/lamppost/messages/Message.cpp"

p("B01", "Published messages reach exactly the matching subscribers, once each",
  "A message published on any bus of a tree of busses is delivered exactly once to every subscriber, on every running bus of that tree, whose topic equals the message's topic or is the catch-all pattern, and to nobody else; messages published before the tree runs are kept and delivered when it does. What arrives is the topic and the content as they were at the moment of publishing, with the publishing bus's name as sender (a complete message handed to a bus keeps its own sender), whatever publishers or other receivers do to their own copies. A bus created with its own outlet instead passes every message published on it or on busses below it to that outlet exactly once.",
  ["inputs", "histories", "configurations"], "all bus trees, sets of publishers and subscribers, topics, contents and sequences of publications",
  "One test publishes one message on one bus to one subscriber; trees, several receivers, catch-all subscribers, non-matching topics and duplicates are never exercised.",
  [BUS, BUSH, "src/lamppost/bus/Publisher.cpp", "src/lamppost/bus/Subscriber.cpp"],
  [("Bus::Distribute recursion over subscribers and child busses", BUS), ("child busses inherit the root's publish function", BUS), ("deep-copying datagrams", DG)],
  ["subscriber callbacks", "outlet function of a bus"],
  [("message queue", "messages published but not handed out yet", BUSH), ("subscriber list", "who may receive", BUSH)])

p("B02", "Every subscriber sees messages in publication order",
  "Each subscriber receives the messages it is entitled to in the order in which they were published, no matter on which bus of the tree, through which publisher, or how many were pending. A message published from inside a receiving callback is delivered after everything that was already pending, and a callback publishing in this way never blocks or loses it.",
  ["inputs", "histories"], "all publication sequences, including cascades started by callbacks",
  "Tests publish a single message, so there is no order to observe.",
  [BUS, BUSH], [("FIFO queue drained in batches", BUS)], ["subscriber callbacks"],
  [("message queue", "pending messages in publication order", BUSH)])

p("B03", "Deleted subscribers and publishers are inert; everyone else is unaffected",
  "Once deleting a subscriber has returned, its callback is not running and never runs again, even for messages published earlier; once deleting a publisher has returned, publishing through it has no effect and is safe. Deleting affects no other participant, and at any time a bus reports as contained exactly the participants that were created on it and not deleted. A subscriber always uses the callback that was set last, and one without a callback ignores messages.",
  ["histories", "schedules"], "all histories of create, delete, publish and deliver, and all interleavings of a deletion with deliveries",
  "Tests delete one participant of a bus that never ran and only ask whether it is contained.",
  [BUSH, BUS, "src/lamppost/bus/Publisher.cpp", "src/lamppost/bus/Subscriber.cpp"],
  [("DeleteManagedResource removes and resets under the list's lock, which delivery also holds", BUSH), ("Reset drops the callback", "src/lamppost/bus/Subscriber.cpp")],
  ["subscriber callbacks", "contained-queries"], [("participant lists", "contained participants", BUSH)])

p("B04", "Stopped and detached busses fall silent and stay safe",
  "After a stop of the root bus its run ends promptly, and once it has returned no callback is invoked any more until it is run again. Stopping a child bus silences exactly that bus and the busses below it until it is started again. A bus that was detached, or that hung below one that was detached or destroyed, stays safe to use: publishing on it has no effect, and the busses below a detached or destroyed bus fall silent for good.",
  ["histories", "schedules"], "all histories of start, stop, detach, destroy and publish over bus trees",
  "Tests stop a bus only to end the test and never stop, detach or outlive a child bus.",
  [BUS, BUSH], [("run flag checked by the run loop and before each distribution", BUS), ("detach stops and detaches the busses below", BUS)],
  ["subscriber callbacks", "return of the run call"], [("run flag", "whether a bus takes part in deliveries", BUSH)])

p("B05", "Child busses form a registry of unique names",
  "Creating a child bus under a fresh non-empty name yields a bus with that name, and looking that name up on the same parent always returns that very bus. Creating a bus with an empty name or a name already taken, or looking up an unknown name, is refused with the specific error, which names the offending key; a refused call changes nothing. Busses of different parents never interfere.",
  ["inputs", "histories"], "all sequences of creations and look-ups over all names",
  "Tests try one duplicate, one empty and one unknown name on a single bus.",
  [BUS], [("name-indexed map of child busses guarded by a lock", BUS), ("DuplicateKey / KeyNotFound / ArgumentNull errors", "src/lamppost/exceptions")],
  ["return values and errors of create and look-up"], [("child bus map", "registered children", BUSH)])

p("B06", "Concurrent use of a bus loses, duplicates and corrupts nothing",
  "While a bus tree is running, threads may at any time publish, create and delete publishers and subscribers, create and look up child busses, detach and stop: every message published by a thread reaches each subscriber that was present throughout exactly once, each thread's messages arrive in the order it published them, and delivery happens within a bounded delay even if the bus was idle. No interleaving deadlocks, corrupts memory or contains a data race.",
  ["schedules", "histories"], "all interleavings of threads operating on a running bus tree",
  "Each test has at most one publisher thread, one fixed schedule and sleeps; the suite is even pinned to one CPU.",
  [BUS, BUSH, "src/lamppost/bus/Subscriber.cpp", "src/lamppost/bus/Publisher.cpp"],
  [("queue, participant lists and child map each guarded by a mutex", BUSH), ("condition variable with a 100 ms poll as a safety net", BUS)],
  ["subscriber callbacks", "thread termination", "race detector"], [("message queue", "pending messages", BUSH)])

p("A01", "Responses reach exactly the request they answer",
  "For any number of outstanding requests, consumers, providers and topics, and any order of answers, the callback of a request is invoked exactly once if at least one answer to it is given and never otherwise, with the content of the first answer given to that very request. Every provider registered for the topic sees each request exactly once, with its content unchanged, together with an invocation id that no other request has. Repeated answers, answers to unknown invocations and other consumers' answers are ignored; a request without a callback is refused and sends nothing.",
  ["histories", "inputs"], "all sequences of requests and answers over any set of consumers and providers",
  "Tests make one request to one provider that answers at once.",
  ["src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/bus/ActionProvider.cpp", BUSH, "include/lamppost/utilities/Uuid.h"],
  [("open-request table keyed by invocation id", "src/lamppost/bus/ActionConsumer.cpp"), ("topic/request and topic/response channels", BUSH)],
  ["request callbacks", "provider callbacks"], [("open requests", "callbacks waiting for an answer", "include/lamppost/bus/ActionConsumer.h")])

p("A02", "Blocking requests return their own answer or time out cleanly",
  "A blocking request returns the content of the first answer given to it when that arrives before its timeout, without waiting for the timeout to pass, and otherwise returns an empty datagram no earlier than its timeout and soon after it. This holds for any number of threads requesting concurrently, with the same or different consumers, and any interleaving. An answer that arrives late, or twice, never disturbs the requester, later requests, or the bus.",
  ["schedules", "histories"], "all interleavings of requesters, providers, answer delays and timeouts",
  "Tests make one request that is answered at once and one that is never answered; a late answer or a second requester never occurs.",
  ["src/lamppost/bus/ActionConsumer.cpp", BUSH],
  [("wait with predicate on a per-request condition", "src/lamppost/bus/ActionConsumer.cpp"), ("open-request table", "include/lamppost/bus/ActionConsumer.h")],
  ["return value and time of blocking requests", "memory checker", "race detector"], [])

p("A03", "Malformed action traffic is ignored",
  "Whatever datagram is published on the topics used by an action (wrong type, missing, empty or non-text invocation id, no response field, extra fields), the bus keeps running, no request callback is invoked because of it unless it carries that request's invocation id, and well-formed requests before and after it are still answered. Requests that reach a provider that has been reset or was given no handler are ignored.",
  ["inputs", "histories"], "all datagrams on request and response topics, mixed with well-formed exchanges",
  "Tests only send traffic produced by the library itself; a TODO in the code marks the missing check.",
  [BUSH, "src/lamppost/bus/ActionProvider.cpp", "src/lamppost/bus/ActionConsumer.cpp"],
  [("extraction of the invocation id in the channel callbacks", BUSH)], ["return of the run call", "request and provider callbacks"], [])

p("D01", "Datagrams behave as typed trees of values",
  "After any sequence of operations, a datagram (and each of its parts) shows exactly the type, count, keys, items and values that a plain tree of nulls, texts, 32-bit integers, reals, booleans, lists and text-keyed dictionaries would show after the same sequence; assigning or indexing converts a part to the new kind and drops its old content, and writing through nested subscripts changes the tree in place. Reading a value as another type than it has, counting or clearing something without elements, removing from the wrong kind, a missing key or an index out of range is refused with the specific error (naming the key or index). A refused operation leaves the datagram unchanged.",
  ["histories", "inputs"], "all operation sequences on datagrams, with all keys, indices and values",
  "Tests perform a handful of one-step operations on tiny datagrams.",
  [RAW, RAWH, DG, DGH, "include/lamppost/messages/Data.h"],
  [("type tag plus dictionary, list and value members", RAWH), ("typed value holders checked by dynamic cast", "include/lamppost/messages/Data.h")],
  ["getters, counts, type queries and errors"], [("type tag", "which member is meaningful", RAWH)])

p("D02", "Datagram copies are independent and equality is structural",
  "A copy of a datagram (copy, assignment, storing it in another datagram, wrapping it in a message) equals the original when made, and changing either afterwards never changes the other. Two datagrams are equal exactly when they have the same structure, the same keys and item order, and the same values of the same types, however they were built; equality is reflexive (values that differ from themselves aside), symmetric and transitive, and inequality is its negation.",
  ["inputs", "histories"], "all pairs of datagrams and all modifications after copying",
  "Tests compare six pairs of flat datagrams and never modify a copy.",
  [RAW, DG, DGH, "include/lamppost/messages/Data.h"],
  [("recursive copy", RAW), ("recursive comparison", RAW)], ["equality", "getters after modification"], [])

p("D03", "Path look-up returns the addressed value or the default and changes nothing",
  "Looking up a slash-separated path of keys yields the value stored there when every step exists in a dictionary and the final value has the requested type, and the given default in every other case (missing key, step into a list, text, number or null, wrong type); a trailing slash is ignored, and the empty path addresses the datagram itself. A look-up never throws and never modifies the datagram.",
  ["inputs"], "all datagrams, paths, types and defaults",
  "Tests look up two existing paths and one missing one.",
  [RAWH, DGH], [("recursive path resolution", RAWH)], ["returned value", "datagram before and after"], [])

p("D04", "Messages survive serialisation unchanged",
  "Serialising any message and deserialising the bytes yields an equal message: same sender, same topic, and a datagram with the same structure, the same types and the same values, for trees of any shape and size, up to a thousand levels deep, arbitrary bytes in texts and keys, extreme numbers, and empty lists and dictionaries. Values of types the wire format does not know arrive as null. Serialising does not modify the message.",
  ["inputs"], "all messages",
  "One test round-trips one two-level dictionary with an integer and a text.",
  [MSG, RAW, "schemas/FBDatagram.fbs", "schemas/FBMessage.fbs", "src/lamppost/data/RawBytes.cpp"],
  [("flatbuffers encoding per node", RAW), ("schema", "schemas/FBDatagram.fbs")], ["deserialised message"], [])

p("D05", "Decoding arbitrary bytes is safe",
  "Decoding any sequence of bytes as a message either yields a message or is refused with one of the library's errors; it never reads outside the given bytes, crashes, hangs or takes resources out of proportion to the size of the bytes. A message obtained this way can be used, copied, printed and serialised like any other, and decoding its serialised form yields an equal message.",
  ["inputs"], "all byte sequences, in particular truncated, spliced and bit-flipped encodings",
  "Tests decode only bytes the library has just produced.",
  [MSG, RAW], [("structure check before reading", MSG)], ["errors", "memory checker"], [])

p("D06", "JSON documents are decoded faithfully or not at all",
  "Decoding a JSON document yields the datagram of the same structure: objects as dictionaries (the last of equal keys wins), arrays as lists in order, texts character for character in UTF-8, whole numbers that fit 32 bits as integers, other numbers as reals, booleans, and null as empty, with empty objects and arrays keeping their kind and any value allowed at the top. Text cut off or broken before the document is complete yields the empty datagram, never partial content. No text whatsoever makes decoding crash, hang or retain memory.",
  ["inputs"], "all texts, in particular all JSON documents and their truncations and corruptions",
  "Tests decode one document with one number.",
  [RAW], [("json-c parse followed by a recursive conversion", RAW)], ["decoded datagram", "memory accounting"], [])

p("D07", "Printed datagrams show their content",
  "Printing a datagram shows null for an empty one, texts in double quotes, numbers and booleans as the standard stream prints them, lists as bracketed and dictionaries as braced comma-separated sequences, every item exactly once, list items in order and dictionary entries as key, colon and value in key order. Equal datagrams print the same text, and printing changes nothing; a printed message shows its sender, topic and datagram.",
  ["inputs"], "all datagrams and messages",
  "No test prints anything.",
  [RAWH, DGH, "include/lamppost/messages/Message.h"], [("stream output operators", RAWH)], ["text written to a stream"], [])

p("M01", "Relay tags on message senders compose and undo exactly",
  "Tagging a message with a relay name puts that name and a slash in front of its sender; a message counts as having come through a relay exactly when its sender begins with the relay's name and a slash. Removing a relay's tag takes off exactly one such prefix if there is one and otherwise changes nothing, so removing undoes tagging for all names and senders; topic and content are never touched.",
  ["inputs", "histories"], "all senders, relay names and sequences of tagging and untagging",
  "No test calls any of these operations.",
  [MSG], [("prefix handling on the sender text", MSG)], ["sender, topic and content of the message"], [])

p("R01", "Byte buffers hold exactly the bytes put into them",
  "A byte buffer's content is the concatenation of the bytes it was created from and every chunk appended to it, in order and in full, for any bytes, any sizes including zero, and any number of chunks, including chunks taken from the buffer itself; its size is the sum of their sizes. It is unaffected by later changes to the memory the bytes came from, copies of it are independent, and creating one from nothing at all (a null pointer) is refused.",
  ["inputs", "histories"], "all sequences of construction, appending and copying",
  "Tests use a buffer only as a carrier inside one serialisation round trip.",
  ["src/lamppost/data/RawBytes.cpp", "include/lamppost/data/RawBytes.h"], [("grow and copy on append", "src/lamppost/data/RawBytes.cpp")], ["content and size"], [])

p("U01", "Generated identifiers never repeat",
  "Every generated identifier is non-empty printable text that differs from all identifiers generated before, however many are generated and from whichever threads or processes. Two identifiers compare equal exactly when both are unset or both carry the same text, and copying or printing one preserves its text.",
  ["inputs", "histories", "schedules"], "all numbers of generated identifiers",
  "No test generates an identifier, and collisions only show among many.",
  ["include/lamppost/utilities/Uuid.h", "src/lamppost/utilities/Uuid.cpp"], [("random 128-bit-class identifiers", "include/lamppost/utilities/Uuid.h")], ["text of generated identifiers"], [])

p("T01", "Topic patterns match exactly their topic; the catch-all matches everything",
  "A pattern matches a topic exactly when the two are the same text or the pattern is the catch-all pattern /**/*, which matches every topic including the empty one. No other text acts as a wildcard, and near misses (different case, prefixes, suffixes, extra or missing slashes) never match.",
  ["inputs"], "all pairs of patterns and topics",
  "No test calls the matcher with anything but two equal topics through the bus.",
  ["src/lamppost/utilities/AntMatcher.cpp", BUS], [("text comparison plus the catch-all case", "src/lamppost/utilities/AntMatcher.cpp")], ["match result"], [])

p("P01", "Plugin instances live a complete, orderly life",
  "Every instance of a plugin gets an identifier that is unique within its plugin (the plugin's name plus the lowest free index), its own child bus under that identifier on the bus it was placed on, and the configuration it was created with. Once started, its worker runs exactly once until told to stop or finished by itself, stopping waits until the worker has returned, and a stopped instance can be started again. Unloading the plugin ends every worker before that instance is deinitialised, deinitialises each instance exactly once, and calls nothing on it afterwards.",
  ["histories", "configurations", "schedules"], "all histories of instantiating, starting, stopping and unloading any number of instances",
  "No test creates a plugin instance.",
  ["src/lamppost/plugin/PluginTemplate.cpp", "src/lamppost/plugin/PluginInstance.cpp"],
  [("index search and child bus creation", "src/lamppost/plugin/PluginTemplate.cpp"), ("run flag plus joined worker thread", "src/lamppost/plugin/PluginInstance.cpp")],
  ["calls made on a plugin instance", "identifiers, busses and configuration it sees"],
  [("instance table", "live instances by identifier", "include/lamppost/plugin/PluginTemplate.h")])

p("P02", "Exactly the well-formed plugin libraries on the search paths are usable",
  "After loading, a plugin can be instantiated by its identifier exactly when some search path holds a library file named with the plugin prefix and extension that offers both the info and the instance factory and a non-empty identifier. Files that are not such libraries (foreign names, garbage content, missing factories, empty identifiers, directories) are skipped and never prevent the others from loading. Asking for an unknown plugin yields nothing and changes nothing, and after unloading no plugin can be instantiated any more and all instances have been deinitialised.",
  ["inputs", "configurations", "histories"], "all directory contents and search path lists",
  "No test touches the plugin manager.",
  ["src/lamppost/plugin/PluginManager.cpp", "src/lamppost/Filesystem.cpp"],
  [("file name filter, dlopen and factory look-up", "src/lamppost/plugin/PluginManager.cpp")], ["result of instantiating by identifier", "calls on instances"],
  [("template table", "loaded plugins by identifier", "include/lamppost/plugin/PluginManager.h")])

p("L01", "A configuration starts exactly the plugins it lists",
  "Starting with any list of configuration files creates, initialises and starts one instance per entry of their plugins lists that names a known plugin, in order, each with its own configuration section. Entries that are malformed, name unknown plugins or plugins that cannot be instantiated, sections of the wrong shape, and files that are missing, empty or not JSON are skipped, without affecting the other entries or files and without ending the program.",
  ["inputs", "configurations"], "all configuration files and file lists",
  "No test starts the application or reads a configuration file.",
  ["src/lamppost/LampPost.cpp", RAW, "src/lamppost/plugin/PluginManager.cpp"],
  [("configuration walk with per-entry error handling", "src/lamppost/LampPost.cpp")], ["plugin life cycle calls", "return of start"], [])

p("L02", "A stop request always leads to an orderly end",
  "Whenever stop is requested, by call or by termination signal, before or while plugins are being loaded, created or started, while the bus is running, during shutdown, or repeatedly, the application's start call returns (and the program exits successfully), with every plugin instance stopped and deinitialised exactly once. It reports itself as stopped once that has happened, and not before; without a stop request it keeps running.",
  ["schedules", "fault_sequences", "histories"], "all points in the life of the application at which stops may arrive, and all repetitions",
  "No test starts or stops the application.",
  ["src/lamppost/LampPost.cpp", "src/main.cpp", "src/lamppost/platformspecific/xnix/Xnix.cpp", BUS],
  [("stop of the root bus ends the start call, teardown follows", "src/lamppost/LampPost.cpp"), ("signal handling", "src/lamppost/platformspecific/xnix/Xnix.cpp")],
  ["return of start", "exit status", "stopped query", "plugin life cycle calls"],
  [("run state", "running or stopped", "include/lamppost/LampPost.h")])

p("N01", "Linked instances exchange every message once, unchanged and without echo",
  "Once two instances are connected by a link, every message published on either side is published on the other exactly once, in order, with the same topic and content and with the receiving link's name prefixed to its sender. A message that arrived over a link is never sent back over that link, and local subscribers on the publishing side see each message exactly once. (As long as no more messages are underway than the transport queues, 1000 by default.)",
  ["inputs", "histories", "configurations"], "all messages published on either side of a connected link, in both roles",
  "No test loads the link plugin.",
  ["src/plugins/link/Link.cpp", MSG],
  [("catch-all subscriber forwards what did not come from the link", "src/plugins/link/Link.cpp"), ("sender tag as loop guard", MSG)], ["subscriber callbacks on both sides"], [])

p("N02", "A link survives whatever its peers send",
  "Whatever frames arrive on a link's sockets (any number of parts, of any size and content), the process keeps running, nothing that is not a well-formed message is published on the bus, and well-formed messages arriving before and after are still delivered, intact and exactly once. Whatever peers do, including reading nothing of what is sent to them, the link can be ended and the process keeps running.",
  ["inputs", "fault_sequences"], "all sequences of incoming frames",
  "No test loads the link plugin, and nothing ever sends it malformed data.",
  ["src/plugins/link/Link.cpp", MSG], [("reassembly of multi-part messages and decoding", "src/plugins/link/Link.cpp")], ["subscriber callbacks", "process survival"], [])

p("S01", "The system information plugin serves every request and tolerates everything",
  "While it is initialised, the system information plugin answers every request on its action exactly once with its fixed response text, whatever the request contains, and announces itself on its topic, every two seconds while it runs, exactly if its configuration says so. No datagram on its topics makes the process or the bus fail, and once deinitialised it no longer reacts to its announcement topic.",
  ["inputs", "configurations"], "all requests, configurations and datagrams on its topics",
  "No test loads the plugin.",
  ["src/plugins/sysinfo/SysInfo.cpp"], [("action provider and subscriber set up on initialisation", "src/plugins/sysinfo/SysInfo.cpp")], ["responses", "announcements"], [])

p("F01", "File system queries tell the truth",
  "For any path, the existence, file and directory queries agree with the file system (following links, false for anything missing or unreadable). Listing a directory returns the name of every entry of the requested kind exactly once and nothing else (regular files, directories, or both, never the directory itself or its parent), and listing something that is not a directory returns nothing.",
  ["inputs", "configurations"], "all directory trees, names, link structures and paths",
  "No test touches the file system helpers.",
  ["src/lamppost/Filesystem.cpp"], [("stat, access and readdir", "src/lamppost/Filesystem.cpp")], ["query results"], [])

p("F02", "Path operations split what they combine",
  "Combining a directory and a name joins them with a single separator, and for every directory and every separator-free name the file name and the base directory of the combination are again that name and that directory. The extension of a path is what follows the last dot of its file name, and empty if there is no dot, so dots in directory names never count.",
  ["inputs"], "all directories and names",
  "No test calls the path helpers.",
  ["src/lamppost/Filesystem.cpp"], [("last-separator search", "src/lamppost/Filesystem.cpp")], ["returned texts"], [])

p("C01", "Configurations compare by content and keep their order",
  "Two plugin manager configurations are equal exactly when they have the same search paths in the same order and the same bus, and two application configurations are equal exactly when those agree and they list the same configuration files in the same order; inequality is the negation, and comparing is safe for lists of any lengths. Search paths added to the settings are returned all, in the order in which they were added.",
  ["inputs"], "all pairs of configurations",
  "Tests compare one configuration with itself.",
  ["include/lamppost/plugin/PluginManagerConfiguration.h", "include/lamppost/LampPostConfiguration.h", "src/lamppost/settings/SettingsManager.cpp"],
  [("element-wise comparison", "include/lamppost/plugin/PluginManagerConfiguration.h")], ["comparison results"], [])

p("G01", "Every log call writes one intact line",
  "Each log call writes exactly one line consisting of the logger's prefix in brackets, two spaces of indentation per level, and the message, regardless of severity. Lines of concurrent callers are never interleaved, lost or duplicated, and each caller's lines appear in the order of its calls.",
  ["inputs", "schedules"], "all prefixes, messages, levels and interleavings of logging threads",
  "No test examines log output.",
  ["src/lamppost/log/Log.cpp"], [("one process-wide lock around writing a line", "src/lamppost/log/Log.cpp")], ["standard output"], [])

p("R02", "Discarded objects release their memory",
  "Creating, using and discarding datagrams, messages, decoded documents, busses with publishers, subscribers, children and actions, requests answered or timed out, and plugins, any number of times, leaves no memory behind: after everything is discarded, the memory in use is what it was before.",
  ["histories"], "all create-use-discard histories",
  "Tests do not observe memory, and one round of use hides a leak per use.",
  [RAW, BUSH, BUS, "src/lamppost/bus/ActionConsumer.cpp", "src/lamppost/plugin/PluginTemplate.cpp"],
  [("shared ownership without cycles", BUSH), ("release of parser objects", RAW)], ["memory accounting of the process"], [])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
