#!/usr/bin/env python3
# Source of /verif/properties.jsonl:  python3 tools/props.py > properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,
        "state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],
        "mechanism":[{"name":a,"where":b} for a,b in mech],
        "observe_at":list(obs),"hook_needed":hook}})
F="filtering/"
p("C01","Every tag read is routed to exactly the matching subscribers",
 "Whatever engine happens to be serving, and however engine builds, engine replacements and statistics ticks interleave with the reads, every tag read is answered with exactly the set of subscriber report addresses that have at least one subscribed pattern matching that tag: none missing and none extra. A matched read also carries the tag's correct pure identity, and a read that no subscriber wants is answered with no address and an error.",
 ["schedules","inputs","histories"],
 "All subscription sets of supported patterns (SGTIN-96, SSCC-96, GRAI-96, GIAI-96, ISO 17363, ISO 17365, full or prefix), all well-formed tags, all orders of engine completion, adoption and reads.",
 "Tests search one engine at a time with a handful of fixed tags and compare structures; none runs reads through the factory while engines complete and replace each other, and the self-adjusting engine has no search test at all.",
 [F+"engine_factory.go",F+"engine_generator.go",F+"list.go",F+"patricia_trie.go",F+"splay_tree.go",F+"legacy_engine.go",F+"filter_object.go",F+"subscriptions.go","tdt/core.go","tdt/epc.go","tdt/iso.go"],
 [("serving-engine dispatch",F+"engine_factory.go EngineFactory.Search"),("prefix filter compilation","tdt MakePrefixFilterString"),("four matching engines",F)],
 [("serving engine name","which deployed engine answers reads",F+"engine_factory.go")],
 ["return value of EngineFactory.Search"])
p("C02","Engine answers never depend on what was read before",
 "Two engines built from the same subscriptions give the same set of report addresses for the same tag at every moment, and an engine gives the same answer for a tag no matter which tags it searched earlier and in which order; an answer once given stays as it is while others are given.",
 ["histories","schedules","inputs"],
 "All histories of reads through all concurrently deployed engines (including the engine that reorganises itself on every read), for all supported subscription sets.",
 "The self-adjusting engine mutates shared structure on each search; fixed-example tests never search it twice, let alone with long histories over nested and overlapping patterns.",
 [F+"splay_tree.go",F+"patricia_trie.go",F+"list.go",F+"legacy_engine.go",F+"engine_factory.go"],
 [("splay on search",F+"splay_tree.go splaySearch"),("shadow search on all ready engines",F+"engine_factory.go Search")],
 [("splay tree shape","reordered on each hit",F+"splay_tree.go")],
 ["engine Search results per read"])
p("C03","Filtering becomes available and stays available",
 "Once the first engine has been built the middleware reports itself active within one second, it never becomes inactive again, and from then on every read is answered within a bounded time by an engine whose construction has completed. This holds for every build duration and completion order, for an empty subscription list, and with statistics traffic flowing at any rate.",
 ["schedules","configurations","histories"],
 "All build durations and completion orders of the four engines, all interleavings of reads with ticks, status messages and replacements.",
 "No existing test starts the factory, so no completion order, no read racing a replacement and no blocking between searcher, monitors, listener and management consumer is ever exercised.",
 [F+"engine_factory.go",F+"engine_generator.go"],
 [("generator state machine",F+"engine_generator.go"),("reflect-select listener",F+"engine_factory.go Run"),("IsActive",F+"engine_factory.go")],
 [("generator FSM state","unavailable/generating/ready",F+"engine_generator.go")],
 ["EngineFactory.IsActive","EngineFactory.Search"])
p("C04","Serving engine follows deployment priority, then measured throughput",
 "When an engine finishes building it takes over serving exactly if it has a higher deployment priority than the one serving (patricia trie over splay tree over list over legacy), and at each statistics interval the engine with the highest measured throughput is adopted. Every change of serving engine is announced on the management channel after it takes effect, each statistics interval announces the serving engine, and once things are quiet the last announcement names the engine that is serving.",
 ["schedules","histories","configurations"],
 "All completion orders and build times, all relative engine speeds and speed changes, all interleavings of ticks, status messages, deployments and management-channel consumption (including a slow consumer).",
 "No test runs the factory or its ticker; adoption depends on the interleaving of five goroutines and the clock.",
 [F+"engine_factory.go",F+"engine_generator.go",F+"management_message.go"],
 [("priority table and replacement",F+"engine_factory.go Run"),("selective adoption ticker",F+"engine_factory.go Run"),("throughput measurement",F+"engine_generator.go")],
 [("engine performance table","last reported events/us per engine",F+"engine_factory.go")],
 ["SelectedEngine messages on the management channel","which engine answers the next read"])
p("C05","Traffic statistics account for every read exactly once",
 "For every engine, the event and match counts reported over any sequence of statistics intervals add up to exactly the searches that engine performed and the searches that matched, with no read lost, double-counted or attributed to another engine, wherever the interval boundaries fall relative to the reads. No interval reports more matches than events, every interval is reported for every engine, and a reported throughput is the finite ratio of that interval's events to the time they took.",
 ["schedules","histories"],
 "All alignments of interval boundaries with in-flight searches and message deliveries, all traffic patterns including idle intervals and sub-microsecond searches, slow and fast consumers.",
 "The counters are shared between the searching goroutine and the monitor goroutine; no test runs either, and lost updates only appear when a tick lands inside a search or inside the reporting sequence.",
 [F+"engine_generator.go",F+"engine_factory.go",F+"engine.go"],
 [("monitor goroutine",F+"engine_generator.go NewEngineGenerator"),("per-event time channel",F+"engine.go timeTrack")],
 [("EventCount/MatchedCount/totalTime","interval counters",F+"engine_generator.go")],
 ["TrafficStatus and EngineStatus messages on the management channel"])
p("C06","Each read is searched exactly once by the serving engine",
 "A read is searched once by the engine that answers it and at most once by every other deployed engine, never by an engine that is still being built, even when the serving engine changes while the read is in progress; every deployed engine that is not serving is kept measured by searching the reads too.",
 ["schedules","histories"],
 "All points inside a read at which a deployment or an interval adoption can change the serving engine.",
 "A change of serving engine in the middle of a read needs a particular interleaving that no unit test produces.",
 [F+"engine_factory.go",F+"engine_generator.go"],
 [("shadow search then serve",F+"engine_factory.go Search")],
 [("serving engine name","read during a search, written by ticker and listener",F+"engine_factory.go")],
 ["searches received by each engine"])
p("C07","Statistics backend trouble never stops or stalls filtering",
 "With statistics enabled, no behaviour of the statistics database (refusing connections, answering errors, answering slowly or never, failing and recovering) terminates the middleware, delays keepalive acknowledgements or stops tag reads from being filtered. Once the database is healthy again, statistics flow again within a bounded time.",
 ["fault_sequences","schedules"],
 "All sequences of database outages, error responses, hangs and recoveries, at any point relative to reads, keepalives and statistics intervals.",
 "No test runs the statistics writer; the effect of a hung backend only appears through back-pressure across four goroutines.",
 ["monitoring/stat_manager.go","cmd/gosstrak-fc/main.go",F+"engine_generator.go",F+"engine_factory.go"],
 [("management consumer","cmd/gosstrak-fc/main.go run"),("statistics writer","monitoring/stat_manager.go")],
 [("management and statistics channels","bounded queues between filtering and the database","cmd/gosstrak-fc/main.go")],
 ["process exit","keepalive acknowledgements on the reader connection","tags reaching the engines","writes reaching the database"])
p("C08","Each statistic reaches a healthy database exactly once and correctly",
 "While the statistics database is healthy, every traffic, throughput and engine-selection report of the filtering core is stored as exactly one point, in the database and with the credentials it was configured with, carrying the right engine, the right values (event count, match count and matching percentage; events per microsecond; selected engine) and a timestamp no earlier than the report and soon after it. No point is stored twice, and intervals without reads are stored without failing.",
 ["schedules","histories","fault_sequences"],
 "All interleavings of reports and writes, all response latencies of a healthy database, all traffic histories including idle intervals; after an outage, no report is stored more than once.",
 "No test exercises the statistics writer; growth and duplication only show over many writes.",
 ["monitoring/stat_manager.go","monitoring/stat_message.go","cmd/gosstrak-fc/main.go"],
 [("point construction and write","monitoring/stat_manager.go")],
 [("point batch","points awaiting the write","monitoring/stat_manager.go")],
 ["line-protocol writes received by the database"])
p("C09","The reader session handles every message exactly once, in order",
 "However the reader's byte stream is fragmented, delayed or coalesced, every message is recognised exactly once and in order: each keepalive is acknowledged once, each reader event notification is answered once with a reader configuration that asks for periodic keepalives, the messages sent are identified from the configured initial message identifier on, and every tag of every access report reaches the filtering engines exactly once, in the order received. No message is acted upon before it has arrived completely.",
 ["schedules","inputs","fault_sequences"],
 "All message sequences, all fragmentations of the stream, all delays and all interleavings of the session with filtering and statistics.",
 "The session loop is never run by a test; fragmentation and interleaving with the filtering goroutine are schedule properties.",
 ["cmd/gosstrak-fc/main.go"],
 [("length-prefixed read loop","cmd/gosstrak-fc/main.go run"),("report queue","cmd/gosstrak-fc/main.go run")],
 [],
 ["bytes exchanged on the reader connection","searches performed by the engines"])
p("C10","A broken reader session fails stop without inventing data",
 "When the reader connection is closed, reset or cut inside a message, or carries a message of unknown type or a length that no message can have, the middleware terminates with a failure and does so promptly; it never acts on an incomplete message, never allocates or waits for an absurd amount of data, and everything received completely before the break is still acted upon at most once.",
 ["fault_sequences","crash_points"],
 "All positions in the byte stream at which the connection can end or be corrupted in its framing, in all session states.",
 "No test runs the session; the byte positions of a cut times the session history cannot be enumerated by examples.",
 ["cmd/gosstrak-fc/main.go"],
 [("fatal on read error","cmd/gosstrak-fc/main.go run")],
 [],
 ["process exit","searches performed by the engines","bytes written to the reader"])
p("C11","Startup waits for engine and reader, and survives their delays",
 "The middleware does not touch the reader until it can filter, keeps retrying at least every two seconds while the reader is unreachable, opens one session as soon as the reader becomes reachable, and loses no tag delivered after that. Delays in building engines, an unreachable reader and activity on the management port in any order never make startup fail.",
 ["schedules","fault_sequences","configurations"],
 "All durations and orders of engine builds, reader outages before the first connection and management connections.",
 "Startup ordering under delays is never executed by a test.",
 ["cmd/gosstrak-fc/main.go",F+"engine_factory.go"],
 [("activity poll","cmd/gosstrak-fc/main.go run"),("dial retry","cmd/gosstrak-fc/main.go run")],
 [],
 ["connection attempts at the reader","searches performed by the engines"])
p("C12","Management streams are mirrored and cannot disturb filtering",
 "A client of the management port (and of the event capture server) gets every byte and every header it sends on a stream back unchanged and in order, for any number of concurrent clients and streams. A client that sends garbage, stalls, or disconnects at any point affects neither other clients nor filtering nor the reader session.",
 ["schedules","fault_sequences"],
 "All interleavings of clients, streams, chunkings, disconnects and malformed input with filtering activity.",
 "No test opens the port; isolation between clients and the filtering path is a concurrency property.",
 ["cmd/gosstrak-fc/main.go","cmd/ale-ec/main.go"],
 [("accept loop and per-connection serve","cmd/gosstrak-fc/main.go run"),("capture server accept loop","cmd/ale-ec/main.go main")],
 [],
 ["bytes returned to management clients","keepalive acknowledgements","process exit"])
p("C13","Damaged tags never crash filtering or affect other tags",
 "Tag data damaged on the air (truncated, extended or bit-flipped identifiers and protocol bits, undefined partition values, out-of-range fields, empty identifiers) never terminates the middleware, and all well-formed tags before, after and in the same report are answered exactly as if the damaged ones were absent. A damaged identifier is delivered only to subscribers whose complete pattern its bits contain.",
 ["inputs","fault_sequences","histories"],
 "All damage to all tag bits and lengths at any position of a read history, through every engine.",
 "Tests only search well-formed 96-bit tags; any damaged byte in the field reaches slice indexing in every engine.",
 [F+"filter_object.go",F+"engine.go",F+"patricia_trie.go","tdt/core.go"],
 [("filter comparison",F+"filter_object.go Match"),("next-bit lookup",F+"engine.go getNextBit"),("identity translation","tdt/core.go")],
 [],
 ["EngineFactory.Search results","process exit"])
p("C14","Subscriptions are loaded completely or startup fails",
 "Loading subscriptions from file yields exactly the subscribers and patterns the file contains, whatever sizes the reads are delivered in; if the file cannot be opened or any read fails part-way, startup fails instead of running with a partial set, and a file that is not valid CSV is never used without some of its valid lines. Unsupported lines and patterns are ignored without affecting the others, and never make a subscriber receive tags it did not ask for.",
 ["fault_sequences","inputs"],
 "All file contents, all short-read patterns, all positions of an I/O error.",
 "The loader is tested on one good file; no test injects an I/O error or a short read.",
 [F+"subscriptions.go","cmd/gosstrak-fc/main.go"],
 [("CSV loader",F+"subscriptions.go LoadSubscriptionsFromCSVFile"),("byte filter compilation",F+"subscriptions.go ToByteSubscriptions")],
 [],
 ["loaded subscriptions","process exit","routing of subsequent reads"])
p("C15","Tag conversion reports success only for a complete output file",
 "When the tag converter reports success and exits normally, the output file contains exactly the tags of the input file and can be loaded back; if reading the input or creating, writing or closing the output fails at any point (missing file, read error, disk full, write error, short write), it terminates with a failure and does not report success.",
 ["fault_sequences","crash_points"],
 "All positions and kinds of I/O failure while reading the input and writing the output, all short-read and short-write patterns.",
 "Tests cover parsing helpers only; no test makes a write fail.",
 ["cmd/gobtags/main.go"],
 [("load, encode, save","cmd/gobtags/main.go main")],
 [],
 ["exit status","success message","contents of the output file"])
p("C16","A stored engine is restored identical or refused",
 "An engine image or subscription image that was stored completely restores to an engine or subscription set that gives the same answers as the original for every tag, in every engine type and after any read history. This also holds for restoring into an engine that is in use already: nothing of its former subscriptions remains. An image cut short at any byte by a crash, or one of another engine type, is refused with an error and never restores to something that answers differently, and an engine that refuses an image keeps answering as before.",
 ["crash_points","histories","inputs"],
 "All subscription sets and read histories before storing, all truncation points of the stored image.",
 "Tests encode and decode a few small structures and never truncate an image nor search after restoring.",
 [F+"list.go",F+"patricia_trie.go",F+"splay_tree.go",F+"legacy_engine.go",F+"subscriptions.go"],
 [("binary marshalling of engines and nodes",F),("subscriptions marshalling",F+"subscriptions.go")],
 [],
 ["Search results after restore","restore error"])
p("C17","Subscription changes take effect exactly",
 "After any history of adding and deleting subscriptions, reading tags, and storing and restoring, every engine answers every tag exactly as an engine of its type built anew from the resulting subscriptions. Adding a subscription that exists and deleting one that does not exist change nothing, and no change affects other subscribers of the same pattern, other patterns, or other engines built from the same subscriptions.",
 ["histories","crash_points","inputs"],
 "All histories of additions, deletions, reads, stored images and returns to a stored image, for all engine types.",
 "The tests add and delete in benchmarks only and never look at the answers.",
 [F+"list.go",F+"patricia_trie.go",F+"splay_tree.go",F+"legacy_engine.go",F+"subscriptions.go"],
 [("incremental add/delete",F),("binary marshalling of changed engines",F)],
 [],
 ["Search results after each change and after a restore"])
p("C18","Finished work leaves nothing behind",
 "However many reports, keepalives, statistics writes and clients the filtering core or the event capture server has dealt with, and whichever way the clients went away or the database failed, what they hold once that work is over - goroutines, client connections that are neither closed nor released, requests, unread answers and unused connections to the database - is bounded by what is still under way.",
 ["histories","schedules","faults"],
 "All histories of messages, tags that match or fail, database failures and clients, who come and go in any way at any moment, with any fragmentation and delay.",
 "The tests never run the programs; what is left behind shows only after long operation.",
 ["cmd/gosstrak-fc/main.go","cmd/ale-ec/main.go",F+"engine_generator.go",F+"engine_factory.go","monitoring/stat_manager.go"],
 [("sessions of clients","cmd/gosstrak-fc/main.go"),("event capture server","cmd/ale-ec/main.go"),("statistics writes","monitoring/stat_manager.go"),("searches","filtering/engine_generator.go")],
 [],
 ["Goroutines and descriptors of the running process"])
p("N01","Tag encoding and translation agree for every scheme",
 "For every supported scheme and all field values in range, encoding the fields to a tag and translating the tag yields the identity with the same fields.",
 ["inputs"],"All schemes and field values.",
 "Examples only.",
 ["scheme/epc.go","scheme/iso.go","tdt/core.go"],[("encoders","scheme"),("translation","tdt/core.go")])
p("N03","Composite filters match the union of their members",
 "A composition of filters, followed by its child filters, accepts exactly the identifiers accepted by the original filters.",
 ["inputs"],"All filter sets.",
 "Examples only.",
 [F+"composition.go"],[("composition",F+"composition.go")])
for x in P: print(json.dumps(x))
