"""What each property's check runs: workloads ("parts") of harness programs, in which builds, how many cases."""

COMMON = ["ref.cpp", "bridge.cpp", "dbuslib.cpp"]
WRAP = " ".join("-Wl,--wrap=" + f for f in ("send recv sendmsg recvmsg writev readv socket connect epoll_create1 pthread_mutex_lock pthread_mutex_unlock getuid geteuid").split())
# libFuzzer without its main function
FUZZER = "-lclang_rt.fuzzer_no_main"
EXES = {
    "enc": {"files": ["h_encode.cpp"] + COMMON},
    "dec": {"files": ["h_decode.cpp"] + COMMON},
    "misc": {"files": ["h_misc.cpp"] + COMMON},
    "hostile": {"files": ["h_hostile.cpp"] + COMMON},
    "fuzz": {"files": ["h_fuzz.cpp"] + COMMON, "link": FUZZER},
    "conn": {"files": ["h_conn.cpp", "faults.cpp"] + COMMON, "link": WRAP},
    "conn2": {"files": ["h_conn2.cpp", "faults.cpp"] + COMMON, "link": WRAP},
    "conn3": {"files": ["h_conn3.cpp", "faults.cpp"] + COMMON, "link": WRAP},
    "bus": {"files": ["h_bus.cpp", "faults.cpp"] + COMMON, "link": WRAP},
    "live": {"files": ["h_live.cpp", "faults.cpp"] + COMMON, "link": WRAP},
    "conn4": {"files": ["h_conn4.cpp", "faults.cpp"] + COMMON, "link": WRAP},
    "work": {"files": ["h_work.cpp", "faults.cpp"] + COMMON, "link": WRAP},
    "exit": {"files": ["h_exit.cpp", "faults.cpp"] + COMMON, "link": WRAP},
    "storm": {"files": ["h_storm.cpp", "faults.cpp"] + COMMON, "link": WRAP},
}


def P(exe, part, quick, thorough=None, variant="asan", **opts):
    return {"exe": exe, "part": part, "variant": variant, "quick": quick, "thorough": quick * 15 if thorough is None else thorough, "opts": opts}


GENERATED = ("Cases are drawn by a seeded generator of typed value trees (all type codes, nesting to the protocol's limits, boundary values and lengths) "
             "and messages (all kinds, both byte orders, fields in any order); ")

CONN = "A real connection over a socket to a scripted peer in the same process, with short reads and writes, small buffers and delays injected; "

# Sessions of libFuzzer
FUZZ = P("fuzz", "fuzz", 48, 240, variant="fuzz", no_leaks=True, timeout=200)

CHECKS = {
    "C01": {
        "technique": 'differential monitoring of the encoder under ASan+UBSan',
        "note": 'Every message the workload built was accepted by two independent decoders with the values that went in. Trusts harness/ref.cpp and libdbus; says nothing about values not generated.',
        "parts": [P("enc", "random", 6000), P("enc", "triples", 3500), P("enc", "nested", 1500), P("enc", "bigsig", 400),
                  P("enc", "large", 16, 60, weight=5), P("enc", "reuse", 800), P("enc", "again", 1600)],
        "rule": GENERATED + "each is built through the public API and its bytes are judged by the reference decoder and by libdbus. Non-trivial: distinct wire bytes of an accepted message.",
    },
    "C02": {
        "technique": 'differential monitoring of the decoder under ASan+UBSan',
        "note": 'Every generated message was delivered once with the encoded values. Trusts the reference encoder, cross-checked by libdbus.',
        "parts": [P("dec", "random", 5000), P("dec", "triples", 3500), P("dec", "deep", 120), P("dec", "libdbus", 2500), P("dec", "large", 32, 120, weight=5), P("live", "live", 800, timeout=150), FUZZ],
        "rule": GENERATED + "encoded by the reference encoder or by libdbus, and compared with what the handler got. Non-trivial: distinct wire bytes delivered and compared.",
    },
    "C03": {
        "technique": 'round-trip monitoring under ASan+UBSan',
        "note": 'Every received value that was sent on read back identical by the reference decoder.',
        "parts": [P("enc", "random", 4000), P("enc", "pairs", 3000), P("enc", "deep", 160), FUZZ],
        "rule": GENERATED + "the arguments a handler received are put into a new message, whose bytes the reference decoder reads. Non-trivial: distinct wire bytes of the message sent on.",
    },
    "C04": {
        "technique": 'online monitor of deliveries against the stream position, under ASan+UBSan',
        "note": 'For the streams and divisions generated; single and double cuts of short streams are exhaustive.',
        "parts": [P("dec", "random", 1000), P("dec", "everycut", 24, 200), P("dec", "long", 48), P("live", "live", 1600, timeout=150), FUZZ],
        "rule": GENERATED + "streams of several messages, divided into reads at random, at every byte, and at every single or pair of places; after each read exactly the messages complete by then must have been delivered. Non-trivial: distinct streams with at least two messages, or distinct divisions.",
    },
    "C06": {
        "technique": 'delivery monitor with injected bad messages and throwing handlers, under ASan+UBSan',
        "note": 'For the combinations of faults generated.',
        "parts": [P("dec", "isolation", 1500), P("dec", "framing", 1200), P("live", "live", 1600, timeout=150)],
        "rule": GENERATED + "streams in which well-formed messages alternate with bad ones of several kinds and with handlers that throw. Non-trivial: distinct streams with at least one bad message or throwing handler.",
    },
    "C07": {
        "technique": 'monitor of refusals at announced sizes, with allocation hooks, under ASan+UBSan',
        "note": 'All boundary values of the announced sizes, in the divisions generated; messages of exactly the limits are delivered.',
        "parts": [P("dec", "announced", 8000), P("dec", "nofields", 2000), P("dec", "legal", 12, 40, shards=4, weight=9, timeout=200)],
        "rule": "Fixed headers announcing sizes around and beyond the limits (all boundaries, wrap-around sums, both byte orders), followed by data in pieces; and legal messages of up to exactly the limits. Non-trivial: distinct announcements.",
    },
    "C09": {
        "technique": 'serial uniqueness monitor over threads, with the counter started near its end in a hooked build',
        "note": 'For the interleavings observed; the wrap is reached through the hook.',
        "parts": [P("enc", "threads", 160, 1600, shards=4), P("enc", "wrap", 160, 1600, variant="wrap", shards=4)],
        "rule": "Threads create and marshal messages of all kinds at once; every serial, as reported and as on the wire, goes into one set (counted as serials). In the build wrap the counter starts just below its end. Non-trivial: distinct histories of serials by thread.",
    },
    "C17": {
        "technique": 'differential monitoring of header fields under ASan+UBSan with patterned memory, and under valgrind memcheck',
        "note": 'For the header combinations generated.',
        "parts": [P("dec", "headers", 6000), P("dec", "orders", 2500), P("dec", "headers", 640, variant="plain", timeout=200)],
        "rule": GENERATED + "with every subset and order of header fields, unknown fields and flags, over memory filled with a pattern. Non-trivial: distinct wire bytes.",
    },
    "C23": {
        "technique": 'delivery monitor against a reference decoder that decides which messages lack data, under ASan+UBSan',
        "note": 'For the malformed messages generated; what is undecidable (ambiguous) is counted as undecided, not judged.',
        "parts": [P("dec", "truncated", 500), P("dec", "lengths", 3000), P("dec", "split", 1500), P("dec", "types", 3000), P("dec", "mutated", 2000), P("dec", "absent", 1500), FUZZ],
        "rule": "Bodies cut at every place, lengths beyond their container, unknown and unterminated types, too deep nesting, and random mutations; the reference decoder says which of them lack data. Non-trivial: distinct malformed messages.",
    },
    "C05": {
        "technique": "hostile byte streams under ASan+UBSan with patterned memory and under valgrind memcheck, allocation accounting and a progress watchdog",
        "note": "No report on the streams generated: mutated, random, deeply nested, expanding. Memory is bounded by 256 KiB + 1500 times the bytes received (measured: below 400 times). Red zones do not see every overflow.",
        "parts": [P("hostile", "mutants", 16000), P("hostile", "logged", 1600), P("hostile", "garbage", 8000), P("hostile", "memory", 240, 2400),
                  P("hostile", "footprint", 3000), P("hostile", "depth", 400),
                  P("conn3", "sessions", 3000), P("conn3", "handshake", 32, 240, timeout=150), FUZZ,
                  P("hostile", "mutants", 480, variant="plain", timeout=200), P("hostile", "logged", 160, variant="plain", timeout=200)],
        "rule": "Valid messages mutated in lengths, types, signatures and fields, garbage, and structures that expand or nest, in all divisions; a client looks at all it is given and sends it on. Non-trivial: distinct byte streams.",
    },
    "C19": {
        "technique": "differential monitoring of address resolution against a model of the address syntax, under ASan+UBSan",
        "note": "For the addresses generated, passed directly and through the environment.",
        "parts": [P("misc", "addresses", 20000)],
        "rule": "Plain paths, unix:path and unix:abstract addresses with further keys and addresses, and every combination of set and unset environment variables. Non-trivial: distinct pairs of addresses.",
    },
    "C20": {
        "technique": "oracle over the produced documents: a strict XML reader and the declarations",
        "note": "For the declarations generated.",
        "parts": [P("misc", "documents", 6000)],
        "rule": "Random interfaces with methods, properties and signals with random valid signatures; the text is parsed and compared with what was declared. Non-trivial: distinct documents with at least one item.",
    },
    "C21": {
        "technique": "differential monitoring against a model of the type system; exhaustive for short signatures; ASan+UBSan",
        "note": "Splitting and alignment are exhaustive for signatures of up to 5 (thorough: 6) characters over one or two type codes of each alignment; random beyond.",
        "parts": [P("misc", "exhaustive", 64, 64), P("misc", "random", 12000), P("misc", "changing", 3000)],
        "rule": "All short signatures and random long ones; values of them constructed, read in both byte orders, copied and changed. Non-trivial: distinct signatures.",
    },
    "C24": {
        "technique": "differential monitoring across log levels, with the log captured, under ASan+UBSan",
        "note": "For the streams and values generated.",
        "parts": [P("misc", "rendering", 8000), P("misc", "levels", 3000), P("misc", "dumps", 4000), P("misc", "differential", 800)],
        "rule": "The same stream at every level, and while the level changes: deliveries, exceptions and marshalled bytes must be equal; hex dumps are read back; renderings must contain type and text of every node in order. Non-trivial: distinct streams, dumps, renderings.",
    },
    "C25": {
        "technique": "round-trip monitoring, exhaustive for one and two bytes, under ASan+UBSan",
        "note": "Exhaustive for one and two bytes; random beyond.",
        "parts": [P("misc", "exhaustive", 256, 256), P("misc", "random", 6000), P("misc", "large", 8, 40)],
        "rule": "Byte strings to hex and back in lower, upper and mixed case, appended to what is there. Non-trivial: distinct non-empty strings.",
    },
    "C08": {
        "technique": "monitor of callbacks against the answers sent, over a socket with injected faults, under ASan+UBSan",
        "note": "For the orders of calls and answers generated and the interleavings that occurred; a call that is never completed is noticed after 40 s.",
        "parts": [P("conn", "random", 1600, timeout=150), P("conn", "live", 1200, timeout=150), P("conn", "busmethods", 400, timeout=150)],
        "rule": CONN + "threads make calls; the peer answers them in any order, late, twice, never, to serials nobody used, by returns and errors; callbacks are counted and their contents compared. Non-trivial: distinct histories with at least two calls.",
    },
    "C10": {
        "technique": "offline checker of the recorded outgoing stream (integrity, exactly once, order per thread), with short writes injected, under ASan+UBSan",
        "note": "For the interleavings and partial writes that occurred.",
        "parts": [P("conn", "threads", 480, timeout=150), P("conn", "backlog", 480, timeout=150)],
        "rule": CONN + "up to eight threads, and handlers, send messages of up to megabytes to a peer that reads slowly, in pieces, or not for a while. Non-trivial: distinct orders of messages at the peer from at least two senders.",
    },
    "C11": {
        "technique": "online monitor of the handshake against a model of the protocol, exhaustive over single cuts, under ASan+UBSan",
        "note": "For the scripts of server lines generated; every single cut of the plain handshakes is tried.",
        "parts": [P("conn", "sessions", 3000, timeout=150), P("conn", "everycut", 600, timeout=150)],
        "rule": CONN + "scripts of server lines (accepting, rejecting, unknown, untimely, cut anywhere), several requests, user ids, messages sent before, during and after by several threads. Non-trivial: distinct scripts.",
    },
    "C12": {
        "technique": "differential monitoring of signal dispatch against a model of match rules, under ASan+UBSan",
        "note": "For the rules, spellings and signals generated, over vocabularies chosen so that conditions nearly match.",
        "parts": [P("conn2", "rules", 1600, timeout=150), P("conn2", "changing", 240, timeout=150)],
        "rule": CONN + "rules in any spelling are installed, removed, refused; each signal must run exactly the handlers the model names. Non-trivial: distinct histories in which a handler ran.",
    },
    "C13": {
        "technique": "differential monitoring of call dispatch against a model of the registry, with removal fences, under ASan+UBSan",
        "note": "For the histories generated and the interleavings that occurred.",
        "parts": [P("conn2", "registry", 1600, timeout=150), P("conn2", "concurrent", 400, timeout=150), P("conn2", "removal", 480, timeout=150)],
        "rule": CONN + "handlers are registered and removed between calls, by other threads, and by handlers while they run. Non-trivial: distinct histories.",
    },
    "C14": {
        "technique": "ThreadSanitizer over stress workloads with injected delays",
        "note": "No race was observed in the interleavings that occurred. ThreadSanitizer sees races between accesses it instruments (not within boost_thread or libc), and only where synchronisation of the workload did not order them.",
        "parts": [P("storm", "storm", 700, variant="tsan", timeout=150), P("conn", "calls", 96, variant="tsan", timeout=150), P("conn", "answers", 96, variant="tsan", timeout=150),
                  P("conn", "senders", 64, variant="tsan", timeout=150), P("conn", "backlog", 48, variant="tsan", timeout=150), P("conn", "stalled", 32, variant="tsan", timeout=150), P("conn", "sessions", 160, variant="tsan", timeout=150),
                  P("conn", "order", 64, variant="tsan", timeout=150), P("conn", "traffic", 64, variant="tsan", timeout=150),
                  P("conn2", "changing", 24, variant="tsan", timeout=150), P("conn2", "concurrent", 48, variant="tsan", timeout=150), P("conn2", "removal", 96, variant="tsan", timeout=150),
                  P("conn2", "churn", 96, variant="tsan", timeout=150), P("conn2", "destroy", 176, variant="tsan", timeout=150),
                  P("conn2", "inside", 96, variant="tsan", timeout=150), P("conn2", "outside", 96, variant="tsan", timeout=150),
                  P("conn4", "beside", 96, variant="tsan", timeout=150), P("conn4", "cut", 160, variant="tsan", timeout=150), P("conn4", "kept", 96, variant="tsan", timeout=150)],
        "rule": CONN + "the storm runs every operation from several threads at once while traffic arrives and other connections come and go; the workloads of the other properties run once more. What they find themselves is not judged here. Non-trivial: distinct orders of the threads' messages at the peer, or distinct histories.",
    },
    "C15": {
        "technique": "destruction at every phase of a connection's life, with monitors of late handlers, threads, descriptors and time, under ASan+UBSan with leak detection",
        "note": "For the phases and delays generated. Bounded time means 15 s; measured are milliseconds.",
        "parts": [P("conn2", "destroy", 1760, timeout=150), P("conn2", "refused", 160, timeout=150), P("conn2", "churn", 240, timeout=150)],
        "rule": CONN + "connections are destroyed in each of 22 phases; what handlers touch is freed right afterwards; threads, descriptors and leaks are counted. Non-trivial: distinct pairs of phase and delays.",
    },
    "C16": {
        "technique": "every operation within every kind of handler, and beside one that does not return, with a progress watchdog, under ASan+UBSan",
        "note": "All pairs of operation and handler; 'without waiting' means that the operation returned while the handler was kept from returning.",
        "parts": [P("conn2", "inside", 1600, timeout=150), P("conn2", "outside", 1200, timeout=150)],
        "rule": CONN + "each of 16 operations within each of 6 kinds of handlers, one to three times; and up to three threads sending while a handler is held. Non-trivial: distinct combinations or histories.",
    },
    "C18": {
        "technique": "conservation monitor: the statistics against the counts of the workload and the bytes at the peer, under ASan+UBSan",
        "note": "At the quiescent moments of the histories generated.",
        "parts": [P("conn", "traffic", 640, timeout=150), P("conn", "many", 8, 24, timeout=150)],
        "rule": CONN + "traffic of all kinds by several threads before, during and after the authentication, including refused messages; every number of the statistics is compared. Non-trivial: distinct statistics.",
    },
    "C22": {
        "technique": "differential monitoring on a private dbus-daemon, with libdbus and dbus-send as the other clients, faults injected, under ASan+UBSan",
        "note": "For the sessions generated, on the installed dbus-daemon and libdbus. Names of the bus are modelled; answers are also compared with those to libdbus.",
        "parts": [P("bus", "names", 640, timeout=150), P("bus", "exchange", 640, timeout=150), P("bus", "large", 32, timeout=150, weight=5),
                  P("bus", "rules", 400, timeout=150), P("bus", "tool", 400, timeout=150)],
        "rule": "Clients of the library and of libdbus on one bus: names requested, queued, replaced, released, clients leaving; calls, answers, errors and signals with all types between all pairs at once, up to megabytes; the same match rules decided by the bus and by the library. Non-trivial: distinct sessions in which the library takes part in more than one step.",
    },
    "C26": {
        "technique": "online monitor of handler overlap and order, under ASan+UBSan",
        "note": "For the interleavings that occurred.",
        "parts": [P("conn", "order", 1000, timeout=150)],
        "rule": CONN + "messages of all kinds arrive while threads send and register; each handler records its entry, its exit and the number its message carries. Non-trivial: distinct histories with handlers run.",
    },
    "C27": {
        "technique": "accounting of live memory (allocator hooks) over histories, under ASan",
        "note": "Growth by up to 16 KiB over hundreds of operations, and up to 80 KiB of buffers, is not noticed.",
        "parts": [P("hostile", "protocol", 400), P("hostile", "partial", 800), P("conn3", "history", 320, timeout=150), P("conn3", "queue", 240, timeout=150)],
        "rule": CONN + "each of 20 kinds of history (calls, answers, signals, rules, errors, backlogs, failures) runs twice, the second time much longer, and the memory in use is compared. Non-trivial: distinct histories.",
    },
    "C28": {
        "technique": "differential monitoring of several connections against a model of each alone, under ASan+UBSan",
        "note": "For the histories of two to four connections generated and the interleavings that occurred.",
        "parts": [P("conn4", "beside", 1600, timeout=150)],
        "rule": CONN + "several connections use the same names, rules and numbers; answers to the calls of one arrive on another; some are not authenticated, get garbage, are destroyed, or are held in a handler. What runs, is sent and is counted on each must be what its own history says. Non-trivial: distinct histories of more than ten steps.",
    },
    "C29": {
        "technique": "loss of the peer injected at any byte, with a delivery monitor, under ASan+UBSan",
        "note": "For the streams, places and kinds of loss generated.",
        "parts": [P("conn4", "cut", 3000, timeout=150), P("conn4", "handshake", 1600, timeout=150)],
        "rule": CONN + "the peer closes or shuts down, in five ways, after any byte of a stream or of the handshake; exactly what was complete is delivered, what is done then returns. Non-trivial: distinct pairs of what was received and the kind of loss.",
    },
    "C30": {
        "technique": "operations that fail among others, with monitors of the stream, the statistics, the handlers and what is kept of them, under ASan+UBSan",
        "note": "For the failing operations and histories generated.",
        "parts": [P("conn4", "failing", 1600, timeout=150)],
        "rule": CONN + "sends of messages that can not be marshalled, and rules that are malformed, between operations that succeed. Non-trivial: distinct histories with a failed operation.",
    },
    "C31": {
        "technique": "monitor of kept copies against what was seen in the handler, under ASan+UBSan",
        "note": "For the messages and histories generated.",
        "parts": [P("conn4", "fed", 1600), P("conn4", "live", 800, timeout=150)],
        "rule": GENERATED + "handlers keep copies of messages, values and parts of values; they are read again after more traffic, errors, the end of the connection, and on another thread meanwhile. Non-trivial: distinct streams of which something was kept.",
    },
    "C32": {
        "technique": "a peer that reads nothing but goes on sending, with monitors of return, of delivery and of the later stream, under ASan+UBSan",
        "note": "For the histories and interleavings generated. That an operation waits is noticed when it has not returned after 40 s, in which nothing but the peer could release it.",
        "parts": [P("conn", "stalled", 640, timeout=150)],
        "rule": CONN + "up to four threads and a handler send up to megabytes, and use every other operation, while the peer has stopped reading; all must return, and everything the peer sends meanwhile must be handled, before it reads again (or never does). Non-trivial: distinct histories with more than 5000 bytes waiting.",
    },
    "C33": {
        "technique": "measurement of the processor time at a size and at 16 times the size, repeated before it is believed, of the uninstrumented code",
        "note": "Growth of more than four times what is proportional (and by 0.3 s) at the sizes reached is noticed; less is not.",
        "parts": [P("work", "values", 228, 2280, variant="plain", native=True, weight=4, timeout=200), P("work", "connection", 48, 480, variant="plain", native=True, weight=9, timeout=200)],
        "rule": "Scenarios that differ in what is large: bodies, headers and arrays of 19 element types received in reads of 9 sizes, read, shown, copied, sent on, built; messages, bad messages, texts, rules, documents; calls outstanding, handlers, rules, queues, backlogs, histories on a connection. Non-trivial: distinct scenarios that took long enough to be measured.",
    },
    "C34": {
        "technique": "the differential workloads of other properties, run under global locales that write numbers and class characters in other ways, under ASan+UBSan",
        "note": "For the locales made of the facets numpunct, num_put and ctype that are generated, and C.UTF-8; no other named locale is installed.",
        "parts": [P("enc", "built", 1600), P("enc", "sent_on", 800), P("dec", "received", 1600), P("dec", "headers", 1200), P("dec", "bad", 480),
                  P("misc", "rendering", 1600), P("misc", "dumps", 800), P("misc", "hex", 1200), P("misc", "addresses", 2400), P("misc", "documents", 1200), P("misc", "types", 1600), P("misc", "conversions", 1600),
                  P("conn", "calls", 320, timeout=150), P("conn", "sessions", 480, timeout=150), P("conn", "statistics", 160, timeout=150),
                  P("conn2", "rules", 320, timeout=150), P("conn2", "registry", 320, timeout=150)],
        "rule": "Each case sets a global locale with other digits groups, separators, decimal points, classes of characters or writing of numbers, and runs a case of the workload of another property with its oracle. Non-trivial: as there.",
    },
    "C35": {
        "technique": "comparison of every accessor with the generated value, and of every index beyond the end with an exception, under ASan+UBSan",
        "note": "For the values and indices generated. Texts that write a number in another way than in digits may be read or refused.",
        "parts": [P("misc", "conversions", 8000), P("misc", "beyond", 3200)],
        "rule": GENERATED + "values of all types and around the limits of the native ones, texts that are numbers or nearly, variants of them, built and received in both byte orders; indices from the first that is not there to the largest. Non-trivial: distinct cases.",
    },
    "C36": {
        "technique": "processes that end while their connections are in use, under ASan+UBSan and under ThreadSanitizer; monitor of their exit status and reports",
        "note": "For the ways to end and the interleavings run.",
        "parts": [P("exit", "ends", 1280, no_leaks=True, timeout=150), P("exit", "ends", 400, variant="tsan", timeout=150)],
        "rule": "Each case is a process of its own, with a peer that sends calls, signals and answers until it is gone: connections never destroyed, of main, static, global, or several; that ends by returning from main, or by exit in main, in a handler or on another thread; with up to three other threads that go on using the connection, and slow destructors of other objects before and after those of the library. Non-trivial: distinct processes to which something was sent.",
    },
}
