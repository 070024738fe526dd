"""One function per property."""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import tempfile
import vlib
from vlib import build, check_traces, CheckError, VERIF

SCHED = ["executions are explored under sequential consistency, one thread at a time (weak-memory effects are not explored)",
         "the standard library's mutexes, condition variables and containers are taken to be correct"]


def sync_exe():
    return build("sched", "nlohmann", "h_sync", ["vsched"], repo_only=("io.cpp",))


def wrong(ctx, spec, names=None, **kw):
    """The deliberately wrong variants of a model: TLC has to reject each."""
    for f in sorted(glob.glob("%s/spec/%sBad_*.cfg" % (VERIF, spec))):
        v = f[:-4].split("Bad_")[1]
        if names is None or v in names:
            ctx.model_must_fail(spec, os.path.basename(f), **kw)


def models(ctx, name, big_workers=6):
    ctx.model(name + "Impl", workers=4)
    ctx.model(name + "Impl", name + "ImplLive.cfg", workers=4)
    if ctx.thorough:
        ctx.model(name + "Impl", name + "ImplBig.cfg", workers=big_workers, timeout=1800, heap="8g")
        wrong(ctx, name + "Impl", workers=4)


def sync(ctx, name, what, runs, rule):
    ctx.assumptions += SCHED
    ctx.cov["rule"] = rule
    exe = sync_exe()
    check_traces(ctx, what + " random/PCT schedules", name + "Trace", exe, what, ctx.pick(*runs))
    # exhaustive exploration (bounded number of preemptions) of a few programs
    for k in range(ctx.pick(0, 12)):
        check_traces(ctx, "%s all schedules with <= 2 preemptions, program %d" % (what, k), name + "Trace", exe, what,
                     30000, extra=["--mode", "2", "--bound", "2"], seed=ctx.seed * 1000 + k, jobs=1)


def long_exe(backend="nlohmann"):
    return build("asan", backend, "h_long")


def long(ctx, what, quick=32, thorough=1600, backends=("nlohmann",)):
    """Histories of thousands of operations, recorded as runs of numbers."""
    ctx.model("LongSound", workers=4)
    if ctx.thorough:
        ctx.model("LongSound", "LongSoundBig.cfg", workers=4)
    prebuild(long_exe, backends)
    for b in backends:
        check_traces(ctx, "long histories: %s with %s" % (what, b), "LongTrace", long_exe(b), what, ctx.pick(quick, thorough),
                     nontrivial=lambda t: len(t["ev"]) > 2)


def c10(ctx):
    long(ctx, "pipe")
    models(ctx, "Pipe")
    sync(ctx, "Pipe", "pipe", (9000, 150000),
         "random programs of 2-4 threads x 1-3 write/read/close/isOpen on one pipe under random and PCT schedules; "
         "counted: distinct (program, trace) pairs with more than 6 events")


def c11(ctx):
    long(ctx, "rw")
    models(ctx, "RWMutex")
    sync(ctx, "RWMutex", "rwmutex", (8000, 150000),
         "random programs of 2-5 threads x 1-2 read/write critical sections (some nested, some held at a gate), and "
         "random construct/move/assign/destroy sequences of scoped locks with probing readers and writers")
    check_traces(ctx, "scoped locks", "RWMutexTrace", sync_exe(), "scoped", ctx.pick(4000, 60000))


def c12(ctx):
    long(ctx, "chan")
    models(ctx, "Chan")
    sync(ctx, "Chan", "chan", (12000, 200000),
         "random programs of 2-4 threads x 1-3 put/take/close (some with up to 40 operations) under random and PCT "
         "schedules; counted: distinct (program, trace) pairs with more than 6 events")


def c13(ctx):
    long(ctx, "promise")
    models(ctx, "Promise")
    sync(ctx, "Promise", "promise", (10000, 150000),
         "random programs of 2-4 threads over one promise, its copies and its futures: set, get, wait, timed waits, "
         "under random and PCT schedules with virtual time")


# --------------------------------------------------------------- the session
def session_exe():
    return build("sched", "nlohmann", "h_session", ["vsched"])


SES_WRONG = dict(C01=("answers_kept", "register_late", "not_forgotten"), C02=("no_answer_when_busy", "lifo"), C03=("lifo",),
                 C04=("same_seq",), C08=("reader_left_open", "no_join", "close_unreported"), C09=("not_forgotten", "no_open_check"))


def session_models(ctx, cfgs, live=False, big=()):
    for c in cfgs:
        ctx.model("SessionImpl", "SessionImpl%s.cfg" % c, workers=6)
    if live:
        ctx.model("SessionImpl", "SessionImplLive.cfg", workers=6)
    if ctx.thorough:
        for c in big:
            ctx.model("SessionImpl", "SessionImpl%s.cfg" % c, workers=8, timeout=3000, heap="12g")
        wrong(ctx, "SessionImpl", SES_WRONG[ctx.prop], workers=4)


def session(ctx, profiles, text):
    """profiles: (name, quick runs, thorough runs)"""
    ctx.assumptions += SCHED + ["the peer and the endpoint are the harness's own Reader and Writer"]
    ctx.cov["rule"] = text + "; every execution is one random program under one random or PCT schedule; counted: distinct (program, trace) pairs with more than 6 events"
    exe = session_exe()
    for p, q, t in profiles:
        check_traces(ctx, "session %s" % p, "SessionTrace", exe, p, ctx.pick(q, t), env={"PROP": ctx.prop})


def c01(ctx):
    long(ctx, "out", 24)
    session_models(ctx, "A", big=("BigX",))
    session(ctx, [("resp", 9000, 120000), ("mix", 2500, 40000)],
            "1-3 threads send up to 9 requests; the peer answers in any order, with every success/failure shape, "
            "duplicates, unknown sequence numbers and answers to requests whose write failed")


def c02(ctx):
    long(ctx, "in")
    session_models(ctx, "B", big=("Big",))
    session(ctx, [("handle", 9000, 120000), ("mix", 2500, 40000)],
            "up to 4 requests and events to handlers of six styles (return value, Error, ResponseOrError, callback, "
            "deferred callback on another thread), some held at a gate, some sending requests themselves; handlers "
            "registered before, or by other threads or by a handler while messages arrive")


def c03(ctx):
    long(ctx, "in")
    session_models(ctx, "B", big=("Big",))
    session(ctx, [("order", 9000, 120000), ("mix", 2500, 40000)],
            "up to 5 requests, events and malformed messages from two feeding threads, handlers held at a gate, "
            "own requests answered meanwhile")


def c04(ctx):
    long(ctx, "out", 24)
    session_models(ctx, "A", big=("BigX",))
    session(ctx, [("send", 9000, 120000), ("mix", 2500, 40000)],
            "up to 4 threads sending requests and events while handlers respond; payloads from empty to 66 kB; write failures")


def c08(ctx):
    session_models(ctx, "C", live=True, big=("Big", "BigX"))
    session(ctx, [("close", 10000, 150000), ("mix", 2500, 40000)],
            "the peer closes the reader, the writer or both, or ends the stream, or the session is destroyed, at any "
            "point of a running exchange")


def c09(ctx):
    long(ctx, "fail")
    session_models(ctx, "A", live=True, big=("BigX",))
    session(ctx, [("api", 10000, 150000), ("mix", 2500, 40000)],
            "connect, start, register, onError, send in any order, repeated, before connecting and after closing, with "
            "refused writes")


# ------------------------------------------------------------------- framing
def frame_exe():
    return build("asan", "nlohmann", "h_frame")


def framing(ctx, close):
    ctx.model("FramingImpl", workers=6)
    if ctx.thorough:
        ctx.model("FramingImpl", "FramingImplBig.cfg", workers=8, timeout=1800, heap="8g")
        wrong(ctx, "FramingImpl", workers=6)
    ctx.assumptions += ["the real reader is run on streams of at most 12 tokens and some long ones (up to 70 kB), each with several chunkings"]
    ctx.cov["rule"] = ("byte streams made of whole and damaged headers, contents of any bytes, junk and truncations, cut into "
                       "reads at random; counted: all distinct recorded executions with at least one message or close")
    exe = frame_exe()
    for what, q, th in (("tokens", 12000, 200000), ("long", 800, 8000), ("session", 300, 3000)):
        check_traces(ctx, "reader " + what, "FramingTrace", exe, what, ctx.pick(q, th), extra=["--close", "1" if close else "0"],
                     nontrivial=lambda t: len(json.dumps(t["ev"])) > 120)
    check_traces(ctx, "reader huge", "FramingTrace", exe, "huge", ctx.pick(100, 600), nontrivial=one_or_more,
                 extra=["--close", "1" if close else "0", "--max", ctx.pick("40000000", "110000000")])


def c05(ctx):
    framing(ctx, False)


def c06(ctx):
    framing(ctx, True)


# ---------------------------------------------------------------------- data
DATA_SRC = ("nlohmann_json_serializer.cpp", "rapid_json_serializer.cpp", "jsoncpp_json_serializer.cpp", "null_json_serializer.cpp",
            "typeinfo.cpp", "typeof.cpp")
FAMILY = {"VTYPES": vlib.SPEC + "/family.json"}
SCHEMA = {"VTYPES": vlib.SPEC + "/dap_schema.json"}
DATA_A = ["JSON texts are judged with the harness's own parser (mini_json.h)", "values at most 5 levels deep"]


def json_exe(backend):
    return build("asan", backend, "h_json", repo_only=DATA_SRC)


def prebuild(fn, args):
    with cf.ThreadPoolExecutor(3) as ex:
        list(ex.map(fn, args))


def data_model(ctx):
    ctx.model("DataModelCheck", workers=6)
    if ctx.thorough:
        ctx.model("DataModelCheck", "DataModelCheckBig.cfg", workers=8, timeout=1800, heap="8g")


def one_or_more(t):
    return len(t["ev"]) >= 1


def c16(ctx):
    long(ctx, "value", 40, backends=vlib.BACKENDS)
    data_model(ctx)
    ctx.assumptions += DATA_A + ["objects with duplicate member names are not decoded"]
    ctx.cov["rule"] = ("JSON texts (a pool of edge cases times every type, and valid texts of every type with up to two random "
                       "changes) decoded as each of 37 types; counted: distinct (type, text, result)")
    prebuild(json_exe, vlib.BACKENDS)
    for b in vlib.BACKENDS:
        check_traces(ctx, "decode with " + b, "DataTrace", json_exe(b), "dec", ctx.pick(9000, 150000), env=FAMILY, nontrivial=one_or_more)


def c17(ctx):
    long(ctx, "value", 40, backends=vlib.BACKENDS)
    data_model(ctx)
    ctx.assumptions += DATA_A
    ctx.cov["rule"] = ("random values of 29 types encoded, parsed independently, decoded again, and decoded by the other two "
                       "libraries; counted: distinct (type, value, text)")
    texts = {}
    prebuild(json_exe, vlib.BACKENDS)
    for b in vlib.BACKENDS:
        tr = check_traces(ctx, "encode with " + b, "DataTrace", json_exe(b), "enc", ctx.pick(7000, 100000), env=FAMILY, nontrivial=one_or_more)
        texts[b] = [e["t"] + " " + e["x"] for t in tr for e in t["ev"] if e.get("e") == "enc" and e["valid"]][:ctx.pick(4000, 50000)]
        check_traces(ctx, "one serializer used again with " + b, "DataTrace", json_exe(b), "reuse", ctx.pick(1500, 30000), env=FAMILY, nontrivial=one_or_more)
        check_traces(ctx, "strings that are not UTF-8 with " + b, "DataTrace", json_exe(b), "badutf8", ctx.pick(400, 5000), env=FAMILY, nontrivial=one_or_more)
    tmp = tempfile.mkdtemp(prefix="cross-")
    try:
        for a in vlib.BACKENDS:
            with open("%s/%s" % (tmp, a), "w") as fh:
                fh.write("\n".join(texts[a]))
            for b in vlib.BACKENDS:
                if a != b:
                    check_traces(ctx, "%s decodes what %s encodes" % (b, a), "DataTrace", json_exe(b), "cross", len(texts[a]), env=FAMILY,
                                 extra=["--in", "%s/%s" % (tmp, a)], nontrivial=one_or_more)
    finally:
        shutil.rmtree(tmp)


def dap_exe(backend):
    return build("plain", backend, "h_dap", ["h_dap1", "h_dap2", "h_dap3", "h_dap4"])


def c18(ctx):
    data_model(ctx)
    ctx.assumptions += DATA_A + ["the names and types of the fields are those of spec/dap_schema.json, derived from protocol.h's declarations at the pinned commit"]
    ctx.cov["rule"] = ("every protocol type with all, none, exactly one and all but one of its optional fields set, then random "
                       "subsets, encoded, decoded and (requests, responses, events) sent from one session to another")
    exe = dap_exe("nlohmann")
    check_traces(ctx, "types", "DataTrace", exe, "types", ctx.pick(5000, 60000), env=SCHEMA, nontrivial=one_or_more)
    check_traces(ctx, "between sessions", "DataTrace", exe, "session", ctx.pick(1000, 10000), env=SCHEMA, nontrivial=one_or_more)
    if ctx.thorough:
        for b in ("rapid", "jsoncpp"):
            check_traces(ctx, "types with " + b, "DataTrace", dap_exe(b), "types", 20000, env=SCHEMA, nontrivial=one_or_more)
            check_traces(ctx, "between sessions with " + b, "DataTrace", dap_exe(b), "session", 5000, env=SCHEMA, nontrivial=one_or_more)


def env_exe(backend):
    return build("asan", backend, "h_env")


def c07(ctx):
    long(ctx, "in")
    ctx.model("EnvelopeCheck", workers=6)
    if ctx.thorough:
        ctx.model("EnvelopeCheck", "EnvelopeCheckBig.cfg", workers=8, timeout=1800, heap="8g")
    ctx.assumptions += DATA_A + ["messages arrive on the harness's own reader; one receiving session, its handlers return at once",
                                 "texts on which JSON libraries legitimately differ (lone surrogates, leading zeros, duplicate names, "
                                 "comments, overflowing numbers, nesting beyond 60) may be reported or processed"]
    ctx.cov["rule"] = ("1-5 contents per session (valid, mistyped, incomplete, truncated, spliced, random bytes, deeply nested), each "
                       "followed by a marker message, with up to 3 own requests outstanding; counted: distinct sessions")
    prebuild(env_exe, vlib.BACKENDS)
    for b in vlib.BACKENDS:
        for what, q, t in (("env", 3000, 60000), ("bytes", 1500, 30000)):
            check_traces(ctx, "%s with %s" % (what, b), "EnvelopeTrace", env_exe(b), what, ctx.pick(q, t),
                         env={"VTYPES": vlib.SPEC + "/envelope.json"}, nontrivial=one_or_more, timeout=1500)


VAL_SRC = ("typeof.cpp", "typeinfo.cpp", "null_json_serializer.cpp", "nlohmann_json_serializer.cpp")


def val_exe():
    return build("asan", "nlohmann", "h_val", repo_only=VAL_SRC)


def c14(ctx):
    ctx.model("AnyImpl", workers=4)
    if ctx.thorough:
        ctx.model("AnyImpl", "AnyImplBig.cfg", workers=8)
        for v in ("noheap", "noreset", "inplace"):
            ctx.model_must_fail("AnyImpl", "AnyImplBad_%s.cfg" % v)
    ctx.assumptions += ["addresses are checked with AddressSanitizer and self-checking objects"]
    ctx.cov["rule"] = ("every sequence of three operations on two anys (first a value, then any two of 82 operations), then random "
                       "sequences of up to 27 operations on up to 4 anys; counted: distinct sequences of results")
    ex = 5576
    check_traces(ctx, "sequences", "ValuesTrace", val_exe(), "any", ex + ctx.pick(5000, 150000), extra=["--exhaustive", str(ex)], nontrivial=one_or_more)


def c15(ctx):
    ctx.model("ValuesCheck", workers=4)
    ctx.cov["rule"] = "random sequences of up to 23 operations on up to 4 optionals of 3 types or variants of 5 alternatives; counted: distinct sequences of results"
    check_traces(ctx, "optionals", "ValuesTrace", val_exe(), "opt", ctx.pick(6000, 150000), nontrivial=one_or_more)
    check_traces(ctx, "variants", "ValuesTrace", val_exe(), "var", ctx.pick(6000, 150000), nontrivial=one_or_more)


NET_SRC = ("io.cpp", "network.cpp", "socket.cpp")
NET_A = SCHED + ["the operating system's sockets are simulated (simnet.cpp) in the explored executions; a few run on the real loopback network"]


def net_exe():
    return build("sched", "nlohmann", "h_net", ["vsched", "simnet"], repo_only=NET_SRC)


def netreal_exe():
    return build("asan", "nlohmann", "h_netreal", repo_only=NET_SRC)


def c19(ctx):
    ctx.assumptions += NET_A
    ctx.cov["rule"] = ("random programs of readers, writers, closers and observers on both ends of a connection, and of clients connecting with and "
                       "without timeouts to servers that come and go, with short, interrupted and reset calls injected, under random and PCT schedules; "
                       "counted: distinct (program, trace) pairs with more than 6 events")
    ctx.model("NetConnImpl", workers=6)
    if ctx.thorough:
        ctx.model("NetConnImpl", "NetConnImplBig.cfg", workers=8, timeout=3000, heap="12g")
        for v in ("noshutdown", "noloop", "earlyclose", "leak", "eintr"):
            ctx.model_must_fail("NetConnImpl", "NetConnImplBad_%s.cfg" % v, workers=4)
    check_traces(ctx, "connections", "NetConnTrace", net_exe(), "conn", ctx.pick(5000, 150000))
    check_traces(ctx, "connecting", "NetServerTrace", net_exe(), "server", ctx.pick(3000, 60000), env={"PROP": "C19"})
    check_traces(ctx, "real loopback", "NetConnTrace", netreal_exe(), "real", ctx.pick(16, 300), nontrivial=one_or_more)


def c20(ctx):
    ctx.assumptions += NET_A
    ctx.cov["rule"] = ("random scripts of start, stop and restart by one or two threads on one or two servers, ports in use, callbacks that wait, and "
                       "clients connecting, with failing calls injected, under random and PCT schedules; counted: distinct (program, trace) pairs with more than 6 events")
    for c in ("A", "B", "Busy"):
        ctx.model("NetServerImpl", "NetServerImpl%s.cfg" % c, workers=6)
    if ctx.thorough:
        ctx.model("NetServerImpl", "NetServerImplBig.cfg", workers=8, timeout=3000, heap="12g")
        for v in ("joinfirst", "nojoin", "noflag", "nomutex"):
            ctx.model_must_fail("NetServerImpl", "NetServerImplBad_%s.cfg" % v, workers=4)
    check_traces(ctx, "servers", "NetServerTrace", net_exe(), "server", ctx.pick(7000, 150000), env={"PROP": "C20"})
    check_traces(ctx, "real loopback", "NetConnTrace", netreal_exe(), "real", ctx.pick(8, 200), nontrivial=one_or_more)


def io_exe():
    return build("sched", "nlohmann", "h_io", ["vsched"], repo_only=("io.cpp",))


def pair_exe():
    return build("sched", "nlohmann", "h_pair", ["vsched", "simnet"])


def c22(ctx):
    long(ctx, "pair")
    ctx.assumptions += SCHED + ["the operating system's sockets are simulated (simnet.cpp)"]
    ctx.cov["rule"] = ("random conversations: up to 2 sending threads with up to 3 messages on each side, handlers that answer at once, later on another thread, or "
                       "after a request of their own, over pipes, sockets, or a server and a client, with short and interrupted transfers, one side destroyed or the stream "
                       "closed at any moment; counted: distinct (program, trace) pairs with more than 6 events")
    for c in ("A", "C"):
        ctx.model("PairImpl", "PairImpl%s.cfg" % c, workers=6)
    if ctx.thorough:
        ctx.model("PairImpl", "PairImplLive2.cfg", workers=8, timeout=3000, heap="8g")
        ctx.model("PairImpl", "PairImplLive.cfg", workers=8, timeout=3000, heap="12g")
        for c in ("B", "Big", "Big2"):
            ctx.model("PairImpl", "PairImpl%s.cfg" % c, workers=8, timeout=3000, heap="16g")
        for v in ("lifo", "queueresp"):
            ctx.model_must_fail("PairImpl", "PairImplBad_%s.cfg" % v, workers=4)
    check_traces(ctx, "conversations", "PairTrace", pair_exe(), "pair", ctx.pick(7000, 150000))


def types_exe():
    return build("sched", "nlohmann", "h_types", ["vsched"])


def c23(ctx):
    ctx.assumptions += SCHED + ["the destructors of statics are run by the harness, in the order in which the process would"]
    ctx.cov["rule"] = ("up to 3 threads look up, use and create type informations of 18 types, each run in a fresh process, with references held by any of them, "
                       "destruction of the statics before or after they end, values that outlive it; counted: distinct (program, trace) pairs with more than 6 events")
    for c in ("A", "B"):
        ctx.model("TypeRegImpl", "TypeRegImpl%s.cfg" % c, workers=4)
    if ctx.thorough:
        for c in ("Big", "Big2"):
            ctx.model("TypeRegImpl", "TypeRegImpl%s.cfg" % c, workers=8, timeout=1800, heap="8g")
        for v in ("nolock", "split", "static"):
            ctx.model_must_fail("TypeRegImpl", "TypeRegImplBad_%s.cfg" % v, workers=4)
    check_traces(ctx, "type informations", "TypeRegTrace", types_exe(), "types", ctx.pick(20000, 300000))


def life_exe():
    return build("sched", "nlohmann", "h_life", ["vsched"])


def c24(ctx):
    ctx.assumptions += SCHED + ["a few messages of every kind are processed before the executions, so that what is made once per process is there; blocks taken with malloc() directly are not counted"]
    ctx.cov["rule"] = ("a real session over tracked requests, responses, events, handlers, callbacks, reader and writer, with up to 6 messages of 14 kinds from the peer and 2 own "
                       "messages, run by its threads or through getPayload(), with payloads, callbacks and futures kept, used or dropped and the session destroyed at any moment; "
                       "counted: distinct (program, trace) pairs with more than 6 events")
    for c in ("A", "B"):
        ctx.model("LifeImpl", "LifeImpl%s.cfg" % c, workers=4)
    if ctx.thorough:
        ctx.model("LifeImpl", "LifeImplBig.cfg", workers=8, timeout=1800, heap="8g")
        wrong(ctx, "LifeImpl", workers=4)
    check_traces(ctx, "lives of objects", "LifeTrace", life_exe(), "life", ctx.pick(20000, 300000))


def c21(ctx):
    long(ctx, "adapt")
    ctx.assumptions += SCHED + ["stdio files are simulated in the explored executions (the C library's calls are intercepted); a few use real files and pipes"]
    ctx.cov["rule"] = ("random compositions of up to 8 streams (bases, files, combined, spies) used by one or several threads, with short reads, failing writes "
                       "and flushes, ends of stream and closes at any moment; counted: distinct (program, trace) pairs with more than 6 events")
    ctx.model("AdaptersImpl", workers=6)
    for v in ("noguard", "noflush", "logfirst", "split", "twice") if ctx.thorough else ():
        ctx.model_must_fail("AdaptersImpl", "AdaptersImplBad_%s.cfg" % v, workers=4)
    if ctx.thorough:
        ctx.model("AdaptersImpl", "AdaptersImplBig.cfg", workers=8, timeout=3000, heap="12g")
    check_traces(ctx, "compositions", "AdaptersTrace", io_exe(), "tree", ctx.pick(20000, 400000))
    check_traces(ctx, "real files", "AdaptersTrace", io_exe(), "real", ctx.pick(200, 3000), nontrivial=one_or_more)


SES_T = ("TLA+ specification of the session checked with TLC (monitor plus thread-level model); executions of the real "
         "session under a controlled scheduler validated against it by TLC")
SES_N = ("TLC explores a thread-level model of the session exhaustively within small bounds; the real session is run "
         "under thousands of controlled schedules with random programs and every recorded execution is checked by TLC "
         "against the same specification. Trusts the scheduler harness, the C++ standard library and TLC; sequential "
         "consistency; bounded program size.")
FRM = ("TLA+ specification of the frame reader checked with TLC (declarative meaning against a byte-level reader model); executions of the real reader validated against it by TLC",
       "TLC compares a byte-by-byte model of the reader with the declarative framing rules on every token stream within the bound; the real reader is run on thousands of generated streams and chunkings under ASan/UBSan and every result is checked by TLC against the declarative rules. Bounded stream shapes; trusts the harness and TLC.")
DAT = ("TLA+ specification of the data model (types, decoding, encoding) checked with TLC; decodings and encodings of the real serializers validated against it by TLC",
       "TLC checks the data model's laws on every small value; the real serializers (all three libraries, ASan/UBSan) are run on generated texts and values and TLC evaluates the specification's Decode and Encodes on every one. Sampled inputs beyond the enumerated edge cases; trusts the harness's JSON parser.")
ENV = ("TLA+ specification of message dispatching (envelope rules over the data model) checked with TLC; reactions of real sessions to generated contents validated against it by TLC",
       "TLC checks on every short sequence of messages from a bounded family that bad messages change nothing and requests resolve once; real sessions with each JSON library (ASan/UBSan) receive generated valid, damaged and arbitrary contents and TLC decides from the specification which reaction each content must have. Sampled contents; texts on which JSON libraries differ are only required to be contained.")
MANIFEST_TEXT = {p: (SES_T, SES_N) for p in ("C01", "C02", "C03", "C04", "C08", "C09")}
VALT = ("TLA+ specification of value semantics, and a model of the storage algorithm, checked with TLC; operation sequences on the real types validated against it by TLC",
        "TLC checks exhaustively (two or three objects, bounded nesting) that the storage algorithm implements value semantics without leak or use of dead storage; the real types run every short and many random longer sequences of operations (ASan/UBSan, self-checking objects) and TLC checks each observation. Longer histories are sampled.")
NETT = ("TLA+ specification of connections and servers checked with TLC (monitor plus thread-level models over a modelled kernel); executions of the real code on simulated sockets under a controlled scheduler validated against it by TLC",
        "TLC explores thread-level models of the socket and server algorithms exhaustively within small bounds (short, interrupted, reset calls; start/stop scripts); the real code runs on a simulated TCP stack under thousands of controlled schedules with injected faults, and every execution is checked by TLC; a few run on the real loopback network. Trusts the simulated stack; sequential consistency only.")
IOT = ("TLA+ specification of stream adapters (monitor over compositions) checked with TLC on a thread-level model; executions of the real adapters under a controlled scheduler validated against it by TLC",
       "TLC explores a thread-level model of a closable file behind two spies sharing a log exhaustively within small bounds; the real adapters run in thousands of random compositions over scripted streams and simulated stdio files with injected faults and every execution is checked by TLC; a few use real files and pipes. Trusts the stdio simulation; compositions of at most 8 streams.")
MANIFEST_TEXT.update({"C21": IOT, "C19": NETT, "C20": NETT, "C14": VALT, "C15": VALT, "C05": FRM, "C06": FRM, "C16": DAT, "C17": DAT, "C18": DAT, "C07": ENV})

PAIRT = ("TLA+ specification of a conversation between two sessions checked with TLC (monitor plus a thread-level model of both sides); executions of two real sessions joined by pipes, sockets or server and client validated against it by TLC",
         "TLC explores the threads of both sides exhaustively within small bounds (up to five messages, nested requests, closing at any point), with liveness; two real sessions run whole conversations under thousands of controlled schedules, over pipes and simulated sockets with short and interrupted transfers, and every recorded conversation is checked")
MANIFEST_TEXT["C22"] = PAIRT
MANIFEST_TEXT["C24"] = (
    "TLA+ specification of the lives of the objects a session makes and is given, checked with TLC; executions of the real session over tracked objects, with its memory counted, validated against it by TLC",
    "TLC explores a model of the receive thread, the inbox, the dispatch thread and destruction (5 wrong variants are rejected) and checks every execution recorded under the controlled scheduler: "
    "objects created and destroyed, handlers using them, blocks of memory in use at quiescence and at the end. Blocks taken with malloc() are not seen; bounded numbers of messages.")
MANIFEST_TEXT["C23"] = (
    "TLA+ specification of the life of type information checked with TLC (monitor plus a thread-level model of the registry); executions of the real registry validated against it by TLC",
    "TLC explores the reference count, the list of type informations and the first-use statics exhaustively for small programs, with liveness; the real registry runs in fresh "
    "processes under thousands of controlled schedules, including the destruction of statics, and every execution is checked by TLC. Sequential consistency; at most 3 threads.")



def setup():
    """Nothing has to be prepared: every check builds what it needs. This warms the cache."""
    sync_exe()
    session_exe()
    frame_exe()
    for b in vlib.BACKENDS:
        json_exe(b)
        env_exe(b)
        long_exe(b)
    dap_exe("nlohmann")
    val_exe()
    net_exe()
    netreal_exe()
    io_exe()
    pair_exe()
    types_exe()
    life_exe()
