LIB = ["channel", "error", "main", "this_thread", "thread", "detail/exception", "detail/util"]
FIB = ["-DSIM_FIBER", "--param", "asan-stack=0"]
HARNESSES = {
    "channel": {"srcs": ["harness/channel.cpp"], "lib": LIB},
    "promise": {"srcs": ["harness/promise.cpp"], "lib": LIB},
    "task": {"srcs": ["harness/task.cpp"], "lib": LIB},
    "generator": {"srcs": ["harness/generator.cpp"], "lib": LIB},
    "group": {"srcs": ["harness/group.cpp"], "lib": LIB},
    "ops": {"srcs": ["harness/ops.cpp"] + ["harness/ops_%s.cpp" % c for c in ("use_op", "use_task", "deferred", "custom", "compose")], "lib": LIB},
    "frames": {"srcs": ["harness/frames.cpp"], "lib": LIB},
    "timer": {"srcs": ["harness/timer.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp"], "lib": LIB + ["io/steady_timer", "io/system_timer", "io/sleep"]},
    "stream": {"srcs": ["harness/stream.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp"], "lib": LIB + ["io/stream_socket", "io/socket", "io/pipe", "io/read", "io/write", "io/endpoint"]},
    "packet": {"srcs": ["harness/packet.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp"], "lib": LIB + ["io/datagram_socket", "io/seq_packet_socket", "io/stream_socket", "io/socket", "io/endpoint"]},
    "socks": {"srcs": ["harness/socks.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp"], "lib": LIB + ["io/datagram_socket", "io/seq_packet_socket", "io/stream_socket", "io/socket", "io/endpoint", "io/pipe", "io/serial_port", "io/signal_set", "io/file", "io/stream_file", "io/random_access_file", "io/read", "io/write"]},
    "file": {"srcs": ["harness/file.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp"], "lib": LIB + ["io/file", "io/stream_file", "io/random_access_file", "io/read", "io/write"]},
    "tls": {"srcs": ["harness/tls.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp"], "lib": LIB + ["io/ssl", "io/stream_socket", "io/socket", "io/endpoint"], "libs": ["-lssl", "-lcrypto"]},
    "cancel": {"srcs": ["harness/cancel.cpp"], "lib": LIB},
    "mainh": {"srcs": ["harness/mainh.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp"], "lib": LIB, "flags": ["-DSIM_MAIN=__wrap_main"], "libs": ["-Wl,--wrap=main"]},
    "threads": {"srcs": ["harness/threads.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp", "sim/vt.cpp"], "lib": LIB},
    # the same with asio's io_context executor instead of any_io_executor
    "threads_ioc": {"srcs": ["harness/threads.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp", "sim/vt.cpp"], "lib": LIB, "flags": ["-DBOOST_COBALT_USE_IO_CONTEXT"]},
    # instrumented for the race detector of sim/race.cpp
    "threads_race": {"srcs": ["harness/threads.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp", "sim/vt.cpp", "sim/race.cpp"], "lib": LIB, "race": True},
    "resolve": {"srcs": ["harness/resolve.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp", "sim/vt.cpp"], "lib": LIB + ["io/resolver", "io/endpoint"]},
    "resolve_race": {"srcs": ["harness/resolve.cpp"], "sim": ["sim/sim.cpp", "sim/vk.cpp", "sim/vt.cpp", "sim/race.cpp"], "lib": LIB + ["io/resolver", "io/endpoint"], "race": True},
    # the bodies of the coroutines run as stackful contexts
    "promise_fib": {"srcs": ["harness/promise.cpp"], "lib": LIB, "flags": FIB, "libs": ["-lboost_context"]},
    "task_fib": {"srcs": ["harness/task.cpp"], "lib": LIB, "flags": FIB, "libs": ["-lboost_context"]},
    "generator_fib": {"srcs": ["harness/generator.cpp"], "lib": LIB, "flags": FIB, "libs": ["-lboost_context"]},
    "fiber": {"srcs": ["harness/fiber.cpp"], "lib": LIB, "flags": FIB, "libs": ["-lboost_context"]},
    "nest": {"srcs": ["harness/nest.cpp"] + ["harness/nest_%s.cpp" % c for c in ("race", "left", "join", "gather")], "lib": LIB},
    "combi": {"srcs": ["harness/combi.cpp"] + ["harness/combi_%s.cpp" % c for c in ("race", "left", "join", "gather")], "lib": LIB},
}
COBALT = "cobalt headers and sources of /repo, unmodified; Boost.Asio io_context and cancellation signals; C++ coroutines as compiled by g++"
OPS = "I/O operations and peers (scripted cobalt::op whose completion, error and reaction to cancellation the scheduler decides)"
RND = "std::random_device (drawn from the choice stream)"
VK = "the kernel: clocks, timerfd, epoll, eventfd, files, pipes, sockets and signals are simulated (sim/vk.cpp, interposed at the C library); the scheduler advances virtual time"
VT = "OS threads: real pthreads of which one runs at a time; mutexes, condition variables, thread creation and joining are simulated (sim/vt.cpp, interposed at the C library) and the scheduler decides who runs next"
QUICK = dict(quick_s=15, quick_runs=30000, thorough_s=420, thorough_runs=100000000)


def P(harnesses, real=None, stub=None, **kw):
    d = dict(QUICK)
    d.update(harnesses=harnesses, real=real or [COBALT], stub=stub or [OPS, RND])
    d.update(kw)
    return d


PROPS = {
    "P01": P({"channel": 1}),
    "P02": P({"channel": 1}),
    "P03": P({"channel": 1}),
    "P04": P({"promise": 1}),
    "P05": P({"task": 1}),
    "P06": P({"generator": 1}),
    "P07": P({"combi": 1, "nest": 1}),
    "P08": P({"combi": 1, "nest": 1}),
    "P09": P({"combi": 1, "nest": 1}),
    "P10": P({"group": 1}),
    "P11": P({"group": 1}),
    "P12": P({"cancel": 2, "combi": 1}),
    "P13": P({"ops": 1}),
    "P14": P({"threads": 2, "threads_ioc": 1, "threads_race": 2}, stub=[VK, RND, VT]),
    "P15": P({"stream": 1, "file": 1}, stub=[VK, RND]),
    "P16": P({"timer": 1}, stub=[VK, RND]),
    "P17": P({"ops": 1, "group": 1, "promise": 1, "task": 1, "generator": 1, "combi": 1, "frames": 1}),
    "P18": P({"mainh": 1}, stub=[VK, RND]),
    "P19": P({"task": 1, "ops": 1, "frames": 1}),
    "P20": P({"stream": 2, "packet": 1}, stub=[VK, RND]),
    "P21": P({"file": 1}, stub=[VK, RND]),
    "P22": P({"packet": 1}, stub=[VK, RND]),
    "P23": P({"socks": 1}, stub=[VK, RND]),
    "P24": P({"ops": 1}),
    "P25": P({"tls": 1}, stub=[VK, RND, "OpenSSL's source of randomness (a seeded generator)"], real=[COBALT, "OpenSSL and asio::ssl"]),
    "P26": P({"promise": 1, "frames": 1}),
    "P27": P({"fiber": 2, "promise_fib": 1, "task_fib": 1, "generator_fib": 1}, real=["cobalt headers and sources of /repo, unmodified; Boost.Context fibers; Boost.Asio io_context, spawn and cancellation signals"]),
    "P30": P({"resolve": 1, "resolve_race": 1}, stub=[VK, RND, VT, "getaddrinfo: the results, errors and duration of lookups"]),
}
