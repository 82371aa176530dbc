"""What each property's check is made of."""

UBSAN = "-fsanitize=null,bounds,signed-integer-overflow,integer-divide-by-zero,return,unreachable,bool,enum,vla-bound,nonnull-attribute,returns-nonnull-attribute"

CONFIGS = {
    # Address and undefined-behaviour sanitizer.
    "asan": {"cxx": ["-O1", "-fsanitize=address", UBSAN, "-fno-sanitize-recover=all"]},
    # Thread sanitizer.
    "tsan": {"cxx": ["-O1", "-fsanitize=thread"]},
    # Coverage-guided.
    "fuzz": {"cxx": ["-O1", "-fsanitize=address,fuzzer-no-link", UBSAN, "-fno-sanitize-recover=all", "-DLPBT_FUZZ"],
             "link": ["-fsanitize=address,fuzzer"]},
}

WRAP = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_mutex_timedlock", "pthread_mutex_clocklock",
        "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock", "pthread_rwlock_unlock",
        "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait", "nanosleep", "usleep", "clock_nanosleep", "sched_yield",
        "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv",
        "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv",
        "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "_ZNSt6thread4joinEv",
        "_ZNSt13random_device9_M_getvalEv"]

# Threads run one at a time, as the case decides.
CONFIGS["sched"] = dict(CONFIGS["asan"], repo=["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"],
                        repo_except="/src/lamppost/(messages|exceptions|data|utilities)/", plain=["engine/ownsched.cpp"], link=["-Wl,--wrap=" + w for w in WRAP])

# Plugin libraries for the harnesses.
TESTPLUGINS = {"t%d" % i: {"sources": ["props/testplugin.cpp"], "flags": ["-DSLOT=%d" % i]} for i in range(6)}
TESTPLUGINS["noinfo"] = {"sources": ["props/testplugin.cpp"], "flags": ["-DSLOT=100", "-DNOINFO"]}
TESTPLUGINS["noinstance"] = {"sources": ["props/testplugin.cpp"], "flags": ["-DSLOT=0", "-DNOINSTANCE"]}
TESTPLUGINS["nothing"] = {"sources": ["props/testplugin.cpp"], "flags": ["-DSLOT=101", "-DNOINFO", "-DNOINSTANCE"]}

COVERAGE = ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"]
HIDDEN = ["-fvisibility=hidden", "-fvisibility-inlines-hidden"]
LOGMODULE = ["repo:src/lamppost/log/*.cpp", "props/logmodule.cpp"]

HARNESSES = {
    "program": {"config": "asan", "sources": ["props/program.cpp"], "programs": {"lamppost": {"sources": ["src/main.cpp", "src/lamppost/platformspecific/xnix/*.cpp"]}},
                "plugins": {"journal": {"sources": ["props/journalplugin.cpp"], "library": True, "link": ["/usr/lib/x86_64-linux-gnu/libflatbuffers.a", "-ljson-c"]},
                            "sysinfo": {"sources": ["repo:src/plugins/sysinfo/*.cpp"], "library": True, "link": ["/usr/lib/x86_64-linux-gnu/libflatbuffers.a", "-ljson-c"]}}},
    "memory": {"config": "sched", "sources": ["props/memory.cpp"], "plugins": {k: TESTPLUGINS[k] for k in ("t0", "t1", "t2", "noinfo", "noinstance")}},
    "log": {"config": "sched", "sources": ["props/log.cpp"],
            "plugins": {"logmodule": {"sources": LOGMODULE, "flags": HIDDEN + COVERAGE, "link": ["-Wl,-Bsymbolic"] + CONFIGS["sched"]["link"]}}},
    "log_real": {"config": "tsan", "sources": ["props/log.cpp"], "flags": ["-DLPBT_REAL"],
                 "plugins": {"logmodule": {"sources": LOGMODULE, "flags": HIDDEN, "link": ["-Wl,-Bsymbolic"]}}},
    "link": {"config": "asan", "sources": ["props/link.cpp"], "flags": ["-DLPBT_FAILING_ALLOCATIONS"], "repo_sources": ["src/plugins/link/*.cpp"]},
    "sysinfo": {"config": "sched", "sources": ["props/sysinfo.cpp"], "repo_sources": ["src/plugins/sysinfo/*.cpp"]},
    "plugs": {"config": "sched", "sources": ["props/plugs.cpp"], "plugins": TESTPLUGINS},
    "values": {"config": "asan", "sources": ["props/values.cpp"]},
    "codec": {"config": "asan", "sources": ["props/codec.cpp"]},
    "codec_fuzz": {"config": "fuzz", "sources": ["props/codec.cpp"]},
    "files": {"config": "asan", "sources": ["props/files.cpp"]},
    "bus": {"config": "asan", "sources": ["props/bus.cpp"]},
    "concbus": {"config": "sched", "sources": ["props/concbus.cpp"]},
    "concbus_real": {"config": "tsan", "sources": ["props/concbus.cpp"], "flags": ["-DLPBT_REAL"]},
    "concact": {"config": "sched", "sources": ["props/concact.cpp"]},
    "concact_real": {"config": "tsan", "sources": ["props/concact.cpp"], "flags": ["-DLPBT_REAL"]},
    "actions": {"config": "asan", "sources": ["props/actions.cpp"]},
    "datagrams": {"config": "asan", "sources": ["props/datagrams.cpp"]},
}

CHECKS = {
    "T01": {"parts": [{"harness": "values", "prop": "T01"}]},
    "F02": {"parts": [{"harness": "values", "prop": "F02"}]},
    "F01": {"parts": [{"harness": "files", "prop": "F01"}]},
    "M01": {"parts": [{"harness": "values", "prop": "M01"}]},
    "R01": {"parts": [{"harness": "values", "prop": "R01"}]},
    "C01": {"parts": [{"harness": "values", "prop": "C01"}]},
    "U01": {"parts": [{"harness": "values", "prop": "U01.semantics"}, {"harness": "values", "prop": "U01.unique"}]},
    "A01": {"parts": [{"harness": "actions", "prop": "A01"}, {"harness": "concact", "prop": "A01.threads"}]},
    "A02": {"parts": [{"harness": "concact", "prop": "A02"}, {"harness": "concact_real", "prop": "A02.races"}]},
    "A03": {"parts": [{"harness": "actions", "prop": "A03"}]},
    "R02": {"parts": [{"harness": "memory", "prop": p} for p in ("R02", "R02.busses", "R02.live", "R02.plugins")]},
    "G01": {"parts": [{"harness": "log", "prop": "G01"}, {"harness": "log_real", "prop": "G01.races"}]},
    "S01": {"parts": [{"harness": "sysinfo", "prop": "S01"}]},
    "N01": {"parts": [{"harness": "link", "prop": "N01", "workers": 16}]},
    "N02": {"parts": [{"harness": "link", "prop": "N02", "workers": 16}]},
    "B01": {"parts": [{"harness": "bus", "prop": "B01"}, {"harness": "concbus", "prop": "B01.threads"}]},
    "B02": {"parts": [{"harness": "bus", "prop": "B02"}, {"harness": "concbus", "prop": "B02.threads"}]},
    "B03": {"parts": [{"harness": "bus", "prop": "B03"}, {"harness": "concbus", "prop": "B03.threads"}]},
    "B04": {"parts": [{"harness": "bus", "prop": "B04"}, {"harness": "concbus", "prop": "B04.threads"}]},
    "B06": {"parts": [{"harness": "concbus", "prop": "B06"}, {"harness": "concbus_real", "prop": "B06.races"}]},
    "B05": {"parts": [{"harness": "bus", "prop": "B05"}, {"harness": "concbus", "prop": "B05.threads"}]},
    "P01": {"parts": [{"harness": "plugs", "prop": "P01"}]},
    "P02": {"parts": [{"harness": "plugs", "prop": "P02"}]},
    "L01": {"parts": [{"harness": "plugs", "prop": "L01"}]},
    "L02": {"parts": [{"harness": "plugs", "prop": "L02"}, {"harness": "program", "prop": "L02.signals", "workers": 16}]},
    "D01": {"parts": [{"harness": "datagrams", "prop": "D01"}]},
    "D02": {"parts": [{"harness": "datagrams", "prop": "D02"}]},
    "D03": {"parts": [{"harness": "datagrams", "prop": "D03"}]},
    "D04": {"parts": [{"harness": "codec", "prop": "D04"}, {"harness": "codec", "prop": "D04.threads"}]},
    "D05": {"parts": [{"harness": "codec", "prop": "D05"},
                      {"harness": "codec_fuzz", "prop": "D05.bytes", "kind": "fuzz", "seconds": {"quick": 12, "thorough": 900}, "max_len": 2048, "corpus": "corpus/D05",
                       "rule": "coverage-guided fuzzing of the bytes, seeded with small messages; oracle as for D05; non-trivial: inputs with new coverage"}]},
    "D06": {"parts": [{"harness": "codec", "prop": "D06"}, {"harness": "codec", "prop": "D06.text"},
                      {"harness": "codec_fuzz", "prop": "D06.text", "kind": "fuzz", "seconds": {"quick": 10, "thorough": 900}, "max_len": 400, "corpus": "corpus/D06",
                       "rule": "coverage-guided fuzzing of the text, seeded with small documents; oracle: strict reference parser, no memory retained; non-trivial: inputs with new coverage"}]},
    "D07": {"parts": [{"harness": "datagrams", "prop": "D07"}]},
}

NOT_APPLICABLE = {}
HOOKS = None
