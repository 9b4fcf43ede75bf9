"""Flavours (library builds) and per-property run configuration."""
import os

SIM = os.path.dirname(os.path.abspath(__file__))

ASM = ["TORSION_HAVE_ASM", "TORSION_HAVE_INT128"]
BASE = ["TORSION_HAVE_CLOCK_GETTIME", "TORSION_HAVE_FORK", "TORSION_HAVE_GETTIMEOFDAY", "TORSION_HAVE_TIME"]
TLS = ["TORSION_TLS=__thread"]
PT = ["TORSION_HAVE_PTHREAD"]
DBG = ["TORSION_DEBUG", "TORSION_VERIFY"]

HF = ["-O1", "-g"]

LIMB32 = "#include <stdint.h>\n#undef UINTPTR_MAX\n#define UINTPTR_MAX 4294967295U\n"

YIELD = {f: "sched_" + f for f in ("malloc", "calloc", "realloc", "free", "memcpy", "memmove", "memset", "memcmp")}

FLAVOURS = {
    # address sanitizer build, assertions on
    "asan": dict(cflags=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], defs=BASE + ASM + TLS + PT + DBG,
                 hflags=HF + ["-fsanitize=address"], ldflags=["-fsanitize=address"]),
    # optimised build as shipped
    "fast": dict(cflags=["-O2", "-g"], defs=BASE + ASM + TLS + PT, hflags=["-O2", "-g"]),
    # no assembly, no 128-bit integers
    "portable": dict(cflags=["-O2", "-g"], defs=BASE + TLS + PT + DBG, hflags=["-O2", "-g"]),
    # global generator protected by a mutex instead of thread-local storage
    "mutex": dict(cflags=["-O2", "-g"], defs=BASE + ASM + PT, hflags=["-O2", "-g"]),
    # entropy gathering daemon backend (the source's own test switch)
    "egd": dict(cflags=["-O1", "-g", "-fsanitize=address"], defs=BASE + ASM + TLS + PT, hflags=HF + ["-fsanitize=address"], ldflags=["-fsanitize=address"],
                patch=[("#undef EGD_TEST", "#define EGD_TEST", "entropy/sys.c")]),
    # compiler instrumentation reports calls, shared accesses and atomics to the simulator's scheduler
    "sched": dict(cflags=["-O1", "-g", "-fsanitize=thread", "-fno-builtin"], defs=BASE + ASM + TLS + PT, hflags=["-O2", "-g"], redefine=YIELD),
    "schedmutex": dict(cflags=["-O1", "-g", "-fsanitize=thread", "-fno-builtin"], defs=BASE + ASM + PT, hflags=["-O2", "-g"], redefine=YIELD),
    # no assembly, 32-bit limbs
    "limb32": dict(cflags=["-O2", "-g", "-include", os.path.join(SIM, "limb32.h")], defs=BASE + TLS + PT + DBG, hflags=["-O2", "-g"], hdefs=["BIG_LIMB32"]),
    # as a compiler without GNU extensions sees it: temporaries live on the heap instead of the stack
    "plain": dict(cflags=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"], defs=BASE + TLS + PT + DBG + ["__NWCC__"], hflags=HF + ["-fsanitize=address"], ldflags=["-fsanitize=address"]),
    # several builds of the library in one simulator, run side by side
    "nodes": dict(cflags=["-O2"], defs=[], hflags=["-O2", "-g"], replicas={
        "asm": dict(cflags=["-O2"], defs=BASE + ASM + TLS + PT),
        "int128": dict(cflags=["-O3"], defs=BASE + ["TORSION_HAVE_INT128"] + TLS + PT),
        "portable": dict(cflags=["-O2"], defs=BASE + TLS + PT),
        "checked": dict(cflags=["-O1"], defs=BASE + ASM + TLS + PT + DBG),
        "limb32": dict(cflags=["-O2"], defs=BASE + TLS + PT + DBG, prefix=LIMB32),
        "clang": dict(cc="clang", cxx="g++", cflags=["-O2"], defs=BASE + ASM + TLS + PT),
        "plain": dict(cflags=["-O2", "-std=c89"], defs=BASE + TLS + PT + ["__NWCC__"]),
        "popcnt": dict(cflags=["-O3", "-mpopcnt", "-fno-inline-functions"], defs=BASE + ["TORSION_HAVE_ASM"] + TLS + PT),
    }),
}
GROUPS = {}

RNG_SRC = ["rand.c", "entropy/hw.c", "entropy/sys.c", "hash.c", "stream.c", "util.c", "internal.c"]
RNG_REAL = "rand.c, entropy/sys.c, entropy/hw.c, hash.c, stream.c, util.c (unmodified working tree)"
RNG_STUB = "kernel calls (getrandom, device files, sysctl, poll, getpid, sockets, clock) and the cpuid/rdrand/rdseed instructions"

LIB_SRC = ["aead.c", "asn1.c", "cipher.c", "drbg.c", "dsa.c", "ecc.c", "encoding.c", "hash.c", "ies.c", "internal.c", "kdf.c", "mac.c", "mpi.c", "rsa.c", "stream.c", "util.c"]

PROPS = {
    "C01": dict(technique="seeded system-call fault schedules against a simulated kernel, byte attribution oracle", note="seeded search over fault schedules; samples, does not enumerate",
                scenario=["world.cc", "scen_c01.cc"], sources=RNG_SRC, real=RNG_REAL, stub=RNG_STUB,
                quick=dict(flavours={"asan": dict(runs=150000, wall=60), "egd": dict(runs=50000, wall=40)}, det=2000),
                thorough=dict(flavours={"asan": dict(runs=3000000, wall=400), "egd": dict(runs=1000000, wall=200)}, det=20000),
                assumptions=["the simulated kernel follows Linux semantics: blocked getrandom returns only once the pool is ready, close releases the descriptor even when interrupted"]),
    "C02": dict(technique="seeded fork trees and thread schedules over simulated processes, uniqueness oracle over all output", note="seeded search over histories; duplicates detected over all 8-byte windows",
                scenario=["world.cc", "scen_rng.cc"], hdefs=["PROP_C02"], sources=RNG_SRC, real=RNG_REAL, stub=RNG_STUB + "; process ids assigned by the simulator, processes are real forks run one at a time",
                scenario_for={"sched": ["world.cc", "threads.cc", "scen_c02s.cc"], "schedmutex": ["world.cc", "threads.cc", "scen_c02s.cc"]},
                quick=dict(flavours={"fast": dict(runs=40000, wall=60), "mutex": dict(runs=40000, wall=60), "sched": dict(runs=60000, wall=15), "schedmutex": dict(runs=60000, wall=20)}, det=1000),
                thorough=dict(flavours={"fast": dict(runs=400000, wall=400), "mutex": dict(runs=400000, wall=400), "sched": dict(runs=1000000, wall=200), "schedmutex": dict(runs=1000000, wall=300)}, det=10000)),
    "C03": dict(technique="seeded entropy-failure schedules over simulated processes, twin executions for entropy dependence", note="seeded search over failure schedules and histories",
                scenario=["world.cc", "scen_rng.cc"], hdefs=["PROP_C03"], sources=RNG_SRC, real=RNG_REAL, stub=RNG_STUB,
                quick=dict(flavours={"fast": dict(runs=40000, wall=60), "mutex": dict(runs=20000, wall=60)}, det=1000),
                thorough=dict(flavours={"fast": dict(runs=400000, wall=400), "mutex": dict(runs=400000, wall=400)}, det=10000)),
    "C04": dict(technique="memory captured at seeded crash points, searched for earlier output and for keys regenerating it", note="the capture covers static, thread-local and heap memory of the library; the attacker tries every aligned key window",
                scenario=["world.cc", "scen_rng.cc"], hdefs=["PROP_C04"], sources=RNG_SRC, real=RNG_REAL, stub=RNG_STUB,
                quick=dict(flavours={"fast": dict(runs=20000, wall=60)}, det=500),
                thorough=dict(flavours={"fast": dict(runs=200000, wall=400), "mutex": dict(runs=100000, wall=300)}, det=5000)),
    "C05": dict(technique="seeded hardware answer and failure schedules with an adversarial instruction model, twin executions", note="seeded search; adversary strategies: constant, replay of entropy, mirror of library memory",
                scenario=["world.cc", "scen_rng.cc"], hdefs=["PROP_C05"], sources=RNG_SRC, real=RNG_REAL, stub=RNG_STUB,
                quick=dict(flavours={"fast": dict(runs=20000, wall=60)}, det=500),
                thorough=dict(flavours={"fast": dict(runs=200000, wall=400), "mutex": dict(runs=100000, wall=300)}, det=5000)),
    "C06": dict(technique="seeded histories with bounds placed on edges of the entropy words learned from a twin process, plus distribution tests", note="range, exact interval-edge acceptance and chi-square tests over seeded histories; the edge test applies while results are remainders of the consumed word",
                scenario=["world.cc", "scen_c06.cc"], sources=RNG_SRC, real=RNG_REAL, stub=RNG_STUB,
                quick=dict(flavours={"fast": dict(runs=16000, wall=60)}, det=500),
                thorough=dict(flavours={"fast": dict(runs=200000, wall=400)}, det=5000)),
    "C08": dict(technique="seeded chunking, interleaving, copy and reuse schedules over many live contexts against independent hash models", note="seeded search over histories, inputs up to 4 GiB; every digest compared with an independent implementation",
                scenario=["world.cc", "models.cc", "scen_c08.cc"], sources=["hash.c", "mac.c", "util.c", "internal.c"], libs=["-lcrypto"],
                real="hash.c, mac.c, util.c (unmodified working tree)", stub="nothing below the library interface; reference digests from OpenSSL and from own models",
                quick=dict(flavours={"asan": dict(runs=40000, wall=40), "fast": dict(runs=60000, wall=70)}, det=1000),
                thorough=dict(flavours={"asan": dict(runs=1000000, wall=300), "fast": dict(runs=1000000, wall=500)}, det=10000)),
    "C07": dict(technique="seeded call histories over several live instances, lock-step against SP 800-90A models, counters aimed at carries", note="seeded search over histories; every output byte compared with an independent model",
                scenario=["world.cc", "models.cc", "scen_c07.cc"], sources=["drbg.c", "hash.c", "cipher.c", "util.c", "internal.c"], libs=["-lcrypto"],
                real="drbg.c, hash.c, cipher.c, util.c (unmodified working tree)", stub="nothing below the library interface; models use OpenSSL primitives and own hash code",
                quick=dict(flavours={"asan": dict(runs=16000, wall=40), "fast": dict(runs=40000, wall=40)}, det=500),
                thorough=dict(flavours={"asan": dict(runs=300000, wall=300), "fast": dict(runs=1000000, wall=500)}, det=10000)),
    "C11": dict(technique="seeded chunking, interleaving and copying of live streams, lock-step against position-indexed keystream models, counters aimed at carries", note="seeded search over histories; every output byte compared with an independent model",
                scenario=["world.cc", "models.cc", "scen_c11.cc"], sources=["stream.c", "util.c", "internal.c"], libs=["-lcrypto"],
                real="stream.c, util.c (unmodified working tree)", stub="nothing below the library interface",
                quick=dict(flavours={"asan": dict(runs=20000, wall=40), "fast": dict(runs=40000, wall=60)}, det=500),
                thorough=dict(flavours={"asan": dict(runs=400000, wall=300), "fast": dict(runs=1000000, wall=500)}, det=10000)),
    "C09": dict(technique="seeded chunking and interleaving of live cipher streams with damaged input, compared with mode models over independent block ciphers", note="seeded search over histories and channel damage; outputs, sizes and accept/refuse decisions compared with a model",
                scenario=["world.cc", "models.cc", "cmodels.cc", "scen_c09.cc"], sources=["cipher.c", "util.c", "internal.c"], libs=["-lcrypto"],
                real="cipher.c, util.c (unmodified working tree)", stub="nothing below the library interface; models use OpenSSL single-block ciphers (Serpent and Twofish: the library's own single-block interface)",
                quick=dict(flavours={"asan": dict(runs=60000, wall=50), "fast": dict(runs=120000, wall=40)}, det=500),
                thorough=dict(flavours={"asan": dict(runs=400000, wall=400), "fast": dict(runs=1000000, wall=400)}, det=10000)),
    "C10": dict(technique="senders and receivers of authenticated messages over a channel that damages, swaps and replays, compared with models of the standards", note="seeded search over chunkings, interleavings and channel faults; ciphertexts, tags and verdicts compared with a model",
                scenario=["world.cc", "models.cc", "cmodels.cc", "scen_c10.cc"], sources=["cipher.c", "aead.c", "ies.c", "stream.c", "mac.c", "util.c", "internal.c", "ecc.c", "mpi.c", "hash.c", "drbg.c", "kdf.c"], libs=["-lcrypto"],
                real="cipher.c, aead.c, ies.c, stream.c, mac.c (unmodified working tree)", stub="the channel is simulated; models use OpenSSL single-block ciphers (Serpent and Twofish: the library's own single-block interface)",
                quick=dict(flavours={"asan": dict(runs=25000, wall=50), "fast": dict(runs=60000, wall=60)}, det=500),
                thorough=dict(flavours={"asan": dict(runs=400000, wall=400), "fast": dict(runs=1000000, wall=400)}, det=10000)),
    "C17": dict(technique="texts sent over a channel that substitutes, inserts, deletes, transposes and truncates characters, compared with models of the formats", note="seeded search over values and channel faults; texts, values and verdicts compared with a model that accepts exactly canonical text",
                scenario=["world.cc", "scen_c17.cc"], sources=["encoding.c", "util.c", "internal.c"], libs=[],
                real="encoding.c (unmodified working tree)", stub="the channel is simulated",
                quick=dict(flavours={"asan": dict(runs=200000, wall=40), "fast": dict(runs=600000, wall=30)}, det=2000),
                thorough=dict(flavours={"asan": dict(runs=4000000, wall=400), "fast": dict(runs=12000000, wall=400)}, det=10000)),
    "C12": dict(technique="signers and verifiers over a channel that damages, swaps and forges; batches with reused scratch; verdicts compared with GMP models of every scheme", note="seeded search over keys, messages, channel faults, crafted signatures and batch histories; every verdict compared with an independent model",
                scenario=["world.cc", "models.cc", "emodels.cc", "scen_c12.cc"], sources=["ecc.c", "hash.c", "drbg.c", "cipher.c", "mpi.c", "asn1.c", "util.c", "internal.c"], libs=["-lcrypto", "-lgmpxx", "-lgmp"],
                real="ecc.c, hash.c, drbg.c, asn1.c, mpi.c (unmodified working tree)", stub="the channel is simulated; models use GMP and OpenSSL hashes",
                quick=dict(flavours={"asan": dict(runs=6000, wall=50), "fast": dict(runs=14000, wall=60), "portable": dict(runs=8000, wall=50)}, det=200),
                thorough=dict(flavours={"asan": dict(runs=60000, wall=400), "fast": dict(runs=200000, wall=400), "portable": dict(runs=60000, wall=300)}, det=2000)),
    "C13": dict(technique="parties with key pairs under histories of tweaks and re-encodings, exchanging public keys over a channel that damages and substitutes them; every verdict, key and secret compared with GMP models", note="seeded search over groups, key histories and peer faults; every result compared with an independent model",
                scenario=["world.cc", "models.cc", "emodels.cc", "scen_c13.cc"], sources=["ecc.c", "dsa.c", "hash.c", "drbg.c", "cipher.c", "mpi.c", "asn1.c", "util.c", "internal.c"], libs=["-lcrypto", "-lgmpxx", "-lgmp"],
                real="ecc.c, dsa.c, hash.c, drbg.c, asn1.c, mpi.c (unmodified working tree)", stub="the channel is simulated; models use GMP and OpenSSL hashes; below-stack garbage is set from the seed",
                quick=dict(flavours={"asan": dict(runs=5000, wall=50), "fast": dict(runs=14000, wall=60), "portable": dict(runs=6000, wall=50)}, det=200),
                thorough=dict(flavours={"asan": dict(runs=60000, wall=400), "fast": dict(runs=200000, wall=400), "portable": dict(runs=60000, wall=300)}, det=2000)),
    "C14": dict(technique="RSA and DSA parties over a channel that damages and substitutes, and a forger holding the private key who builds almost valid paddings; verdicts, encodings and plaintexts compared with GMP models of RFC 8017 and FIPS 186", note="seeded search over keys, schemes, hashes, lengths, channel faults and crafted encodings; every verdict compared with an independent model",
                scenario=["world.cc", "models.cc", "emodels.cc", "scen_c14.cc"], sources=["rsa.c", "dsa.c", "hash.c", "drbg.c", "cipher.c", "mpi.c", "asn1.c", "util.c", "internal.c"], libs=["-lcrypto", "-lgmpxx", "-lgmp"],
                real="rsa.c, dsa.c, mpi.c, asn1.c, hash.c, drbg.c (unmodified working tree)", stub="the channel is simulated; models use GMP and OpenSSL hashes",
                quick=dict(flavours={"asan": dict(runs=14000, wall=60), "fast": dict(runs=60000, wall=60), "portable": dict(runs=16000, wall=50)}, det=200),
                thorough=dict(flavours={"asan": dict(runs=60000, wall=400), "fast": dict(runs=200000, wall=400), "portable": dict(runs=60000, wall=300)}, det=2000)),
"C15": dict(technique="programs with several curve contexts alive that are opened, closed and re-blinded at random points with ordinary and degenerate entropy, each operation compared with a context never randomised and public keys with GMP curve models", note="seeded search over histories, entropy kinds and keys aimed at the blinding scalar; every result compared",
                scenario=["world.cc", "models.cc", "emodels.cc", "scen_c15.cc"], sources=["ecc.c", "hash.c", "drbg.c", "cipher.c", "mpi.c", "asn1.c", "util.c", "internal.c"], libs=["-lcrypto", "-lgmpxx", "-lgmp"],
                real="ecc.c, hash.c, drbg.c, mpi.c (unmodified working tree)", stub="entropy is chosen by the simulator; models use GMP",
                quick=dict(flavours={"asan": dict(runs=1600, wall=45), "fast": dict(runs=9000, wall=60), "portable": dict(runs=3000, wall=45)}, det=100),
                thorough=dict(flavours={"asan": dict(runs=20000, wall=300), "fast": dict(runs=100000, wall=400), "portable": dict(runs=40000, wall=300)}, det=1000)),
"C16": dict(technique="a key store on a simulated disk that tears, splices, loses and flips what was written, with structured damage to lengths and values; every reader compared with strict format models on GMP and the system's bcrypt", note="seeded search over object kinds, damage sequences and readers; every verdict and re-export compared with a model",
                scenario=["world.cc", "models.cc", "emodels.cc", "scen_c16.cc"], sources=["rsa.c", "dsa.c", "ecc.c", "kdf.c", "hash.c", "drbg.c", "cipher.c", "mpi.c", "asn1.c", "util.c", "internal.c"], libs=["-lcrypto", "-lcrypt", "-lgmpxx", "-lgmp"],
                real="rsa.c, dsa.c, ecc.c, kdf.c, asn1.c, mpi.c (unmodified working tree)", stub="the disk is simulated; models use GMP and libcrypt",
                quick=dict(flavours={"asan": dict(runs=8000, wall=45), "fast": dict(runs=40000, wall=60), "portable": dict(runs=8000, wall=45)}, det=100),
                thorough=dict(flavours={"asan": dict(runs=60000, wall=300), "fast": dict(runs=300000, wall=400), "portable": dict(runs=60000, wall=300)}, det=1000)),
"C18": dict(technique="every operation of the library run as a repeatable program, then run again with chosen allocations of one of its library calls failing; outcome, result, heap balance and the repeat compared with the undisturbed run", note="seeded search over operations, inputs and failing positions balanced over call sites; every outcome compared",
                scenario=["world.cc", "catalog.cc", "scen_c18.cc"], hdefs=["CAT_SIM_HEAP"], sources=LIB_SRC,
                real="the whole library except the random generator (unmodified working tree)", stub="the allocator is simulated and fails on command; process termination is simulated",
                quick=dict(flavours={"asan": dict(runs=12000, wall=35), "fast": dict(runs=60000, wall=35), "portable": dict(runs=12000, wall=20), "plain": dict(runs=12000, wall=15)}, det=200),
                thorough=dict(flavours={"asan": dict(runs=200000, wall=400), "plain": dict(runs=200000, wall=300), "fast": dict(runs=800000, wall=400), "portable": dict(runs=200000, wall=300)}, det=2000)),
"C20": dict(technique="eight builds of the library as nodes of one simulation, each given the same operations in its own order with repeats and dirty stacks, results compared byte for byte", note="seeded search over operations, boundary-biased inputs and delivery orders; every result of every node compared",
                scenario=["world.cc", "scen_c20.cc"], sources=[],
                real="the whole library in eight build configurations (unmodified working tree)", stub="the allocator is simulated; delivery order is simulated",
                quick=dict(flavours={"nodes": dict(runs=60000, wall=60)}, det=100),
                thorough=dict(flavours={"nodes": dict(runs=2000000, wall=1200)}, det=1000)),
    "C19": dict(technique="controlled thread interleavings of real library calls at seeded preemption points, each result compared with the call run alone", note="seeded search over operation mixes and preemption points (calls, writes and reads of shared writable memory, allocations, locks); sequentially consistent memory",
                scenario=["world.cc", "catalog.cc", "threads.cc", "scen_c19.cc"], sources=LIB_SRC + ["rand.c", "entropy/hw.c", "entropy/sys.c"], hdefs=["CAT_SIM_HEAP"],
                real="the whole library (unmodified working tree, instrumented by the compiler); threads are real, one runs at a time", stub="the scheduler, locks and the allocator are simulated",
                measure="hash of each schedule: thread, kind and position of every switch (HyperLogLog, about 1% error)",
                quick=dict(flavours={"sched": dict(runs=200000, wall=60)}, det=200),
                thorough=dict(flavours={"sched": dict(runs=5000000, wall=1200)}, det=3000),
                assumptions=["threads interleave in a sequentially consistent order; reordering by the processor is not simulated"]),
    "C21": dict(technique="register programs over big-integer variables with every aliasing of operands, borrowed views and a moving heap full of old data, every variable compared with GMP after every step", note="seeded search over programs and boundary-biased values; every variable and answer compared after every step",
                scenario=["world.cc", "bigmodel.cc", "scen_c21.cc"], sources=["mpi.c", "util.c", "internal.c"], libs=["-lgmpxx", "-lgmp"],
                real="mpi.c (unmodified working tree)", stub="the allocator is simulated, moves every block it resizes and returns dirty memory; random callbacks are chosen by the simulator",
                quick=dict(flavours={"asan": dict(runs=200000, wall=20), "fast": dict(runs=600000, wall=20), "portable": dict(runs=200000, wall=15), "limb32": dict(runs=200000, wall=15), "plain": dict(runs=200000, wall=12)}, det=500),
                thorough=dict(flavours={"asan": dict(runs=1000000, wall=300), "fast": dict(runs=5000000, wall=500), "portable": dict(runs=1000000, wall=300), "limb32": dict(runs=1000000, wall=300), "plain": dict(runs=600000, wall=200)}, det=5000)),
    "C22": dict(technique="private-key programs, with intact and damaged keys and inputs, on a simulated heap that searches every block at the moment it is given back or moved for the secrets of the running operation", note="seeded search over operations, keys and faults; every released block searched for runs of 16 bytes of each secret in either byte order",
                scenario=["world.cc", "models.cc", "emodels.cc", "scen_c22.cc"], sources=["rsa.c", "dsa.c", "ecc.c", "kdf.c", "hash.c", "mac.c", "drbg.c", "cipher.c", "mpi.c", "asn1.c", "util.c", "internal.c"], libs=["-lcrypto", "-lgmpxx", "-lgmp"],
                real="rsa.c, dsa.c, ecc.c, kdf.c, mpi.c, asn1.c (unmodified working tree)", stub="the allocator is simulated, moves every block it resizes and shows every block it gets back; secrets are known to the simulator from GMP models",
                quick=dict(flavours={"plain": dict(runs=6000, wall=25), "fast": dict(runs=30000, wall=25), "limb32": dict(runs=8000, wall=20)}, det=200),
                thorough=dict(flavours={"plain": dict(runs=60000, wall=300), "asan": dict(runs=60000, wall=300), "fast": dict(runs=300000, wall=400), "portable": dict(runs=60000, wall=300), "limb32": dict(runs=60000, wall=300)}, det=2000),
                assumptions=["memory on the stack is not searched: what a compiler leaves there is not decided by the library's source"]),
}
