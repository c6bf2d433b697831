import os

HERE = os.path.dirname(os.path.abspath(__file__))
W = dict(wdns=True)


def H(*files, **kw):
    d = dict(harness=["mc.cpp"] + list(files))
    d.update(kw)
    return d


CODEC = ["b32_encode.c", "b32_decode.c", "b64_encode.c", "b64_decode.c", "varint.c", "my_format.c", "fast_inet_ntop.c"]
FWRAP = ["-Wl,--wrap=" + f for f in ("fopen", "stat", "fstatat", "rename", "readdir", "usleep", "nanosleep", "sleep")]
OWRAP = ["-Wl,--wrap=" + f for f in "malloc calloc realloc free strdup strndup fopen fclose opendir closedir getline getdelim __getdelim realpath usleep exit abort __assert_fail".split()]
UTIL = ["crc32c.c", "crc32c-slicing.c", "crc32c-sse42.c", "lookup3.c"]

# controlled scheduler: the code under test is compiled with memory-access callbacks (those of the thread
# sanitizer, whose run-time is replaced by sched.cpp) into a shared object
SWRAP = """malloc calloc realloc free strdup strndup pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_mutex_init pthread_mutex_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_rwlock_init
pthread_rwlock_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_spin_init pthread_spin_destroy
pthread_once sched_yield usleep nanosleep sleep strlen strcpy strncpy strcat strcmp strcasecmp memcmp vsnprintf snprintf
sprintf inet_ntop strtok inet_ntoa getservbyname getservbyport getprotobyname getprotobynumber gmtime localtime ctime asctime
rand random setenv unsetenv setlocale drand48 lrand48 mrand48 strerror strsignal fputs puts fwrite strchr strrchr strstr memchr
strncmp strncasecmp strnlen strspn strcspn strtol strtoul strtoll strtoull atoi inet_pton vfprintf fprintf vsscanf sscanf strtok_r""".split()


def SCHED(*files, **kw):
    wrap = SWRAP + kw.pop("wrap", [])
    return H("sched.cpp", *files, shared=True, wrap=wrap, san=["-O2", "-g"], ldsan=[],
             libsan=["-O1", "-g", "-fPIC", "-fno-inline", "-fsanitize=thread", "-mllvm", "-tsan-instrument-read-before-write=1"], **kw)


SPWRAP = ["readdir", "rewinddir", "rename", "unlink", "stat", "fstatat"]

SPECS = {
    "C06": H("h_rdata.cpp", wdns=True),
    "C07": H("h_rdata.cpp", wdns=True),
    "C08": H("h_rdata.cpp", wdns=True),
    "C09": H("h_rdata.cpp", wdns=True),
    "C01": H("h_msg.cpp", wdns=True),
    "C03": H("h_msg.cpp", wdns=True),
    "C04": H("h_msg.cpp", wdns=True),
    "C05": H("h_msg.cpp", wdns=True),
    "C13": H("h_rrset.cpp", wdns=True),
    "C14": H("h_rrset.cpp", wdns=True),
    "C15": H("h_rrset.cpp", wdns=True),
    "C16": H("h_misc.cpp", wdns=True, ldflags=["-Wl,--wrap=fopen"]),
    "C19": H("h_misc.cpp", wdns=True, ldflags=["-Wl,--wrap=fopen"]),
    "C17": H("h_msg.cpp", wdns=True),
    "C02": H("h_names.cpp", wdns=True),
    "C10": H("h_names.cpp", wdns=True),
    "C11": H("h_names.cpp", wdns=True),
    "C12": H("h_names.cpp", wdns=True),
    "C20": H("h_codec.cpp", "shim_ip.c:lib", libmy=CODEC),
    "C21": H("h_codec.cpp", "shim_ip.c:lib", libmy=CODEC),
    "C22": H("h_codec.cpp", "shim_ip.c:lib", libmy=CODEC),
    "C25": H("h_codec.cpp", "shim_ip.c:lib", libmy=CODEC),
    "C31": H("h_codec.cpp", "shim_ip.c:lib", libmy=CODEC),
    "C24": H("h_cont.cpp", "shim_cont.c:lib", libmy=["heap.c"]),
    "C29": H("h_cont.cpp", "shim_cont.c:lib", libmy=["heap.c"]),
    "C30": H("h_cont.cpp", "shim_cont.c:lib", libmy=["heap.c"]),
    # checksums and hashes read whole words around the buffer by design of the published
    # algorithms: unmapped guard pages instead of the address sanitizer
    "C26": H("h_util.cpp", "shim_util.c:lib", "shim_crc.c:lib", libmy=UTIL, libsan=["-O1", "-g"], args=["--hang=100"], libflags=["-fno-strict-aliasing"], ldflags=["-Wl,--wrap=read"]),
    "C33": H("h_util.cpp", "shim_util.c:lib", "shim_crc.c:lib", libmy=UTIL, libsan=["-O1", "-g"], args=["--hang=100"], ldflags=["-Wl,--wrap=read"]),
    "C32": H("h_util.cpp", "shim_util.c:lib", "shim_crc.c:lib", libmy=UTIL, ldflags=["-Wl,--wrap=read"]),
    "C35": H("h_rate.cpp", "shim_rate0.c:lib", "shim_rate1.c:lib", "shim_rate2.c:lib", libflags=["-fsanitize=undefined", "-fno-sanitize-recover=all"], ldsan=["-fsanitize=address,undefined"]),
    "C36": H("h_rate.cpp", "shim_rate0.c:lib", "shim_rate1.c:lib", "shim_rate2.c:lib", libflags=["-fsanitize=undefined", "-fno-sanitize-recover=all"], ldsan=["-fsanitize=address,undefined"]),
    "C27": H("h_files.cpp", libmy=["my_fileset.c", "spooldir.c"], ldflags=FWRAP),
    "C28": dict(parts=[
        H("h_files.cpp", libmy=["my_fileset.c", "spooldir.c"], ldflags=FWRAP, name="histories"),
        SCHED("h_sched.cpp", libmy=["my_queue.c", "my_queue_mutex.c", "spooldir.c"], wrap=SPWRAP, name="interleavings")]),
    "C23": dict(parts=[
        H("h_sched.cpp", "sched_seq.cpp", args=["--hang=100"], libmy=["my_queue.c", "my_queue_mutex.c", "spooldir.c"], hflags=["-DSEQUENTIAL"], name="histories"),
        SCHED("h_sched.cpp", libmy=["my_queue.c", "my_queue_mutex.c", "spooldir.c"], wrap=SPWRAP, name="interleavings")]),
    "C18": SCHED("h_conc.cpp", "shim_conc.c:lib", wdns=True, libmy=["varint.c", "heap.c", "my_queue.c", "my_queue_mutex.c", "my_fileset.c"] + UTIL),
    "C37": SCHED("h_atomic.cpp", "shim_atomic.c:lib"),
    "C39": H("h_oom.cpp", "shim_cont.c:lib", "shim_oom.c:lib", wdns=True, ldflags=OWRAP,
             libmy=["heap.c", "my_queue.c", "my_queue_mutex.c", "my_fileset.c", "spooldir.c", "my_rate.c", "argv.c"]),
    "C41": H("h_examples.cpp", libflags=["-fno-sanitize-address-globals-dead-stripping"], *["shim_ex_%s.c:lib=ex_%s_main" % (x, x) for x in ("ser", "deser", "down", "print", "file", "pcap")], wdns=True, ldflags=["-Wl,--wrap=" + f for f in ("exit", "_exit", "fopen", "fclose")]),
    "C40": H("h_zone.cpp", args=["--hang=8"], libmy=["zonefile.c"], libflags=["-I" + os.path.join(HERE, "fakeldns")], hflags=["-I" + os.path.join(HERE, "fakeldns")], ldflags=["-Wl,--wrap=" + f for f in ("fopen", "popen", "fclose", "pclose")]),
    "C38": H("h_argv.cpp", libmy=["argv.c"]),
    "C34": SCHED("h_sched.cpp", hflags=["-DTHREADNUM"], libmy=["my_queue.c", "my_queue_mutex.c", "threadnum.c", "spooldir.c"], wrap=SPWRAP),
}

# cheap enough to explore on every change what the others leave to the thorough tier
for _p in "C12 C16 C19 C22 C30 C31 C32 C33 C34 C36 C37 C40".split():
    SPECS[_p]["deep"] = True

NA = {}
