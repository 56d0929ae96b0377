"""Which harness programs decide which property, in which build configuration."""
def R(main, extra=(), **kw):
    d = dict(main=main, extra=list(extra), fat=False, threads=None, off=[], sched=False, opt="-O1", tiers=("quick", "thorough"))
    d.update(kw)
    return d
MEM = ["memfs.c", "ref.c"]
FAT = dict(fat=True, harness_flags=["-DWITH_FAT"])
HOSTWRAP = ["-Wl," + ",".join("--wrap=" + f for f in "fopen fclose fread fwrite ferror clearerr fflush ftruncate fstat stat fseek ftell opendir closedir readdir remove rename mkdir chdir getcwd".split())]
LOCKWRAP = ["-Wl," + ",".join("--wrap=pthread_mutex_" + f for f in "init destroy lock unlock".split())]
SCHED_FN = ("malloc calloc realloc free memcpy memmove memset memcmp strlen strnlen strcpy strncpy strcat strcmp strncmp strchr strrchr atexit "
            "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_once mtx_init mtx_destroy mtx_lock mtx_trylock mtx_unlock call_once").split()
def T(main, extra=(), **kw):
    """the library under the controlled scheduler"""
    return R(main, ["memfs.c", "ref.c", "fibers.c"] + list(extra), sched=True, nowrap=True, repo_flags=["-U_FORTIFY_SOURCE"] + ["-D%s=sched_%s" % (f, f) for f in SCHED_FN], **kw)
LARGE = ["-DLARGE", "-DMEM_NODES=1100", "-DRM_CAP=700000"]
def BIG(prop, parts, kinds, wraps=0, **kw):
    return R("large.c", MEM + ["images.c"], harness_flags=['-DPROP="%s"' % prop, "-DPARTS=%d" % parts, "-DKINDS=%d" % kinds, "-DWRAPS=%d" % wraps, "-DIMG_CAP=(20<<20)", "-DFENCE_CAP=(24<<20)"] + kw.pop("flags", []), **kw)
RUNS = {
    "P01": [R("p01_normalize.c", MEM)],
    "P03": [R("p03_absolute.c", MEM + ["images.c"])],
    "P04": [R("p04_registry.c", MEM)],
    "P07": [R("p07_jail.c", MEM)],
    "P08": [R("p08_transparent.c", MEM)],
    "P09": [R("p09_rotate.c", MEM), R("p10_rotrand.c", MEM, harness_flags=LARGE + ['-DPROP="P09"'])],
    "P10": [R("p10_rotrand.c", MEM), R("p10_rotrand.c", MEM, harness_flags=LARGE)],
    "P11": [R("p11_rotcrash.c", MEM)],
    "P12": [R("p12_rotmgmt.c", MEM)],
    "P13": [R("p13_tar.c", MEM + ["images.c"]), R("p13_tar.c", MEM + ["images.c"], off=["EVFS_USE_TARFS_SHARED_BUFFER"])],
    "P14": [R("p14_hostile_tar.c", MEM + ["images.c"])],
    "P15": [R("p15_romfs.c", MEM + ["images.c"]), R("p15_romfs.c", MEM + ["images.c"], off=["EVFS_USE_ROMFS_FAST_INDEX", "EVFS_USE_ROMFS_SHARED_BUFFER"])],
    "P16": [R("p16_hostile_rom.c", MEM + ["images.c"]), R("p16_hostile_rom.c", MEM + ["images.c"], off=["EVFS_USE_ROMFS_FAST_INDEX"])],
    "P17": [R("p17_readonly.c", MEM + ["images.c"], **FAT)],
    "P18": [R("p18_stdio.c", MEM), R("p18_stdio.c", MEM, harness_flags=["-DNOPOSIX"], off=["EVFS_USE_STDIO_POSIX"])],
    "P19": [R("p19_cursor.c", MEM + ["images.c"])],
    "P21": [R("p21_copy.c", MEM + ["images.c"])],
    "P22": [R("p22_dirs.c", MEM + ["images.c"], **FAT)],
    "P23": [R("p23_glob.c", MEM)],
    "P24": [R("p24_dhash.c")],
    "P25": [R("p25_ranges.c", MEM)],
    "P05": [T("p05_threads.c", threads="pthread"), T("p05_threads.c", threads="c11")],
    "P26": [T("p26_shared.c", ["images.c"], threads="pthread"),
            T("p26_shared.c", ["images.c"], threads="pthread", off=["EVFS_USE_TARFS_SHARED_BUFFER", "EVFS_USE_ROMFS_SHARED_BUFFER", "EVFS_USE_ROMFS_FAST_INDEX", "EVFS_USE_ROTATE_SHARED_BUFFER"]),
            T("p26_shared.c", ["images.c"], threads="c11", tiers=("thorough",))],
    "P02": [R("p02_split.c", MEM)],
    "P28": [R("p28_fatfault.c", MEM, **FAT)],
    "P06": [R("p06_faults.c", MEM + ["images.c"], fat=True, harness_flags=["-DWITH_FAT", "-DWITH_HOST"], ldflags=HOSTWRAP),
            R("p06_faults.c", MEM + ["images.c"], fat=True, harness_flags=["-DWITH_FAT", "-DWITH_HOST", "-DWITH_LOCKS"], ldflags=HOSTWRAP + LOCKWRAP, threads="pthread"),
            R("p06_faults.c", MEM + ["images.c"], fat=True, harness_flags=["-DWITH_FAT", "-DWITH_HOST", "-DWITH_LOCKS"], ldflags=HOSTWRAP + LOCKWRAP, threads="pthread", off=["EVFS_USE_TARFS_SHARED_BUFFER", "EVFS_USE_ROMFS_SHARED_BUFFER", "EVFS_USE_ROMFS_FAST_INDEX", "EVFS_USE_ROTATE_SHARED_BUFFER"])],
    "P20": [R("p20_trace.c", MEM + ["images.c"])],
    "P27": [R("p27_fat.c", MEM, **FAT)],
    "P29": [R("p29_numbers.c")],
    "P31": [R("p31_metadata.c", MEM + ["images.c"], fat=True, harness_flags=["-DWITH_FAT"], ldflags=["-Wl,--wrap=time,--wrap=readdir"])],
    "P30": [R("p30_getopt.c")],
    "P32": [R("p32_args.c", MEM + ["images.c"])],
    "P33": [R("p33_usage.c")],
    "P34": [R("p34_lfs.c", MEM + ["lfsmodel.c"], lfs=True, harness_flags=["-DWITH_LFS"]),
            R("p34_lfs.c", MEM + ["lfsmodel.c"], lfs=True, harness_flags=["-DWITH_LFS"], off=["EVFS_USE_LITTLEFS_SHARED_BUFFER"]),
            R("p34_lfs.c", MEM + ["lfsmodel.c"], lfs=True, harness_flags=["-DWITH_LFS", "-DLIMITS"], set=["EVFS_FILE_OFFSET_BITS 64"])],
}
for _p, _r in [("P13", BIG("P13", 9, 3)), ("P15", BIG("P15", 9, 12)), ("P19", BIG("P19", 1, 15)), ("P18", BIG("P18", 2, 32)), ("P21", BIG("P21", 4, 16)), ("P08", BIG("P08", 2, 16, 1)), ("P20", BIG("P20", 3, 18, 1)),
               ("P27", BIG("P27", 2, 192, fat=True, flags=["-DWITH_FAT", "-DFAT_SIZE=(34<<20)"]))]:
    RUNS[_p].append(_r)
def HUGE(prop, parts, wraps=0, **kw):
    return R("huge.c", MEM + ["images.c"], set=["EVFS_FILE_OFFSET_BITS 64"], harness_flags=['-DPROP="%s"' % prop, "-DPARTS=%d" % parts, "-DWRAPS=%d" % wraps, "-DFENCE_CAP=(1<<18)"] + kw.pop("flags", []), **kw)
for _p, _r in [("P13", HUGE("P13", 1)), ("P15", HUGE("P15", 2)), ("P18", HUGE("P18", 8)), ("P18", HUGE("P18", 8, flags=["-DNOPOSIX"], off=["EVFS_USE_STDIO_POSIX"])), ("P08", HUGE("P08", 4, 1)), ("P20", HUGE("P20", 7, 1)), ("P21", HUGE("P21", 32)), ("P10", HUGE("P10", 64)),
               ("P27", HUGE("P27", 16, fat=True, flags=["-DWITH_FAT"]))]:
    RUNS[_p].append(_r)
# Further build configurations, at the quick bounds: those in QUICK on every change, the others with the thorough tier.
W64, LONG = dict(set=["EVFS_FILE_OFFSET_BITS 64"]), dict(set=["ALLOW_LONG_PATHS"])
MSAN = dict(msan=True)   # MemorySanitizer: nothing the library reads or returns is uninitialized
NOROT, PLAIN = dict(off=["EVFS_USE_ROTATE_SHARED_BUFFER"]), dict(off=["EVFS_USE_ANSI_COLOR", "EVFS_USE_ATEXIT"])
EXTRA = [("P01 P02 P03 P04 P09 P10 P12 P13 P14 P15 P16 P18 P19 P20 P21 P22", W64), ("P09 P10 P11 P12", NOROT), ("P04 P20", PLAIN), ("P01 P02 P03 P07 P13 P15", LONG),
         (" ".join(p for p in RUNS if not RUNS[p][0]["sched"]), MSAN), ("P15 P16", dict(set=["EVFS_ROMFS_MAX_NAME_LEN 128"])), ("P16", dict(set=["EVFS_ROMFS_MAX_NAME_LEN 16"])),
         ("P03 P06 P07 P12 P20 P22", dict(set=["EVFS_MAX_PATH 128"])), ("P03 P07 P08 P22", dict(set=["EVFS_MAX_PATH 600"])), ("P13 P14 P15 P16", dict(set=["EVFS_ASSERT_LEVEL 0"])), ("P06 P20 P32", dict(set=["EVFS_DEBUG 1", "EVFS_ASSERT_LEVEL 1"]))]
QUICK = {("P15", 5), ("P16", 5), ("P16", 6), ("P13", 0), ("P14", 0), ("P15", 0), ("P16", 0), ("P19", 0), ("P21", 0), ("P02", 0), ("P03", 0), ("P02", 3), ("P03", 3)} | {(p, 4) for p in "P02 P03 P06 P09 P10 P12 P13 P14 P15 P16 P17 P19 P20 P21 P22 P24 P25 P28 P30 P31 P32".split()}
for _i, (_ps, _kw) in enumerate(EXTRA):
    for _p in _ps.split():
        _r = dict(RUNS[_p][0], bounds="quick", tiers=("quick", "thorough") if (_p, _i) in QUICK else ("thorough",))
        for _k, _v in _kw.items(): _r[_k] = _v if _v is True else list(_r.get(_k, [])) + _v
        RUNS[_p].append(_r)
NOTES = {}
