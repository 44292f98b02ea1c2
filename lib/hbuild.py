"""Build the harness binaries from /repo's current working tree (out of tree)."""
import hashlib, os, glob, subprocess, fcntl, shutil, sys
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SC = os.path.join(REPO, "scantool")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(ROOT, "build")
H = os.path.join(ROOT, "harness")
WRAPS = ("clock_gettime clock_getres clock_nanosleep nanosleep usleep sleep gettimeofday "
         "timer_create timer_settime timer_delete malloc calloc realloc free strdup").split()
# platform variants and program entry points that are not part of the unix library
EXCL = {"diag_os_win.c", "diag_tty_win.c", "diag_test.c", "diag_config.c"}
class BuildError(Exception): pass

def lib_sources():
    out = [f for f in sorted(glob.glob(SC + "/diag_*.c")) if os.path.basename(f) not in EXCL]
    return out
def cli_sources():
    out = [f for f in sorted(glob.glob(SC + "/*.c") + glob.glob(SC + "/scantool_850/*.c"))
           if not os.path.basename(f).startswith("diag_")]
    return out

VARIANTS = {
    # API harness: libraries + mock interface, virtual time, ASan
    "vh": dict(srcs=lambda: lib_sources(), own=["vh.c", "vh_extra.c", "vtime.c", "evout.c", "mockl0.c"], san=True,
               l0=["MOCK", "sim"], wraps=WRAPS, morewraps=["diag_tty_getportlist"], excl={"diag_l0_dumb.c", "diag_l0_br.c", "diag_l0_me.c", "diag_l0_dumbtest.c", "diag_l0_elm.c"}),
    # ELM harness: the real ELM driver on a scripted serial port
    "vhelm": dict(srcs=lambda: lib_sources(), own=["vh.c", "vh_extra.c", "vtime.c", "evout.c", "mockl0.c", "mocktty.c"], san=True,
               l0=["MOCK", "elm", "dumb", "br", "me"], wraps=WRAPS, excl={"diag_l0_dumbtest.c", "diag_l0_sim.c", "diag_tty_unix.c"}),
    # the serial port layer on a fake device behind the file descriptor calls
    "vtty": dict(srcs=lambda: lib_sources(), own=["vh.c", "vh_extra.c", "vtime.c", "evout.c", "mockl0.c", "fakefd.c"], san=True, cflags=["-U_FORTIFY_SOURCE"],
               l0=["MOCK"], wraps=WRAPS, morewraps="open close fcntl ioctl isatty select poll read write opendir readdir closedir tcdrain tcflush".split(),
               excl={"diag_l0_dumb.c", "diag_l0_br.c", "diag_l0_me.c", "diag_l0_dumbtest.c", "diag_l0_elm.c", "diag_l0_sim.c"}),
    # whole program: real main, mock + simulator interfaces, virtual time
    "vcli": dict(srcs=lambda: lib_sources() + cli_sources(), own=["vh.c", "vh_extra.c", "vh_cli.c", "vtime.c", "evout.c", "mockl0.c"], san=True,
               l0=["MOCK", "DUMB", "sim"], wraps=WRAPS, morewraps=["diag_tty_getportlist", "diag_os_ipending", "exit"], excl={"diag_l0_dumb.c", "diag_l0_br.c", "diag_l0_me.c", "diag_l0_dumbtest.c", "diag_l0_elm.c"}),
}
L2 = "iso9141 can iso14230 mb1 raw saej1850 vag d2 test".split()

def gen_config(l0, path):
    sym = lambda n: {"MOCK": "vmock", "DUMB": "vdumb"}.get(n, "diag_l0_" + n)
    t = "#include <stdlib.h>\n"
    for n in l0: t += "extern const struct diag_l0 %s;\n" % sym(n)
    for n in L2: t += "extern const struct diag_l2_proto diag_l2_proto_%s;\n" % n
    for n in ("j1979", "vag", "iso14230"): t += "extern const struct diag_l3_proto diag_l3_%s;\n" % n
    t += "const struct diag_l0 *l0dev_list[]={%s NULL};\n" % "".join("&%s," % sym(n) for n in l0)
    t += "const struct diag_l2_proto *l2proto_list[]={%s NULL};\n" % "".join("&diag_l2_proto_%s," % n for n in L2)
    t += "const struct diag_l3_proto *diag_l3_protocols[]={&diag_l3_j1979,&diag_l3_vag,&diag_l3_iso14230,NULL};\n"
    open(path, "w").write(t)

def _hash(variant):
    h = hashlib.sha256()
    fs = sorted(glob.glob(SC + "/*.[ch]") + glob.glob(SC + "/scantool_850/*.[ch]") + glob.glob(H + "/*.[ch]") + glob.glob(H + "/inc/*.h"))
    for f in fs:
        h.update(f.encode()); h.update(open(f, "rb").read())
    h.update(open(__file__, "rb").read()); h.update(variant.encode())
    return h.hexdigest()[:16]

def build(variant="vh"):
    """returns the path of the binary"""
    v = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-" + variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    d = os.path.join(BUILD, "%s-%s" % (variant, _hash(variant)))
    binp = os.path.join(d, variant)
    if os.path.exists(binp): return binp
    olds = sorted(glob.glob(os.path.join(BUILD, variant + "-*")), key=os.path.getmtime)
    for o in olds[:-3]: shutil.rmtree(o, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    gen_config(v["l0"], d + "/diag_config.c")
    cf = "-std=gnu99 -O1 -g -D_GNU_SOURCE -fno-omit-frame-pointer -fno-common -w".split()
    if v["san"]: cf += ["-fsanitize=address"]
    cf += ["-I" + os.path.join(H, "inc"), "-I" + H, "-I" + SC, "-I" + SC + "/scantool_850"]
    cf += v.get("cflags", [])
    jobs = []
    for s in v["srcs"]():
        if os.path.basename(s) in v["excl"]: continue
        o = d + "/r_" + os.path.relpath(s, SC).replace("/", "_")[:-2] + ".o"
        extra = ["-Dmain=freediag_main"] if os.path.basename(s) == "scantool.c" else []
        jobs.append((["gcc"] + cf + extra + ["-DCURFILE=\"%s\"" % os.path.basename(s), "-c", s, "-o", o], o))
    for s in v["own"]:
        o = d + "/h_" + s[:-2] + ".o"
        jobs.append((["gcc"] + cf + ["-DCURFILE=\"%s\"" % s, "-DVARIANT_%s" % variant, "-c", os.path.join(H, s), "-o", o], o))
    jobs.append((["gcc"] + cf + ["-DCURFILE=\"diag_config.c\"", "-c", d + "/diag_config.c", "-o", d + "/diag_config.o"], d + "/diag_config.o"))
    def run(j):
        r = subprocess.run(j[0], capture_output=True, text=True)
        if r.returncode: raise BuildError(" ".join(j[0]) + "\n" + r.stderr)
    with ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    tmp = binp + ".tmp"
    link = ["gcc"] + (["-fsanitize=address"] if v["san"] else []) + ["-o", tmp] + [j[1] for j in jobs] + \
           ["-Wl,--wrap=" + w for w in v["wraps"] + v.get("morewraps", [])] + ["-lm", "-lpthread", "-lrt"]
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr)
    os.rename(tmp, binp)
    return binp
if __name__ == "__main__":
    for v in sys.argv[1:] or VARIANTS: print(build(v))
