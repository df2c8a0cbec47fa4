"""Builds the executor from /repo's current working tree (cached by content)."""
import glob, hashlib, os, subprocess, sys, fcntl, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

WRAPS = """malloc calloc realloc strdup strndup open creat read pread write pwrite lseek mkstemp
fstat stat unlink fopen fclose Fopen Fread Fwrite Fseek Ftell Fclose close fork waitpid execl ZSTD_createCCtx ZSTD_createDCtx LZ_compress_open LZ_decompress_open
deflateInit2_ inflateInit2_ inflate BZ2_bzCompressInit BZ2_bzDecompressInit BZ2_bzDecompress lzma_alone_encoder lzma_easy_encoder
lzma_auto_decoder lzma_code ZSTD_compressStream2 ZSTD_decompressStream rpmReadConfigFiles headerRead headerImport
deflate BZ2_bzCompress LZ_compress_write LZ_decompress_write LZ_compress_read LZ_decompress_read MD5_Update SHA256_Update""".split()

# with two threads under control: what is not reentrant, and what is given buffers
PAR_WRAPS = """strtok strerror localtime gmtime ctime asctime umask chdir setlocale setenv unsetenv getenv tmpnam tempnam rand random
memcpy memmove memset __asan_memcpy __asan_memmove __asan_memset strcpy strncpy strcat strncat memcmp strlen strcmp strncmp strchr strrchr strstr
strcspn strtol atoi sprintf snprintf pthread_mutex_lock MD5_Init MD5_Final SHA256_Init SHA256_Final""".split()
PAR_CF = ["-fsanitize-coverage=edge,trace-loads,trace-stores", "-fno-builtin"]

CONFIG = """#ifndef _CONFIG_H_
#define _CONFIG_H_
#define HAVE_LZLIB_DEVEL
#define WITH_ZSTD
#define _XOPEN_SOURCE 700
#endif
"""
CC = "clang"
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"]
LIBS = ["-lrpm", "-lrpmio", "-lcrypto", "-lz", "-lbz2", "-llzma", "-lzstd", "-llz"]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])


def build(variant="default", defines=(), san=True):
    """Returns the path of the executor for this variant of the current tree.  Variants called plain... go without AddressSanitizer; defines
    that start with a dash are passed to the compiler as they are, no:X leaves X out of config.h, and (file, text) pairs put a text ahead of
    one source file; PAR is for two threads under control."""
    san = san and not variant.startswith("plain")
    srcs = sorted(glob.glob(REPO + "/src/*.c"))
    hdrs = sorted(glob.glob(REPO + "/src/*.h"))
    main = os.path.join(VERIF, "harness", "exec.c")
    h = hashlib.sha256()
    for f in srcs + hdrs + sorted(glob.glob(os.path.join(VERIF, "harness", "*.[ch]"))) + [os.path.abspath(__file__)]:
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    ahead = dict(x for x in defines if isinstance(x, tuple))
    defines = [x for x in defines if not isinstance(x, tuple)]
    par = "PAR" in defines
    wraps = WRAPS + (PAR_WRAPS if par else [])
    h.update(CONFIG.encode())
    h.update(repr((variant, sorted(defines), sorted(ahead.items()), san)).encode())
    d = os.path.join(OUT, variant + "-" + h.hexdigest()[:20])
    exe = os.path.join(d, "exec")
    if os.path.exists(exe):
        return exe
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        for old in glob.glob(os.path.join(OUT, variant + "-*")):
            shutil.rmtree(old, ignore_errors=True)
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with open(os.path.join(tmp, "config.h"), "w") as f:
            f.write("".join(l + "\n" for l in CONFIG.splitlines() if not any(x == "no:" + l.split()[-1] for x in defines)))
        sanf = SAN if san else []
        cf = [CC, "-std=gnu17", "-O1", "-g", "-w", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion",
              "-Wno-error=incompatible-function-pointer-types", "-Wno-error=implicit-int", "-DHAVE_CONFIG_H", "-I" + tmp, "-I" + REPO + "/src"] + sanf
        cf += [x if x.startswith("-") else "-D" + x for x in defines if not x.startswith("no:")]
        jobs = []
        for s in srcs:
            o = os.path.join(tmp, "lib_" + os.path.basename(s) + ".o")
            pre = []
            if os.path.basename(s) in ahead:
                inc = o + ".ahead.h"
                with open(inc, "w") as f:
                    f.write(ahead[os.path.basename(s)])
                pre = ["-include", inc]
            jobs.append((cf + (PAR_CF if par else []) + pre + ["-c", s, "-o", o], o))
        mo = os.path.join(tmp, "main.o")
        # the executor itself must not be wrapped: its calls go through objcopy-renamed symbols
        jobs.append((cf + ["-c", main, "-o", mo], mo))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(_run, [j[0] for j in jobs]))
        libo = os.path.join(tmp, "drpm_all.o")
        objs = [j[1] for j in jobs[:-1]]
        # --wrap in a relocatable link touches only the library's objects
        _run(["ld", "-r"] + ["--wrap=" + w for w in wraps] + objs + ["-o", libo])
        # __real_X (used by main.o) is plain X
        ren = []
        for w in wraps:
            ren += ["--redefine-sym", "__real_%s=%s" % (w, w)]
        _run(["objcopy"] + ren + [mo])
        _run([CC] + sanf + ["-g", libo, mo, "-o", os.path.join(tmp, "exec")] + LIBS)
        os.rename(tmp, d)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["default"]:
        print(build(v))
