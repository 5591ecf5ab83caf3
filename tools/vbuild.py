#!/usr/bin/env python3
"""Builds the real ThermoFun sources of /repo in the variants the checks need.

Objects are cached under /verif/build by the SHA-256 of everything that goes
into them (compiler flags, every header of the tree and the shim, the source
itself), never by time stamps, so a change in /repo is always compiled in.
"""
import hashlib, os, subprocess, sys, concurrent.futures, pathlib, shutil

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("VERIF_BUILD", str(VERIF / "build")))
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 4)

BASE = ["-std=c++20", "-DSPDLOG_FMT_EXTERNAL", "-w", "-fno-omit-frame-pointer"]
INC = ["-I" + str(VERIF / "shim"), "-I" + str(REPO), "-I" + str(REPO / "ThermoFun")]
VARIANTS = {
    # behavioural oracles; libstdc++ bounds assertions on
    "fast": ["-O0", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"],
    # uninitialised automatic variables filled with a pattern / with zeroes
    "pat": ["-O0", "-ftrivial-auto-var-init=pattern", "-ffp-contract=off"],
    "zero": ["-O0", "-ftrivial-auto-var-init=zero", "-ffp-contract=off"],
    "asan": ["-O0", "-gline-tables-only", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off"],
    "tsan": ["-O0", "-gline-tables-only", "-fsanitize=thread", "-ffp-contract=off"],
    "cov": ["-O0", "-fprofile-instr-generate", "-fcoverage-mapping"],
}
# variants whose header-light numerical sources are optimised all the same
OPT_LIGHT = {"fast", "asan", "tsan"}
CXX = "clang++"
LIBS = ["-lfmt", "-lpthread"]
# longest first, so that the last core is not left with a long one
HEAVY = ["ThermoEngine", "Reaction", "Database", "ParseJsonToData", "ThermoModelsSubstance", "SoluteAnderson91",
         "SolidBerman88", "SolidBMGottschalk", "Exception", "SoluteHollandPowell98", "SolidHPLandau", "SoluteADgems",
         "EmpiricalCpIntegration", "s_solmod_", "WaterHGK-JNgems", "SoluteHKFreaktoro", "Substance",
         "ThermoModelsSolvent", "WaterZhangDuan2005", "SoluteHKFgems"]


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def _headers_hash():
    h = hashlib.sha256()
    for root in (REPO / "ThermoFun", VERIF / "shim"):
        for f in sorted(root.rglob("*")):
            if f.is_file() and f.suffix in (".h", ".hpp", ".hh", ".inc", ".ipp"):
                h.update(str(f).encode()); h.update(f.read_bytes())
    return h.hexdigest()


def _run(cmd, src, out):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-3000:]))
    os.replace(cmd[-1], out)


def _compile(src, obj, flags, pch=None):
    obj.parent.mkdir(parents=True, exist_ok=True)
    tmp = obj.with_suffix(".%d.tmp" % os.getpid())
    use = ["-include-pch", str(pch)] if pch is not None and pch is not True and pch is not False else []
    _run([CXX, *BASE, *INC, "-I" + str(VERIF / "harness"), *flags, *use, "-c", str(src), "-o", str(tmp)], src, obj)


def _pch(src, out, flags):
    out.parent.mkdir(parents=True, exist_ok=True)
    tmp = out.with_suffix(".%d.tmp" % os.getpid())
    _run([CXX, *BASE, *flags, "-x", "c++-header", "-fpch-instantiate-templates", "-fpch-codegen", str(src), "-o", str(tmp)], src, out)


def _pch_obj(pch, out, flags):
    tmp = out.with_suffix(".%d.tmp" % os.getpid())
    _run([CXX, *flags, "-c", str(pch), "-o", str(tmp)], pch, out)


def repo_sources():
    srcs = [f for f in sorted((REPO / "ThermoFun").rglob("*.cpp"))]
    rank = {n: i for i, n in enumerate(HEAVY)}
    srcs.sort(key=lambda f: (rank.get(f.stem, 99), str(f)))
    return srcs


def build(variant, harness, extra_flags=(), extra_sources=()):
    """Compile /repo's library in the variant, and the harness sources; link. Returns the program."""
    flags = VARIANTS[variant]
    hh = _headers_hash()
    comp = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    hsrc = sorted((VERIF / "harness").glob("*.h"))
    hhh = _sha(*[f.read_bytes() for f in hsrc])
    jobs, objs = [], []
    pch_src = VERIF / "harness" / "pch.h"
    pkey = _sha(comp, flags, BASE, pch_src.read_bytes())[:24]
    pch, pobj = BUILD / variant / ("pch-" + pkey + ".pch"), BUILD / variant / ("pch-" + pkey + ".o")
    objs.append(pobj)
    for h in [harness, *extra_sources]:
        src = VERIF / "harness" / h
        key = _sha(comp, flags, BASE, list(extra_flags), hh, hhh, src.read_bytes(), str(src))
        o = BUILD / variant / (src.stem + "-" + key[:24] + ".o")
        objs.append(o)
        if not o.exists():
            jobs.append((src, o, flags + list(extra_flags), True))
    for src in repo_sources():
        light = "/Reaktoro/" in str(src)
        fl = flags + (["-O1"] if light and variant in OPT_LIGHT else [])
        key = _sha(comp, fl, BASE, hh, src.read_bytes(), str(src))
        o = BUILD / variant / (src.stem + "-" + key[:24] + ".o")
        objs.append(o)
        if not o.exists():
            jobs.append((src, o, fl, not light))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = []
        if jobs or not pobj.exists():
            if not pch.exists():
                pf = ex.submit(_pch, pch_src, pch, flags)
                futs += [ex.submit(_compile, *j) for j in jobs if not j[3]]
                pf.result()
            else:
                futs += [ex.submit(_compile, *j) for j in jobs if not j[3]]
            futs += [ex.submit(_compile, *j[:3], pch) for j in jobs[:2] if j[3]]
            if not pobj.exists():
                futs.append(ex.submit(_pch_obj, pch, pobj, flags))
            futs += [ex.submit(_compile, *j[:3], pch) for j in jobs[2:] if j[3]]
        for f in futs:
            f.result()
    exe = BUILD / variant / (pathlib.Path(harness).stem + "-" + _sha(*[o.name for o in objs])[:16])
    if not exe.exists():
        tmp = exe.with_suffix(".%d.tmp" % os.getpid())
        san = [f for f in flags if f.startswith("-fsanitize") or f.startswith("-fno-sanitize") or f.startswith("-fprofile") or f.startswith("-fcoverage")]
        r = subprocess.run([CXX, *san, *map(str, objs), "-o", str(tmp), *LIBS], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (harness, r.stderr[-3000:]))
        os.replace(tmp, exe)
    return exe


def prune(keep_bytes=6 << 30):
    """Bound the cache: drop the oldest files once it has grown past keep_bytes."""
    if not BUILD.exists():
        return
    fs = sorted((f for f in BUILD.rglob("*") if f.is_file()), key=lambda f: f.stat().st_mtime)
    total = sum(f.stat().st_size for f in fs)
    for f in fs:
        if total <= keep_bytes:
            break
        total -= f.stat().st_size
        f.unlink()


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
