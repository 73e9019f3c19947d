"""Build icbd from /repo's working tree into a scratch directory."""
import os, subprocess, sys, shutil

REPO = os.environ.get("ICB_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ADMIN_PWD = "s3cretAdm"
SAN = "-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer"


class BuildError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def build_server(scratch, sanitize=True, brick=False, name="build"):
    """Returns the path of the icbd executable."""
    bdir = os.path.join(scratch, name)
    os.makedirs(bdir, exist_ok=True)
    vt = os.path.join(bdir, "vtime.o")
    flags = (SAN if sanitize else "-g -O1") + " -w"
    _run(["gcc", "-O1", "-g", "-c", os.path.join(VERIF, "harness/vtime.c"), "-o", vt])
    _run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
          "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_C_FLAGS=" + flags, "-DBUILD_TESTING=OFF",
          "-DICBD_ENABLE_SSL=ON", "-DADMIN_PWD=" + ADMIN_PWD,
          "-DICBD_BRICK=" + ("ON" if brick else "OFF"),
          "-DCMAKE_EXE_LINKER_FLAGS=" + vt], env=dict(os.environ, LC_ALL="C"))
    _run(["ninja", "-C", bdir, "icbd"])
    exe = os.path.join(bdir, "server", "icbd")
    if not os.path.exists(exe):
        raise BuildError("no executable at " + exe)
    return exe


def config_dir(scratch):
    """A directory with the generated config.h."""
    bdir = os.path.join(scratch, "config")
    if not os.path.exists(bdir):
        os.makedirs(bdir)
        _run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=gcc",
              "-DBUILD_TESTING=OFF", "-DICBD_ENABLE_SSL=ON", "-DADMIN_PWD=" + ADMIN_PWD], env=dict(os.environ, LC_ALL="C"))
    for d, _, f in os.walk(bdir):
        if "config.h" in f:
            return d
    raise BuildError("no config.h")


def build_harness(scratch, source, sources, name, wrap=()):
    """Link harness/<source> with the server's <sources>."""
    exe = os.path.join(scratch, name)
    cfg = config_dir(scratch)
    flags = SAN.split() + ["-w", "-DHAVE_CONFIG_H", "-I" + cfg, "-I" + REPO, "-I" + REPO + "/server", "-I" + REPO + "/pktserv"]
    link = ["-Wl," + ",".join("--wrap=" + w for w in wrap)] * bool(wrap)
    main = os.path.join(VERIF, "harness", source)
    try:
        _run(["gcc"] + flags + [main] + [os.path.join(REPO, "server", x) for x in sources] + link + ["-o", exe])
    except BuildError:
        # the functions may have moved: link with everything
        objs = []
        for d in ("server", "pktserv"):
            for f in sorted(os.listdir(os.path.join(REPO, d))):
                if f.endswith(".c"):
                    o = os.path.join(scratch, "%s-%s-%s.o" % (name, d, f[:-2]))
                    _run(["gcc"] + flags + ["-Dmain=server_main", "-c", os.path.join(REPO, d, f), "-o", o])
                    objs.append(o)
        _run(["gcc"] + flags + [main] + objs + link + ["-lssl", "-lcrypto", "-lcrypt", "-o", exe])
    return exe


if __name__ == "__main__":
    print(build_server(sys.argv[1], sanitize=(len(sys.argv) < 3)))
