"""C27: bulk file deletion removes exactly the matching files of the given folder.

Everything happens in a scratch directory this check makes and removes. While the code under test runs, an audit hook refuses every
change of the file system outside that directory, and every start of another program, before it happens.
"""
import contextlib
import io
import os
import shutil
import sys
import tempfile

from .. import build, gen
from ..core import Sub, Violation, require

RULE = "Directory trees up to ten deep with matching, nearly matching and other names, folders with matching names, links, both modes."
EXTS = [".txt", ".png", ".tar.gz", ".c", ".TXT", "_x.dat", ".p y", ".é", ".txt ", ". c", ".[1]", ".t?t", ".d*"]
FS = {"os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.chmod", "os.chown", "os.utime", "shutil.rmtree", "os.setxattr", "os.removexattr"}
FS2 = {"os.rename", "os.link", "os.symlink", "shutil.move", "shutil.copyfile", "shutil.copytree"}
RUN = {"subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.spawn", "os.fork", "os.forkpty", "os.startfile", "pty.spawn", "ctypes.dlopen", "ctypes.dlsym",
       "os.kill", "os.killpg", "socket.connect"}
guard = {"root": None, "on": False, "hooked": False, "broken": None}


def where(path, dir_fd):
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        base = os.readlink("/proc/self/fd/%d" % dir_fd) if isinstance(dir_fd, int) and dir_fd >= 0 else os.getcwd()
        path = os.path.join(base, path)
    path = path.rstrip("/") or "/"
    return os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))


def refuse(what):
    guard["broken"] = guard["broken"] or what
    raise PermissionError("the check refuses: " + what)


def hook(event, args):
    if not guard["on"]:
        return
    if event in RUN:
        refuse("%s %r" % (event, args[:1]))
    paths = []
    if event in FS:
        if isinstance(args[0], int):
            paths = [os.readlink("/proc/self/fd/%d" % args[0])]
        else:
            fd = [a for a in args[1:] if isinstance(a, int)]
            paths = [where(args[0], fd[-1] if fd else -1)]
    elif event in FS2:
        fds = [a for a in args[2:] if isinstance(a, int)] + [-1, -1]
        paths = [where(args[0], fds[0]), where(args[1], fds[1])]
    elif event == "open" and isinstance(args[0], (str, bytes)) and isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
        if os.fsdecode(args[0]) not in ("/dev/null",):
            paths = [where(args[0], -1)]
    for p in paths:
        if not (p + "/").startswith(guard["root"] + "/"):
            refuse("%s outside the folder: %s" % (event, p))


# ---------------------------------------------------------------- cases
STEMS = ["a", "b", "data", "x.y", "note", "", "é", "long name", ".hidden"]


def name(s, ext):
    stem = s.pick(STEMS)
    k = s.byte()
    if k < 110:
        n = stem + ext
    elif k < 125:
        n = stem + ext + ext
    elif k < 140:
        n = stem + ext + ".bak"
    elif k < 155:
        n = stem + (ext.upper() if ext.upper() != ext else ext.lower())
    elif k < 170:
        n = stem + ext[1:]
    elif k < 185:
        n = stem + ext[:-1]
    elif k < 200:
        n = ext + stem
    elif k < 215:
        n = "." + stem + ext
    else:
        n = stem + s.pick([".md", ".jpg", "", ".txt", ".png"])
    if n in ("", ".", ".."):
        n = "z"
    return n


def relative(s, n, ext):
    """The name of a companion of that file: a backup, a lock, a copy."""
    stem = n[:-len(ext)] if n.endswith(ext) else n
    return s.pick([n + "~", n + ".bak", n + ".orig", "." + n + ".swp", "#" + n + "#", "~$" + n, n + ".tmp", stem, stem + ".aux", stem + ".log", stem + "_files", n + " (1)",
                   stem + ".TXT", n + ".lock", "._" + n, n + ".meta", n + ":x", stem + "-old" + ext])


def folder(s, ext, depth):
    out = {}
    for _ in range(s.weighted((1, 0), (6, lambda s: s.int(1, 6))) if depth < 4 else s.int(1, 2)):
        n = relative(s, s.pick(sorted(out)), ext) if out and s.bool(0.2) else name(s, ext)
        if n in ("", ".", ".."):
            n = "z"
        k = s.byte()
        if (k < 90 or depth > 3) and depth > 0:
            out[n] = folder(s, ext, depth - 1)
        elif k < 105:
            out[n] = s.pick(["->out", "->out/in" + ext, "->nowhere" + ext, "->../side"])
        else:
            out[n] = s.pick(["", "text", "ro"])
    return out


def case(s):
    ext = s.pick(EXTS)
    return {"ext": ext, "tree": folder(s, ext, s.weighted((6, lambda s: s.int(0, 3)), (1, lambda s: s.int(4, 9)))), "rec": s.bool(), "how": s.pick(["abs", "slash", "rel", "dot", "left out", "cwd"]),
            "name": s.pick(["target", "the folder", "dir" + ext, "data[1]"])}


def make(base, spec, out):
    for n, v in spec.items():
        p = os.path.join(base, n)
        if isinstance(v, dict):
            os.mkdir(p)
            make(p, v, out)
        elif v.startswith("->"):
            t = v[2:]
            os.symlink(os.path.join(out, t[4:]) if t.startswith("out/") else out if t == "out" else t, p)
        else:
            with open(p, "w") as f:
                f.write(v)
            if v == "ro":
                os.chmod(p, 0o444)


def listing(root):
    """every path under root -> what it is"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs + files:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = "-> " + os.readlink(p)
            elif os.path.isdir(p):
                out[r] = "folder"
            else:
                with open(p) as f:
                    out[r] = "file " + f.read()
    return out


def o_delete(c):
    if not guard["hooked"]:
        sys.addaudithook(hook)
        guard["hooked"] = True
    base = os.path.realpath(tempfile.mkdtemp(prefix="pbt-c27-"))
    back = os.getcwd()
    try:
        return run(c, base)
    finally:
        guard["on"] = False
        os.chdir(back)
        shutil.rmtree(base)


def run(c, base):
    ext = c["ext"]
    work = os.path.join(base, "work")
    target = os.path.join(work, c["name"])
    out = os.path.join(base, "out")
    for d in (work, target, out, os.path.join(work, "side")):
        os.mkdir(d)
    make(target, c["tree"], out)
    # the same names, and matching ones, everywhere around it
    for n in list(c["tree"]) + ["in" + ext, "a" + ext]:
        for d in (work, out, base, os.path.join(work, "side")):
            p = os.path.join(d, n)
            if not os.path.lexists(p):
                with open(p, "w") as f:
                    f.write("outside")
    before = listing(base)
    inside = os.path.join("work", c["name"]) + "/"
    must, may = set(), set()
    for p, what in before.items():
        if not p.startswith(inside) or not os.path.basename(p).endswith(ext) or what == "folder":
            continue
        if "/" in p[len(inside):] and not c["rec"]:
            continue
        if what.startswith("-> "):
            if not os.path.isdir(os.path.join(base, p)):
                (must if os.path.isfile(os.path.join(base, p)) else may).add(p)  # a link to nothing may count as a file
        else:
            must.add(p)
    os.chdir(target if c["how"] == "cwd" else work)
    arg = {"abs": target, "slash": target + "/", "rel": c["name"], "dot": "./" + c["name"], "left out": target, "cwd": "."}[c["how"]]
    said = io.StringIO()
    guard.update(root=base, broken=None, on=True)
    try:
        with contextlib.redirect_stdout(said):
            if c["how"] == "left out" and not c["rec"]:
                build.gen_.delete_files_with_extension(arg, ext)
            else:
                build.gen_.delete_files_with_extension(arg, ext, c["rec"])
    except Exception as e:
        if not guard["broken"]:
            raise Violation("deleting %r in %r raised %s: %s" % (ext, sorted(c["tree"]), type(e).__name__, e))
    finally:
        guard["on"] = False
    require(not guard["broken"], "the code tried this: %s", guard["broken"])
    after = listing(base)
    gone = set(before) - set(after)
    for p in sorted(gone - must - may):
        require(False, "%s (%s) was removed; extension %r, subfolders %s", p, before[p], ext, c["rec"])
    for p in sorted(must - gone):
        require(False, "%s was not removed; extension %r, subfolders %s", p, ext, c["rec"])
    for p in sorted(set(after) - set(before)):
        require(False, "%s appeared", p)
    lines = said.getvalue().splitlines()
    told = sorted(os.path.basename(x) if "/" in x else x.split(" ", 1)[-1] for x in lines)
    require(told == sorted(os.path.basename(p) for p in gone), "it removed %s and said %s", sorted(gone), lines)
    for p in after:
        require(after[p] == before[p], "%s changed from %s to %s", p, before[p], after[p])
    tags = ["recursive" if c["rec"] else "flat"]
    if must:
        tags.append("nt")
    if any(p.startswith(inside) and what == "folder" and p.endswith(ext) for p, what in before.items()):
        tags.append("folder with a matching name")
    if any(p.startswith(inside) and what.startswith("->") for p, what in before.items()):
        tags.append("links")
    return tags


SUBS = [
    Sub("delete", lambda: gen.decoded(case, 220), o_delete, quick=2400, shards=4, thorough=60000, rule="at least one file has to go"),
]
