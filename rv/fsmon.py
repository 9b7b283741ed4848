"""File-system monitors: snapshots of folders and an audit-event recorder."""
import os
import stat
import sys

EVENTS = {"on": False, "log": []}
WATCH = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.symlink", "os.link", "os.chmod", "os.chown", "os.truncate", "os.utime",
         "shutil.rmtree", "shutil.copyfile", "shutil.move", "subprocess.Popen", "os.system", "os.exec", "os.posix_spawn", "os.fork", "os.putenv",
         "socket.connect", "socket.getaddrinfo", "socket.bind", "socket.sendto", "urllib.Request", "ctypes.dlopen", "os.chdir", "os.setxattr", "os.removexattr",
         "tempfile.mkdtemp", "tempfile.mkstemp"}
_installed = []


def _hook(event, args):
    if EVENTS["on"] and event in WATCH:
        if event in ("os.remove", "os.rmdir", "os.mkdir", "os.chmod") and isinstance(args[-1], int) and args[-1] >= 0 and isinstance(args[0], str):
            # relative to an open folder
            try:
                args = (os.path.join(os.readlink("/proc/self/fd/%d" % args[-1]), args[0]),)
            except OSError:
                pass
        EVENTS["log"].append((event, args))


class Audit:
    """with Audit() as log: ...   -> list of (event, args)"""

    def __enter__(self):
        if not _installed:
            sys.addaudithook(_hook)
            _installed.append(1)
        EVENTS["log"] = []
        EVENTS["on"] = True
        return EVENTS["log"]

    def __exit__(self, *a):
        EVENTS["on"] = False


WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def writes(log):
    """(event, path) of events that may change the file system"""
    out = []
    for e, a in log:
        if e == "open":
            path, mode, flags = (tuple(a) + (None, None))[:3]
            w = (isinstance(mode, str) and any(c in mode for c in "wax+")) or (isinstance(flags, int) and flags & WRITE_FLAGS)
            if w and not isinstance(path, int):
                out.append((e, os.fspath(path) if path is not None else ""))
        elif e in ("os.rename", "shutil.move", "shutil.copyfile", "os.symlink", "os.link"):
            out.append((e, os.fspath(a[1])))
            if e in ("os.rename", "shutil.move"):
                out.append((e, os.fspath(a[0])))
        elif e.startswith(("os.mk", "os.re", "os.rm", "os.ch", "os.tr", "os.ut", "shutil.rm", "os.set")) and a and not isinstance(a[0], int):
            out.append((e, os.fspath(a[0])))
    return [(e, p.decode("utf-8", "replace") if isinstance(p, bytes) else p) for e, p in out]


def outside(log):
    """events that reach out of the process"""
    return [(e, a) for e, a in log if e.startswith(("subprocess", "os.system", "os.exec", "os.posix_spawn", "os.fork", "socket", "urllib", "os.putenv", "ctypes", "os.chdir"))]


def snapshot(root, skip=()):
    """{relative path: (kind, mode, content or target)}"""
    out = {}
    for d, dirs, files in os.walk(root):
        dirs.sort()
        dirs[:] = [x for x in dirs if os.path.join(d, x) not in skip]
        for n in dirs + files:
            p = os.path.join(d, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                v = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                v = ("dir", stat.S_IMODE(st.st_mode))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    v = ("file", stat.S_IMODE(st.st_mode), st.st_nlink, st.st_mtime_ns, f.read())
            else:
                v = ("special", st.st_mode)
            out[os.path.relpath(p, root)] = v
    return out


def changes(a, b):
    return ([("gone", p) for p in a if p not in b] + [("new", p) for p in b if p not in a] + [("changed", p) for p in a if p in b and a[p] != b[p]])
