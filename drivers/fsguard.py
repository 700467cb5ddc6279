"""Keeps destructive file operations of the code under test inside one directory:
a call aimed anywhere else is recorded and refused."""
import builtins, os, shlex, shutil, subprocess

ESCAPES = []


class Escaped(Exception):
    pass


def inside(root, path):
    p = os.path.realpath(os.fspath(path))
    return p == root or p.startswith(root + os.sep)


def install(root):
    root = os.path.realpath(root)

    def check(path, what):
        try:
            ok = inside(root, path) and os.path.realpath(os.fspath(path)) != root
        except TypeError:
            ok = False
        if not ok:
            ESCAPES.append("%s %s" % (what, path))
            raise Escaped("%s %s outside %s" % (what, path, root))

    def wrap(mod, name, n=1):
        f = getattr(mod, name)

        def g(*a, **k):
            if k.get("dir_fd") is None:       # (rmtree's own calls are relative to checked directories)
                for p in a[:n]:
                    check(p, name)
            return f(*a, **k)
        setattr(mod, name, g)
    for name in ("remove", "unlink", "rmdir", "removedirs"):
        wrap(os, name)
    for name in ("rename", "replace", "renames"):
        wrap(os, name, 2)
    wrap(shutil, "rmtree")
    wrap(shutil, "move", 2)
    real_system = getattr(os, "_real_system", os.system)

    def system(cmd):
        words = shlex.split(cmd)
        if not words or words[0] not in ("rm", "mkdir", "mv", "cp", "touch") or any(c in cmd for c in ";|&`$<>"):
            ESCAPES.append(cmd)
            raise Escaped("command " + cmd)
        for w in words[1:]:
            if not w.startswith("-"):
                check(w.split("*")[0].rstrip("/") or "/", words[0])
        return real_system(cmd)
    os.system = system

    def refuse(*a, **k):
        ESCAPES.append("subprocess %r" % (a[:1],))
        raise Escaped("subprocess %r" % (a[:1],))
    for name in ("run", "call", "check_call", "check_output", "Popen"):
        setattr(subprocess, name, refuse)
