"""The outside world of the code under analysis: a file system, processes and time that exist only inside the analysis.
Every access is recorded; what files contain and what processes answer is decided by the rule being checked."""
from __future__ import annotations

import os.path
import re

from .values import *  # noqa: F401,F403


def norm(p):
    return os.path.normpath(p)


class World:
    def __init__(self, it, files=None, popen=None, run=None, sleep=None, resource=None):
        """files: path -> str; popen(world, [args]) -> {poll: fn() -> None|int, stdout, stderr}; run(world, [args]) -> (returncode, stdout str);
        sleep(world): time passes; resource(package, name) -> str"""
        self.it = it
        self.files = {norm(k): [K(v)] if isinstance(v, str) else list(v) for k, v in (files or {}).items()}
        self.dirs = set()
        self.log = []
        self.popen, self.run, self.sleep, self.resource = popen, run, sleep, resource
        self.install()

    # ------------------------------------------------------------ files
    def text(self, path):
        ps = self.files[norm(path)]
        if all(isinstance(p, K) for p in ps):
            return "".join(p.v if isinstance(p.v, str) else p.v.decode() for p in ps)
        return None

    def content(self, path):
        t = self.text(path)
        return K(t) if t is not None else Str(list(self.files[norm(path)]))

    def put(self, path, text):
        self.files[norm(path)] = [K(text)] if isinstance(text, str) else list(text)

    def path_of(self, v):
        it = self.it
        if isinstance(v, K) and isinstance(v.v, str):
            return v.v
        if isinstance(v, Ref) and isinstance(it.get(v), HInst) and "path" in it.get(v).fields:
            return it.get(v).fields["path"].v
        raise TypeError("a path is not a constant: %s" % show(v))

    def fnf(self, p):
        return self.it.exc("builtins.FileNotFoundError", "No such file or directory: %r" % p)

    def open(self, p, mode="r"):
        it = self.it
        q = norm(p)
        if "w" in mode or "x" in mode:
            self.log.append(("create", q))
            self.files[q] = []
        elif "a" in mode:
            self.log.append(("append", q))
            self.files.setdefault(q, [])
        else:
            self.log.append(("read", q))
            if q not in self.files:
                raise self.fnf(p)
        pos = [0]
        binary = "b" in mode

        def rd():
            t = self.text(q)
            if t is None:
                return self.content(q)
            t = t[pos[0]:]
            pos[0] = len(self.text(q))
            return K(t.encode() if binary else t)

        def lines():
            t = rd()
            if not isinstance(t, K):
                raise TypeError("lines of a text that is not constant")
            return it.new_list([K(x) for x in t.v.splitlines(True)])

        def readline():
            t = self.text(q)[pos[0]:]
            l = t.splitlines(True)[0] if t else ""
            pos[0] += len(l)
            return K(l)

        def write(v):
            self.files[q].append(v)
            return K(len(v.v)) if isinstance(v, K) else NONE
        r = it.new_inst(Ext("io.TextIOWrapper"), {})
        N = lambda n, f: Native(n, lambda it_, a, kw: f(*a))
        it.mut(r).fields.update({
            "name": K(p), "world": TRUE, "read": N("read", rd), "readlines": N("readlines", lines), "readline": N("readline", readline), "write": N("write", write), "__iter__": N("__iter__", lines),
            "writelines": N("writelines", lambda xs: [write(x) for x in it.iter_items(xs)] and NONE), "close": N("close", lambda: NONE), "flush": N("flush", lambda: NONE),
            "__enter__": N("__enter__", lambda: r), "__exit__": N("__exit__", lambda *a: NONE)})
        return r

    def unlink(self, p, missing_ok=False):
        q = norm(p)
        self.log.append(("delete", q))
        if q not in self.files:
            if missing_ok:
                return NONE
            raise self.fnf(p)
        del self.files[q]
        return NONE

    def glob(self, d, pat):
        import fnmatch
        pre = norm(d)
        out = []
        for f in sorted(self.files):
            dn, bn = os.path.split(f)
            if (dn or ".") == pre and fnmatch.fnmatchcase(bn, pat):
                out.append(os.path.join(pre, bn) if pre != "." else bn)
        return out

    def mkpath(self, p):
        it = self.it
        r = it.new_inst(Ext("pathlib.PosixPath"), {"path": K(p)})
        N = lambda n, f: Native(n, lambda it_, a, kw: f(*a, **kw))
        b = os.path.basename(norm(p))
        it.mut(r).fields.update({
            "is_file": N("is_file", lambda: K(norm(p) in self.files)), "exists": N("exists", lambda: K(self.exists(p))), "is_dir": N("is_dir", lambda: K(self.isdir(p))),
            "unlink": N("unlink", lambda missing_ok=FALSE: self.unlink(p, missing_ok == TRUE)), "read_text": N("read_text", lambda **k: self.it.call(self.it.getattr(self.open(p), "read"), [], {})),
            "write_text": N("write_text", lambda t, **k: self.it.call(self.it.getattr(self.open(p, "w"), "write"), [t], {})),
            "open": N("open", lambda mode=K("r"), **k: self.open(p, mode.v)), "glob": N("glob", lambda pat: it.new_list([self.mkpath(x) for x in self.glob(p, pat.v)])),
            "iterdir": N("iterdir", lambda: it.new_list([self.mkpath(x) for x in self.glob(p, "*")])), "mkdir": N("mkdir", lambda *a, **k: self.mkdir(p)),
            "joinpath": N("joinpath", lambda *a: self.mkpath(os.path.join(p, *[x.v for x in a]))), "__truediv__": N("__truediv__", lambda x: self.mkpath(os.path.join(p, self.path_of(x)))),
            "__str__": N("__str__", lambda: K(p)), "name": K(b), "stem": K(os.path.splitext(b)[0]), "suffix": K(os.path.splitext(b)[1])})
        if norm(p) not in (".", "/"):
            it.mut(r).fields["parent"] = self.mkpath(os.path.dirname(p) or ".")
        same = lambda **k: r
        it.mut(r).fields.update({"resolve": N("resolve", same), "absolute": N("absolute", same), "expanduser": N("expanduser", same), "as_posix": N("as_posix", lambda: K(p)), "__fspath__": N("__fspath__", lambda: K(p)),
                                 "with_suffix": N("with_suffix", lambda s: self.mkpath(os.path.splitext(p)[0] + s.v)), "with_name": N("with_name", lambda s: self.mkpath(os.path.join(os.path.dirname(p), s.v)))})
        return r

    def isdir(self, p):
        q = norm(p)
        return q == "." or q in self.dirs or any(f.startswith(q + "/") for f in self.files)

    def exists(self, p):
        return norm(p) in self.files or self.isdir(p)

    def mkdir(self, p):
        self.dirs.add(norm(p))
        self.log.append(("mkdir", norm(p)))
        return NONE

    # ------------------------------------------------------------ processes
    def argv(self, v):
        out = []
        if isinstance(v, K) and isinstance(v.v, str):
            import shlex
            return shlex.split(v.v)
        for x in self.it.iter_items(v):
            if isinstance(x, K):
                out.append(x.v)
            elif isinstance(x, Ref):
                out.append(self.path_of(x))
            else:
                out.append(x)
        return out

    def f_run(self, it, a, kw):
        av = self.argv(a[0] if a else kw["args"])
        self.log.append(("run", tuple(av)))
        rc, out = self.run(self, av)
        text = any(kw.get(k) == TRUE for k in ("text", "universal_newlines")) or "encoding" in kw
        o = K(out if text else out.encode())
        captured = kw.get("capture_output") == TRUE or "stdout" in kw
        if rc and kw.get("check") == TRUE:
            raise it.exc("subprocess.CalledProcessError", "exit status %d" % rc)
        return it.new_inst(Ext("subprocess.CompletedProcess"), {"returncode": K(rc), "stdout": o if captured else NONE, "stderr": K("" if text else b"") if ("stderr" in kw or kw.get("capture_output") == TRUE) else NONE, "args": a[0] if a else kw["args"]})

    def f_popen(self, it, a, kw):
        av = self.argv(a[0] if a else kw["args"])
        self.log.append(("popen", tuple(av)))
        p = self.popen(self, av)
        N = lambda n, f: Native(n, lambda it_, a_, kw_: f(*a_, **kw_))
        r = it.new_inst(Ext("subprocess.Popen"), {})

        def poll():
            rc = p.poll()
            v = NONE if rc is None else K(rc)
            it.mut(r).fields["returncode"] = v
            return v

        def communicate(*a_, **k_):
            while p.poll() is None:
                self.sleep(self)
            poll()
            return Tup([K(p.stdout.encode()), K(p.stderr.encode())])

        def wait(*a_, **k_):
            while p.poll() is None:
                self.sleep(self)
            return poll()

        def killed():
            self.log.append(("kill", tuple(av)))
            return NONE
        mk = lambda t: it.new_inst(Ext("io.BufferedReader"), {"read": N("read", lambda *x: K(t().encode())), "readlines": N("readlines", lambda: it.new_list([K(l.encode()) for l in t().splitlines(True)]))})
        it.mut(r).fields.update({"poll": N("poll", poll), "communicate": N("communicate", communicate), "wait": N("wait", wait), "kill": N("kill", killed), "terminate": N("terminate", killed),
                                 "stdout": mk(lambda: p.stdout), "stderr": mk(lambda: p.stderr), "returncode": NONE, "pid": K(4242), "args": a[0] if a else kw["args"],
                                 "__enter__": N("__enter__", lambda: r), "__exit__": N("__exit__", lambda *x: NONE)})
        return r

    # ------------------------------------------------------------ installation
    def install(self):
        it = self.it
        m = it.ext_models

        def mode(a, kw):
            v = a[1] if len(a) > 1 else kw.get("mode", K("r"))
            return v.v
        P = self.path_of
        m["builtins.open"] = m["io.open"] = lambda it_, a, kw: self.open(P(a[0] if a else kw["file"]), mode(a, kw))
        m["pathlib.Path"] = m["pathlib.PosixPath"] = lambda it_, a, kw: self.mkpath(os.path.join(*[P(x) for x in a]) if a else ".")
        m["os.path.exists"] = lambda it_, a, kw: K(self.exists(P(a[0])))
        m["os.path.isfile"] = lambda it_, a, kw: K(norm(P(a[0])) in self.files)
        m["os.path.isdir"] = lambda it_, a, kw: K(self.isdir(P(a[0])))
        m["os.path.join"] = lambda it_, a, kw: K(os.path.join(*[P(x) for x in a]))
        m["os.path.basename"] = lambda it_, a, kw: K(os.path.basename(P(a[0])))
        m["os.path.dirname"] = lambda it_, a, kw: K(os.path.dirname(P(a[0])))
        m["os.mkdir"] = m["os.makedirs"] = lambda it_, a, kw: self.mkdir(P(a[0]))
        m["os.remove"] = m["os.unlink"] = lambda it_, a, kw: self.unlink(P(a[0]))
        m["os.listdir"] = lambda it_, a, kw: it_.new_list([K(os.path.basename(x)) for x in self.glob(P(a[0]) if a else ".", "*")])
        m["glob.glob"] = lambda it_, a, kw: it_.new_list([K(x) for x in self.glob(os.path.dirname(P(a[0])) or ".", os.path.basename(P(a[0])))])
        m["glob.escape"] = lambda it_, a, kw: K(__import__("glob").escape(a[0].v))
        m["time.sleep"] = self.f_sleep
        m["time.time"] = lambda it_, a, kw: K(1000.0)
        m["subprocess.run"] = self.f_run
        m["subprocess.Popen"] = self.f_popen

        def check_output(it_, a, kw):
            r = self.f_run(it_, a, dict(kw, stdout=K(-1), check=TRUE))
            return it_.get(r).fields["stdout"]
        m["subprocess.check_output"] = check_output
        if self.resource is not None:
            def rt(it_, a, kw):
                return K(self.resource(a[0], a[1].v))
            m["importlib.resources.read_text"] = rt

    def f_sleep(self, it, a, kw):
        self.log.append(("sleep",))
        if self.sleep:
            self.sleep(self)
        return NONE
