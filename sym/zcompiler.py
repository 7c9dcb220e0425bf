"""Builds the zserio compiler from /repo's current sources (outside /repo) and runs it on schemas of /verif."""

import glob
import hashlib
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
JARS = os.path.join(REPO, "3rdparty/java")
CORE = os.path.join(REPO, "compiler/core")
EXTENSIONS = ("python", "java", "cpp")


class BuildError(Exception):
    """The compiler does not build or rejects a schema."""


class SchemaRejected(BuildError):
    """The compiler, built without errors, does not generate code for a valid schema."""

    def __init__(self, command, output):
        super().__init__("zserio failed: " + output[-3000:])
        self.command, self.output = command, output


def _hash(paths):
    digest = hashlib.sha256()
    for path in paths:
        digest.update(path.encode())
        with open(path, "rb") as file:
            digest.update(hashlib.sha256(file.read()).digest())
    return digest.hexdigest()[:20]


def _files(root, *suffixes):
    out = []
    for folder, _, names in os.walk(root):
        out += [os.path.join(folder, name) for name in names if not suffixes or name.endswith(suffixes)]
    return sorted(out)


def classpath():
    return [os.path.join(JARS, name) for name in
            ("antlr-4.7.2-complete.jar", "commons-cli-1.4.jar", "freemarker-2.3.28.jar")]


def _run(cmd, **kwargs):
    proc = subprocess.run(cmd, capture_output=True, text=True, check=False, **kwargs)
    if proc.returncode:
        raise BuildError(f"{cmd[0]} failed: " + (proc.stdout + proc.stderr)[-3000:])
    return proc.stdout + proc.stderr


def cached(key, build):
    """Directory /verif/.build/<key>, created by build(tmp) if missing."""
    dest = os.path.join(BUILD, key)
    if os.path.isdir(dest):
        return dest
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        build(tmp)
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.isdir(dest):
                raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prune(key.split("-")[0])
    return dest


def prune(prefix, keep=60):
    """Old build results are removed."""
    entries = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime)
    for path in entries[:-keep]:
        shutil.rmtree(path, ignore_errors=True)


def compiler_sources():
    out = _files(os.path.join(CORE, "src"), ".java") + _files(os.path.join(CORE, "antlr"), ".g4")
    for name in EXTENSIONS:
        base = os.path.join(REPO, "compiler/extensions", name)
        out += _files(os.path.join(base, "src"), ".java") + _files(os.path.join(base, "freemarker"), ".ftl")
        out += _files(os.path.join(base, "metainf"))
    return out


def compiler_classes():
    """Class directory of core and the extensions, with templates and service entries."""
    sources = compiler_sources()

    def build(tmp):
        gen = os.path.join(tmp, "gen")
        cls = os.path.join(tmp, "classes")
        os.makedirs(os.path.join(gen, "zserio/antlr"))
        antlr = os.path.join(JARS, "antlr-4.7.2-complete.jar")
        for grammar in ("ZserioLexer.g4", "ZserioParser.g4", "DocComment.g4"):
            _run(["java", "-XX:TieredStopAtLevel=1", "-cp", antlr, "org.antlr.v4.Tool", "-o", os.path.join(gen, "zserio/antlr"), "-package",
                  "zserio.antlr", os.path.join(CORE, "antlr", grammar), "-no-listener", "-visitor"])
        listing = os.path.join(tmp, "files.txt")
        with open(listing, "w", encoding="utf-8") as file:
            file.write("\n".join([path for path in sources if path.endswith(".java")] + _files(gen, ".java")))
        _run(["javac", "-nowarn", "-g", "-encoding", "utf8", "-proc:none", "-d", cls, "-cp", ":".join(classpath()),
              "@" + listing])
        services = []
        for name in EXTENSIONS:
            base = os.path.join(REPO, "compiler/extensions", name)
            dest = os.path.join(cls, "freemarker", name)
            os.makedirs(dest)
            for path in _files(os.path.join(base, "freemarker"), ".ftl"):
                shutil.copy(path, dest)
            for path in _files(os.path.join(base, "metainf")):
                with open(path, encoding="utf-8") as file:
                    services += file.read().split()
        os.makedirs(os.path.join(cls, "META-INF/services"))
        with open(os.path.join(cls, "META-INF/services/zserio.tools.Extension"), "w", encoding="utf-8") as file:
            file.write("\n".join(services) + "\n")

    return os.path.join(cached("zc-" + _hash(sources), build), "classes")


def zserio(args, check=True):
    """Runs the compiler; returns (exit code, output)."""
    cmd = ["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xshare:auto", "-cp",
           ":".join([compiler_classes()] + classpath()), "zserio.tools.ZserioTool"] + list(args)
    proc = subprocess.run(cmd, capture_output=True, text=True, check=False)
    if check and proc.returncode:
        raise SchemaRejected(cmd, proc.stdout + proc.stderr)
    return proc.returncode, proc.stdout + proc.stderr


def generate(schema, language, options=()):
    """Code generated from /verif/schemas/<schema>; returns its root directory."""
    root = os.path.join(VERIF, "schemas")
    files = _files(os.path.join(root, os.path.dirname(schema)), ".zs")
    key = hashlib.sha256(repr([compiler_classes(), schema, language, sorted(options), _hash(files)]).encode())

    def build(tmp):
        base = os.path.join(root, os.path.dirname(schema))
        zserio(["-" + language, os.path.join(tmp, "gen"), *options, "-src", base, os.path.basename(schema)])

    return os.path.join(cached(f"gen{language}-" + key.hexdigest()[:20], build), "gen")
