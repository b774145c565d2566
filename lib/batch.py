"""Runs batches of cases through a harness process which answers on stdout, surviving crashes."""
import os, subprocess, tempfile
from fuzzcheck import SAN_ENV, classify
from core import Inconclusive

CPU = 150      # seconds; raised by thorough runs

def run_process(exe, payload, cpu=None, env=None, args=()):
    """(returncode, stdout, stderr); the CPU limit turns an endless loop into a signal."""
    e = dict(os.environ, **SAN_ENV)
    if env: e.update(env)
    with tempfile.TemporaryFile() as f:
        f.write(payload); f.seek(0)
        p = subprocess.run(["prlimit", "--cpu=%d:%d" % (cpu or CPU, (cpu or CPU) + 5), "--core=0", exe, *args], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    return p.returncode, p.stdout, p.stderr.decode("utf-8", "replace")

def describe(rc, err):
    k, d = classify(err)
    if k: return k, d
    if rc == -9: raise Inconclusive("a process was killed")      # not by the CPU limit, whose signal is SIGXCPU
    if rc < 0: return ("hang" if -rc in (24,) else "signal"), "the process was ended by signal %d" % -rc
    return "exit", "exit status %d: %s" % (rc, err[-300:])
