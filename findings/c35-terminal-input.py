#!/usr/bin/env python3
"""Shows the known finding C35 terminal-input: run as `python3 c35-terminal-input.py path/to/bab`.
A task whose command reads one line runs at a pseudo-terminal on which a line is typed; the
command stays stopped (state T) and bab does not end."""
import os, pty, select, shutil, signal, sys, tempfile, time

bab = os.path.abspath(sys.argv[1])
work = tempfile.mkdtemp()
with open(os.path.join(work, "Babfile.yml"), "w") as f:
    f.write("tasks:\n  t:\n    run:\n      - cmd: read x; echo got $x\n")
pid, fd = pty.fork()
if pid == 0:
    os.environ["TERM"] = "screen"
    os.chdir(work)
    os.execv(bab, ["bab", "t"])
out, start, sent, ended = b"", time.time(), False, False
while time.time() - start < 4 and not ended:
    if select.select([fd], [], [], 0.2)[0]:
        try:
            out += os.read(fd, 1000)
        except OSError:
            pass
    if not sent and time.time() - start > 0.7:
        os.write(fd, b"hello\n")
        sent = True
    ended = os.waitpid(pid, os.WNOHANG)[0] == pid
if not ended:
    os.kill(pid, signal.SIGTERM)  # bab kills its command and ends
    os.waitpid(pid, 0)
shutil.rmtree(work)
good = ended and b"got hello" in out
print("the command reads the line" if good else "the command is stopped and bab does not end")
sys.exit(0 if good else 1)
