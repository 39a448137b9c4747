"""Frames of the protocol between stow and stevedore, from its description:
one byte with the class of the size in the two top bits and the command in the
three lowest; class 0 no bytes, 1 is 32 bytes, 2 has the length in one byte,
3 in four bytes, most significant first; then the bytes."""
import os
import selectors
import subprocess
import time

MSG, FILTER, DATA, META = 0, 1, 2, 3


def frame(cmd, body, cls=None):
    n = len(body)
    ok = [3]
    if n < 256:
        ok.append(2)
    if n == 32:
        ok.append(1)
    if n == 0:
        ok.append(0)
    ok.reverse()
    c = ok[0] if cls is None else ok[cls % len(ok)]
    b = bytes([c << 6 | cmd])
    if c == 2:
        b += bytes([n])
    elif c == 3:
        b += n.to_bytes(4, "big")
    return b + body


class Parser:
    """Takes bytes, gives messages."""

    def __init__(self):
        self.buf = bytearray()

    def feed(self, b):
        self.buf += b
        out = []
        while self.buf:
            c = self.buf[0] >> 6
            if c == 0:
                h, n = 1, 0
            elif c == 1:
                h, n = 1, 32
            elif c == 2:
                if len(self.buf) < 2:
                    break
                h, n = 2, self.buf[1]
            else:
                if len(self.buf) < 5:
                    break
                h, n = 5, int.from_bytes(self.buf[1:5], "big")
            if len(self.buf) < h + n:
                break
            out.append((self.buf[0] & 0x3f, bytes(self.buf[h:h + n])))
            del self.buf[:h + n]
        return out


class Session:
    """A stevedore process: pieces are sent when it takes them, answers are
    collected all the time."""

    def __init__(self, cmd, env, cwd, timeout):
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=env, cwd=cwd,
                                  start_new_session=True)
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            os.set_blocking(f.fileno(), False)
        self.parser = Parser()
        self.msgs = []
        self.err = b""
        self.out_open = self.err_open = True
        self.timeout = timeout
        self.hung = False
        self.broken = False

    def pump(self, data=b"", until=None, cut=None, pause=0):
        """Sends data in pieces, then goes on until until() is true or, when
        until is None and data is None, until the end of the output."""
        end = time.time() + self.timeout
        pos = 0
        cuts = iter(cut or ())
        nxt = next(cuts, 1 << 20)
        closing = data is None
        if closing:
            data = b""
            if not self.p.stdin.closed:
                self.p.stdin.close()
        while True:
            want_w = pos < len(data) and not self.broken
            if not want_w:
                if closing:
                    if not (self.out_open or self.err_open):
                        return True
                elif until is None or until():
                    return True
                elif not self.out_open:
                    return False
            s = selectors.DefaultSelector()
            if want_w:
                s.register(self.p.stdin, selectors.EVENT_WRITE)
            if self.out_open:
                s.register(self.p.stdout, selectors.EVENT_READ)
            if self.err_open:
                s.register(self.p.stderr, selectors.EVENT_READ)
            ev = s.select(1.0)
            s.close()
            if not ev:
                if time.time() > end:
                    self.hung = True
                    self.kill()
                    return False
                continue
            end = time.time() + self.timeout
            for k, _ in ev:
                if k.fileobj is self.p.stdin:
                    try:
                        n = os.write(self.p.stdin.fileno(),
                                     data[pos:min(pos + nxt, len(data))])
                    except BlockingIOError:
                        continue
                    except OSError:
                        self.broken = True
                        continue
                    pos += n
                    nxt -= n
                    if nxt <= 0:
                        nxt = max(1, next(cuts, 1 << 20))
                        if pause:
                            time.sleep(pause)
                    continue
                try:
                    b = os.read(k.fileobj.fileno(), 65536)
                except BlockingIOError:
                    continue
                if k.fileobj is self.p.stdout:
                    if not b:
                        self.out_open = False
                    self.msgs += self.parser.feed(b)
                else:
                    if not b:
                        self.err_open = False
                    self.err += b

    def kill(self):
        import signal
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def finish(self):
        self.pump(None)
        if self.hung:
            self.kill()
        try:
            rc = self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.hung = True
            self.kill()
            rc = self.p.wait()
        for f in (self.p.stdout, self.p.stderr, self.p.stdin):
            try:
                f.close()
            except OSError:
                pass
        return rc
