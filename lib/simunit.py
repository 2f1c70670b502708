"""A ventilation unit on a TCP connection or a terminal, written from the protocol
description in DESIGN.md, independently of libcomfo."""
import os, select, socket, threading, time

GETS = {0x0B: "fans", 0x67: "boot", 0xCD: "prof", 0xD1: "temps", 0xD9: "errs", 0xDF: "byp"}
SPEED, COMFORT, SETPROF = 0x99, 0xD3, 0xCF


def frame(cmd, data):
    s = (173 + cmd + len(data) + sum(data)) & 0xFF
    return b"\x07\xf0\x00" + bytes([cmd, len(data)]) + bytes(data).replace(b"\x07", b"\x07\x07") + bytes([s]) + b"\x07\x0f"


class Unit:
    """State of a unit and what it was asked; speaks over any number of byte streams."""

    def __init__(self):
        self.lock = threading.Lock()
        self.state = dict(
            boot=bytearray([3, 60, 32]) + b"CA350 luxe",
            temps=bytearray([80, 51, 62, 73, 64, 0x0F, 45, 46, 48]),
            prof=bytearray([15, 35, 50, 16, 36, 51, 35, 36, 2, 1, 70, 71, 0, 0]),
            fans=bytearray([36, 35, 0x05, 0xDC, 0x06, 0x40]),
            errs=bytearray(17),
            byp=bytearray([0, 0, 4, 2, 1, 0, 0]))
        self.seen = []  # frames received
        self.ramp = 0.0
        self.latency = 0.0
        self.deaf = False
        self.refuse = set()  # commands that are not answered
        self._ramp_at = None

    def pct(self, mode):
        p = self.state["prof"]
        i, o = {1: (3, 0), 2: (4, 1), 3: (5, 2), 4: (11, 10)}.get(mode, (4, 1))
        return p[i], p[o]

    def _tick(self):
        if self._ramp_at is not None and time.monotonic() >= self._ramp_at:
            self._settle()

    def _settle(self):
        i, o = self.pct(self.state["prof"][8])
        self.state["fans"][0:2] = bytes([i, o])
        self.state["prof"][6:8] = bytes([o, i])
        self._ramp_at = None

    def _retarget(self):
        if self.ramp:
            self._ramp_at = time.monotonic() + self.ramp
        else:
            self._settle()

    def answer(self, cmd, data):
        with self.lock:
            self._tick()
            self.seen.append((cmd, bytes(data)))
            if self.deaf or cmd in self.refuse:
                return b""
            st = self.state
            if cmd == SPEED and len(data) == 1 and data[0] <= 4:
                st["prof"][8] = data[0]
                self._retarget()
            elif cmd == COMFORT and len(data) == 1:
                st["temps"][0] = data[0]
            elif cmd == SETPROF and len(data) == 8:
                st["prof"][0:6] = data[0:6]
                st["prof"][10:12] = data[6:8]
                self._retarget()
            elif cmd in GETS and not data:
                return b"\x07\xf3" + frame(cmd + 1, st[GETS[cmd]])
            return b"\x07\xf3"

    def parser(self):
        """A generator that takes received bytes and yields the answers."""
        buf = bytearray()
        out = b""
        while True:
            buf += (yield out)
            out = b""
            while len(buf) >= 2:
                if buf[0] != 7:
                    del buf[0]
                    continue
                if buf[1] == 0xF3:
                    del buf[:2]
                    continue
                if buf[1] != 0xF0:
                    del buf[0]
                    continue
                if len(buf) < 5:
                    break
                n, data, i = buf[4], bytearray(), 5
                while len(data) < n and i < len(buf):
                    if buf[i] == 7:
                        if i + 1 >= len(buf):
                            break
                        i += 1
                    data.append(buf[i])
                    i += 1
                if len(data) < n or len(buf) < i + 3:
                    break
                cmd = buf[3]
                good = buf[2] == 0 and buf[i] == (173 + cmd + n + sum(data)) & 0xFF and bytes(buf[i + 1:i + 3]) == b"\x07\x0f"
                del buf[:i + 3]
                if good:
                    out += self.answer(cmd, data)

    def pump(self, recv, send):
        p = self.parser()
        next(p)
        while True:
            b = recv()
            if not b:
                return
            o = p.send(b)
            if o:
                if self.latency:
                    time.sleep(self.latency)
                send(o)


class TCPUnit(Unit):
    """A unit behind a TCP port."""

    def __init__(self, addr="127.0.0.1", family=socket.AF_INET):
        super().__init__()
        self.sock = socket.socket(family, socket.SOCK_STREAM)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind((addr, 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.accepted = 0
        self.conns = []
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while True:
            try:
                c, _ = self.sock.accept()
            except OSError:
                return
            self.accepted += 1
            self.conns.append(c)
            threading.Thread(target=self._serve, args=(c,), daemon=True).start()

    def _serve(self, c):
        try:
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.pump(lambda: c.recv(4096), c.sendall)
        except OSError:
            pass

    def close(self):
        for s in [self.sock] + self.conns:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            s.close()


class PTYUnit(Unit):
    """A unit behind a (pseudo) terminal."""

    def __init__(self):
        super().__init__()
        import termios, tty
        self.master, self.slave = os.openpty()
        self.name = os.ttyname(self.slave)
        # what a serial device is before anyone has configured it: cooked and slow
        a = termios.tcgetattr(self.slave)
        a[4] = a[5] = termios.B1200
        termios.tcsetattr(self.slave, termios.TCSANOW, a)
        self.termios = termios
        self.stop = False
        threading.Thread(target=self._serve, daemon=True).start()

    def speed(self):
        return self.termios.tcgetattr(self.slave)[4:6]

    def _recv(self):
        while not self.stop:
            if select.select([self.master], [], [], 0.1)[0]:
                return os.read(self.master, 4096)
        return b""

    def _serve(self):
        try:
            self.pump(self._recv, lambda b: os.write(self.master, b))
        except OSError:
            pass

    def close(self):
        self.stop = True
        time.sleep(0.15)
        os.close(self.master)
        os.close(self.slave)
