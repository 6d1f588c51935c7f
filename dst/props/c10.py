"""C10: each TPM command reaches the simulator whole and gets exactly its own response, or the call raises."""

import struct
import threading

from .. import boot, simnet  # noqa: F401

simnet.install()
import edk2toollib.tpm.tpm2_defs as t2d  # noqa: E402
import edk2toollib.tpm.tpm2_simulator as t2sim  # noqa: E402
import edk2toollib.tpm.tpm2_stream as t2s  # noqa: E402

from ..core import Violation  # noqa: E402
from ..util import attempt, check, short  # noqa: E402

ID = "C10"
HOOK_LINES = True
STEP_CAP = 400000


class Tpm:
    """Reference TPM simulator: platform port and command port of the Microsoft TCP protocol."""

    def __init__(self, s, port, tag):
        self.s, self.port, self.tag = s, port, tag
        self.d = s.d
        self.plat = []
        self.powered = False
        self.cmds = []  # (locality, bytes)
        self.resps = []
        self.bad = []
        self.cut = None  # (command index, position in the answer, 'close'|'reset')
        self.dropped = False
        self.slow = s.d.pick([0.0, 0.0, 1.0, 30.0])
        self.polls = s.d.chance(0.3)
        s.net.listen(port, self.serve_cmd)
        s.net.listen(port + 1, self.serve_plat)

    def serve_plat(self, c):
        while True:
            (sig,) = struct.unpack(">L", c.read(4))
            if self.slow:
                self.s.sleep(self.slow)
            self.plat.append(sig)
            self.s.event("signal", sig)
            if sig == 1:
                self.powered = True
            elif sig == 2:
                self.powered = False
            if self.cut and self.cut[0] == "plat" and len(self.plat) == self.cut[1]:
                self.drop(c, self.cut[2])
                return
            c.write(b"\0\0\0\0")

    def drop(self, c, how):
        self.dropped = True
        self.s.hit("conn-" + how, self.port)
        (c.reset if how == "reset" else c.close)()

    def serve_cmd(self, c):
        while True:
            (op,) = struct.unpack(">L", c.read(4))
            if op != 8:
                self.bad.append(f"simulator request {op} instead of TPM_SEND_COMMAND")
                return
            loc, n = struct.unpack(">BL", c.read(5))
            if n > 1 << 20:
                self.bad.append(f"command size {n}")
                return
            data = c.read(n)
            i = len(self.cmds)
            self.cmds.append((loc, data))
            self.s.event("command", i, data.hex()[:40])
            if not self.powered:
                self.s.probe("not-powered")
                c.write(b"\0\0\0\0\0\0\0\0")
                self.bad.append("a command arrived before the TPM was powered on")
                continue
            body = b"\x80\x01" + self.tag + struct.pack(">L", i) + self.d.bytes(self.d.pick([0, 1, 6, 100, 3000, 9000]))
            self.resps.append(body)
            if self.slow:
                self.s.sleep(self.slow)
            out = b""
            if self.polls:
                out += b"\0\0\0\0" * self.d.below(3)
            out += struct.pack(">L", len(body)) + body
            if self.cut and self.cut[0] == i:
                c.write(out[: min(self.cut[1], len(out) - 1)])
                self.drop(c, self.cut[2])
                return
            c.write(out + b"\0\0\0\0")


def gen_command(s):
    """(bytes expected on the wire, Tpm2CommandStream)."""
    d = s.d
    tag = d.pick([t2d.TPM_ST_NO_SESSIONS, 0x8002])
    code = d.pick([t2d.TPM_CC_Startup, 0x17B, 0xDEADBEEF, 1])
    st = t2s.Tpm2CommandStream(tag, 0, code)
    body = b""
    for _ in range(d.int(0, 4)):
        if d.chance(0.5):
            n = d.pick([1, 2, 4, 8])
            v = d.below(1 << (8 * n)) if n < 8 else (d.below(1 << 32) << 32 | d.below(1 << 32))
            st.add_element(t2s.Tpm2StreamPrimitive(n, v))
            body += v.to_bytes(n, "big")
        else:
            b = d.bytes(d.pick([0, 1, 5, 64, 700, 6000]))
            el = t2s.TPM2B(b"old" if d.chance(0.2) else b)
            if el.data != b:
                el.update_data(b)
            st.add_element(el)
            body += struct.pack(">H", len(b)) + b
    check(st.get_size() == 10 + len(body), "size", lambda: f"a command of {10 + len(body)} bytes says it has {st.get_size()}")
    return struct.pack(">HLL", tag, 10 + len(body), code) + body, st


def session(s, faults):
    d = s.d
    s.net = net = simnet.Net(s)
    net.cap = d.pick([64, 700, 4096, 65536])
    net.short_recv = d.pick([0.0, 0.2, 0.7])
    net.short_send = d.pick([0.0, 0.2, 0.7])
    net.delay = d.pick([0.0, 0.1, 0.5])
    s.set_preempt(d.weighted([(3, 0), (2, 7), (2, 40)]))
    n = d.int(1, 2)
    tpms = [Tpm(s, 2321 + 10 * k, b"T%d" % k) for k in range(n)]
    jobs = []
    for t in tpms:
        cmds = [("startup", d.pick([t2d.TPM_SU_CLEAR, t2d.TPM_SU_STATE])) if d.chance(0.3) else ("send", *gen_command(s)) for _ in range(d.int(1, 5))]
        jobs.append((t, cmds))
    if faults:
        t, cmds = d.pick(jobs)
        how = d.pick(["close", "reset", "refuse-cmd", "refuse-plat", "plat"])
        if how == "refuse-cmd":
            net.refuse.add(t.port)
        elif how == "refuse-plat":
            net.refuse.add(t.port + 1)
        elif how == "plat":
            t.cut = ("plat", d.int(1, 3), d.pick(["close", "reset"]))
        else:
            t.cut = (d.below(len(cmds)), d.pick([0, 1, 3, 4, 5, 7, 8, 9, 12, 50, 1000, 100000]), how)
        s.op("fault", t.port, how, t.cut)
    results = {}

    def client(t, cmds):
        out = results[t.port] = []
        dev, err = attempt(t2sim.TpmSimulator, *(() if t.port == 2321 and d.chance(0.5) else ("localhost", t.port)))
        out.append(("init", None, err))
        if err is not None:
            return
        for c in cmds:
            if c[0] == "startup":
                r, err = attempt(dev.startup, c[1])
            else:
                r, err = attempt(dev.send_data, c[2].get_stream())
            out.append((c[0], r, err))
            if err is not None:
                return

    ths = [threading.Thread(target=client, args=j) for j in jobs]
    for x in ths:
        x.start()
    for x in ths:
        x.join()
    for t, cmds in jobs:
        out = results[t.port]
        broken = t.dropped or {t.port, t.port + 1} & net.refuse
        check(not t.bad, "protocol", lambda: t.bad[0])
        check(not net.escapes, "escape", lambda: f"connection to {net.escapes[0]}")
        errs = [x for x in out if x[2] is not None]
        if not broken:
            check(not errs, "command-fails", lambda: f"{errs[0][0]} raised {short(errs[0][2])} on a working connection")
            check(t.plat == [2, 1, 11], "power-up", lambda: f"platform signals {t.plat}, expected power off, power on, NV on")
        elif isinstance(errs and errs[0][2], Exception) is False:
            raise Violation("loss-not-reported", "the connection broke but every call returned normally")
        want = []
        for c in cmds:
            if c[0] == "startup":
                want.append(struct.pack(">HLLH", 0x8001, 12, 0x144, c[1]))
            else:
                want.append(c[1])
        got = [b for _, b in t.cmds]
        check(
            got == want[: len(got)] and (broken or len(got) == len(want)),
            "command-bytes",
            lambda: f"TPM received {[g.hex()[:60] for g in got]}, expected {[w.hex()[:60] for w in want]}",
        )
        check(all(loc == 3 for loc, _ in t.cmds), "locality", lambda: f"localities {[x for x, _ in t.cmds]}")
        for i, (k, r, err) in enumerate(out[1:]):
            if err is None:
                check(
                    i < len(t.resps) and r == t.resps[i],
                    "response",
                    lambda: f"command {i} returned {len(r)} bytes {r[:24].hex()}, the TPM answered "
                    + (f"{len(t.resps[i])} bytes {t.resps[i][:24].hex()}" if i < len(t.resps) else "nothing"),
                )
    if n == 2:
        s.probe("two-tpms")
    s.extra["nontrivial"] = True


MODES = [(3, "session", lambda s: session(s, False)), (2, "faults", lambda s: session(s, True))]
