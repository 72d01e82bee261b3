"""Builds nexo from the current directory's working tree, runs it on scratch data, and talks to it."""
import json, os, shutil, socket, struct, subprocess, sys, tempfile, threading, time, atexit, urllib.request, urllib.parse

ROOT = os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix="nexodemo")
PROCS = []

def _clean():
    for p in PROCS:
        p.kill()
    shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_clean)

def build():
    stub = SCRATCH + "/bin"
    os.makedirs(stub)
    with open(stub + "/npm", "w") as f:
        f.write("#!/bin/sh\nexit 0\n")
    os.chmod(stub + "/npm", 0o755)
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=ROOT + "/target",
               PATH=stub + ":/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    os.makedirs("dashboard/dist", exist_ok=True)
    r = subprocess.run(["cargo", "build", "--offline", "--bin", "nexo"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode()[-3000:])
        sys.exit(3)
    return ROOT + "/target/debug/nexo"

def _port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Server:
    """A nexo process on data directory `data` (a new one by default)."""
    def __init__(self, binary, data=None, **env):
        self.binary, self.env = binary, env
        self.data = data or tempfile.mkdtemp(dir=SCRATCH)
        self.start()
    def start(self):
        self.port, self.web = _port(), _port()
        e = {"PATH": "/usr/bin:/bin", "SERVER_HOST": "127.0.0.1", "SERVER_SOCKET_TCP_PORT": str(self.port), "SERVER_DASHBOARD_HTTP_PORT": str(self.web),
             "QUEUE_ROOT_PERSISTENCE_PATH": self.data + "/queues", "STREAM_ROOT_PERSISTENCE_PATH": self.data + "/streams",
             "PUBSUB_ROOT_PERSISTENCE_PATH": self.data + "/pubsub"}
        e.update({k: str(v) for k, v in self.env.items()})
        self.p = subprocess.Popen([self.binary], env=e, cwd=SCRATCH, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        PROCS.append(self.p)
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", self.port)).close()
                return
            except OSError:
                time.sleep(0.05)
        raise SystemExit("server did not start")
    def kill(self):
        self.p.kill(); self.p.wait()
    def restart(self):
        self.kill(); self.start()
    def client(self):
        return Client(self.port)
    def http(self, path):
        with urllib.request.urlopen(f"http://127.0.0.1:{self.web}{path}", timeout=10) as r:
            return json.loads(r.read())

def s(x):
    b = x.encode() if isinstance(x, str) else x
    return struct.pack(">I", len(b)) + b

class Client:
    def __init__(self, port):
        self.sock = socket.create_connection(("127.0.0.1", port))
        self.id = 0
        self.answers, self.pushes = {}, []
        self.cv = threading.Condition()
        self.closed = False
        threading.Thread(target=self._read, daemon=True).start()
    def _exact(self, n):
        b = b""
        while len(b) < n:
            c = self.sock.recv(n - len(b))
            if not c:
                raise EOFError
            b += c
        return b
    def _read(self):
        try:
            while True:
                t, op, i, n = struct.unpack(">BBII", self._exact(10))
                p = self._exact(n)
                with self.cv:
                    if t == 3:
                        k = struct.unpack(">I", p[:4])[0]
                        self.pushes.append((p[4:4 + k].decode(), p[4 + k:]))
                    else:
                        self.answers[i] = (op, p)
                    self.cv.notify_all()
        except (EOFError, OSError):
            with self.cv:
                self.closed = True
                self.cv.notify_all()
    def begin(self, op, payload):
        self.id += 1
        self.sock.sendall(struct.pack(">BBII", 1, op, self.id, len(payload)) + payload)
        return self.id
    def get(self, i, timeout=10):
        with self.cv:
            self.cv.wait_for(lambda: i in self.answers or self.closed, timeout)
            if i not in self.answers:
                raise TimeoutError("no answer")
            return self.answers.pop(i)
    def call(self, op, payload, timeout=10):
        """-> ('ok', None) | ('err', text) | ('null', None) | ('data', bytes)"""
        st, p = self.get(self.begin(op, payload), timeout)
        if st == 0: return "ok", None
        if st == 1: return "err", p[4:].decode()
        if st == 2: return "null", None
        return "data", p
    def close(self):
        try: self.sock.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.sock.close()
    # store
    def set(self, k, v, **o): return self.call(0x02, s(k) + s(json.dumps(o)) + v)
    def kget(self, k): return self.call(0x03, s(k))
    def kdel(self, k): return self.call(0x04, s(k))
    # queue
    def q_create(self, q, **o): return self.call(0x10, s(q) + s(json.dumps(o)))
    def q_push(self, q, v, **o): return self.call(0x11, s(q) + s(json.dumps(o)) + v)
    def q_consume(self, q, n=1, wait=0):
        k, d = self.call(0x12, s(q) + s(json.dumps({"batchSize": n, "waitMs": wait})), timeout=wait / 1000 + 10)
        if k != "data": raise RuntimeError((k, d))
        c, = struct.unpack(">I", d[:4]); i = 4; out = []
        for _ in range(c):
            mid = d[i:i + 16]; n, = struct.unpack(">I", d[i + 16:i + 20]); out.append((mid, d[i + 20:i + 20 + n])); i += 20 + n
        return out
    def q_ack(self, q, mid): return self.call(0x13, mid + s(q))
    def q_nack(self, q, mid, why="x"): return self.call(0x1A, mid + s(q) + s(why))
    def q_exists(self, q): return self.call(0x14, s(q))
    def q_delete(self, q): return self.call(0x15, s(q))
    def q_peek(self, q, limit=100, offset=0):
        k, d = self.call(0x16, s(q) + struct.pack(">II", limit, offset))
        if k != "data": raise RuntimeError((k, d))
        total, c = struct.unpack(">II", d[:8]); i = 8; out = []
        for _ in range(c):
            mid = d[i:i + 16]; n, = struct.unpack(">I", d[i + 16:i + 20]); i += 20; pay = d[i:i + n]; i += n
            att, rl = struct.unpack(">II", d[i:i + 8]); i += 8; out.append((mid, pay, att, d[i:i + rl].decode())); i += rl
        return total, out
    def q_move(self, q, mid): return self.call(0x17, s(q) + mid)
    def q_deldlq(self, q, mid): return self.call(0x18, s(q) + mid)
    def q_purge(self, q): return self.call(0x19, s(q))
    # pub/sub
    def pub(self, t, v, **o): return self.call(0x21, s(t) + s(json.dumps(o)) + v)
    def sub(self, p): return self.call(0x22, s(p))
    def unsub(self, p): return self.call(0x23, s(p))
    # stream
    def s_create(self, t, **o): return self.call(0x30, s(t) + s(json.dumps(o)))
    def s_pub(self, t, v):
        k, d = self.call(0x31, s(t) + v)
        if k != "data": raise RuntimeError((k, d))
        return struct.unpack(">Q", d)[0]
    def s_fetch_begin(self, t, g, j, n=100, wait=0):
        return self.begin(0x32, s(t) + s(g) + s(j[2]) + struct.pack(">QII", j[1], n, wait))
    def s_fetch(self, t, g, j, n=100, wait=0):
        return self.s_msgs(self.get(self.s_fetch_begin(t, g, j, n, wait), wait / 1000 + 10))
    @staticmethod
    def s_msgs(r):
        st, d = r
        if st != 3: raise RuntimeError((st, d))
        c, = struct.unpack(">I", d[:4]); i = 4; out = []
        for _ in range(c):
            seq, ts, n = struct.unpack(">QQI", d[i:i + 20]); out.append((seq, ts, d[i + 20:i + 20 + n])); i += 20 + n
        return out
    def s_join(self, g, t):
        k, d = self.call(0x33, s(g) + s(t))
        if k != "data": raise RuntimeError((k, d))
        floor, gen, n = struct.unpack(">QQI", d[:20])
        return floor, gen, d[20:20 + n].decode()
    def s_ack(self, t, g, j, seq): return self.call(0x34, s(t) + s(g) + s(j[2]) + struct.pack(">QQ", j[1], seq))
    def s_exists(self, t): return self.call(0x35, s(t))
    def s_delete(self, t): return self.call(0x36, s(t))
    def s_seek(self, t, g, end): return self.call(0x38, s(t) + s(g) + bytes([1 if end else 0]))
    def s_leave(self, t, g, j): return self.call(0x39, s(t) + s(g) + s(j[2]) + struct.pack(">Q", j[1]))

def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.exit(1)

def run(main):
    """Anything that goes wrong against the built server is a failure (1); a failed build is 3."""
    try:
        main(build())
    except SystemExit:
        raise
    except BaseException as e:
        print("FAILED:", type(e).__name__, e)
        sys.exit(1)
    print("ok")
