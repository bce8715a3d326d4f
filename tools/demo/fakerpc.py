"""A stand-in RPC node on the loopback: serves canned accounts, records what was submitted. Pure standard library."""
import base64, hashlib, http.server, json, os, subprocess, tempfile, threading

# ---- ed25519 (public keys only), base58
_p = 2**255 - 19
_d = -121665 * pow(121666, _p - 2, _p) % _p


def _add(P, Q):
    (x1, y1), (x2, y2) = P, Q
    k = _d * x1 * x2 * y1 * y2 % _p
    return ((x1 * y2 + x2 * y1) * pow(1 + k, _p - 2, _p) % _p, (y1 * y2 + x1 * x2) * pow(1 - k, _p - 2, _p) % _p)


def _mul(P, n):
    Q = (0, 1)
    while n:
        if n & 1:
            Q = _add(Q, P)
        P = _add(P, P)
        n >>= 1
    return Q


def _base():
    y = 4 * pow(5, _p - 2, _p) % _p
    xx = (y * y - 1) * pow(_d * y * y + 1, _p - 2, _p) % _p
    x = pow(xx, (_p + 3) // 8, _p)
    if (x * x - xx) % _p:
        x = x * pow(2, (_p - 1) // 4, _p) % _p
    return (x if x % 2 == 0 else _p - x, y)


def keypair(seed):
    s = hashlib.sha256(seed.encode()).digest()
    h = hashlib.sha512(s).digest()
    a = (int.from_bytes(h[:32], "little") & ((1 << 254) - 8)) | (1 << 254)
    x, y = _mul(_base(), a)
    return s + (y | ((x & 1) << 255)).to_bytes(32, "little")


A58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(b):
    n, s = int.from_bytes(b, "big"), ""
    while n:
        n, r = divmod(n, 58)
        s = A58[r] + s
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + s


def unb58(s):
    n = 0
    for c in s:
        n = n * 58 + A58.index(c)
    return b"\0" * (len(s) - len(s.lstrip("1"))) + n.to_bytes((n.bit_length() + 7) // 8, "big")


def _on_curve(b):
    y = int.from_bytes(b, "little") & ((1 << 255) - 1)
    xx = (y * y - 1) * pow(_d * y * y + 1, _p - 2, _p) % _p
    return xx == 0 or pow(xx, (_p - 1) // 2, _p) == 1


def pda(seeds, prog):
    for bump in range(255, -1, -1):
        h = hashlib.sha256(b"".join(seeds) + bytes([bump]) + unb58(prog).rjust(32, b"\0") + b"ProgramDerivedAddress").digest()
        if not _on_curve(h):
            return b58(h)


TOKEN, TOKEN22 = "TokenkegQfeZyiNwAJbNbGKPFXCWuBvf9Ss623VQ5DA", "TokenzQdBNbLqP5VEhdkAS6EPFLC1PHnBqCXEpPxuEb"
SYSTEM, ATA = "1" * 32, "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL"


def key(name):
    return b58(hashlib.sha256(name.encode()).digest())


def raw(k):
    return unb58(k).rjust(32, b"\0")


def mint(decimals=6, supply=0):
    return (1).to_bytes(4, "little") + b"\7" * 32 + supply.to_bytes(8, "little") + bytes([decimals, 1]) + b"\0" * 36


def token_account(mint_key, owner, amount):
    return raw(mint_key) + raw(owner) + amount.to_bytes(8, "little") + b"\0" * 36 + b"\1" + b"\0" * 56


def rent(size):
    return (128 + size) * 3480 * 2


def short(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 0x7F) << s
        s += 7
        i += 1
        if not b[i - 1] & 0x80:
            return n, i


def parse_tx(b):
    n, i = short(b, 0)
    sigs = [b58(b[i + 64 * k:i + 64 * k + 64]) for k in range(n)]
    i += 64 * n
    i += 3
    n, i = short(b, i)
    keys = [b58(b[i + 32 * k:i + 32 * k + 32]) for k in range(n)]
    i += 32 * n
    bh = b58(b[i:i + 32])
    i += 32
    n, i = short(b, i)
    ixs = []
    for _ in range(n):
        p = b[i]
        m, i = short(b, i + 1)
        acc = [keys[x] for x in b[i:i + m]]
        i += m
        m, i = short(b, i)
        ixs.append((keys[p], acc, b[i:i + m]))
        i += m
    return {"sigs": sigs, "keys": keys, "blockhash": bh, "ixs": ixs}


class Node:
    """accounts: {address: (lamports, owner, data)}; sent / simulated: parsed transactions"""

    def __init__(self, accounts=None, simulate_err=None, units=1000, slow=None):
        self.accounts, self.sent, self.simulated, self.calls = accounts or {}, [], [], []
        self.err, self.units = simulate_err, units
        node = self

        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a):
                pass

            def do_POST(self):
                q = json.loads(self.rfile.read(int(self.headers["content-length"])))
                r = node.answer(q["method"], q.get("params") or [])
                b = json.dumps(dict(jsonrpc="2.0", id=q["id"], **r)).encode()
                self.send_response(200)
                self.send_header("content-type", "application/json")
                self.send_header("content-length", str(len(b)))
                self.end_headers()
                self.wfile.write(b)

        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.url = "http://127.0.0.1:%d" % self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()

    def answer(self, m, p):
        self.calls.append(m)
        ctx = lambda v: {"result": {"context": {"slot": 10, "apiVersion": "3.0.0"}, "value": v}}
        bh = key("blockhash")
        if m == "getAccountInfo":
            a = self.accounts.get(p[0])
            return ctx(a and {"lamports": a[0], "owner": a[1], "data": [base64.b64encode(a[2]).decode(), "base64"],
                              "executable": False, "rentEpoch": 0, "space": len(a[2])})
        if m == "getMultipleAccounts":
            return ctx([self.answer("getAccountInfo", [k])["result"]["value"] for k in p[0]])
        if m == "getMinimumBalanceForRentExemption":
            return {"result": rent(p[0])}
        if m == "getLatestBlockhash":
            return ctx({"blockhash": bh, "lastValidBlockHeight": 1000})
        if m == "isBlockhashValid":
            return ctx(True)
        if m in ("sendTransaction", "simulateTransaction"):
            enc = (p[1] or {}).get("encoding", "base58") if len(p) > 1 else "base58"
            t = parse_tx(base64.b64decode(p[0]) if enc == "base64" else unb58(p[0]))
            if m == "sendTransaction":
                self.sent.append(t)
                return {"result": t["sigs"][0]}
            self.simulated.append(t)
            return ctx({"err": self.err, "logs": ["a log line"], "accounts": None, "unitsConsumed": self.units, "returnData": None})
        if m == "getSignatureStatuses":
            return ctx([{"slot": 9, "confirmations": None, "err": None, "status": {"Ok": None}, "confirmationStatus": "finalized"} for _ in p[0]])
        if m in ("getSlot", "getBlockHeight"):
            return {"result": 20}
        if m == "getVersion":
            return {"result": {"solana-core": "3.0.0", "feature-set": 1}}
        if m == "getHealth":
            return {"result": "ok"}
        if m == "getEpochInfo":
            return {"result": {"absoluteSlot": 20, "blockHeight": 20, "epoch": 0, "slotIndex": 20, "slotsInEpoch": 432000, "transactionCount": 1}}
        return {"error": {"code": -32601, "message": "Method not found " + m}}


def cli(node, *args, keys=("payer",)):
    """runs the built CLI against the node; @name in the arguments is the key file of that name, =name its public key"""
    with tempfile.TemporaryDirectory() as d:
        pub = {}
        for k in keys:
            kp = keypair(k)
            pub[k] = b58(kp[32:])
            open(os.path.join(d, k), "w").write(json.dumps(list(kp)))
        cfg = os.path.join(d, "config.yml")
        open(cfg, "w").write('json_rpc_url: "%s"\nwebsocket_url: ""\nkeypair_path: %s\naddress_labels: {}\ncommitment: confirmed\n'
                             % (node.url, os.path.join(d, keys[0])))
        a = [os.path.join(d, x[1:]) if x.startswith("@") else pub[x[1:]] if x.startswith("=") else x for x in args]
        r = subprocess.run(["/repo/target/debug/spl-token-wrap", "--config", cfg, *a], capture_output=True, text=True, timeout=120,
                           env={"HOME": d, "PATH": os.environ["PATH"]})
        return r.returncode, r.stdout, r.stderr, pub


WRAP = "TwRapQCDhWkZRrDaHfZGuHxkZ91gHDRkyuzNqeU5MgR"


def wrapped_mint(unwrapped, tp):
    return pda([b"mint", raw(unwrapped), raw(tp)], WRAP)


def backpointer(wm):
    return pda([b"backpointer", raw(wm)], WRAP)


def authority(wm):
    return pda([b"authority", raw(wm)], WRAP)


def ata(owner, m, tp):
    return pda([raw(owner), raw(tp), raw(m)], ATA)
