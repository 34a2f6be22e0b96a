"""Secrets between a pool and a peer that only follows the documents, judged with Secret.tla."""

import base64
import os
import queue
import struct
import uuid

import common
import psrpcore
import wire
from clixml import units
from cryptography.hazmat.primitives.asymmetric import padding, rsa
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from p_values import Conn
from psrpcore import types as T

PUB = b"\x06\x02\x00\x00\x00\xa4\x00\x00RSA1\x00\x08\x00\x00"
KEY = b"\x01\x02\x00\x00\x10\x66\x00\x00\x00\xa4\x00\x00"


def text(u):
    return b"".join(struct.pack("<H", x) for x in u).decode("utf-16-le", "surrogatepass")


def aes(key):
    return Cipher(algorithms.AES(key), modes.CBC(bytes(16)))


def conceal(key, u):
    b = b"".join(struct.pack("<H", x) for x in u)
    n = 16 - len(b) % 16
    e = aes(key).encryptor()
    return base64.b64encode(e.update(b + bytes([n]) * n) + e.finalize()).decode()


def read(v):
    try:
        return units(str(v.decrypt()))
    except Exception:
        return [-1]


def reveal(key, t):
    """The bytes under the encryption, the filling included."""
    try:
        b = base64.b64decode(t, validate=True)
        d = aes(key).decryptor()
        return list(d.update(b) + d.finalize())
    except Exception:
        return []


def secrets_in(el):
    return [e.text or "" for e in el.iter() if wire.local(e.tag) == "SS"]


def number(n, size):
    return list(n.to_bytes(size, "big"))


class Peer(Conn):
    """A client and a server pool; messages of either side can be held back or made up."""

    oid = 1 << 40

    def forge(self, to, t, body, pid=None):
        """A message of this peer's own making."""
        rpid = self.c.runspace_pool_id
        self.oid += 1
        blob = wire.build(to == "s", t, rpid, pid, body)
        raw = wire.Frag(self.oid, 0, 3, blob).raw()
        dst = self.s if to == "s" else self.c
        dst.receive_data(psrpcore.PSRPPayload(raw, psrpcore.StreamType.default, pid))
        out = []
        e = dst.next_event()
        while e is not None:
            out.append(e)
            e = dst.next_event()
        return out

    def take(self, k):
        """What one side has to say, kept from the other."""
        src = self.c if k == "c" else self.s
        out = []
        d = src.data_to_send()
        while d is not None:
            for f in wire.fragments(d.data):
                m = self.join[k].add(f)
                if m is not None:
                    out.append(m)
            d = src.data_to_send()
        return out


def one(ms, t):
    got = [m for m in ms if m.t == t]
    if len(got) != 1:
        raise wire.Bad("%d messages %s" % (len(got), t))
    return wire.tree(got[0].body)


def blob_of(root, name):
    el = [e for e in root.iter() if e.get("N") == name][0]
    return el.text or ""


def carry(p, key, texts, out, tag):
    """Secrets both ways; key is the session key as the peer knows it."""
    for u in texts:
        p.cp.send(T.PSSecureString(text(u)))
        t = secrets_in(one(p.take("c"), "PipelineInput"))
        out.append(dict(k="sent", how=tag + " client", u=u, text=units(t[0]) if len(t) == 1 else [0], plain=reveal(key, t[0]) if len(t) == 1 else []))
        doc = b"<SS>%s</SS>" % conceal(key, u).encode()
        ev = p.forge("c", "PipelineOutput", doc, p.cp.pipeline_id)
        out.append(dict(k="seen", how=tag + " client", u=u, got=read(ev[0].data) if len(ev) == 1 else [-1]))
    return out


def carry_server(p, key, texts, out):
    for u in texts:
        p.sp.write_output(T.PSSecureString(text(u)))
        t = secrets_in(one(p.take("s"), "PipelineOutput"))
        out.append(dict(k="sent", how="server", u=u, text=units(t[0]) if len(t) == 1 else [0], plain=reveal(key, t[0]) if len(t) == 1 else []))
        ev = p.forge("s", "PipelineInput", b"<SS>%s</SS>" % conceal(key, u).encode(), p.cp.pipeline_id)
        out.append(dict(k="seen", how="server", u=u, got=read(ev[0].data) if len(ev) == 1 else [-1]))


def with_client(asked, shape, texts):
    """A real client, and a server that follows the documents: shape is how the encrypted key must look."""
    out = []
    p = Peer()
    p.start()
    if asked:
        p.forge("c", "PublicKeyRequest", b"<S></S>")
    else:
        p.c.exchange_key()
    t = blob_of(one(p.take("c"), "PublicKey"), "PublicKey")
    raw = base64.b64decode(t)
    e, n = int.from_bytes(raw[16:20], "little"), int.from_bytes(raw[20:], "little")
    out.append(dict(k="pub", how="client", text=units(t), e=number(e, 4), n=number(n, 256) if n >> 2040 else []))
    key = os.urandom(32)
    pub = rsa.RSAPublicNumbers(e, n).public_key()
    while True:
        x = pub.encrypt(key, padding.PKCS1v15())
        if shape == "any" or (shape == "low" and x[-1] == 0) or (shape == "high" and x[0] == 0):
            break
    t = base64.b64encode(KEY + x[::-1]).decode()
    out.append(dict(k="key", how="peer", text=units(t), x=list(x), len=32))
    p.forge("c", "EncryptedSessionKey", b'<Obj RefId="0"><MS><S N="EncryptedSessionKey">%s</S></MS></Obj>' % t.encode())
    carry(p, key, texts, out, "client")
    return out


MINE = None


def with_server(n, texts):
    """A real server, and a client that follows the documents."""
    global MINE
    if MINE is None:
        MINE = rsa.generate_private_key(public_exponent=65537, key_size=2048)
    mine = MINE
    num = mine.public_key().public_numbers()
    t = base64.b64encode(PUB + num.e.to_bytes(4, "little") + num.n.to_bytes(256, "little")).decode()
    out = [dict(k="pub", how="peer", text=units(t), e=number(num.e, 4), n=number(num.n, 256))]
    for i in range(n):
        p = Peer()
        p.start()
        p.forge("s", "PublicKey", b'<Obj RefId="0"><MS><S N="PublicKey">%s</S></MS></Obj>' % t.encode())
        b = blob_of(one(p.take("s"), "EncryptedSessionKey"), "EncryptedSessionKey")
        raw = base64.b64decode(b)
        x = raw[12:][::-1]
        try:
            key = mine.decrypt(x, padding.PKCS1v15())
        except Exception:
            key = b""
        out.append(dict(k="key", how="server", text=units(b), x=list(x), len=len(key)))
        if len(key) == 32:
            carry_server(p, key, texts[i % len(texts) :: n], out)
    return out


def relay(u):
    """A secret received in one session and passed on in others, and by a client that cannot read it yet."""
    out = []
    a, b = Peer(), Peer()
    a.start()
    b.start()
    for x in (a, b):
        x.c.exchange_key()
        x.pump()
    a.cp.send(T.PSSecureString(text(u)))
    a.pump()
    first = a.msg("PipelineInput")[1].data
    for route, p, give, t in (
        ("the same session", a, a.sp.write_output, "PipelineOutput"),
        ("another session", b, b.cp.send, "PipelineInput"),
        ("another session", b, b.sp.write_output, "PipelineOutput"),
    ):
        give(first)
        p.pump()
        out.append(dict(k="seen", how="through " + route, u=u, got=read(p.msg(t)[1].data)))
    p = Peer()
    p.start()
    p.sp.write_output(T.PSSecureString(text(u)))
    p.pump()
    got = p.msg("PipelineOutput")[1].data
    p.cp.send(got)
    p.pump()
    out.append(dict(k="seen", how="by a client without the key", u=u, got=read(p.msg("PipelineInput")[1].data)))
    p.s.request_key()
    p.pump()
    out.append(dict(k="seen", how="once the key is there", u=u, got=read(got)))
    return out


def held(holder, v):
    o = T.PSObject()
    if holder == "bare":
        return v
    if holder == "list":
        return T.PSList([1, v])
    if holder == "dict":
        return {"a": 1, "b": v}
    if holder in ("prop", "adapted"):
        o = T.PSCustomObject(a="x")
        if holder == "prop":
            T.add_note_property(o, "p", v)
        else:
            o = T.PSCustomObject(a="x", p=v)
        return o
    if holder == "credential":
        return T.PSCredential(UserName="me", Password=v)
    if holder == "nested":
        return [T.PSCustomObject(l=[{"k": T.PSCredential(UserName="me", Password=v)}])]
    if holder == "stack":
        return T.PSStack([v, 2])
    if holder == "queue":
        q = T.PSQueue()
        q.put(v)
        return q
    return T.PSIEnumerable([v, v])


def place(p):
    word = "Tr0ub4dor&3 geheim"
    v = held(p["holder"], T.PSSecureString(word))
    r = p["route"]
    w = Peer(**{{"app_args": "app_args", "private": "app_data"}[r]: {"first": 1, "k": v}} if r in ("app_args", "private") else {})
    out, msgs = "ok", []
    try:
        if r == "app_args":
            w.c.open()
        elif r == "private":
            msgs = w.start()[0]
        else:
            w.start()
            ci = [w.s.host_call(T.HostMethodIdentifier.ReadLine), w.sp.host_call(T.HostMethodIdentifier.ReadLine)]
            w.pump()
            if p["exchanged"]:
                w.c.exchange_key()
                w.pump()
            M = T.HostMethodIdentifier.ReadLine
            q = psrpcore.ClientPowerShell(w.c)
            q.add_command("c")
            if r in ("argument", "parameter"):
                q.add_argument(v) if r == "argument" else q.add_parameter("n", v)
            do = dict(
                input=lambda: w.cp.send(v),
                argument=q.start,
                parameter=q.start,
                pool_result=lambda: w.c.host_response(ci[0], v),
                pipe_result=lambda: w.cp.host_response(ci[1], v),
                output=lambda: w.sp.write_output(v),
                pool_param=lambda: w.s.host_call(M, [1, v]),
                pipe_param=lambda: w.sp.host_call(M, [1, v]),
                event=lambda: w.s.send_event(1, "src", sender=1, source_args=[v], message_data="x"),
                info=lambda: w.sp.write_information(v, "src"),
                target=lambda: w.sp.write_error(T.NETException(Message="m"), target_object=v),
            )
            do[r]()
    except psrpcore.MissingCipherError:
        out = "missing_cipher"
    except Exception as e:
        out = repr(e)
    msgs = msgs + w.take("c") + w.take("s")
    clear = [m.t for m in msgs if any(x in m.body for x in (word.replace("&", "&amp;").encode(), word.encode(), b"geheim"))]
    found = sum(len(secrets_in(wire.tree(m.body))) for m in msgs if m.body)
    return [dict(k="place", how=r, p=p, out=out, queued=bool(msgs), clear=bool(clear), found=found)]


def batch(task):
    what, args = task
    try:
        return dict(client=with_client, server=with_server, relay=lambda *us: sum(map(relay, us), []), place=lambda *ps: sum(map(place, ps), []))[what](*args)
    except Exception as e:
        import traceback

        return [{"what": "%s: %r" % (what, e), "case": traceback.format_exc()[-600:]}]


def run(chk):
    r = common.tlc("SecretGen", dict(Size=4 if chk.thorough else 3), invariants=["Sound"], workers=2)
    chk.add_tlc(r)
    cases = [x["c"] for x in r.lines]
    texts = [c["u"] for c in cases if c["k"] == "text"]
    places = [c["p"] for c in cases if c["k"] == "place"]
    chk.rng.shuffle(texts)
    more = 4 if chk.thorough else 1
    tasks = []
    nc = 24 * more
    for i in range(nc):
        tasks.append(("client", (i % 2 == 0, ("any", "low", "high")[i % 3], texts[i::nc])))
    for i in range(8):
        tasks.append(("server", (100 * more, texts[i::8])))
    tasks += [("relay", texts[i : i + 20]) for i in range(0, 400 * more, 20)]
    long = []
    for n in [600, 2000, 2048, 4095, 8192, 20000, 40000] * more:
        u = [chk.rng.choice([chk.rng.randrange(1, 0xD800), chk.rng.randrange(32, 127)]) for _ in range(n)]
        tasks.append(("relay", [u]))
        long.append(n)
    tasks += [("place", places[i : i + 20]) for i in range(0, len(places), 20)]
    out = []
    for b in common.pmap(batch, tasks, limit=300):
        out += b
    for h in [c for c in out if "what" in c]:
        chk.violation(h["what"], case=h["case"])
    out = [c for c in out if "what" not in c]
    n = {}
    for c in out:
        n[c["k"]] = n.get(c["k"], 0) + 1
    chk.cov["secrets"] = dict(texts=len(texts), long=long, places=len(places), judged=n)
    for c, b in common.judge(chk, "SecretJudge", out, par=8):
        chk.violation("secrets (%s): %s" % (c["how"], b["why"]), case=c)
