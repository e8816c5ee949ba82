"""Network seam: a simulated HTTP server behind http.client's connections.  Everything above the socket is real."""
import http.client
import io
import os
import socket

import simrt
from vsim import rt


class Net:
    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}       # last path component -> bytes
        self.faults = {}      # connection number -> fault
        self.conns = 0
        self.requests = 0
        self.down = False
        self.fired = {}
        self.bytes = 0

    def hit(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1


NET = Net()


class Stream(io.RawIOBase):
    """the bytes a server sends, with the faults of the connection"""

    def __init__(self, data, fault, chunk):
        self.data, self.pos, self.fault, self.chunk = data, 0, fault, chunk
        self.reads = 0

    def readable(self):
        return True

    def readinto(self, b):
        if simrt.active():
            simrt.point()
        f = self.fault
        self.reads += 1
        end = len(self.data)
        if f and f["kind"] in ("reset", "eof", "timeout", "kill"):
            end = min(end, f["at"])
            if self.pos >= end and f["at"] < len(self.data):
                NET.hit(f["kind"])
                # a TLS connection that ends before the headers are complete is an error, not an end of file
                if f["kind"] == "reset" or (f["kind"] == "eof" and f["at"] < self.data.index(b"\r\n\r\n") + 4):
                    raise ConnectionResetError(104, "injected reset")
                if f["kind"] == "timeout":
                    rt.CLOCK.off += 60
                    raise socket.timeout("injected timeout")
                if f["kind"] == "kill":
                    os._exit(42)
                return 0
        if f and f["kind"] == "slow":
            NET.hit("slow")
            rt.CLOCK.off += 30
        n = min(len(b), end - self.pos, self.chunk)
        b[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        NET.bytes += n
        return n


class Sock:
    def __init__(self, fault):
        self.fault = fault
        self.sent = b""

    def sendall(self, d):
        self.sent += bytes(d)

    def makefile(self, mode="rb", *a, **k):
        return io.BufferedReader(Stream(respond(self.sent, self.fault), self.fault, (self.fault or {}).get("chunk", 4096)), 2048)

    def setsockopt(self, *a):
        pass

    def settimeout(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def close(self):
        pass


def respond(request, fault):
    NET.requests += 1
    path = request.split(b" ")[1].decode()
    name = path.rsplit("/", 1)[-1]
    k = fault and fault["kind"]
    if k == "status":
        NET.hit("status_%d" % fault["code"])
        body = b"<html>error</html>"
        return b"HTTP/1.1 %d Error\r\nContent-Length: %d\r\nConnection: close\r\n\r\n" % (fault["code"], len(body)) + body
    if k == "redirect" and "redirected" not in path:
        NET.hit("redirect")
        return b"HTTP/1.1 302 Found\r\nLocation: https://objects.example.com/redirected/%s\r\nContent-Length: 0\r\nConnection: close\r\n\r\n" % name.encode()
    if name not in NET.files:
        return b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"
    data = NET.files[name]
    if k == "chunked" or (fault and fault.get("chunked")):
        out = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\n\r\n"
        for i in range(0, len(data), 5000):
            c = data[i:i + 5000]
            out += b"%x\r\n" % len(c) + c + b"\r\n"
        return out + b"0\r\n\r\n"
    return b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n\r\n" % len(data) + data


def connect(self):
    if simrt.active():
        simrt.point()
    NET.conns += 1
    f = NET.faults.get(NET.conns) or NET.faults.get(0)
    if NET.down:
        NET.hit("down")
        raise OSError(101, "network unreachable")
    if f and f["kind"] == "refused":
        NET.hit("refused")
        raise ConnectionRefusedError(111, "injected")
    if f and f["kind"] == "dns":
        NET.hit("dns")
        raise socket.gaierror(-3, "injected name resolution failure")
    self.sock = Sock(f)


def no_network(*a, **k):
    raise OSError(101, "network unreachable")


def install():
    http.client.HTTPConnection.connect = connect
    http.client.HTTPSConnection.connect = connect
    socket.create_connection = no_network


def fault_case(r, size, kill=False):
    if kill:
        return {"kind": "kill", "at": r.randrange(size + 150), "chunk": r.choice([500, 4096, 20000])}
    k = r.choice(["reset", "reset", "eof", "eof", "eof", "timeout", "status", "refused", "dns", "slow", "redirect", "chunked"])
    f = {"kind": k, "chunk": r.choice([300, 1000, 4096, 20000])}
    if k in ("reset", "eof", "timeout"):
        f["at"] = r.choice([0, r.randrange(150), r.randrange(size), r.randrange(size), size + 100 - r.randrange(150), 150 + 8192 * r.randrange(1, 6)])
        f["chunked"] = r.random() < 0.2
    if k == "status":
        f["code"] = r.choice([403, 404, 429, 500, 503, 502])
    return f
