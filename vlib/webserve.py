"""Runs the web server program over scratch folders and plays requests: webserve.py BINARY JOBS.json

Started inside a network namespace of its own where possible, so that the fixed port is free."""
import fcntl, http.client, json, os, socket, struct, subprocess, sys, time


def loopback():
    try:
        s = socket.socket()
        fcntl.ioctl(s, 0x8914, struct.pack("16sh", b"lo", 0x1 | 0x8 | 0x40))
    except OSError:
        pass


def main():
    binary, jobs = sys.argv[1], json.load(open(sys.argv[2]))
    loopback()
    out = []
    for j in jobs:
        p, t0, up = None, time.time(), False
        while not up and time.time() < t0 + 60:
            if p is None or p.poll() is not None:
                p = subprocess.Popen([binary], cwd=j["dir"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
                time.sleep(0.05)
            try:
                socket.create_connection(("127.0.0.1", 3000), timeout=1).close()
                up = p.poll() is None
            except OSError:
                time.sleep(0.05)
        if not up:
            sys.exit(4)
        for r in j["requests"]:
            try:
                c = http.client.HTTPConnection("127.0.0.1", 3000, timeout=10)
                c.putrequest(r["method"], r["path"])
                c.putheader("Origin", "http://example.org")
                c.endheaders()
                a = c.getresponse()
                body = a.read().decode("latin1")
                out.append({"status": a.status, "text": body, "origin": a.getheader("access-control-allow-origin") or "",
                            "location": a.getheader("location") or ""})
                c.close()
            except Exception as e:  # noqa
                out.append({"status": -1, "text": repr(e), "origin": "", "location": ""})
        p.kill()
        p.wait()
    print(json.dumps(out))


main()
