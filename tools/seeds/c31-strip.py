ID = "c31-strip"
PROPERTY = "C31"
NEEDS = "a database in which some other value begins or ends with a blank, and any tool that changes it"
BREAKS = "setting one value also changes others: their outer blanks are gone"
EDITS = [("support/icbdb.py", "                val = vb.decode(\"utf-8\", errors=\"surrogateescape\")\n                self._data[key] = val\n", "                val = vb.decode(\"utf-8\", errors=\"surrogateescape\")\n                self._data[key] = val.rstrip()\n")]
DEMO = r'''
t = tempfile.mkdtemp(prefix="icbdemo.")
def put(d):
    b = b"IDB\x01" + struct.pack("<I", len(d))
    for k, v in d.items():
        b += struct.pack("<II", len(k), len(v)) + k + v
    open(t + "/x.db", "wb").write(b)
def get():
    b = open(t + "/x.db", "rb").read(); n = struct.unpack("<I", b[4:8])[0]; i = 8; d = {}
    for _ in range(n):
        k, v = struct.unpack("<II", b[i:i + 8]); i += 8
        d[b[i:i + k]] = b[i + k:i + k + v]; i += k + v
    return d
try:
    d = {b"al.nick": b"al", b"al.text": b"two  ", b"al.addr": b" here "}
    put(d)
    subprocess.run([sys.executable, REPO + "/support/setdb.py", "-d", t + "/x", "bo.nick", "bo"], stdout=subprocess.DEVNULL, check=True, cwd=t)
    g = get()
    check(g == {**d, b"bo.nick": b"bo"}, "database is %r" % g)
finally:
    shutil.rmtree(t, ignore_errors=True)
'''
