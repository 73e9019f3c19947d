ID = "c29-partial"
PROPERTY = "C29"
NEEDS = "a client whose connection takes one packet in three or more pieces"
BREAKS = "after the second piece the server resumes at the wrong place and sends part of the packet twice"
EDITS = [("pktserv/pktsocket.c", "            msgbuf->pos += result;\n", "            msgbuf->pos = msgbuf->data + result;\n")]
DEMO = r'''
SHIM = """
#define _GNU_SOURCE
#include <dlfcn.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/types.h>
ssize_t write(int fd, const void *b, size_t n)
{
    static ssize_t (*real)(int, const void *, size_t);
    int t; socklen_t l = sizeof(t);
    if (!real) real = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    if (n > 50 && getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0) n = 50;
    return real(fd, b, n);
}
"""
class Small(Icb):
    def start(self):
        c, so = os.path.join(self.dir, "shim.c"), os.path.join(self.dir, "shim.so")
        open(c, "w").write(SHIM)
        subprocess.run(["gcc", "-shared", "-fPIC", "-w", c, "-o", so, "-ldl"], check=True)
        self.so = self.so.split()[0] + " " + so
        Icb.start(self)

with Small() as s:
    a = s.login("u1", "alice"); b = s.login("u2", "bob"); b.take()
    t = "".join("%03d." % i for i in range(45))
    a.send("b" + t)
    for i in range(12):
        s.sync()
    r = [p for p in b.take() if p[:1] == "b"]
    check(r == ["balice\x01" + t], "received %r" % r)
'''
