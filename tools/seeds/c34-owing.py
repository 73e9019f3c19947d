ID = "c34-owing"
PROPERTY = "C34"
NEEDS = "a server built with bricks, and somebody who owes some being hit"
BREAKS = "who owes bricks does not get those thrown at them"
EDITS = [("server/s_user.c", "if (u_tab[t].bricks < MAX_BRICKS && t != n) {", "if (u_tab[t].bricks >= 0 && u_tab[t].bricks < MAX_BRICKS && t != n) {")]
DEMO = r'''
import icbdemo
d = tempfile.mkdtemp(prefix="icbbrick.")
try:
    for c in (["cmake", "-S", REPO, "-B", d + "/_build", "-G", "Ninja", "-DICBD_BRICK=ON", "-DBUILD_TESTING=OFF", "-DADMIN_PWD=" + ADMIN], ["ninja", "-C", d + "/_build", "icbd"]):
        subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    icbdemo.REPO = d
    with Icb() as s:
        a, b = s.login("u1", "alice"), s.login("u2", "bob")
        for _ in range(7):
            a.cmd("brick", "bob")
        check(any("You owe 2 bricks." in p for p in a.cmd("brick")), "alice does not owe two")
        b.cmd("brick", "alice")
        a.take()
        got = a.cmd("brick")
        check(any("You owe 1 bricks." in p for p in got), "alice was hit but has not got the brick: %r" % got)
finally:
    shutil.rmtree(d, ignore_errors=True)
'''
