ID = "c03-hush-stops"
PROPERTY = "C03"
NEEDS = "three members of a group, where one who hushes the sender by address has a lower slot than another member"
BREAKS = "delivery of an open message stops at the first member who hushes the sender's address, so later members miss it"
EDITS = [("server/s_group.c", """    for (i=0; i<MAX_REAL_USERS; i++) {
        if ((i != n) || u_tab[n].echoback)
            if ((strcasecmp(my_group, u_tab[i].group) == 0) &&
                (!nlmatch(one, *u_tab[i].pub_s_hushed)) &&
                (!nlmatch(two, *u_tab[i].pub_n_hushed)) &&
                (u_tab[i].login == LOGIN_COMPLETE))
                sendopen(n, i, fields[0]);
    }
    return 0;""", """    for (i=0; i<MAX_REAL_USERS; i++) {
        if ((i != n) || u_tab[n].echoback)
            if ((strcasecmp(my_group, u_tab[i].group) == 0) &&
                (u_tab[i].login == LOGIN_COMPLETE)) {
                if (nlmatch(one, *u_tab[i].pub_s_hushed))
                    break;
                if (!nlmatch(two, *u_tab[i].pub_n_hushed))
                    sendopen(n, i, fields[0]);
            }
    }
    return 0;""")]
DEMO = r'''
with Icb() as s:
    a = s.login("u1", "alice"); b = s.login("u2", "bob"); c = s.login("u3", "carol")
    b.cmd("hush", "-so u1@*"); c.take()
    a.send("bhello")
    check("balice\x01hello" not in b.take(), "bob hears somebody he hushes")
    check("balice\x01hello" in c.take(), "carol does not get alice's message")
'''
