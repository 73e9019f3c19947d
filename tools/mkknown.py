import json,subprocess
M={"shutdown scheduled":"C30","whereis does not":"C24","what a client was told":"C03","own user slot":"C19","repeat the last line of a whois":"C25","nickname shown by whois":"C25",
"inherit the slot":"C19","idle or boot group by renaming":"C05","registered users invited by site":"C09","/who lists inside":"C24","every /who status":"C24","away message as a format":"C24",
"news entry":"C25","motd file only once":"C24","unterminated character class":"C24","found by @name":"C24","idle-boot and idle-mod limits":"C24","longest idle-boot":"C24","/exclude needs talk":"C10",
"talk list entries":"C24","may have no moderator to ask":"C24","icbd.deny":"C23","write registrations to disk":"C16","TLS packets":"C32","do not spin":"C29","an empty packet ends":"C32","a TLS client that is slow":"C32","disconnect requested":"C20","read state":"C17",
"hung up":"C19","release moderatorships":"C08","passed moderatorship is not taken":"C08","throws its sender out":"C03","whose login failed":"C02","login nickname":"C01","terminate filtered":"C18","delete character":"C18","getword":"C24","split() must":"C24","freed or foreign":"C24","could not be loaded again":"C15","icbdb_get returns long":"C15","overwriting its first entry":"C15","database list has a gap":"C15","names no permission":"C23","cut short within an entry":"C31","are not UTF-8":"C31","contain line ends":"C31","every kind of dbm":"C31","dual-stack port":"C23","TLS error on one connection":"C32","pass for entries of the log":"C35"}
fx=[]
for l in subprocess.run(["git","-C","/repo","log","--format=%h %s","09d08bb..HEAD"],capture_output=True,text=True).stdout.splitlines():
    h,s=l.split(" ",1)
    pid=[v for k,v in M.items() if k in s]
    assert len(pid)==1,(s,pid)
    fx.append("fixed: property=%s %s %s"%(pid[0],h,s[5:]))
d={"findings":[{"property":"C24","id":"restart-command","what":"the administrator's restart command ends the server instead of restarting it: the two spare places of the saved argument vector are read uninitialised, and the restarted process cannot restore its sockets (poll set used before it is allocated, receive buffers and TLS state not restored)",
 "input":"login as admin with the administrator's password, then command 'restart'"}],"fixed":fx}
json.dump(d,open("/verif/known-findings.json","w"),indent=1)
