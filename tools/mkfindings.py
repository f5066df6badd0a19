import subprocess
M={'6962794':'C01','3a3e3ad':'C05','169b4c7':'C05','556e92a':'C23','5487647':'C23','e0bcde8':'C08','0d4d63b':'C13','9de27a1':'C12','101188e':'C05','5ff0f54':'C21','3670a64':'C17','c9d6744':'C17','c4f532a':'C24','a85478a':'C18','875e381':'C18','16dc5d5':'C05','e28df04':'C18','4bfd98f':'C18','55bbd04':'C18','c050760':'C16','c3fa4b8':'C21','7507644':'C17','60ac9e0':'C21','44d9206':'C21','96d020d':'C22','8d70caa':'C01','85ff29b':'C04','bc52e44':'C05','624ba62':'C20','5105fcd':'C21','50d40b0':'C21','9d2616c':'C05','4542495':'C34'}
out=[]
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %H %s']).decode().splitlines():
    h,H,s=l.split(' ',2)
    if h in M: out.append('fixed: property=%s %s %s'%(M[h],h,s[5:]))
assert len(out)==len(M)
open('/verif/known-findings.txt','w').write('# Genuine defects of emacsway/cache-dependencies. "fixed:" lines were repaired in /repo and suppress nothing.\n# "finding:" lines (none at present) have the form: finding: property=ID what fails | scenario | rule | message\n'+'\n'.join(out)+'\n')
