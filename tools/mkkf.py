import subprocess
M=['C08','C20','C22','C10','C10','C14','C10','C13','C26','C13','C13','C21','C07','C07','C03','C03','C05','C03','C06','C02','C24','C24','C12','C07','C18','C03','C03','C26','C08','C05','C05','C07','C01','C19','C12','C08','C18','C07','C07','C18','C22','C06','C08','C02','C06','C07','C10','C11','C24','C24','C22','C13','C13','C12','C13','C16','C18','C18','C28','C27','C08','C15']
out=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','15cd4ca..HEAD'],text=True).strip().split('\n')
assert len(out)==len(M),(len(out),len(M))
with open('/verif/known-findings.txt','w') as f:
    f.write('''# Genuine defects of direct-connect/go-dc found by this framework.
# "fixed:" lines record repaired defects and suppress nothing.
# "KNOWN property=<id> key=<signature> <text>" lines would list unrepaired ones; there are none.
''')
    for m,l in zip(M,out):
        h,s=l.split(' ',1)
        f.write(f'fixed: property={m} {h} {s[5:]}\n')
