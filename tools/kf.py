"""Regenerates known_findings.json: no open findings; the repaired defects ("fix:" commits of /repo) by property."""
import json, subprocess, os
MAP = {1:'C04',2:'C04',3:'C01',4:'C28',5:'C09',6:'C01',7:'C01',8:'C04',9:'C01',10:'C04',11:'C01',12:'C04',13:'C04',14:'C13',15:'C13',16:'C13',17:'C09',
18:'C01',19:'C01',20:'C06',21:'C06',22:'C03',23:'C02',24:'N06',25:'C04',26:'N06',27:'C01',28:'C02',29:'C09',30:'C03',31:'C04',32:'C02',33:'C09',34:'C05',
35:'C05',36:'C05',37:'C09',38:'C01',39:'C03',40:'C03',41:'C21',42:'C01',43:'C01',44:'C01',45:'C02',46:'C01',47:'C03',48:'C02',49:'C03',50:'C01',51:'C01',
52:'C07',53:'C04',54:'C01',55:'C22',56:'C03',57:'C01',58:'C06',59:'N06',60:'C09',61:'C07',62:'C30',63:'C30',64:'C03',65:'C05',66:'C05',67:'C30',68:'C09',
69:'C09',70:'C14',71:'C09',72:'C13',73:'C08',74:'C08',75:'C08',76:'C08',77:'C08',78:'C08',79:'C06',80:'C09',81:'C03',82:'C08',83:'C08',84:'C01',85:'C01',
86:'C03',87:'C03',88:'C03',89:'C18',90:'C13',91:'C08',92:'C06',93:'C06',94:'C06',95:'C22',96:'C22',97:'C22',98:'C07'}
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fx = [l for l in log if l.split(' ', 1)[1].startswith('fix:')]
out = {'findings': [], 'fixed': []}
for i, l in enumerate(fx, 1):
    h, s = l.split(' ', 1)
    out['fixed'].append('fixed: property=%s %s %s' % (MAP[i], h, s[5:]))
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'known_findings.json'), 'w'), indent=1)
