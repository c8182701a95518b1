#!/usr/bin/env python3
"""Rewrites the fixed list of known_findings.json from the fix commits of /repo."""
import json,subprocess,os
P={ # subject prefix -> properties
"SliceReader":"C08","read the whole compound":"C07","follow the chain of mini":"C07","iteration ends":"C18","RK numbers":"C02","number formats do not":"C15","formula strings":"C03","a number that is not":"C02","integer and percent":"C13","a single byte of run":"C03","a dialog sheet":"C10","content nested":"C10","Set and SetURL":"C18","a sheet is empty":"C18","Scan reports":"C19","a large declared":"C18","a sheet without declared":"C20","only the value of":"C04","phonetic guides":"C04","invalid style":"C20","the workbook of an":"C05","merged ranges are":"C11","a hyperlink of a range":"C12","references beyond":"C20","an xlsx sheet can":"C23","xlsx.Open does not":"C22","open-ended":"C11","a hyperlink keeps":"C12","hyperlinks of an xls":"C12","a hyperlink without":"C12","a hyperlink to a place":"C12","negative amounts":"C13","workbooks which use":"C14","times of day":"C14","built-in date":"C14","negative numbers and":"C16","whole numbers beyond":"C16"}
P.update(json.load(open(os.path.dirname(__file__)+'/fixed_extra.json')))
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s'],capture_output=True,text=True).stdout
f='/verif/known_findings.json'
k=json.load(open(f)) if os.path.exists(f) else {"findings":[]}
k['fixed']=[]
for l in log.splitlines():
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    s=s[5:]
    p=[P[q] for q in sorted((q for q in P if s.startswith(q)),key=len)][-1:]
    if len(p)!=1: print('NO PROPERTY:',s,p); continue
    k['fixed'].append("fixed: property=%s %s %s"%(p[0],h,s))
json.dump(k,open(f,'w'),indent=1,ensure_ascii=False); open(f,'a').write('\n')
print(len(k['fixed']))
