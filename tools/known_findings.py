import json,os,subprocess
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F=[]
log=subprocess.check_output("git -C ${VERIF_REPO:-/repo} log --format='%h %s'",shell=True,text=True).splitlines()
m={ 'SIS_TRUNCATED Hessian':'C01','SIS_TRUNCATED array':'C04','CNFW enclosed-mass':'C01','MULTIPOLE_ELL near':'C05','HERNQUIST':'C01','NFW and TNFW':'C01','coreBURKERT':'C01','NFW deflection keeps':'C02','TNFW mass_3d':'C02','CNFW enclosed mass is':'C02','SHAPELETS_CART':'C03','CNFW convergence':'C04','INTERPOL do_interp':'C05','RADIAL_INTERPOL':'C05','INTERPOL_SCALED':'C05'}
m["NFW and HERNQUIST deflections"]="C01"
try: m.update(json.load(open(R+'/tools/fixmap.json')))
except FileNotFoundError: pass
for l in reversed(log):
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    k=[v for p,v in m.items() if s[5:].startswith(p)]
    if not k: print('UNMAPPED',l); continue
    F.append(dict(property=k[0],status='fixed',commit=h,what='fixed: property=%s %s %s'%(k[0],h,s[5:])))
op=json.load(open(R+'/tools/open_findings.json'))
json.dump(dict(findings=op+F),open(R+'/known_findings.json','w'),indent=1)
print(len(F),'fixed',len(op),'open')
