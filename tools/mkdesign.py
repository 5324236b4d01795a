#!/usr/bin/env python3
"""fills the tables of DESIGN.md (from tools/DESIGN.in, properties.jsonl, bounds.py, spec.py, known_findings.txt, seeded/)"""
import os,sys,json,re
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,R)
import bounds,spec
ORACLE=dict(C01="reference encoder/decoder",C02="reference encoder/decoder",C03="reference encoder/decoder",C04="ISO tables (Python codecs)",C05="value of the same bytes read alone (relational)",C06="reference encoder, then read back",
B01="reference buffer",B02="reference stack",I01="the bytes of the stream",I02="the bytes of the string",E01="names listed in the harness (documented names)",
S01="memory model, step limit",S02="element types of the template",S03="text of the template",S04="reference decoder of character references",S05="entity map of the caller",S06="unsplit scan of the same document (relational)",S07="unmasked scan (relational)",
S08="offsets computed from the template",S09="scan in another encoding (relational) and reference encoder",S10="error computed from the template",S11="scan without copy (relational)",S12="nextItem() loop (relational)",S13="std::string output (relational)",
W01="scan of the printed document gives the calls",W02="reference state machine of the printer",W03="std::string output (relational)",H01="grammar of the header",H02="unsplit / fresh parser (relational)",
A01="evaluator on the element tree",A02="evaluator with counters",A03="each expression alone (relational)",A04="programming interface (relational), reference grammar",A05="runs without copy/insertion (relational)",A06="document without header (relational)",A07="evaluator on the elements of the template",A08="memory model, step limit",R01="each object alone (relational)")
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
rows=[]
for p in props:
    i=p['id']; jobs=spec.PROPS[i]['jobs']('quick')
    rows.append('| **%s** %s *%s* | %s (%d jobs) | %s | %s |'%(i,p['title']+'.',p['why_tests_cant'],', '.join(sorted(set(j['src'] for j in jobs))),len(jobs),ORACLE[i],bounds.B[i]('quick')))
fixed=['* **%s** `%s` %s'%m for m in re.findall(r'^fixed: property=(\S+) (\S+) (.*)$',open(R+'/known_findings.txt').read(),re.M)]
seeds=['| planted | property | needs |','|---|---|---|']
for s in sorted(os.listdir(R+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(R,s))); seeds.append('| %s | %s | %s |'%(s,m['property'],m['needs'].replace('|','/')))
t=open(R+'/tools/DESIGN.in').read()
for k,v in (('@TABLE@',rows),('@FIXED@',fixed),('@SEEDS@',seeds)): t=t.replace(k,'\n'.join(v))
t=t.replace('@NPROPS@',str(len(props))).replace('@NSEEDS@',str(len(seeds)-2))
open(R+'/DESIGN.md','w').write(t)
