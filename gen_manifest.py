#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the registered rules."""
import json,subprocess,os
here=os.path.dirname(os.path.abspath(__file__))
m=json.loads(subprocess.run(['/bin/bash','-c','. /opt/vp/env.sh; cd %s/tool && go run ./cmd/rdapcheck -list'%here],capture_output=True,text=True,check=True).stdout)
NA={
'N01':'quantifies over wall-clock time of the network, scheduler and TLS stack; no static argument over this source bounds it (that the context and timeout reach every request is decided as C05)',
'N02':'quantifies over run-time cost (allocation and time of encoding/json, fmt and regexp for every input); no sound static bound is in reach',
}
checks=[];na=[]
for l in open(here+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i in m:
        checks.append({'property':i,'quick_cmd':'./check.sh %s quick'%i,'thorough_cmd':'./check.sh %s thorough'%i,
          'technique':'static analysis: '+m[i],'level':'other',
          'level_note':'Decided on the SSA form of the current source for all inputs within the stated scenarios and assumptions; obligations the analysis cannot decide are listed as undecided in the evidence (on the committed tree only C14 has any). Not a machine-checked proof: the analyser and its models of library functions are trusted.'})
    else:
        na.append({'property':i,'reason':NA.get(i,'no check built yet; the property stays listed because users rely on it')})
json.dump({'version':1,'setup_cmd':'./setup.sh','checks':checks,'not_applicable':na},open(here+'/MANIFEST.json','w'),indent=1)
open(here+'/MANIFEST.json','a').write('\n')
