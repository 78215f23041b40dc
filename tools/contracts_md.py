#!/usr/bin/env python3
"""writes CONTRACTS.md: every contract, the functions under it, what it states and its bound"""
import os, glob
V=os.path.dirname(os.path.dirname(os.path.realpath(__file__))); exec(open(V+'/check.py').read().split('class Check')[0].replace('os.path.realpath(__file__)','V+"/x"'))
o=['# Contracts (generated by tools/contracts_md.py)','']
for f in sorted(glob.glob(V+'/contracts/*.cc')):
    o+=['## '+os.path.basename(f),'','| contract | kind | functions | states | bound |','|---|---|---|---|---|']
    for h,d in table(f).items(): o.append('| %s | %s | %s | %s | %s |'%(h,{'CONTRACT':'proved','CONTRACT_T':'proved (thorough)','BOUNDED':'bounded','BOUNDED_T':'bounded (thorough)','FINDING':'finding'}[d['kind']],d['funcs'].replace('|','/'),d['text'].replace('|','/'),(d['bound'] or '').replace('|','/')))
    o.append('')
open(V+'/CONTRACTS.md','w').write('\n'.join(o))
