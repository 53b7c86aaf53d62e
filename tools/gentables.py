#!/usr/bin/env python3
"""Writes harness/src/rt.rs: the code tables and texts confirmed on the reviewed tree, as plain functions.
Run once by hand after reviewing the tables against DSP0134; the output is committed and frozen."""
import re,glob,os,sys
R='/repo/src/'
mods=re.findall(r'#\[path = "([^"]+)"\]\s*pub mod (\w+);',open(R+'structures/mod.rs').read())
files=[(m,R+'structures/'+p) for p,m in mods]+[('system_event_log::log_record_format',R+'structures/015_system_event_log/log_record_format.rs'),('',R+'lib.rs')]
out=['//! Reference code tables and texts (generated by tools/gentables.py, reviewed against DSP0134, frozen).','#![allow(non_snake_case)]','use core::fmt;']
from_l=[];disp_l=[]
SKIPD={'SlotPitch','Device','ContainedElement'}
for mod,path in files:
    s=open(path).read().split('#[cfg(test)]\nmod')[0]
    s=s.replace('\r','')
    body=[]
    for m in re.finditer(r'^impl(?:<[^>]*>)? From<(u8|u16|u32)> for (\w+)(?:<[^>]*>)? \{\n    fn from\((\w+): \w+\) -> \S+ \{\n(.*?)\n    \}\n\}',s,re.M|re.S):
        ity,ty,arg,b=m.groups()
        if not b.strip().startswith('match '+arg): print('skip from',mod,ty,file=sys.stderr); continue
        if 'unreachable' in b: pass
        b=re.sub(r'^\s*//.*\n','',b,flags=re.M).replace('Self::',ty+'::')
        fn=f'{ty}_{ity}'
        body.append(f'    pub fn {fn}({arg}: {ity}) -> {ty} {{\n{b}\n    }}')
        from_l.append((mod,ty,ity))
    for m in re.finditer(r'^impl(?:<[^>]*>)? fmt::Display for (\w+)(<[^>]*>)? \{\n    fn fmt\(&self, f: &mut fmt::Formatter<\'_>\) -> fmt::Result \{\n(.*?)\n    \}\n\}',s,re.M|re.S):
        ty,lt,b=m.groups()
        if ty in SKIPD: continue
        b=re.sub(r'^\s*//.*\n','',b,flags=re.M).replace('Self::',ty+'::')
        b=re.sub(r'\bself\b','self.0',b).replace('pr.0)','dmidecode::bitfield::BitField::value(pr))')
        body.append(f"    pub struct D{ty}<'a>(pub &'a {ty}{(lt or '').replace(chr(39)+'_',chr(39)+'a')});\n    impl fmt::Display for D{ty}<'_> {{\n        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {{\n{b}\n        }}\n    }}")
        disp_l.append((mod,ty,lt or ''))
    if not body: continue
    name=mod.split('::')[-1] or 'root'
    out.append(f'pub mod {name} {{\n    #![allow(unused_imports)]\n    use super::fmt;\n    use dmidecode::{mod+"::" if mod else ""}*;')
    if not mod: out.append('    use dmidecode::{InfoType, InvalidEntryPointError, MalformedStructureError};')
    if mod=='system_event_log': pass
    out+=body
    out.append('}')
open('/verif/harness/src/rt.rs','w').write('\n'.join(out)+'\n')
for x in from_l: print('FROM',x)
for x in disp_l: print('DISP',x)
