#!/usr/bin/env python3
"""Writes harness/src/ly.rs: the bit-field layouts confirmed on the reviewed tree (reviewed against
DSP0134, frozen), one entry per bit. Run once by hand."""
import re,ast
F=[('bios','000_bios.rs'),('system_slots','009_system_slots.rs'),('bios_language','013_bios_language.rs'),('system_event_log','015_system_event_log/mod.rs'),('system_event_log::log_record_format','015_system_event_log/log_record_format.rs')]
o=['//! Reference bit-field layouts (generated by tools/genlayouts.py, reviewed against DSP0134, frozen).','#![allow(non_snake_case)]','use dmidecode::bitfield::FlagType::{self, Reserved as R, Significant as S};']
for mod,f in F:
    s=open('/repo/src/structures/'+f).read()
    for m in re.finditer(r"impl BitField<'_> for (\w+) \{\s+type Size = (\w+);.*?layout!\(\s*length = (\d+);(.*?)\n    \);",s,re.S):
        ty,sz,n,b=m.groups()
        b=re.sub(r'\\\n\s*','',b)
        items=[]
        for x in re.finditer(r'("(?:[^"\\]|\\.)*")\s*(?:("(?:[^"\\]|\\.)*")\s*|:\s*(\d+))?,',b):
            a,l,c=x.groups()
            items+= [f'R({a})']*int(c) if c else [f'S({a}, {l or a})']
        assert len(items)==int(n),(ty,len(items),n)
        assert int(n)==int(sz[1:]),ty
        o.append(f"pub fn {ty}() -> [FlagType<'static>; {n}] {{\n    [\n"+''.join(f'        {i},\n' for i in items)+'    ]\n}')
        print(mod,ty,sz)
open('/verif/harness/src/ly.rs','w').write('\n'.join(o)+'\n')
