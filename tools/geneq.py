#!/usr/bin/env python3
"""Writes harness/src/en/eq.rs from the public types of /repo (run by hand; the result is frozen)."""
import re,os
R='/repo/src'
out=[];skip=[];tys={}
for dp,_,fs in sorted(os.walk(R)):
    for f in sorted(fs):
        p=os.path.join(dp,f); b=p[len(R)+1:]
        if b=='lib.rs': mod='';nm='root'
        elif b=='bitfield.rs': mod='bitfield::';nm='bitfield'
        elif b.endswith('log_record_format.rs'): mod='system_event_log::log_record_format::';nm='log_record_format'
        elif '015_' in b: mod='system_event_log::';nm='system_event_log'
        elif re.match(r'structures/\d+_',b): nm=re.match(r'structures/\d+_(\w+).rs',b).group(1);mod=nm+'::'
        else: continue
        src=open(p).read().split('#[cfg(test)]')[0] if 'lib.rs' not in b else open(p).read()
        src=re.sub(r'//.*','',src)
        for m in re.finditer(r'#\[derive\(([^)]*)\)\]\s*(?:#\[[^\]]*\]\s*)*pub (struct|enum) (\w+)(<[^>{(]*>)?\s*([{(;])',src):
            d,k,n,g,br=m.groups()
            if 'PartialEq' not in d: continue
            ty=f'dmidecode::{mod}{n}'
            if g:
                ty+='<'+', '.join("'static" if x.strip().startswith("'") else 'u16' for x in g[1:-1].split(','))+'>'
            flds=None
            if k=='struct':
                i=m.end()-1; dep=0
                for j in range(i,len(src)):
                    if src[j] in '{(<[': dep+=1
                    if src[j] in '})]' or (src[j]=='>' and src[j-1]!='-'): 
                        dep-=1
                        if dep==0: break
                body=src[i+1:j]
                parts=[];dep=0;cur=''
                for ch in body:
                    if ch in '<([': dep+=1
                    if ch in '>)]': dep-=1
                    if ch==',' and dep==0: parts.append(cur);cur=''
                    else: cur+=ch
                parts.append(cur)
                parts=[re.sub(r'#\[[^\]]*\]','',x).strip() for x in parts if x.strip()]
                if br=='{' and any(not re.match(r'(pub )?(?:pub\([^)]*\) )?(r#\w+|\w+)\s*:',x) for x in parts): print(n,parts)
                if br=='{': flds=[(re.match(r'(pub )?(?:pub\([^)]*\) )?(r#\w+|\w+)\s*:',x)) for x in parts]; flds=[(bool(x.group(1)),x.group(2)) for x in flds]; tys[ty]={f[1]:x for f,x in zip(flds,parts)}
                else: flds=[(x.startswith('pub '),str(i)) for i,x in enumerate(parts)]
            out.append((nm,n,ty,k,flds))
o=['//! Equality and hashing: values are equal exactly when all their parts are, and equal values hash alike.','#![allow(non_snake_case)]','use crate::mk;','use crate::hs::eq;']

LISTS={'Enclosure':['contained_elements'],'SystemSlots':['peer_devices'],'SystemEventLog':['supported_event_log_type_descriptors']}
NOREF={'EntryPointV3','Characteristics','CharacteristicsExtension1','CharacteristicsExtension2','ContainedElement','CacheConfiguration','SlotCharacteristics1','SlotCharacteristics2','DeviceAndFunctionNumber','SlotPitch','LanguageFlags','LogRecordFormat','Datetime','LogVariableData','PostResults','LogStatus'}
BIG={'Cache','Enclosure','MemoryDevice','Processor','SystemSlots','SystemEventLog','RawStructure'}
for nm,n,ty,k,fl in out:
    if n in('Structure','Iter'): continue
    if n in BIG:
        L=LISTS.get(n,[])
        o.append(f'pub fn {nm}_{n}(a: &{ty}, o: &{ty}) {{')
        for l in L: o.append(f'    mk::assume(a.{l}.is_none() && o.{l}.is_none());')
        for p,f in fl:
            if p and f not in L: o.append(f'    {{\n        let mut b = a.clone();\n        b.{f} = o.{f}.clone();\n        eq("h.{nm}.{n}.{f}", a, &b, a.{f} == o.{f});\n    }}')
        o.append('}')
        continue
    if k=='enum' or n in NOREF: c='mk::same(a, b)'
    elif all(p for p,_ in fl): c=' && '.join(f'a.{f} == b.{f}' for _,f in fl)
    else: skip.append((ty,fl)); continue
    o.append(f'pub fn {nm}_{n}(a: &{ty}, b: &{ty}) {{\n    eq("h.{nm}.{n}", a, b, {c});\n}}')
open('/verif/harness/src/en/eq.rs','w').write('\n'.join(o)+'\n')
print(len(out)); print(*skip,sep='\n')
