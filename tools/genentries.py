#!/usr/bin/env python3
"""Writes harness/src/en/tab.rs and harness/src/en/dsp.rs from the list of frozen tables in rt.rs."""
import re
mod=None; tab=[]; dsp=[]
for l in open('/verif/harness/src/rt.rs'):
    m=re.match(r'pub mod (\w+)',l)
    if m: mod=m.group(1)
    m=re.match(r'    pub fn (\w+)_(u8|u16|u32)\(',l)
    if m: tab.append((mod,)+m.groups())
    m=re.match(r"    pub struct D(\w+)<'a>\(pub &'a \w+(<.*>)?\)",l)
    if m: dsp.append((mod,m.group(1),bool(m.group(2))))
path=lambda m: '' if m=='root' else ('system_event_log::log_record_format::' if m=='log_record_format' else m+'::')
o=['//! Every code byte and its meaning (generated by tools/genentries.py).','#![allow(non_snake_case)]','use crate::{mk, rt};']
LIM={'CacheLevel':'x < 8','CacheLocation':'x < 4','CacheOperationalMode':'x < 4'}
for m,t,i in tab:
    a=f'    mk::assume({LIM[t]});\n' if t in LIM else ''
    o.append(f'pub fn {m}_{t}(x: {i}) {{\n{a}    mk::check_eq("t.{m}.{t}", &dmidecode::{path(m)}{t}::from(x), &rt::{m}::{t}_{i}(x));\n}}')
open('/verif/harness/src/en/tab.rs','w').write('\n'.join(o)+'\n')
o=['//! The text of every coded value (generated by tools/genentries.py).','#![allow(non_snake_case)]','use crate::{mk, rt};']
for m,t,lt in dsp:
    l="<'static>" if lt else ''
    o.append(f'pub fn {m}_{t}(v: dmidecode::{path(m)}{t}{l}) {{\n    mk::check("d.{m}.{t}", mk::text_eq(mk::text(&v), mk::text(&rt::{m}::D{t}(&v))));\n    mk::check("d.alt.{m}.{t}", mk::text_eq(mk::textf(format_args!("{{:#}}", v)), mk::textf(format_args!("{{:#}}", rt::{m}::D{t}(&v)))));\n}}')
open('/verif/harness/src/en/dsp.rs','w').write('\n'.join(o)+'\n')
