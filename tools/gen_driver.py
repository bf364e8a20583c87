#!/usr/bin/env python3
"""Generates the Rust dictionary driver (a table of accessors) for a list of attributes and constants.
usage: gen_driver.py ATTRS.json CONSTS.json OUT.rs"""
import json,sys

ADD={
 'string':'{m}::add_{f}(p, txt(x)); Ok(())',
 'octets':'{m}::add_{f}(p, x); Ok(())',
 'concat':'{m}::add_{f}(p, x); Ok(())',
 'fixed':'{m}::add_{f}(p, x)',
 'ipaddr':'{m}::add_{f}(p, &ip4(x)); Ok(())',
 'ipv6addr':'{m}::add_{f}(p, &ip6(x)); Ok(())',
 'ipv4prefix':'{m}::add_{f}(p, x)',
 'ipv6prefix':'{m}::add_{f}(p, x)',
 'integer':'{m}::add_{f}(p, be4(x)); Ok(())',
 'short':'{m}::add_{f}(p, be2(x)); Ok(())',
 'date':'{m}::add_{f}(p, &date(x)); Ok(())',
 'user_password':'{m}::add_{f}(p, x)',
 'tunnel_password':'{m}::add_{f}(p, t, x)',
 'tagged_integer':'{m}::add_{f}(p, t, be4(x)); Ok(())',
 'tagged_string':'{m}::add_{f}(p, t, txt(x)); Ok(())',
}
# conversion of a looked up value y into Val; fallible kinds return Result
CONV={
 'string':'v(y.into_bytes())','octets':'v(y)','concat':'v(y)','fixed':'v(y)',
 'ipaddr':'v(y.octets().to_vec())','ipv6addr':'v(y.octets().to_vec())',
 'ipv4prefix':'v(y)','ipv6prefix':'v(y)','integer':'v(y.to_be_bytes().to_vec())','short':'v(y.to_be_bytes().to_vec())',
 'date':'v(date_octets(y))','user_password':'v(y)',
 'tunnel_password':'vt(y.0, Some(y.1))','tagged_integer':'vt(y.0.to_be_bytes().to_vec(), Some(y.1))',
 'tagged_string':'vt(y.0.into_bytes(), y.1)',
}
INFALLIBLE={'octets','fixed','concat'}
def main(af,cf,out):
    attrs=json.load(open(af)); consts=json.load(open(cf))
    L=['// Generated by tools/gen_driver.py: do not edit.','#![allow(unused_imports, unused_variables, clippy::all)]',
       'use crate::dictroot;','use crate::exec::*;','use radius::core::avp::AVPError;','use radius::core::packet::Packet;','use radius::core::tag::Tag;','']
    for i,a in enumerate(attrs):
        m='dictroot::'+a['mod']; f=a['fn']; k=a['kind']
        L.append(f'fn add{i}(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {{')
        if k=='vsa': L.append(f'    p.add(radius::core::avp::AVP::from_bytes({m}::{a["tconst"]}, x)); Ok(())')
        else: L.append('    '+ADD[k].format(m=m,f=f))
        L.append('}')
        L.append(f'fn look{i}(p: &Packet) -> Option<Result<Val, AVPError>> {{')
        if k=='vsa': L.append(f'    p.lookup({m}::{a["tconst"]}).map(|y| Ok(v(y.encode_bytes())))')
        elif k in INFALLIBLE: L.append(f'    {m}::lookup_{f}(p).map(|y| Ok({CONV[k]}))')
        else: L.append(f'    {m}::lookup_{f}(p).map(|r| r.map(|y| {CONV[k]}))')
        L.append('}')
        L.append(f'fn all{i}(p: &Packet) -> Result<Vec<Val>, AVPError> {{')
        if k=='vsa': L.append(f'    Ok(p.lookup_all({m}::{a["tconst"]}).iter().map(|y| v(y.encode_bytes())).collect())')
        elif k=='concat': L.append(f'    Ok({m}::lookup_{f}(p).into_iter().map(|y| {CONV[k]}).collect())')
        elif k in INFALLIBLE: L.append(f'    Ok({m}::lookup_all_{f}(p).into_iter().map(|y| {CONV[k]}).collect())')
        else: L.append(f'    Ok({m}::lookup_all_{f}(p)?.into_iter().map(|y| {CONV[k]}).collect())')
        L.append('}')
    L.append('pub fn entries() -> &\'static [Entry] {\n    static E: &[Entry] = &[')
    for i,a in enumerate(attrs):
        L.append(f'        Entry {{ num: dictroot::{a["mod"]}::{a["tconst"]}, add: add{i}, look: look{i}, all: all{i}, del: dictroot::{a["mod"]}::delete_{a["fn"]} }},')
    L.append('    ];\n    E\n}')
    L.append('pub fn constants() -> &\'static [u32] {\n    static C: &[u32] = &[')
    for c in consts: L.append(f'        dictroot::{c["mod"]}::{c["const"]} as u32,')
    L.append('    ];\n    C\n}')
    open(out,'w').write('\n'.join(L)+'\n')
if __name__=='__main__': main(*sys.argv[1:4])
