#!/usr/bin/env python3
"""One-off generator of the *initial* spec and binding files (see DESIGN.md).

It was run once on the pinned commit; its output (harness/spec/wire.txt,
harness/src/gen_*.rs) was reviewed against the code and the standard and is
committed as the specification.  No check runs this script.
usage: gen.py REPO OUTDIR
"""
import re,sys,glob,os
REPO,OUT=sys.argv[1],sys.argv[2]
S=REPO+'/src/'
def strip(s): return re.sub(r'//[^\n]*','',s)
# ---------------------------------------------------------------- enums
es=open(S+'common/enums.rs').read()
s2=re.sub(r'#\[deprecated.*?\)\]','',strip(es),flags=re.S)
s2=re.sub(r'pub enum \w+ \{\s*\}','',s2)
enums={}
for m in re.finditer(r'pub enum (\w+)\s*\{(.*?)\n\}',s2,flags=re.S):
    n=m.group(1); cur=-1; vs=[]; default=None
    for tok in m.group(2).split(','):
        t=tok.strip()
        if not t: continue
        d='#[default]' in t
        t=re.sub(r'#\[[^\]]*\]','',t).strip()
        if not t: continue
        mm=re.match(r'(\w+)(?:\s*=\s*([0-9a-fA-Fx_]+))?$',t)
        if not mm: sys.exit(f'?? {n} {t!r}')
        cur=int(mm.group(2).replace('_',''),0) if mm.group(2) else cur+1
        vs.append((mm.group(1),cur))
        if d: default=mm.group(1)
    enums[n]=(vs,default)
width={}
for m in re.finditer(r'impl (\w+) \{\s*(?:#\[must_use\]\s*)?pub fn deserialize<B: Buf>\(buf: &mut B\) -> Self \{\s*Self::from_(\w+)\(buf\.get_(\w+)\(\)\)',s2):
    assert m.group(2)==m.group(3)
    width[m.group(1)]=int(m.group(2)[1:])
fieldser=set(re.findall(r'impl FieldSerialize for (\w+)',s2))
FLAGS={'LandPlatformAppearance':32,'FrozenBehavior':8,'ObjectStateAppearanceGeneral':16}
FLAGMASK={}
# ---------------------------------------------------------------- records
PRIM={'u8','u16','u32','u64','i8','i16','i32','i64','f32','f64'}
recs={}   # name -> dict(path, fields[(vis,name,ty)], derives, field_traits, length, new)
for f in sorted(glob.glob(S+'common/data_types/*.rs')):
    mod=os.path.basename(f)[:-3]
    if mod=='mod': continue
    t=strip(open(f).read())
    for m in re.finditer(r'#\[derive\(([^)]*)\)\]\s*pub struct (\w+)\s*\{(.*?)\n\}',t,flags=re.S):
        name=m.group(2)
        fields=[(a or '').strip() and ('pub',n,ty.strip()) or ('',n,ty.strip())
                for a,n,ty in re.findall(r'(pub\s+)?(\w+)\s*:\s*([^,\n]+(?:\[[^\]]*\])?)\s*,',m.group(3))]
        dflt='Default' in m.group(1) or re.search(r'impl Default for '+name+r'\b',t)
        ft=bool(re.search(r'impl FieldSerialize for '+name+r'\b',t))
        ln=re.search(r'impl SerializedLength for '+name+r'\s*\{\s*const LENGTH: usize = ([^;]+);',t)
        im=re.search(r'impl '+name+r'\s*\{(.*?)\n\}',t,flags=re.S)
        new=None
        if im:
            nm=re.search(r'pub (?:const )?fn new\((.*?)\)\s*->\s*Self',im.group(1),flags=re.S)
            if nm: new=[(a.strip(),b.strip()) for a,b in re.findall(r'(\w+)\s*:\s*([^,]+)',nm.group(1))]
        recs[name]=dict(mod=mod,fields=fields,default=bool(dflt),ft=ft,length=bool(ln),new=new)
# ---------------------------------------------------------------- pdus
pdus=[]
for f in sorted(glob.glob(S+'*.rs')):
    mod=os.path.basename(f)[:-3]
    t=strip(open(f).read())
    for m in re.finditer(r'pub struct (\w+) \{\s*header: PduHeader,\s*pdu_type: PduType::(\w+),\s*protocol_family: ProtocolFamily::(\w+),\s*fields: \{(.*?)\n        \}',t,flags=re.S):
        flds=re.findall(r'(pub\s+)?(\w+)\s*:\s*((?:[\w:]+)(?:<.*>)?)\s*,',re.sub(r'#\[(len|count)[^\]]*\]','',m.group(4)))
        pdus.append((m.group(1),mod,m.group(2),m.group(3),[(bool(a.strip()),n,ty) for a,n,ty in flds]))
COUNT={
 ('EntityStatePdu','articulation_parameter'):'number_of_articulation_parameters',
 ('EntityStateUpdatePdu','variable_parameter_records'):'number_of_variable_parameters',
 ('AttributePdu','attribute_record_sets'):'number_of_attribute_record_sets',
 ('AggregateStatePdu','aggregate_id_list'):'number_of_dis_aggregates',
 ('AggregateStatePdu','entity_id_list'):'number_of_dis_entities',
 ('AggregateStatePdu','silent_aggregate_system_list'):'number_of_silent_aggregate_types',
 ('AggregateStatePdu','silent_entity_system_list'):'number_of_silent_entity_types',
 ('AggregateStatePdu','variable_datum_list'):'number_of_variable_datum_records',
 ('IsGroupOfPdu','grouped_entity_descriptions'):'number_of_grouped_entities',
 ('ElectromagneticEmissionsPdu','systems'):'number_of_systems',
 ('UnderwaterAcousticPdu','shaft_rpms'):'number_of_shafts',
 ('UnderwaterAcousticPdu','apa_data'):'number_of_apas',
 ('UnderwaterAcousticPdu','emitter_systems'):'number_of_ua_emitter_systems',
 ('IFFPdu','iff_parameters'):'secondary_operational_data.number_of_iff_fundamental_parameter_records',
 ('SupplementalEmissionPdu','propulsion_system_data'):'number_of_propulsion_systems',
 ('SupplementalEmissionPdu','vectoring_nozzle_system_data'):'number_of_vectoring_nozzle_systems',
 ('MinefieldStatePdu','perimeter_points'):'number_of_perimeter_points',
 ('MinefieldStatePdu','mine_type'):'number_of_mine_types',
 ('MinefieldQueryPdu','requested_perimeter_points'):'number_of_perimeter_points',
 ('MinefieldQueryPdu','sensor_types'):'number_of_sensor_types',
 ('MinefieldDataPdu','sensor_types'):'number_of_sensor_types',
 ('MinefieldDataPdu','mine_location'):'number_of_mines_in_this_pdu',
 ('MinefieldResponseNackPdu','missing_pdu_sequence_numbers'):'number_of_missing_pdus',
 ('TransmitterPdu','variable_transmitter_parameters'):'number_of_variable_transmitter_parameters_records',
 ('SignalPdu','data'):'ceil8(data_length)',
 ('IntercomSignalPdu','data'):'ceil8(data_length)',
 ('IntercomControlPdu','intercom_parameters'):'div8(intercom_parameters_length)',
 ('EnvironmentalProcessPdu','environment_records'):'number_of_environment_records',
 ('GriddedDataPdu','grid_axis_descriptors'):'nodec',
 ('GriddedDataPdu','grid_data_list'):'nodec',
 ('LinearObjectStatePdu','linear_segment_parameters'):'number_of_segments',
 ('ArealObjectStatePdu','object_location'):'number_of_points',
 ('DetonationPdu','variable_parameters'):'number_of_variable_parameters',
 ('DirectedEnergyFirePdu','damage_descriptions'):'number_of_de_records',
 ('EntityDamageStatusPdu','damage_descriptions'):'number_of_damage_descriptions',
 ('RecordQueryReliablePdu','record_ids'):'number_of_records',
 ('DataQueryReliablePdu','fixed_datum_ids'):'number_of_fixed_datum_records',
 ('DataQueryReliablePdu','variable_datum_ids'):'number_of_variable_datum_records',
}
RCOUNT={
 ('AcousticEmitterSystemData','beam_records'):'number_of_beams',
 ('AttributeRecord','record_specific_fields'):'record_length',
 ('AttributeRecordSet','attribute_records'):'number_of_attribute_records',
 ('ElectromagneticEmissionBeamData','track_jam_targets'):'number_of_track_jam_targets',
 ('ElectromagneticEmissionSystemData','beam_data_records'):'number_of_beams',
 ('RecordSpecification','record_sets'):'number_of_record_sets',
 ('RecordSpecificationElement','record_values'):'mul(record_length,record_count)',
 ('StandardVariableRecords','record_specific_fields'):'record_length',
 ('StandardVariableSpecification','standard_variable_records'):'number_of_standard_variable_records',
 ('VariableTransmitterParameters','record_specific_fields'):'record_length',
}
def wire(owner,name,ty):
    ty=ty.replace(' ','')
    if ty in PRIM: return ty
    if (owner,name)==('VariableTransmitterParameters','record_type'): return 'enum4:'+ty
    if ty in width: return 'enum:'+ty
    if ty in FLAGS: return 'flags:'+ty
    if ty in recs: return ty
    m=re.match(r'\[(\w+);(\d+)\]$',ty)
    if m: return f'[{m.group(1)} # {m.group(2)}]'
    m=re.match(r'Vec<Option<(.*)>>$',ty)
    if m: return f'[?{wire(owner,name,m.group(1))} ; nodec]'
    m=re.match(r'Vec<(.*)>$',ty)
    if m:
        c=COUNT.get((owner,name)) or RCOUNT.get((owner,name))
        if c is None:
            if name in('fixed_datum_records',): c='number_of_fixed_datum_records'
            elif name in('variable_datum_records',): c='number_of_variable_datum_records'
            elif name=='supplies': c='number_of_supply_types'
            elif name=='vertices': c='nodec'
            else: raise Exception((owner,name,ty))
        return f'[{wire(owner,name,m.group(1))} ; {c}]'
    if ty=='String': return 'marking'
    if ty=='Option<ModulationParameters>': return 'optbytes(modulation_parameter_length)'
    if ty=='Option<AntennaPattern>': return 'optbytes(antenna_pattern_length)'
    raise Exception((owner,name,ty))
W={'u8':1,'u16':2,'u32':4,'u64':8}
out=["# Wire specification: the reference model. One line per field, in wire order, big-endian.",
"# Reviewed by hand against the published field declarations; never regenerated by a check.",""]
bind=["// Binding of the public API to the dynamic value tree (initially generated by tools/gen.py).",""]
SPECIAL={'AntennaPattern','ModulationParameters','VariableDatumRecord','GridAxisDescriptor','GridDataRecord','EntityMarking'}
for n,r in sorted(recs.items()):
    path=f"dt::{r['mod']}::{n}"
    if n in('AntennaPattern','ModulationParameters','GridAxisDescriptor','GridDataRecord'): continue
    out.append('record '+n)
    pubs=[]
    for vis,fn,ty in r['fields']:
        if not vis:
            assert fn.startswith('pad'),(n,fn)
            out.append(f'  pad: {W[ty]}'); continue
        pubs.append(fn)
        if n=='VariableDatumRecord' and fn=='value': out.append('  value: datumvalue(length_bits)')
        else: out.append(f'  {fn}: {wire(n,fn,ty)}')
    out.append('')
    if r['default']: bind.append(f"bind_default!({path}, {{ {', '.join(pubs)} }});")
    else: bind.append(f"bind_literal!({path}, {{ {', '.join(pubs)} }});")
    kind=('field' if r['ft'] else 'plain')+('_len' if r['length'] else '')
    bind.append(f'rec_{kind}!({path}, "{n}");')
bind.append('')
out+=['''record GridAxisDescriptor
  domain_initial: f64
  domain_final: f64
  domain_points: u16
  interleaf_factor: u8
  axis_type: enum:GridAxisDescriptorAxisType
  data: variant(axis_type) 0=GridAxisFixed 1=GridAxisVariable

record GridAxisFixed
  number_of_points_on_x_axis: u16
  initial_index: u16

record GridAxisVariable
  number_of_points_on_x_axis: u16
  initial_index: u16
  coordinate_scale_x: f64
  coordinate_offset_x: f64
  x_values: [u16 ; number_of_points_on_x_axis]
  padding: [u8 ; rest]

record GridDataRecord
  sample_type: enum2:GriddedDataSampleType
  data_representation: enum2:GriddedDataDataRepresentation
  data: variant(data_representation) 0=GridDataType0 1=GridDataType1 2=GridDataType2

record GridDataType0
  number_of_octets: u16
  data_values: [u8 ; number_of_octets]
  padding: [u8 ; rest]

record GridDataType1
  field_scale: f32
  field_offset: f32
  number_of_values: u16
  data_values: [u16 ; number_of_values]
  padding: [u8 ; rest]

record GridDataType2
  number_of_values: u16
  padding: u16
  data_values: [f32 ; number_of_values]
''']
PT=dict(enums['PduType'][0]); PF=dict(enums['ProtocolFamily'][0])
plist=[]
for n,mod,pt,pf,flds in pdus:
    out.append(f'pdu {n} type={PT[pt]} family={PF[pf]}')
    pubs=[]
    for vis,fn,ty in flds:
        if not vis:
            assert fn.startswith('pad'),(n,fn)
            out.append(f"  pad: {W.get(ty,0)}"); continue
        pubs.append(fn); out.append(f'  {fn}: {wire(n,fn,ty)}')
    out.append('')
    bind.append(f"bind_default!(od::{mod}::{n}, {{ {', '.join(pubs)} }});")
    plist.append(f'    pdu::<od::{mod}::{n}>("{n}", {PT[pt]}, {PF[pf]}),')
bind+=['','pub fn all_pdus() -> Vec<PduInfo> {\n  vec![']+plist+['  ]\n}','pub fn all_records() -> Vec<RecInfo> {\n  vec![']
for n,r in sorted(recs.items()):
    if n in('AntennaPattern','ModulationParameters'): continue
    bind.append(f"    rec::<dt::{r['mod']}::{n}>(\"{n}\"),")
bind+=['  ]\n}','']
open(OUT+'/spec/wire.txt','w').write('\n'.join(out))
open(OUT+'/src/gen_bind.rs','w').write('\n'.join(bind))
# ---------------------------------------------------------------- enum tables
g=["// Golden SISO-REF-010 tables: (code, member) for every enumeration (initially generated by tools/gen.py, then pinned).",
   "#![allow(deprecated)]","use crate::bind::*;","use open_dis_rust::common::enums as e;",""]
lst=[]
for n,(vs,d) in enums.items():
    if not vs: continue
    w=width.get(n)
    assert d or n in('DetonationTypeIndicator','RadioAttachedIndicator','IntercomAttachedIndicator') or True
    fs='field' if n in fieldser else 'plain'
    if w is None: print('no decoder:',n,len(vs),d)
    kind={None:'nodec'}.get(w,fs)
    dv=d
    if dv is None:
        md=re.search(r'impl Default for '+n+r'\s*\{\s*fn default\(\) -> Self \{\s*Self::(\w+)',s2)
        dv=md.group(1) if md else None
    if dv is None: kind='nodefault'; print('no default:',n,w)
    g.append(f"enum_{kind}!({n}, {w or 8}, {dv or vs[0][0]}, [{', '.join(f'({c}, {v})' for v,c in vs)}]);")
    lst.append((n,kind))
g.append('pub fn all_enums() -> Vec<EnumInfo> {\n  vec![')
for n,k in lst: g.append(f'    einfo::<e::{n}>(),')
g.append('  ]\n}')
open(OUT+'/src/gen_enums.rs','w').write('\n'.join(g))
# ---------------------------------------------------------------- constructors
c=["// Constructor cases: distinct value per argument, expected field of the same meaning.",""]
for n,r in sorted(recs.items()):
    if r['new'] is None: continue
    print('new',n,r['new'])
