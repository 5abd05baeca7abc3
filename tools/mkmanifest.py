import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
note=("Every obligation Verus generates for the functions named in vlib/props.py (extracted from /repo's current source on every run, contracts in spec/*.vspec) is discharged for all inputs, all iterations and every integer type. "
      "Trusted: the extraction rules R1-R17, Verus and its SMT solver, the standard-library contracts and pointer stand-ins listed in the evidence file's trusted_base. "
      "The real crate is also run against an independent statement of the property; that part is sampling, finds the failing input of a refuted obligation, and is not counted as proof.")
extra={
 'C02':' The pointer operations of the unsafe code are verified through stand-ins that state their documented preconditions; that the bytes read are UTF-8 is proved, that the compiled unsafe code meets the stand-ins is assumed.',
 'C03':' Display and Debug delegate to str and are only run, not proved; the comparison of str values is an axiom on their text.',
 'C09':' That the tables of /verif/spec/31_tables.vspec are the right characters of each script is the statement of the property; they were taken from Unicode and the documentation, not from the code.',
 'C11':' The panic is an obligation of its own: new returns only for descending lists, and reaches its panic only for others.',
 'C22':' The proof is that every formatter meets one specification that mentions the value only (width_* lemmas, discharged), whatever type carries it.',
 'C23':' Termination, arithmetic, indexing and panic obligations of every function of the crate except Debug/Display.',
 'C24':' The same contracts are discharged for the build without the alloc feature, where they say: this text if it fits 62 bytes, else out of memory with this nominal.',
}
m={'version':1,'setup_cmd':'sh setup.sh',
 'checks':[{'property':p['id'],'quick_cmd':f"python3 check.py {p['id']} quick",'thorough_cmd':f"python3 check.py {p['id']} thorough",
   'technique':'contract-based deductive verification (Verus) of the functions extracted from /repo on every run; conformance runs supply failing inputs',
   'level':'proof','level_note':note+extra.get(p['id'],'')} for p in props],
 'not_applicable':[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
