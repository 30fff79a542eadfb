"""writes MANIFEST.json from the list below"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the resolved MIR (symbolic terms, gated joins, loop summaries; no solver, no execution)'
T = {
 'C01': ('unsafe-operation inventory and bounds obligations over MIR', 'Proof by absence: the crate contains no unsafe operation, so rustc\'s checks cover every access; any unsafe operation introduced must have its bounds discharged by the term analysis for arbitrary (also lying) bases and coefficient types, else it is reported.'),
 'C02': (AI, 'Every operation of both coefficient types is proved equal to the field operation as a symbolic term, for all values; a second pass keeps every rounding apart: in-place forms round exactly as pure ones, results are within a stated number of ulps.'),
 'C03': (AI, 'Each provided method is proved, over an abstract vector space obeying the trait contract of the required methods, to be the specified linear expression; operands unchanged; for all vectors.'),
 'C04': (AI, 'Proved for an arbitrary vector and key, key stored and not stored.'),
 'C05': (AI + ' over all lengths by loop induction', 'Proved for all lengths and storages where the loop summaries apply (all of the current tree), otherwise decided for listed lengths with symbolic coefficients.'),
 'C06': (AI + ' over all lengths by loop induction', 'Access and construction proved for all lengths and keys; from_iterator and insert decided for listed key sequences with symbolic coefficients.'),
 'C07': (AI + ' with a symbolic map domain', 'Proved for arbitrary key sets (in-place operations); combined operations decided for listed key sets with symbolic coefficients.'),
 'C08': (AI + ' with a symbolic map domain', 'Access proved for arbitrary contents and keys; from_iterator, insert and iteration decided for listed key sequences with symbolic coefficients.'),
 'C09': (AI, 'Each wrapper operation is proved to reach the same operation of the wrapped value with the same arguments in order, for an arbitrary wrapped vector.'),
 'C11': (AI, 'Each provided method is proved, over an abstract bilinear product, to be the specified expression, for all elements and degrees.'),
 'C10': (AI + ', fully symbolic coefficients', 'Decided for listed alphabets, operand lengths (including partly filled degrees), targets and truncation degrees, for all coefficient values and an arbitrary coefficient function, over any vector obeying the dense vector contract.'),
 'C12': (AI + ' over the free graded algebra', 'exp, fused multiply-exp and log are evaluated over a free noncommutative algebra with symbolic scalar parts, for each maximum degree listed, and compared term by term with the truncated series.'),
 'C13': (AI + ' with a positional (bit-field) number domain', 'Decided for listed alphabets and all lengths up to the maximum, for all letters; overlong words are shown to panic.'),
 'C14': (AI + ' with a positional (bit-field) number domain', 'Decided for listed alphabets and lengths, for all letters; order and successor against the lexicographic specification.'),
 'C15': (AI + ' with exact integer evaluation', 'Decided for listed alphabets and every degree whose block is representable; consistency of all degree and dimension functions.'),
 'C16': (AI + ' with exact integer evaluation', 'Table contents decided against Witt\'s formula for listed alphabets and degrees; lookup proved for tables with arbitrary entries of listed lengths.'),
 'C17': (AI + ' with a bit-field domain', 'Proved for every key, parents and size within the field widths, and arbitrary Hall set contents.'),
 'C20': (AI, 'Proved for Hall sets with arbitrary contents, keys and degrees.'),
 'C21': (AI, 'Equality decided for listed lengths and key sets with symbolic coefficients, every storage; copies proved for all lengths.'),
'C25': (AI + ' over a domain of texts (literal pieces and printed values)', 'Hall keys proved for every field value; words decided for listed alphabets and lengths with symbolic letters, vectors for listed lengths with symbolic coefficients; every position of a failing write.'),
 'C26': ('type-level encoding: generic witness programs that must type-check and compile-fail witnesses that must not, against the library\'s current source', 'The type checker decides each accepted witness for all types and alphabets it quantifies over; compile-fail witnesses cover the listed programs. Nothing is run.'),
 'C18': ('rely-guarantee abstract interpretation of the cache protocol, and interprocedural guard-liveness (lock order) dataflow over MIR', 'Sound for every interleaving: other threads may act at each lock acquisition. Assumes lock poisoning does not occur.'),
 'C19': ('greatest-fixpoint call-graph analysis over resolved MIR', 'Every function of the crate: no reachable not-implemented panic, and a path that returns without a call that runs endlessly.'),
}
NA = {
 'C22': 'Bit-exact associativity and distributivity are false for IEEE arithmetic and depend on run-time values; no static argument can establish them.',
 'C23': 'A numerical error bound depends on the run-time magnitudes of the coefficients; the term analysis works in exact field arithmetic.',
 'C24': 'Growing a Hall set is not implemented in the library (todo!()), so there is nothing to analyse; C19 records it as a known finding.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
done = set(re.findall(r"'(C\d\d)': \[", open(os.path.join(HERE, 'check.py')).read()))
checks = [dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='python3 check.py %s --thorough' % p, technique=T[p][0], level='other', level_note=T[p][1])
          for p in props if p in done]
na = [dict(property=p, reason=NA.get(p, 'its check is not built yet')) for p in props if p not in done]
json.dump(dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'.\'); from sa import mir; print(mir.driver())"', checks=checks, not_applicable=na,
               notes='Static analysis only: a rustc driver (driver/main.rs) dumps the type-checked, method-resolved MIR of /repo\'s working tree; the Python analyser in sa/ decides each property from it.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
