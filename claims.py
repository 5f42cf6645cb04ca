"""What is claimed per property (single source for MANIFEST.json and the evidence)."""
import json
TRUSTED = [
    'z3 4.x (python binding) and cvc5: answers unsat are believed',
    'pyverify (this repository): the translation of Python sources to verification conditions, including its model of int, str, list, dict, TypedDict, exceptions and the named standard-library calls (logging ignored)',
    'CPython runs the same source files the verifier reads (the verifier parses /repo/src on every run, nothing is copied or edited)',
]
ASSUME = [
    'strings are Unicode code-point sequences; int is unbounded as in Python; no concurrent mutation',
    'values have the types the signatures annotate (TypedDict fields included)',
]
PV = 'contract-based deductive verification of the real Python sources (own VC generator over the AST, z3/cvc5)'
CLAIMS = {}
def c(p, level, technique, note, bounded='', assumes=()):
    CLAIMS[p] = dict(level=level, technique=technique, note=note, bounded=bounded, assumes=list(assumes))
BND = 'the functions not yet under contract are covered by the seeded bounded search against an independent reading of the property (labelled bounded in the evidence, never counted as proved)'
COMP = ('transform() and every method and helper it calls are under contract; the property is an ensures clause of transform(), '
        'discharged for all inputs from the callees\' contracts. Entry precondition: sane_input (the shape the extractor produces). ')
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C16', 'C17', 'C18', 'C19'):
    c(p, 'proof', PV + ' with a bounded search against an independent reading run alongside', COMP +
      'A bounded search on the real code runs alongside (it supplies failing inputs).', BND)
ALONG = ' A bounded search on the real code runs alongside and supplies failing inputs.'
def part(p, proved, bounded, assumes=()):
    c(p, 'proof', PV + ', bounded search standing in for the functions named in the note', 'Proved for all inputs: ' + proved + '. Bounded only: ' + bounded + '.' + ALONG,
      bounded, assumes)
part('C10', 'every code of ArduinoTransformer (the codes written by the C and Arduino generators) decodes to its truncated value, fits its field, or the run raises; and of GoTransformer', 'the text of the generated files', ())
c('C11', 'proof', PV + ' with a bounded search run alongside', 'Every function of byteutils.py is under contract for all integers and all buffers.' + ALONG, 'none of the functions the property names is left to it')
part('C12', 'string tables, offsets, sentinel, index and size maps of gotransformer.py, id order of the registry, overflow errors', 'the text of the generated Go files')
part('C13', 'fragment numbering, keyword range 1..31, compression of every name and that expanding gives the name back (expand is a homomorphism by lemma)', 'the C string literal written for a compressed name',
     ['zone and link names contain no character below 32 (entry precondition)'])
part('C14', 'the bytes of every rule, policy, era and info record at its place in the Go data, from the record\'s own fields', 'hex encoding and the surrounding Go text')
part('C15', 'sorted, consecutive tables: letters, formats, fragments, names, ids, Go strings, buffer sizes', 'order of comments and of the text of the generated files (runs with different hash seeds)')
part('C20', 'the largest size over the years of the scan for every zone, the database maximum, the limit, and that the zones and rules handed to the library are the emitted ones',
     'nothing of this repository; the library acetime is not installed, its three methods have assumed contracts', ['acetime: two years after a terminal year the buffer size no longer changes'])
c('C07', 'proof', PV + ' with a bounded search run alongside', 'Every method of Extractor and every helper it calls is under contract, down to each line of each of the nine files; the property is the ensures clauses of Extractor.parse.' + ALONG,
  'print_summary (log only)', ['open(), readline(), os.path.join (Python library); the files do not change while read', 'a year FROM is below 32767, a year TO is not negative'])
c('C22', 'proof', PV + ' with a bounded search run alongside', 'main() is under contract for every combination of options: what each stage is constructed with, which stages run and in which order, which '
  'names and scopes are refused; the constructors keep what they are given. What the stages do is left open here (C01-C20, C24).' + ALONG, 'the text of messages',
  ['argparse: an attribute of the parsed arguments is the converted value of its option, its default when the option is absent (Python library)', 'which of --strict and --nostrict (--compress and --nocompress) counts when both are given is left open'])
for p in ('C21', 'C24'):
    c(p, 'exploration', 'bounded search against an independent reading of the property, standing in for contracts not yet written',
      'Bounded: ' + BND + '.', BND)
NOT_APPLICABLE = {
 'C23': 'the property is about a shell script and the state of a working directory; no deductive verifier with contracts for shell is available or buildable here',
}

if __name__ == '__main__':
    m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
             notes='python3-vt check.py PROPERTY decides one property on /repo; check.py --replay FILE runs a reported input again. No hooks in /repo.')
    for p in sorted(CLAIMS):
        i = CLAIMS[p]
        m['checks'].append(dict(property=p, quick_cmd=f'python3-vt check.py {p}', thorough_cmd=f'VERIF_TIER=thorough python3-vt check.py {p}',
            technique=i['technique'], level=i['level'], level_note=i['note']))
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    json.dump(m, open('MANIFEST.json', 'w'), indent=1)
    print(len(m['checks']))
