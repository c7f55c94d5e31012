#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CSN = ('TLA+ (spec/Csn.tla): TLC model checking; TLC-generated behaviours replayed in the real program; recorded runs '
       'validated by TLC as behaviours of the specification')
NOTE = ('The property is checked exhaustively on the specification for small constants. Real runs of the unmodified program '
        '(I/O and HTTP transport observed and perturbed by an LD_PRELOAD shim) over generated scenarios must be behaviours of the '
        'same specification. Bounded by the scenarios generated; trusts kernel, libcurl and zstd, and the shim.')
checks = {}
for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C11', 'C12', 'C13', 'C18', 'C22', 'C23'):
    checks[p] = (CSN, NOTE)
UNOTE = ('The definition in the specification is evaluated by TLC on the inputs and recordings of real runs of the unmodified '
         'code. Bounded by the inputs generated. ')
checks['C09'] = ('TLA+ definition of the chunker (spec/Chunker.tla) evaluated by TLC against what real runs find in local stores; refinement of '
                 'the incremental algorithm model checked (MCChunker)', UNOTE + 'Large stores use a C transcription compared with the specification by TLC in the same run.')
checks['C10'] = ('TLA+ (spec/Chunker.tla): incremental algorithm refines the definition (TLC, all data and feeds at small scale); recorded calls of the real '
                 'chunker validated by TLC', UNOTE + 'Uses the chunker_* interface the unit tests use.')
checks['C14'] = ('TLA+ definition of store arguments and chunk URLs (spec/Url.tla) evaluated by TLC against the URLs requested by recorded real runs', UNOTE)
checks['C15'] = ('TLA+ definition of XChaCha20 and of key arguments (spec/XChaCha20.tla) evaluated by TLC against recorded real conversions and runs', UNOTE + 'Uses the encrypt_* interface the unit tests use, csn-tool and csn.')
checks['C17'] = ('TLA+ definition of the index format (spec/Caibx.tla); TLC generates files; recorded runs validated by TLC', UNOTE)
checks['C16'] = ('TLA+ (spec/CsnTool.tla): TLC model checking; TLC-generated histories replayed; recorded histories of real invocations validated by TLC', UNOTE)
checks['C21'] = ('TLA+ definition of command lines (spec/Cli.tla) checked by TLC; command lines put to the real program, whose recorded runs TLC '
                 'validates as behaviours of spec/Csn.tla for the meaning the definition gives', NOTE)
checks['C20'] = ('TLA+ (spec/Patchdd.tla): TLC model checking; TLC-generated situations replayed; recorded system calls of real runs validated by TLC', UNOTE)
checks['C19'] = ('TLA+ (spec/ShaBackend.tla): TLC model checking; TLC-generated fault histories replayed into the real hashing; recorded '
                 'calls and whole runs (spec/Csn.tla) validated by TLC', UNOTE + 'The kernel socket is emulated at the libc boundary.')
checks['C24'] = ('TLA+ (spec/Log.tla): TLC model checking; the same real runs recorded at several log levels, with and without a terminal, validated by TLC '
                 'as runs whose reports follow from one another', UNOTE + 'What messages say is not judged beyond their numbers.')
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py setup',
         checks=[dict(property=p, quick_cmd='VERIF_TIER=quick python3 check.py ' + p,
                      thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                      evidence_file='evidence/%s.json' % p, technique=t, level='model_checking', level_note=n)
                 for p, (t, n) in sorted(checks.items())],
         not_applicable=[dict(property=p, reason='check under construction') for p in props if p not in checks],
         notes='No hooks in /repo: the machinery observes the program at its libc and libcurl boundary.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
