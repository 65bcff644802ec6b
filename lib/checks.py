"""What each property's check runs. `cases` is (quick, thorough)."""

import os, subprocess

import vbuild

COMMON = ['vh.cc', 'model.cc']


def prog(name, quick, thorough, **kw):
    d = dict(name=name, sources=[name + '.cc'] + COMMON + kw.pop('more', []), cases=(quick, thorough))
    d.update(kw)
    return d


LOCALES = [('de_DE', 'UTF-8'), ('fr_FR', 'UTF-8'), ('ps_AF', 'UTF-8'), ('tr_TR', 'UTF-8'), ('de_DE', 'ISO-8859-1')]


def locales(tier, seed, n, work):
    """Compiles the locales V32 uses into the run's own directory."""
    d = os.path.join(str(work), 'locales')
    os.makedirs(d, exist_ok=True)
    for name, charset in LOCALES:
        # 1: compiled with warnings
        p = subprocess.run(['localedef', '--no-archive', '-i', name, '-f', charset, os.path.join(d, name + '.' + charset)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        if p.returncode > 1:
            raise vbuild.BuildError('localedef %s: %s' % (name, p.stderr[-300:]))
    return ['--locales', d]


CHECKS = {
    'V01': dict(
        technique='sanitized operation histories checked step by step against a reference model',
        rule='random histories of 5-60 operations (36 kinds) on 2-4 variables with sharing, nesting and shared sub-containers; after every operation every variable is compared with the model; distinct by operation, outcome, operand kind and state',
        programs=[prog('v01', 50000, 600000)]),
    'V02': dict(
        technique='sanitized reference histories checked step by step against a reference model',
        rule='as V01 with up to six stored references (direct, missing-element, multi-level, re-pointed, copied) taking part in the operations while variables are erased, cleared, grown and destroyed; distinct by operation, outcome, operand kind and state',
        require={'proxy-reference': 1, 'invalid-reference-raised': 1, 'exists': 1, 're-point': 1, 'missing-read': 1, 'made-by-reference': 1, 'made-otherwise': 1},
        programs=[prog('v02', 60000, 600000, sources=['v01.cc'] + COMMON, args=['--refs', '1'])]),
    'V03': dict(
        technique='sanitized typed reads of generated values checked against exact integer arithmetic',
        rule='values of every kind (with values next to the limits of every C number type), numeric and boolean text, containers with and without unconvertible elements, read through every typed accessor, directly and through references; distinct by value',
        require={'integer-read': 1, 'float-read': 1, 'raised': 1, 'numeric-text': 1, 'boolean-text': 1, 'non-numeric-text': 1, 'container-conversion': 1, 'bad-element': 1, 'complex': 1},
        programs=[prog('v03', 60000, 2000000)]),
    'V04': dict(
        technique='sanitized comparisons and arithmetic checked against exact 128-bit and extended-precision arithmetic',
        rule='pairs of numbers of all kinds biased to the limits of each kind, pairs of near-equal documents differing in one place, list searches, non-numbers, operands reached directly, through references, copies and shared handles; distinct by operand pair and operation',
        require={'number-comparison': 1, 'text-comparison': 1, 'unrelated-types': 1, 'equal-containers': 1, 'different-containers': 1, 'float-arithmetic': 1, 'integer-arithmetic': 1, 'unsigned-arithmetic': 1, 'self-operand': 1, 'non-number': 1, 'found': 1, 'not-found': 1},
        programs=[prog('v04', 80000, 3000000)]),
    'V05': dict(
        technique='sanitized path-operation histories checked step by step against a tree model, with path text written from the documented grammar',
        rule='histories of 3-25 path operations (set, get, default, has, erase with and without pruning, reference, text form) on random trees with keys holding every special character, malformed path text and list indices near the 32-bit limit with bounded memory; distinct by operation, outcome, path and document shape',
        require={'set': 1, 'set-refused': 1, 'get': 1, 'get-absent': 1, 'get-default': 1, 'has': 1, 'erase': 1, 'erase-prune': 1, 'reference': 1, 'text': 1, 'malformed': 1, 'huge-index': 1},
        programs=[prog('v05', 12000, 400000, more=['bigalloc.cc'])]),
    'V06': dict(
        technique='sanitized execution with a reference-document oracle and an independent JSON parser',
        rule='random documents (all types, nesting to 900, up to 70,000 values and strings and blobs of up to 200,000 bytes, integer and floating edge values, Unicode, control characters, segmented blobs) written with random parameters and read back; non-trivial: more than two nodes; distinct by document content',
        require={'pretty': 1, 'compact': 1, 'strict-refused': 1, 'strict-accepted': 1, 'deep-nesting': 1, 'large': 1},
        programs=[prog('v06', 16000, 400000)]),
    'V07': dict(
        technique='sanitized parsing of generated and corrupted JSON text judged by the document it was written from and by an independent JSON reader',
        rule='texts written from random documents with every liberty of the grammar, numbers in every notation, every prefix of a text, and one or two random edits of a text; distinct by text',
        require={'accepted': 1, 'deep-nesting': 1, 'surrogate-pair': 1, 'short-escape': 1, 'truncation-refused': 1, 'numbers': 1, 'corruption-refused': 1, 'corruption-still-valid': 1, 'beyond-64-bits': 1},
        programs=[prog('v07', 60000, 1500000)]),
    'V08': dict(
        technique='sanitized execution with a reference-document oracle and an independent YAML event reader',
        rule='random documents (all types, text that looks like other scalars, all Unicode planes, control characters, segmented blobs, up to 70,000 values and strings and blobs of up to 200,000 bytes) written with random style, indentation, width and precision parameters and read back; hand-written text with anchors, aliases and re-used anchor names and plain scalars on the edge of another type; distinct by document content',
        require={'large': 1, 'documents': 1, 'looks-like-scalar': 1, 'deep-nesting': 1, 'precision': 1, 'alias-used': 1, 'anchor-redefined': 1, 'key-anchors': 1, 'plain-scalars': 1, 'quoted-scalar': 1, 'tagged-scalar': 1, 'long-integer': 1},
        programs=[prog('v08', 60000, 1500000)]),
    'V09': dict(
        technique='sanitized execution with a reference-document oracle and an independent XML parser',
        rule='random documents (all types, XML-representable text of every kind, segmented blobs, up to 70,000 values and strings and blobs of up to 200,000 bytes) written with random parameters and read back, and property lists written by hand with comments, CDATA, character references and processing instructions anywhere; distinct by document content',
        require={'large': 1, 'documents': 1, 'deep-nesting': 1, 'precision': 1, 'written-text': 1, 'cdata': 1, 'comment-in-text': 1, 'character-reference': 1, 'beyond-64-bits': 1},
        programs=[prog('v09', 40000, 1000000)]),
    'V10': dict(
        technique='sanitized execution with a reference-document oracle over written, hand-written and unrepresentable headers',
        rule='random flat headers (keys and text of every plain character, numbers at every limit, lists of any length, lines longer than every buffer) written and read back with and without a final newline, headers written by hand with comments, blank lines, blanks and either line end, and documents the format cannot hold; distinct by document and text',
        require={'large': 1, 'documents': 1, 'no-final-newline': 1, 'written-text': 1, 'comment-line': 1, 'trailing-comment': 1, 'list': 1, 'refused-nested-map': 1, 'refused-nested-list': 1, 'refused-map-in-list': 1, 'refused-blob': 1, 'refused-list-root': 1, 'refused-scalar-root': 1},
        programs=[prog('v10', 20000, 500000)]),
    'V11': dict(
        technique='sanitized parsing, validation and patching of hostile input with per-case leak and CPU watch',
        rule='edited, spliced, token-soup, random, deeply nested (to 500000), very long, entity- and alias-bomb and payload-framed texts fed to every parser, to guessing, to multi-document and payload reading from four kinds of source, hostile schemas with every keyword given every kind of value, hostile pointers, patches and paths; distinct by input',
        require={n: 1 for n in ['edited', 'heavily-edited', 'spliced', 'token-soup', 'random-bytes', 'nested', 'long', 'payload', 'entities', 'aliases'] + [a + b for a in ['json', 'yaml', 'xml', 'bundle', 'guess', 'all', 'payload', 'schema', 'defaults', 'pointer', 'patch', 'path'] for b in ['-value', '-refused'] if a + b != 'bundle-refused']},
        programs=[prog('v11', 60000, 1500000, more=['io.cc', 'bigalloc.cc'])]),
    'V12': dict(
        technique='sanitized reading of the same bytes from ten kinds of source with injected chunking, results compared',
        rule='valid, corrupted, concatenated and blank texts of every format, many longer than every internal buffer, read whole, with guessing and document by document from memory (exact-size block), string, C string, file name, file, chunked file, stream buffers, a short-reading stream and a custom input; distinct by text and entry point',
        require={n: 1 for n in ['large', 'valid', 'corrupted', 'several', 'blank', 'guessed', 'all-documents', 'single', 'refused', 'read', 'longer-than-4096', 'longer-than-8192', 'string', 'c-string', 'file-name', 'file', 'chunked-file', 'stringbuf', 'chunked-streambuf', 'short-read-stream', 'custom-input', 'named']},
        programs=[prog('v12', 16000, 300000, more=['io.cc'])]),
    'V13': dict(
        technique='sanitized writing of the same document to nine kinds of destination with injected partial writes and exactly sized memory blocks, bytes compared',
        rule='random documents of every format and parameters, many longer than every internal buffer, written to a named file, files, stream buffers and outputs that take only part of each write and memory blocks that are exact, too small by one or more, or larger; distinct by bytes written',
        require={n: 1 for n in ['large', 'documents', 'longer-than-8192', 'file-name', 'file', 'partial-file', 'stringbuf', 'partial-streambuf', 'memory', 'memory-output', 'memory-output-no-length', 'partial-output', 'too-small', 'named']},
        programs=[prog('v13', 50000, 1000000, more=['io.cc'])]),
    'V14': dict(
        technique='sanitized reading and writing with a failure injected at a chosen byte of the source or destination, outcome checked',
        rule='random documents of every format with a failure at every kind of place (first, last, random byte) in files, stream buffers that refuse, throw or fail to flush, outputs that throw, a full device, small memory blocks and unclosed emitters, and in files, stream buffers, streams and inputs being read; distinct by text, failing byte and kind of failure',
        require={n: 1 for n in ['write-file', 'write-streambuf-short', 'write-streambuf-throws', 'write-streambuf-sync', 'write-output-throws', 'write-dev-full', 'write-dev-full-file', 'write-unwritable-name', 'write-memory-small', 'write-destroyed-unclosed', 'read-file', 'read-streambuf', 'read-stream', 'read-input', 'read-directory', 'read-missing', 'complete-before-failure']},
        programs=[prog('v14', 60000, 1500000, more=['io.cc'])]),
    'V15': dict(
        technique='sanitized blob histories with a release log, and contents checked against an independent base64 and byte model',
        rule='byte strings of every length class in random segmentations with empty segments: measured, compared, copied, written and read in three formats and as other writers lay base64 out; histories of 4-40 operations sharing blobs between pointers, values, lists, maps and failing writers with every release logged; distinct by bytes, segmentation and history',
        require={n: 1 for n in ['empty', 'bytes', 'segmented', 'equal', 'different', 'json', 'yaml', 'xml', 'foreign-text', 'created', 'stored', 'assigned', 'nested', 'erased', 'pointer-taken', 'copied', 'written', 'write-failed']},
        programs=[prog('v15', 40000, 1500000, more=['io.cc'])]),
    'V16': dict(
        technique='sanitized execution with a reference-document oracle over header and payload streams',
        rule='1-6 header and payload documents of one format with random parameters, paths and payload handling, written to one destination that may take partial writes and read from one source that delivers in any chunks, whole or cut inside the last payload; paths through lists, nulls and values that cannot hold the length; distinct by stream',
        require={n: 1 for n in ['attached', 'no-payload', 'ignored', 'given-length', 'length-in-header', 'cut-refused', 'back-to-back', 'string-form', 'file-form', 'json', 'yaml', 'xml', 'bundle', 'to-output', 'to-stringbuf', 'to-partial-streambuf', 'to-file', 'from-memory', 'from-file', 'from-stringbuf', 'from-streambuf', 'from-stream', 'from-input', 'from-memory-unsafe', 'length-in-list', 'data-in-list', 'null-on-the-way', 'unplaced-reported', 'named', 'general', 'stream-form']},
        programs=[prog('v16', 30000, 800000, more=['io.cc'])]),
    'V17': dict(
        technique='sanitized loading of document streams checked against the sequence written, with several iteration patterns',
        rule='streams of 0-7 YAML documents of every kind, concatenated or written by one emitter, whole or with an error inside one document, loaded from every kind of source by iterators that are copied, run ahead, take turns and pass the end, YAML and JSON parsers used repeatedly, and single JSON and property list documents; distinct by stream and pattern',
        require={n: 1 for n in ['null-document', 'scalar-document', 'empty-container', 'no-documents', 'second-pass', 'turns', 'past-the-end', 'error-inside', 'one-emitter', 'concatenated', 'reuse-json', 'reuse-yaml', 'documents-many', 'single-json', 'single-xml']},
        programs=[prog('v17', 30000, 900000, more=['io.cc'])]),
    'V18': dict(
        technique='sanitized reading through format guessing compared with explicit reading',
        rule='random JSON, YAML and property list documents with random parameters and leading blanks read from every kind of source through guessing, and inputs drained after guessing; distinct by text and source',
        require={n: 1 for n in ['json', 'yaml', 'xml', 'leading-blanks', 'nothing-consumed', 'memory', 'string', 'c-string', 'file-name', 'file', 'stringbuf', 'streambuf', 'stream', 'input', 'serialize-guess']},
        programs=[prog('v18', 30000, 900000, more=['io.cc'])]),
    'V24': dict(
        technique='sanitized flattening, expanding, recursive difference and update checked against a model, with sharing monitors',
        rule='random trees flattened with random delimiters, index marks and list handling and expanded again; pairs of edited and unrelated trees compared and updated recursively, the result changed afterwards; distinct by documents and style',
        require={n: 1 for n in ['flatten', 'expand', 'text-map', 'difference', 'no-difference', 'update', 'marks', 'data-has-no-text']},
        programs=[prog('v24', 60000, 2000000)]),
    'V25': dict(
        technique='sanitized command-line parsing in forked children checked against a model of the declaration and of GNU option conventions',
        rule='random declarations (1-7 options, 0-3 positionals, groups, every action, type and limit, environment, configuration files in three formats, nested and list destinations) made through the API in any order, from a description and rebuilt from another parser; 2-5 valid lines each in every spelling, one after the other by the same or other parsers while earlier results are changed; printed configurations loaded again; distinct by declaration and line',
        require={n: 1 for n in ['result', 'direct', 'rebuilt', 'merged', 'text', 'description', 'parsed-again', 'schema-checked', 'abbreviated', 'cluster', 'interleaved', 'terminator', 'short-joined', 'long-equals', 'config-json', 'config-plist', 'printed-and-loaded', 'description-validated', 'found-again', 'refused-declaration']},
        programs=[prog('v25', 6000, 150000)]),
    'V26': dict(
        technique='sanitized command-line parsing in forked children: exit status, messages and results of rule-breaking lines checked against a model of the declaration',
        rule='declarations as in V25 with lines, environments and configuration files that break a rule or look as if they did; every result validated with the generated schema; help; distinct by declaration and line',
        require={n: 1 for n in ['refused', 'refused-type', 'refused-value', 'refused-missing', 'refused-unknown', 'refused-exclusive', 'refused-required-group', 'refused-no-argument', 'refused-superfluous', 'refused-extra', 'refused-too-many', 'refused-too-few', 'refused-environment', 'refused-configuration-file', 'help', 'adv-help', 'schema-checked']},
        programs=[prog('v26', 10000, 250000, sources=['v25.cc'] + COMMON, args=['--bad', '1'])]),
    'V27': dict(
        technique='ThreadSanitizer over concurrent use in fresh processes, results compared with the same work done alone',
        rule='2-8 threads that start together in a fresh process, each with 1-4 tasks out of 24 (writing and reading every format and source, broken input, guessing, values and references, tools, payloads, streams, schemas, loaders, addresses, files, option declarations, and reading, copying, comparing, writing and judging one shared document), two thirds of the cases starting with the same facility in every thread, with random pauses; distinct by tasks and observed order of starts and ends',
        require=dict({'overlapping-pairs': 100, 'different-facilities': 1}, **{'first-use-' + n: 1 for n in ['json', 'yaml', 'xml', 'bundle', 'broken', 'guess', 'named', 'values', 'tools', 'payload', 'stream', 'schema', 'metaschema', 'defaults', 'files', 'options', 'shared-read', 'shared-copy', 'shared-handle', 'shared-write', 'shared-judge']}),
        programs=[prog('v27', 1600, 40000, more=['io.cc'], flavor='tsan')]),
    'V29': dict(
        technique='sanitized reading of hostile documents with watched file, network and program calls, canary files watched by the kernel and a loopback listener',
        rule='property lists with external and parameter entities, document types, includes, style sheets and schema locations, YAML tags, JSON and bundle documents and schemas naming a canary file and a loopback listener in every form of address, whole and corrupted, read from every kind of source, validated and written; harmless documents read as expected; distinct by document and source',
        require={n: 1 for n in ['json', 'yaml', 'xml', 'bundle', 'from-string', 'from-memory', 'from-stream', 'from-file', 'from-named-file', 'guessed', 'all-documents', 'with-payload', 'by-parser', 'harmless', 'read', 'refused', 'schema', 'schema-loader', 'schema-address', 'schema-in-data', 'schema-defaults', 'fetching-loader', 'written', 'written-to-file']},
        programs=[prog('v29', 30000, 900000, more=['io.cc'])]),
    'V30': dict(
        technique='runs of the sanitized varsh program checked against the library operations it stands for, with injected read, write and usage failures',
        rule='random documents in every format given by file, several files and standard input, with random output format, layout, path, set, list, length, flatten, expand, schema and payload options, and missing, unreadable, cut, unwritable, full, unknown and contradictory ones; distinct by command line and input',
        require={n: 1 for n in ['json', 'yaml', 'xml', 'bundle', 'from-json', 'from-yaml', 'from-xml', 'from-bundle', 'guessed', 'standard-input', 'several-inputs', 'output-file', 'path', 'set', 'set-file', 'list', 'length', 'flatten', 'expand', 'payload', 'payload-in', 'schema-holds', 'schema-fails', 'missing-schema', 'pretty', 'indent', 'precision', 'width', 'map-style', 'list-style', 'scalar-style', 'document-begin', 'document-end', 'missing-input', 'directory-input', 'cut-input', 'unwritable-output', 'absent-path', 'full-output', 'full-standard-output', 'unknown-option', 'two-formats', 'unfit']},
        programs=[prog('v30', 2500, 60000, more=['io.cc'], prepare=lambda tier, seed, n, work: ['--varsh', str(vbuild.build('asan', 'varsh', [vbuild.REPO + '/src/varsh.cc']))])]),
    'V31': dict(
        technique='sanitized emitters configured at creation and afterwards, parameters read back and output judged by a layout model and an independent YAML event reader',
        rule='random documents written in every format by emitters with random parameters given at creation, set one by one or all at once, known and unknown; distinct by document, format and parameters',
        require={n: 1 for n in ['read-back', 'set-all', 'set-one', 'unknown-parameter', 'strict-refused', 'json-pretty', 'json-compact', 'xml-pretty', 'xml-compact', 'precision-json', 'precision-yaml', 'precision-xml', 'precision-bundle', 'begin-marked', 'begin-implicit', 'end-marked', 'end-implicit', 'map-block', 'map-flow', 'list-block', 'list-flow', 'scalar-double', 'scalar-single', 'scalar-plain', 'scalar-literal', 'scalar-folded', 'yaml-indented', 'width', 'json', 'yaml', 'xml', 'bundle']},
        programs=[prog('v31', 30000, 900000, more=['io.cc'])]),
    'V32': dict(
        technique='sanitized writing, reading and conversion under other C, C++ and thread locales compared with the same work in the C locale',
        rule='random documents, numerals in every notation, paths, pointers, flattened lists, payloads, schemas and option lines with numbers that other locales write differently, handled in the C locale and then in one of five compiled locales set for the process, for numbers only, for the thread or for C++, or with invented decimal, grouping and boolean marks; distinct by input and locale',
        require={n: 1 for n in ['write', 'read', 'values', 'paths', 'flatten', 'payload', 'schema', 'options', 'alike', 'refused-alike', 'c-all', 'c-numeric', 'thread', 'c++-named', 'c++-marks', 'c-and-c++', 'write-json', 'write-yaml', 'write-xml', 'write-bundle', 'read-json', 'read-yaml', 'read-xml', 'read-bundle', 'read-guess', 'numerals-json', 'numerals-yaml', 'numerals-xml', 'numerals-bundle'] + [l[0] + '.' + l[1] for l in LOCALES]},
        programs=[prog('v32', 6000, 200000, more=['io.cc'], prepare=locales)]),
    'V28': dict(
        technique='sanitized event streams checked by a nesting monitor, forwarded between formats, and parser reuse histories',
        rule='random documents of every format received event by event, forwarded into emitters of other formats, emitted event by event, and read by one parser over histories of whole, cut, corrupted, failing, given up and receiver-refused texts with resets between; the states a parser reports after every step; emitters flushed anywhere, with what has arrived read back; distinct by text and history',
        require={n: 1 for n in ['events-json', 'events-yaml', 'events-xml', 'events-bundle', 'driven-json', 'driven-yaml', 'driven-xml', 'driven-bundle', 'json-to-json', 'json-to-yaml', 'json-to-xml', 'yaml-to-json', 'yaml-to-yaml', 'yaml-to-xml', 'xml-to-json', 'xml-to-yaml', 'xml-to-xml', 'bundle-to-json', 'bundle-to-yaml', 'bundle-to-xml', 'reuse-error', 'reuse-json', 'reuse-yaml', 'reuse-xml', 'reuse-bundle', 'after-error-json', 'after-error-yaml', 'after-error-xml', 'after-error-bundle', 'reuse-fault', 'refused-event-json', 'refused-event-yaml', 'refused-event-xml', 'refused-event-bundle', 'given-up-json', 'given-up-xml'] + [s + f for f in ['json', 'yaml', 'xml', 'bundle'] for s in ['state-done-', 'state-fault-', 'state-refused-', 'flushed-file-', 'flushed-stream-']] + ['state-syntax-json', 'state-syntax-yaml', 'state-syntax-xml', 'plain-value']},
        programs=[prog('v28', 30000, 900000, more=['io.cc'])]),
    'V19': dict(
        technique='sanitized schema validation checked against a model of JSON schema draft 4',
        rule='random schemas of all draft 4 keywords in any nesting, most of them built around the document, and random documents with numbers up to the limits of 64 bits, validated repeatedly, each followed by documents that differ in one place and have the other verdict; distinct by schema and document',
        require={n: 1 for n in ['valid', 'invalid', 'type', 'enum', 'multiple', 'minimum', 'maximum', 'string', 'array', 'unique', 'object', 'pattern-properties', 'dependencies', 'combinator', 'next-valid', 'next-invalid', 'format-date-time', 'format-date', 'format-time', 'format-regex', 'format-shoe-size']},
        programs=[prog('v19', 40000, 1500000)]),
    'V20': dict(
        technique='sanitized validation of schemas with references compared with the model verdict of the same schema written out, and address resolution against a model of RFC 3986',
        rule='random schemas with parts moved behind local references with keys that need escaping, registered documents and a missing schema callback; recursive schemas and trees; references to nothing and to themselves; random address pairs; schemas with identifiers at the root, at parts and in lists and references spelled in every relative form, in chained loaders over histories of registering, forgetting and validating; documents fetched from files and a loopback server, missing, cut and empty ones included; distinct by schema and document',
        require={n: 1 for n in ['named-below-keyword', 'named-decoy', 'valid', 'invalid', 'local-reference', 'external-reference', 'by-address', 'by-callback', 'recursive-valid', 'recursive-invalid', 'loop', 'nowhere', 'address', 'with-id', 'by-name', 'named-in-list', 'inner-base', 'named-by-data', 'chain', 'forgotten-missed', 'identified-valid', 'identified-invalid', 'file-address', 'file-path', 'file-search', 'fetched-nothing']},
        programs=[prog('v20', 60000, 2000000, sources=['v19.cc'] + COMMON, args=['--refs', '1'])]),
    'V33': dict(
        technique='sanitized schema validation with every reported place checked against a model of JSON schema draft 4',
        rule='random refused pairs of schema and document, a third with parts of the schema behind references: each error, and each error under an alternative, is followed through document and schema together and must name a keyword that refuses the value there; random schemas with one malformed keyword at any place, which must be reported there, or not at all when it is not looked at; distinct by schema and document',
        require={n: 1 for n in ['place-root', 'place-deep', 'place-behind-reference', 'explained', 'several-accept', 'at-list', 'malformed-reported', 'malformed-unseen'] + ['at-' + k for k in ['type', 'enum', 'multipleOf', 'minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum', 'minLength', 'maxLength', 'pattern', 'minItems', 'maxItems', 'uniqueItems', 'minProperties', 'maxProperties', 'additionalProperties', 'additionalItems', 'anyOf', 'oneOf', 'not']] + ['malformed-' + k for k in ['type', 'enum', 'multipleOf', 'minimum', 'maximum', 'minLength', 'maxLength', 'pattern', 'minItems', 'maxItems', 'uniqueItems', 'minProperties', 'maxProperties', 'required', 'properties', 'patternProperties', 'dependencies', 'allOf', 'anyOf', 'oneOf', 'exclusiveMinimum', 'exclusiveMaximum']]},
        programs=[prog('v33', 50000, 2000000, sources=['v19.cc'] + COMMON, args=['--where', '1'])]),
    'V34': dict(
        technique='allocation fault injection under sanitizers, with a count of the memory in use, a damage monitor and comparison with the undisturbed result',
        rule='random reading, writing, conversion, changing, path, pointer, patch, schema and blob work, first undisturbed and then with one request for memory, or all from one on, failing: every request of short work, six random ones of long work; distinct by work, input and number of requests',
        require={n: 1 for n in ['reported', 'read-json', 'read-yaml', 'read-xml', 'read-bundle', 'read-guess', 'write-json', 'write-yaml', 'write-xml', 'write-bundle', 'read-payload', 'write-payload', 'copy', 'insert', 'element', 'compare', 'merge', 'map-index', 'conversion', 'text', 'assign', 'set-path', 'erase-path', 'path-text', 'has-path', 'flatten', 'expand', 'rdiff', 'json-diff', 'json-patch', 'pointer', 'pointer-add', 'str-map', 'validate', 'registered', 'address', 'defaults', 'blob']},
        programs=[prog('v34', 36000, 1000000, more=['io.cc', 'failnew.cc'])]),
    'V21': dict(
        technique='sanitized addition of schema defaults checked against a model, with sharing and repetition monitors',
        rule='random documents and schemas with defaults of every kind at any depth, in properties, items, tuples, combinations, local references, registered documents and a callback, applied three times to a value or to a place in one; recursive schemas; distinct by document and schema',
        require={n: 1 for n in ['added', 'nothing-to-add', 'no-document', 'tuple', 'each', 'recursive', 'combination', 'local-reference', 'external-reference', 'by-address', 'ignored-keyword']},
        programs=[prog('v21', 30000, 800000)]),
    'V22': dict(
        technique='sanitized JSON pointer histories checked step by step against a model of RFC 6901 and 6902',
        rule='histories of 1-10 pointer operations (look up, assign, add, remove, replace, move, copy, form) on random documents with keys that need escaping or look like indices, pointers to existing, new, appended, past-the-end and malformed places; distinct by document and operations',
        require={a + b: 1 for a in ['lookup', 'add', 'remove', 'replace', 'move', 'copy', 'assign'] for b in ['', '-refused']},
        programs=[prog('v22', 100000, 3000000)]),
    'V23': dict(
        technique='sanitized JSON patches and differences checked against a model of RFC 6902, with roll-back and sharing monitors',
        rule='patches of 1-8 operations that succeed, fail at any operation, fail a test or are malformed, applied to random documents, and differences between edited and unrelated documents; distinct by document and patch',
        require={n: 1 for n in ['difference', 'no-difference', 'applied', 'failed', 'test-failed', 'rolled-back', 'add', 'remove', 'replace', 'move', 'copy', 'test']},
        programs=[prog('v23', 100000, 3000000, sources=['v22.cc'] + COMMON, args=['--patch', '1'])]),
}
NOT_APPLICABLE = {}
