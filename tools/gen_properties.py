#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only for readability)."""
import json, os
P = []
T = 'src/acetimetools/'
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {'files': [T + f if not f.endswith('.sh') else f for f in files],
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})
UNIT = ('The existing tests call a dozen scalar helpers on hand-picked values; no test runs the '
        'extractor, the transformer pipeline or any generator, ')

p('C01', 'Every record field a stage or generator reads has been produced',
  'For every scope, language selection and flag combination the command line accepts, each field of a zone, era, '
  'policy or rule record, and each table of the shared result, that a stage or output generator reads has been '
  'produced by a stage that already ran on that same record. No accepted configuration aborts on a missing field, '
  'nor emits a placeholder in its place.',
  ['configurations', 'inputs'],
  'all accepted combinations of scope, languages, strictness and compression, all zones, eras, policies, rules '
  '(including the synthesised ones)',
  UNIT + 'so a field that is only produced under one scope or language is invisible to them.',
  ['tzcompiler.py', 'transformer/transformer.py', 'transformer/artransformer.py', 'transformer/gotransformer.py',
   'generator/cgenerator.py', 'generator/argenerator.py', 'generator/gogenerator.py', 'generator/pygenerator.py'],
  [('stage order in the driver', 'tzcompiler.py main()'), ('pipeline of in-place transformations', 'transformer.py Transformer.transform')])

p('C02', 'No zone, policy or link disappears without a recorded reason',
  'Whenever the compiler excludes a zone, a zone policy or a link from the generated database it records a non-empty '
  'reason under the name of exactly that item, and every recorded reason reaches the final database and the '
  '"removed" section of the generated files. Conversely an item that is kept by every filter is never listed as removed.',
  ['inputs', 'configurations'], 'all TZ inputs and all filter configurations; every filter of the pipeline',
  UNIT + 'so no filter is exercised, let alone for every reason it can reject an item.',
  ['transformer/transformer.py', 'datatypes/attyping.py', 'generator/argenerator.py', 'generator/cgenerator.py',
   'generator/gogenerator.py', 'generator/pygenerator.py'],
  [('per-filter removal bookkeeping', 'transformer.py _remove_*/_create_* filters'),
   ('merge into the accumulated reasons', 'attyping.py merge_comments'), ('copy into the database', 'attyping.py create_zone_info_database')])

p('C03', 'Extended and complete databases keep every requested zone and link',
  'In the extended and complete scopes a run either produces every zone and every link of the input that the include '
  'list selects (all of them when there is no include list) or aborts without writing any output; an item lost to any '
  'later filter aborts the run. The basic scope may drop unsupported items without aborting.',
  ['inputs', 'configurations'], 'all TZ inputs, all include lists, all three scopes',
  UNIT + 'so the final completeness guard is never reached.',
  ['transformer/transformer.py'], [('count taken after the include filter and compared after all removals', 'transformer.py transform, _verify_zones_and_links_count')])

p('C04', 'Generated databases contain no dangling reference',
  'Every policy named by an era of a generated zone is itself generated, every link points to a zone (never to another '
  'link) that is itself generated, and a policy used by no surviving zone at the time policies are selected is not '
  'generated. Removing an item therefore removes, with a reason, whatever depends on it.',
  ['inputs', 'configurations'], 'all TZ inputs and filter configurations',
  UNIT + 'and referential closure depends on the order of all later removals.',
  ['transformer/transformer.py'],
  [('dependent removals run last', 'transformer.py _remove_zones_without_rules, _remove_links_to_missing_zones'),
   ('unused policies', 'transformer.py _remove_unused_policies'), ('links to links', 'transformer.py _detect_links_to_links')])

p('C05', 'Values off the granularity are removed when strict, noted when not',
  'With strict granularity, a zone or policy having an UNTIL, STDOFF, fixed-RULES, AT or SAVE time that is not a multiple of the '
  'granularity that governs that field is removed with a reason; with non-strict granularity it is kept, its time is truncated '
  'toward zero to a multiple of that granularity and a note is recorded. A value on the granularity is never changed or removed on this ground.',
  ['inputs', 'configurations'], 'all time strings, all granularities, both strictness settings, all five fields',
  'Tests call the truncation helper on a few values; nothing relates strictness, granularity and field in the pipeline.',
  ['transformer/transformer.py'],
  [('truncation with the matching granularity', 'transformer.py _create_zones_with_expanded_until_time, _create_zones_with_expanded_offset_string, '
    '_create_zones_with_rules_expansion, _create_rules_with_expanded_at_time, _update_rules_with_expanded_delta_offset'),
   ('truncate_to_granularity/div_to_zero', 'transformer.py')])

p('C06', 'All output languages carry the same truncated value for each field',
  'For every rule and era, each generated output (Python, Arduino C++, C, Go data and the internal form used for buffer '
  'estimation) derives each time, year, month, day, suffix, offset, format and letter column from the same source column of '
  'the same record, and times and offsets always from the truncated value, never the raw one.',
  ['inputs', 'configurations'], 'all rules and eras, all five outputs, all fields',
  UNIT + 'so a field swapped between two columns, or raw instead of truncated in one language, goes unseen.',
  ['generator/pygenerator.py', 'generator/argenerator.py', 'generator/cgenerator.py', 'generator/gogenerator.py', 'bufestimator/zone_info_inliner.py',
   'transformer/artransformer.py', 'transformer/gotransformer.py'],
  [('record writers', 'generator/*: _generate_rule_item/_generate_era_item and siblings'), ('inliner', 'bufestimator/zone_info_inliner.py')])

p('C07', 'Encoded times and offsets decode to the exact value and fit their field',
  'For every value the compiler does not reject, the coarse code, the remainder and the modifier or nibble emitted for an AT, UNTIL, STDOFF, '
  'SAVE or fixed DST offset decode arithmetically to exactly the truncated value, and every emitted code lies in the range '
  'of the integer field it is stored in; a value that cannot be represented aborts the run instead of being rounded or wrapped.',
  ['inputs', 'configurations'], 'all integer values in range, low and high resolution encodings, Arduino/C and Go',
  'No test covers the encoders; the guarantee ranges over every representable number of seconds.',
  ['transformer/artransformer.py', 'transformer/gotransformer.py', 'transformer/transformer.py'],
  [('quotient/remainder encoders', 'artransformer.py _to_encoded_time_minutes, _to_encoded_time_seconds, _process_rules_delta, _process_eras_stdoff_delta'),
   ('Go encoders', 'gotransformer.py _generate_zone_era_time_codes, _generate_zone_rule_time_codes')])

p('C08', 'Time suffixes are accepted, encoded and printed consistently',
  'Wall, standard and UTC suffixes of AT and UNTIL are encoded with distinct high-nibble codes that never overlap the remainder '
  'bits and every output labels them consistently; an omitted suffix means wall time. Any other suffix, and any non-wall UNTIL '
  'suffix in the basic scope, removes the zone or policy with a reason instead of being emitted.',
  ['inputs', 'configurations'], 'all suffix strings, all scopes and outputs',
  UNIT + 'so suffix filtering and encoding are untested.',
  ['transformer/transformer.py', 'transformer/artransformer.py', 'extractor/extractor.py', 'generator/argenerator.py', 'generator/cgenerator.py', 'generator/gogenerator.py'],
  [('suffix filters', 'transformer.py _remove_zones_invalid_until_time_suffix, _remove_policies_invalid_at_time_suffix'),
   ('suffix codes', 'artransformer.py _to_suffix_code'), ('labels', 'argenerator.py to_suffix_label')])

p('C09', 'Binary integer writers are exact and reject what does not fit',
  'Each fixed-width binary writer accepts exactly the integers representable in its width and signedness, and for those appends exactly '
  'that many bytes: the little-endian two\'s complement representation. Any other integer raises an error and appends nothing.',
  ['inputs'], 'all integers, all six writers',
  'Tests write a handful of boundary values; the claim is about every integer, including both ends of each range.',
  ['generator/byteutils.py'], [('range checks and byte decomposition', 'byteutils.py write_u8 .. write_i32')])

p('C10', 'Fixed-size Go records occupy exactly the advertised chunk size',
  'Each binary Go record kind (rule, policy, era, zone info) is written by a straight sequence of fixed-width fields whose total equals '
  'the chunk size used to split the data, the size advertised in the generated comments and the size used in the memory '
  'estimate. The byte layout written equals the one described by the readable listing: every record is written for every item, in table order.',
  ['inputs', 'programs'], 'all records of all zones and policies',
  UNIT + 'so a field of the wrong width shifts every later record unseen.',
  ['generator/gogenerator.py', 'generator/byteutils.py', 'transformer/gotransformer.py'],
  [('record writers', 'gogenerator.py _generate_rule_data, _generate_policies_data, _generate_era_data, _generate_infos_data'),
   ('chunk sizes', 'gogenerator.py chunk_size; gotransformer.py _generate_memory_map')])

p('C11', 'Go index and offset tables address the records actually emitted',
  'The index, start and size stored for a policy or zone equal the position and length of its rules or eras in the emitted data; string '
  'offsets equal the cumulative length of the strings emitted before them, and index tables are bounded by checks that abort before a '
  'field overflows. Table construction and data emission traverse the same items in the same order.',
  ['inputs'], 'all zones, policies, letters, formats and names',
  UNIT + 'so two traversals that diverge in order or in filter are not noticed.',
  ['transformer/gotransformer.py', 'generator/gogenerator.py'],
  [('index maps', 'gotransformer.py _generate_policy_index_size_map, _generate_info_index_size_map, _collect_*_strings'),
   ('emission', 'gogenerator.py _generate_rules_data, _generate_eras_data, _generate_infos_data')])

p('C12', 'Registries list every entry once, ordered by numeric zone id',
  'Every generated zone registry (and zone-and-link registry) contains each generated zone (and link) exactly once, none is restricted to a subset. '
  'The C, C++ and Go registries, which the libraries search by id with a binary search, are ordered by the ascending unsigned numeric value of the '
  'zone id; the Python registry is a dict keyed by the full name.',
  ['inputs'], 'all zone and link sets, every registry of every language that is searched by id',
  UNIT + 'so the order of a registry is never examined.',
  ['generator/argenerator.py', 'generator/cgenerator.py', 'transformer/gotransformer.py', 'generator/gogenerator.py'],
  [('sort by id', 'argenerator.py/cgenerator.py registry items; gotransformer.py _generate_zone_and_link_index_map')])

p('C13', 'Zone ids are stable, collision-checked and non-zero; names stay distinct',
  'The id of every zone and link is the 32-bit djb2 hash of its full unmodified name, the same in every run, scope and language. The run aborts before '
  'producing output if two zone or link names (across both kinds) hash to the same id or normalise to the same identifier, if an id is zero, or if a link points to a link.',
  ['inputs', 'configurations'], 'all sets of zone and link names',
  'One test hashes two names; collisions, duplicates and link chains across zones and links are never presented.',
  ['transformer/transformer.py'],
  [('hash', 'transformer.py hash_name'), ('sanity checks', 'transformer.py _detect_hash_collisions, _detect_zones_and_links_with_similar_names, _detect_links_to_links'),
   ('ids', 'transformer.py _generate_zone_ids, _generate_link_ids')])

p('C14', 'Generated files are a function of the inputs and flags only',
  'Running the compiler twice on the same TZ files with the same command line produces byte-identical files: the content and order of everything written '
  'never depends on hash-based iteration order, object identity, the clock, random numbers, the environment, the locale or previously existing output.',
  ['configurations', 'histories'], 'all runs, hash seeds, hosts and prior states of the output directory',
  'Tests run once with a fixed hash seed and produce no file.',
  ['transformer/transformer.py', 'transformer/artransformer.py', 'transformer/gotransformer.py', 'transformer/commenter.py', 'datatypes/attyping.py', 'generator/argenerator.py',
   'generator/cgenerator.py', 'generator/gogenerator.py', 'generator/pygenerator.py', 'generator/jsongenerator.py', 'generator/zonelistgenerator.py', 'bufestimator/bufestimator.py'],
  [('sets are sorted before use', 'attyping.py _sort_comments; sorted() at every emission loop')])

p('C15', 'Every identifier a generated file references is defined exactly as spelled',
  'In each generated C, C++, Python and Go database every symbol referenced by one file or table (policies, rules, eras, zone infos, zone ids, names, registries) is '
  'declared and defined in the set with the identical spelling, because both are built from the same name by the same normalisation. Normalisation yields only '
  'identifier characters and keeps distinct suffixes (such as plus signs) distinct from their siblings.',
  ['inputs', 'configurations'], 'all zone, link and policy names, all languages, all database namespaces',
  UNIT + 'and a mismatch appears only when the generated code is compiled or linked.',
  ['generator/argenerator.py', 'generator/cgenerator.py', 'generator/gogenerator.py', 'generator/pygenerator.py', 'transformer/transformer.py'],
  [('normalize_name at every symbol', 'transformer.py normalize_name; generators')])

p('C16', 'Every emitted count equals the number of items emitted',
  'Each count, array length and size constant written into a generated file or database equals the number of elements of the collection it describes, i.e. '
  'of the loop that emits those elements, and memory totals equal the sum of their listed parts. This holds for empty collections as well.',
  ['inputs', 'configurations'], 'all databases, all languages',
  UNIT + 'so a count taken from a neighbouring collection is never noticed.',
  ['generator/argenerator.py', 'generator/cgenerator.py', 'generator/gogenerator.py', 'generator/pygenerator.py', 'generator/zonelistgenerator.py', 'datatypes/attyping.py',
   'transformer/artransformer.py', 'transformer/gotransformer.py'],
  [('len() of the emitted map', 'generators'), ('num_* totals', 'attyping.py create_zone_info_database')])

p('C17', 'Every policy starts with a standard-time rule valid from minus infinity',
  'Every generated policy has at least one rule and its first rule is an anchor that starts at minus infinity with zero DST offset on 1 January 00:00 wall time, carrying the LETTER '
  'of the earliest standard-time rule; the original rules of the policy remain unchanged after it. Otherwise the run aborts.',
  ['inputs'], 'all policies and year windows', UNIT + 'so anchor synthesis is never run.',
  ['transformer/transformer.py'], [('anchor synthesis and verification', 'transformer.py _create_rules_with_anchor_transition, _get_anchor_rule, _convert_to_anchor, _verify_rules_have_anchors, _verify_policies_from_year')])

p('C18', 'Every zone ends at plus infinity and its eras strictly advance',
  'Every generated zone has at least one era, the UNTIL of its last era is plus infinity (in both full and tiny years) with no leftover month, day or time, and '
  'each era ends strictly later than the one before it in (year, month, day, time); zones violating this are removed with a reason or abort the run.',
  ['inputs', 'configurations'], 'all zones and year windows', UNIT + 'so era chains are never built.',
  ['transformer/transformer.py'], [('extension and verification', 'transformer.py _extend_zone_eras_until, _remove_zones_without_eras, _remove_zones_with_non_monotonic_until, _verify_zones_until_year')])

p('C19', 'Exactly the eras and rules that can matter in the year window are kept',
  'An era is kept exactly when it ends in or after the year before the start year and begins no later than the year after the until year; a rule is kept exactly when its '
  'year range meets the window widened by one year on each side, or when it belongs to the latest (year, month) group ending before the widened window. Nothing else is dropped on account of years.',
  ['inputs', 'configurations'], 'all start/until years and all eras and rules', UNIT + 'so no window boundary is ever tested.',
  ['transformer/transformer.py'], [('era filters', 'transformer.py _remove_zone_eras_too_old, _remove_zone_eras_too_new'),
   ('rule filter', 'transformer.py _remove_rules_too_old_or_new, compare_rule_to_interval, find_latest_prior_rules')])

p('C20', 'Claimed accuracy years account for everything that was truncated',
  'A zone is flagged truncated below (above) whenever any of its eras, or any rule of a policy it uses, was dropped for being too old (too new), and the database is flagged when any zone is. '
  'The advertised accurate range is unbounded on a side only when nothing was truncated on that side, and otherwise equals the requested year on that side.',
  ['inputs', 'configurations'], 'all year windows and databases', UNIT + 'so truncation flags are never computed.',
  ['transformer/transformer.py', 'datatypes/attyping.py'], [('flags', 'transformer.py _remove_zone_eras_too_*, _remove_rules_too_old_or_new, _update_truncation_status, _calc_accurate_years')])

p('C21', 'Tiny years are exact in range and saturate to the right infinity',
  'Every 8-bit year equals the full year minus the base year when that fits strictly between the reserved values, maps minus infinity, maximum and plus infinity to their dedicated 8-bit '
  'values, and saturates out-of-range years to the nearest infinity of the right kind; an invalid year never maps to a valid one. Start and until years that do not fit abort the run.',
  ['inputs', 'configurations'], 'all 16-bit years and all base years', 'Tests probe about ten years for a single base year.',
  ['transformer/transformer.py', 'datatypes/attyping.py'], [('mapping', 'transformer.py to_tiny_from_to_year, to_tiny_until_year, is_year_tiny'), ('reserved values', 'attyping.py')])

p('C22', 'Every command-line option takes effect where documented',
  'Every option changes exactly the documented parameter of every stage that has it (scope defaults, granularity overrides, years, strictness, compression, namespace, output directory, include list, buffer-check '
  'override), unknown actions, languages and scopes are rejected before any work, and exactly the generators of the requested actions and languages run, each after the stage that prepares its data.',
  ['configurations'], 'all command lines', 'No test parses a command line.',
  ['tzcompiler.py'], [('flag parsing, scope table and dispatch', 'tzcompiler.py main, generate_zonedb')])

p('C23', 'Every TZ line is read from every file and mapped column by column',
  'Each Rule, Link and Zone line (and Zone continuation line) of every listed TZ file is attributed to its own name in file order, each column reaches the record field that represents it with the documented defaults '
  'for missing UNTIL columns, and a malformed line is counted and reported without affecting other lines. The file list of the compiler matches the one its wrapper scripts copy.',
  ['inputs'], 'all TZ files and lines', 'Tests cover two token helpers; no test feeds a line or a file to the extractor.',
  ['extractor/extractor.py', 'tzcompiler.sh', 'copytz.sh'], [('line dispatch and column mapping', 'extractor.py _parse_zone_file, _process_rule_line, _process_zone_line, _process_links'), ('file lists', 'extractor.py ZONE_FILES; tzcompiler.sh; copytz.sh')])

p('C24', 'Notes about a policy reach exactly the zones that use it',
  'The merged notes of a generated zone are its own notes plus, for every policy used by any of its eras, all notes of that policy under the policy name; notes of policies it does not use never appear. '
  'Zones that have neither are absent from the merged notes.',
  ['inputs'], 'all zones, policies and notes', UNIT + 'so note merging is never run.',
  ['transformer/commenter.py', 'datatypes/attyping.py'], [('merge', 'commenter.py _gather_zones_to_policies, _create_merged_comments_map')])

p('C25', 'Compressed names expand to the original name',
  'Replacing each keyword byte of a compressed zone or link name by the fragment with that index yields the original name; keyword indexes are unique, start at 1, and stay below the '
  'first printable character or the run aborts. The emitted C string literal denotes exactly that byte sequence.',
  ['inputs'], 'all names and fragment sets', 'One test escapes four literals; compression itself is untested.',
  ['transformer/artransformer.py', 'generator/argenerator.py'], [('fragment table and compression', 'artransformer.py _generate_fragments, _extract_fragments, _compress_name'), ('escape', 'argenerator.py compressed_name_to_c_string')])

p('C26', 'Month, weekday and day-of-month columns are decoded as TZDB defines them',
  'Month names map to 1..12 by their first three letters regardless of case, weekdays to ISO numbers, and ON or UNTIL day expressions to exact day, last, on-or-after or on-or-before forms; anything unrecognised, and any '
  'expression that could shift a transition across a year boundary, is rejected with a reason instead of being silently reinterpreted.',
  ['inputs'], 'all month and day strings', 'Tests try about ten strings; rejection inside the pipeline is untested.',
  ['extractor/extractor.py', 'transformer/transformer.py'], [('tables', 'extractor.py MONTH_TO_MONTH_INDEX; transformer.py WEEK_TO_WEEK_INDEX'), ('parsers', 'transformer.py _parse_on_day_string, _create_rules_with_on_day_expansion, _create_zones_with_until_day')])

p('C27', 'Every generated zone has a checked transition-buffer size',
  'Buffer sizes are estimated for every generated zone over the whole requested year range, the recorded maximum is the maximum over all zones, and a zone needing more than the library supports aborts the run unless that check is explicitly overridden. '
  'When estimation is skipped, generation still succeeds.',
  ['inputs', 'configurations'], 'all zones and year ranges', 'The estimator needs a package the tests do not have.',
  ['bufestimator/bufestimator.py', 'tzcompiler.py'], [('estimation loop and limit', 'bufestimator.py BufSizeEstimator')])

p('C28', 'Generation writes its complete file set inside the output directory only',
  'Each requested output writes its complete, fixed set of files, always directly under the output directory, in UTF-8, overwriting previous content in full, and nothing is written before all inputs were parsed, '
  'transformed and verified. The wrapper scripts delete only directories they created themselves.',
  ['configurations', 'histories'], 'all runs and prior states of the output directory', 'Tests write no file.',
  ['generator/argenerator.py', 'generator/cgenerator.py', 'generator/gogenerator.py', 'generator/pygenerator.py', 'generator/jsongenerator.py', 'generator/zonelistgenerator.py', 'tzcompiler.py', 'tzcompiler.sh', 'copytz.sh'],
  [('file writers', 'generator/*: _write_file'), ('cleanup trap', 'tzcompiler.sh')])

p('C29', 'Generated transitions equal those of the reference TZ compiler',
  'For every zone and every instant inside the advertised accurate range, the offset, DST shift and abbreviation obtained from the generated database equal those the reference TZ compiler derives from the same source files.',
  ['inputs'], 'all zones and instants', 'Needs a consumer of the database and a reference implementation; the tests have neither.',
  ['transformer/transformer.py'], [('whole pipeline', 'tzcompiler.py main')])

p('C30', 'Estimated buffer sizes equal the true maximum number of active transitions',
  'For every zone and year in range, the recorded buffer size is the true maximum number of simultaneous transitions the runtime algorithm needs.',
  ['inputs'], 'all zones and years', 'The number is computed by an external package that the tests do not have.',
  ['bufestimator/bufestimator.py'], [('estimator', 'bufestimator.py _calculate_buf_sizes_per_zone')])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
