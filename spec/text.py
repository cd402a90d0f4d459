"""Reference model of the text shared by all generated files."""
from acetimetools.extractor.extractor import Extractor


def raw(line):
    return line.replace('\t', '    ')


def head(d, c):
    wrapped = f'\n{c}     --'.join(d.invocation.split(' --'))
    files = f'\n{c}   '.join(Extractor.ZONE_FILES)
    t = d.t
    return f"""\
{c} This file was generated by the following script:
{c}
{c}   $ {wrapped}
{c}
{c} using the TZ Database files
{c}
{c}   {files}
{c}
{c} from https://github.com/eggert/tz/releases/tag/{d.a.tz_version}
{c}
{c} Supported Zones: {d.nz + d.nl} ({d.nz} zones, {d.nl} links)
{c} Unsupported Zones: {len(t.removed_zones) + len(t.removed_links)} \
({len(t.removed_zones)} zones, {len(t.removed_links)} links)
{c}
{c} Requested Years: [{d.a.start_year},{d.a.until_year}]
{c} Accurate Years: [{t.start_year_accurate},{t.until_year_accurate}]
{c}
{c} Original Years:  [{t.original_min_year},{t.original_max_year}]
{c} Generated Years: [{t.generated_min_year},{t.generated_max_year}]
{c} Lower/Upper Truncated: [{t.lower_truncated},{t.upper_truncated}]
{c}
"""


def estimated(d):
    return f"""\
// Estimator Years: [{d.first_year},{d.last_year}]
// Max Buffer Size: {d.max_size}
//
"""


def records(d, c):
    return f"""\
{c} Records:
{c}   Infos: {d.nz + d.nl}
{c}   Eras: {d.ne}
{c}   Policies: {d.np}
{c}   Rules: {d.nr}
{c}
"""


def memory_lines(m):
    return f"""\
//   Rules: {m['rules']}
//   Policies: {m['policies']}
//   Eras: {m['eras']}
//   Zones: {m['zones']}
//   Links: {m['links']}
//   Registry: {m['registry']}
//   Formats: {m['formats']}
//   Letters: {m['letters']}
//   Fragments: {m['fragments']}
"""


def header_py(d):
    return head(d, '#') + records(d, '#') + "# DO NOT EDIT\n\n"


def header_c(d):
    out = head(d, '//') + estimated(d) + records(d, '//')
    out += f"// Memory (8-bits):\n//   Context: {d.memory8['context']}\n" + memory_lines(d.memory8)
    out += f"//   Names: {d.memory8['names']} (original: {d.memory8['names_original']})\n"
    out += f"//   TOTAL: {d.memory8['total']}\n//\n"
    out += f"// Memory (32-bits):\n//   Context: {d.memory32['context']}\n" + memory_lines(d.memory32)
    out += f"//   Names: {d.memory32['names']} (original: {d.memory32['names_original']})\n"
    out += f"//   TOTAL: {d.memory32['total']}\n//\n// DO NOT EDIT\n\n"
    return out


def header_go(d):
    out = head(d, '//') + estimated(d) + records(d, '//')
    out += "// Memory:\n" + memory_lines(d.go.memory)
    out += f"//   Names: {d.go.memory['names']}\n//   TOTAL: {d.go.memory['total']}\n//\n// DO NOT EDIT\n\n"
    return out


def reasons(c, comments, indent, inner):
    """one line per item with a single reason, a block otherwise"""
    out = ''
    for name, why in sorted(comments.items()):
        r = sorted(why)
        if len(r) <= 1:
            out += f"{c} {indent}{name} {{{r[0]}}}\n"
        else:
            out += f"{c} {indent}{name} {{\n"
            for x in r:
                out += f"{c} {inner}{x},\n"
            out += f"{c} {indent}}}\n"
    return out


def merged_reasons(c, merged, inner, indent, sub):
    out = ''
    for name, notes in sorted(merged.items()):
        if len(notes) == 0:
            continue
        if len(notes) == 1 and isinstance(notes[0], str):
            out += f"{c} {name} {{{notes[0]}}}\n"
            continue
        out += f"{c} {name} {{\n"
        for n in notes:
            if isinstance(n, str):
                out += f"{c} {inner}{n},\n"
            else:
                out += reasons(c, n, indent, sub)
        out += f"{c} }}\n"
    return out
