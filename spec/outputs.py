"""Reference model of the output side: what main() writes, file by file, from the transformed maps.

transformed() stands for extraction and transformation (modelled in spec.stages); the analyser replaces it by arbitrary
zones, policies, links, ids, reasons and years.  Every value written below is derived here from those.
"""
import argparse
import json
import os
import sys
from acetimetools.datatypes.attyping import CountAndYear
from acetimetools.datatypes.attyping import TransformerResult
from acetimetools.extractor.extractor import Extractor
from spec.common import MINUS_INF, MAX_UNTIL
from spec.estimate import estimate
from spec.encode import (check, letter_table, format_table, keyword_table, compressed_names, memory,
                         SIZES_8, SIZES_32, SIZES_8_HIGH, SIZES_32_HIGH)
from spec.gotables import go_tables
from spec import cli
from spec.database import database
from spec import out_py
from spec import out_ar
from spec import out_c
from spec import out_go


def options():
    p = argparse.ArgumentParser(description='')
    p.add_argument('--actions', default='zonedb', required=True)
    p.add_argument('--languages', default='', required=True)
    p.add_argument('--input_dir', required=True)
    p.add_argument('--scope', choices=['basic', 'extended', 'complete'], required=True)
    p.add_argument('--start_year', type=int, default=2000)
    p.add_argument('--until_year', type=int, default=2100)
    p.add_argument('--tiny_base_year', type=int, default=2100)
    p.add_argument('--granularity', type=int)
    p.add_argument('--until_at_granularity', type=int)
    p.add_argument('--offset_granularity', type=int)
    p.add_argument('--delta_granularity', type=int)
    p.add_argument('--strict', action='store_true', default=True)
    p.add_argument('--nostrict', action='store_false', dest='strict')
    p.add_argument('--db_namespace')
    p.add_argument('--compress', action='store_true', default=True)
    p.add_argument('--nocompress', action='store_false', dest='compress')
    p.add_argument('--json_file', default='zonedb.json')
    p.add_argument('--tz_version', required=True)
    p.add_argument('--output_dir', default='')
    p.add_argument('--ignore_buf_size_too_large', action='store_true')
    p.add_argument('--include_list', default='')
    p.add_argument('--skip_bufestimator', action='store_true')
    return p.parse_args()


def transformed(result, parameters):
    """extraction and transformation: replaced by the analyser"""


def empty_result():
    return TransformerResult(
        zones_map={}, policies_map={}, links_map={}, zones_to_policies={}, removed_zones={}, removed_policies={},
        removed_links={}, notable_zones={}, merged_notable_zones={}, notable_policies={}, notable_links={},
        original_min_year=0, original_max_year=0, generated_min_year=0, generated_max_year=0, lower_truncated=False,
        upper_truncated=False, start_year_accurate=MINUS_INF, until_year_accurate=MAX_UNTIL, buf_sizes={}, max_buf_size=0,
        estimator_min_year=0, estimator_max_year=0, zone_ids={}, link_ids={}, letters_map={}, formats_map={},
        fragments_map={}, compressed_names={}, memory_map8={}, memory_map32={}, go_letters_map={}, go_formats_map={},
        go_names_map={}, go_zone_and_link_index_map={}, go_policy_index_size_map={}, go_info_index_size_map={},
        go_memory_map={})


def main():
    a = options()
    languages = a.languages.split(',')
    actions = a.actions.split(',')
    invocation = ' '.join(sys.argv)
    cli.refuse_unknown(a)
    cli.refuse_years(a)
    p = cli.parameters(a)
    t = empty_result()
    transformed(t, p)
    d = Data(a, t, invocation)
    if not a.skip_bufestimator:
        d.sizes, d.max_size, d.first_year, d.last_year = estimate(
            t, a.start_year, a.until_year, a.ignore_buf_size_too_large)
    d.comments()
    if 'arduino' in languages or 'c' in languages:
        d.encoded()
    if 'go' in languages:
        d.go = go_tables(t)
    out = a.output_dir
    if 'zonedb' in actions:
        if 'python' in languages:
            write(out, 'zone_policies.py', out_py.policies(d))
            write(out, 'zone_infos.py', out_py.infos(d))
            write(out, 'zone_registry.py', out_py.registry(d))
        if 'arduino' in languages:
            d.named()
            write(out, 'zone_policies.h', out_ar.policies_h(d))
            write(out, 'zone_policies.cpp', out_ar.policies_cpp(d))
            write(out, 'zone_infos.h', out_ar.infos_h(d))
            write(out, 'zone_infos.cpp', out_ar.infos_cpp(d))
            write(out, 'zone_registry.h', out_ar.registry_h(d))
            write(out, 'zone_registry.cpp', out_ar.registry_cpp(d))
        if 'c' in languages:
            d.named()
            write(out, 'zone_policies.h', out_c.policies_h(d))
            write(out, 'zone_policies.c', out_c.policies_c(d))
            write(out, 'zone_infos.h', out_c.infos_h(d))
            write(out, 'zone_infos.c', out_c.infos_c(d))
            write(out, 'zone_registry.h', out_c.registry_h(d))
            write(out, 'zone_registry.c', out_c.registry_c(d))
        if 'go' in languages:
            d.named()
            write(out, 'zone_policies.go', out_go.policies(d))
            write(out, 'zone_policies_test.go', out_go.policies_test(d))
            write(out, 'zone_infos.go', out_go.infos(d))
            write(out, 'zone_infos_test.go', out_go.infos_test(d))
            write(out, 'zone_registry.go', out_go.registry(d))
            write(out, 'zone_registry_test.go', out_go.registry_test(d))
            write(out, 'reader_test.go', out_go.reader_test(d))
    if 'json' in actions:
        with open(os.path.join(out, a.json_file), 'w', encoding='utf-8') as f:
            json.dump(database(d, p), f, indent=2, default=as_list)
            print(file=f)
    if 'zonelist' in actions:
        write(out, 'zones.txt', zone_list(d))


def as_list(obj):
    return sorted(obj)


def write(folder, name, text):
    with open(os.path.join(folder, name), 'w', encoding='utf-8') as f:
        print(text, end='', file=f)


def zone_list(d):
    out = '# This file was generated by the following script:\n#\n#   $ '
    out += '\n#     --'.join(d.invocation.split(' --'))
    out += '\n#\n# using the TZ Database files\n#\n#   '
    out += '\n#   '.join(Extractor.ZONE_FILES)
    out += f'\n#\n# from https://github.com/eggert/tz/releases/tag/{d.a.tz_version}\n#\n# DO NOT EDIT\n\n'
    out += f'# numZones: {d.nz}\n'
    for name in sorted(d.zones.keys()):
        out += f'{name}\n'
    return out + '\n'


class Data:
    def __init__(self, a, t, invocation):
        self.a = a
        self.t = t
        self.scope = a.scope
        self.invocation = invocation
        self.zones = t.zones_map
        self.policies = t.policies_map
        self.links = t.links_map
        self.nz = len(t.zones_map)
        self.nl = len(t.links_map)
        self.np = len(t.policies_map)
        self.ne = sum([len(info['eras']) for info in t.zones_map.values()])
        self.nr = sum([len(p['rules']) for p in t.policies_map.values()])
        self.both = list(t.zones_map.keys()) + list(t.links_map.keys())
        self.ids = t.zone_ids.copy()
        self.ids.update(t.link_ids)
        self.tiny = a.scope != 'complete'
        self.high = a.scope == 'complete'
        self.ns = a.db_namespace
        self.sizes = {}
        self.max_size = 0
        self.first_year = 0
        self.last_year = 0
        self.letters = {}
        self.formats = {}
        self.fragments = {}
        self.short = {}
        self.memory8 = {}
        self.memory32 = {}
        self.go = None

    def named(self):
        if not self.a.db_namespace:
            raise Exception('db_namespace')

    def size_of(self, name):
        return self.sizes.get(name, CountAndYear(0, 0))

    def shown(self, name):
        if self.a.compress:
            return self.short[name]
        return name

    def described(self, name):
        target = self.links.get(name)
        if target:
            return f'{name} -> {target}'
        return name

    def encoded(self):
        """letters, fragments and sizes of the Arduino and C databases"""
        check(self.t, self.high)
        self.letters = letter_table(self.policies)
        self.formats = format_table(self.zones)
        if self.a.compress:
            self.fragments = keyword_table(self.zones, self.links)
            self.short = compressed_names(self.zones, self.links, self.fragments)
        self.memory8 = memory(self, SIZES_8_HIGH if self.high else SIZES_8)
        self.memory32 = memory(self, SIZES_32_HIGH if self.high else SIZES_32)

    def comments(self):
        """zone notes together with the notes of the policies the zone uses"""
        used = {}
        for name, info in self.zones.items():
            for era in info['eras']:
                policy = era['policy_name']
                if policy:
                    if name not in used:
                        used[name] = set()
                    used[name].add(policy)
        merged = {}
        for name, why in sorted(self.t.notable_zones.items()):
            merged[name] = sorted(why)
        for name, ps in used.items():
            sub = {}
            for p in ps:
                if p in self.t.notable_policies:
                    sub[p] = sorted(self.t.notable_policies[p])
            if sub:
                if name not in merged:
                    merged[name] = []
                merged[name].append(sub)
        self.used = used
        self.merged = {name: merged[name] for name in sorted(merged.keys())}
