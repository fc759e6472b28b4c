#!/usr/bin/env python3
"""design.py: writes DESIGN.md from tools/DESIGN.in.md, the evidence of the last runs and the planted bugs."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# property: (what is specified and monitored, oracle, why tests cannot reach it)
T = {
'C01': ('every message is read in every way (section by section, skipped, partly; Display and Debug of all items) and given to resolver, discovery and advertiser handlers', 'no panic, hang or allocation blow-up; nothing after an error; labels <= bytes', 'the inputs are chosen by an attacker; only exhaustion of small messages plus all one- and two-byte changes of full ones finds the odd path'),
'C02': ('all byte strings up to a length as names, all pointer layouts and values, long chains, damaged links', 'reference decoder: labels, resume position, kind of error', 'pointer bugs need a specific topology of several names'),
'C03': ('all shapes of messages x all read/skip/stop walks x all field values', 'reference parse', 'a decoder that is right when read in order can be wrong after a skip or a partial read'),
'C04': ('all data of up to 6 (7) bytes per type, all field values, lying RDLENGTHs; what else is in the message varies independently', 'reference record decoder; entries behind unchanged', 'over-reads give plausible values, never crashes'),
'C05': ('all sequences of entries, all names, field values, sizes into a large buffer filled with rubbish', 'our entries themselves; reference parser on the bytes', 'a wrong count, length byte or split shows only for one combination of entries'),
'C06': ('all sequences x **every** buffer size; huge numbers of entries; section moves after truncation', 'independent size computation; decoded prefix', 'off-by-one truncation shows at one buffer size only'),
'C07': ('the complete state graph: 65536 flag words (and IDs) x all setters', 'RFC bit layout', 'needs all states'),
'C08': ('all labels of 1-2 bytes, all short texts, all building sequences, all names against their neighbours', 'validity rule; injectivity over the set; equality of label lists', 'injectivity and round trips quantify over all values'),
'C09': ('all 65536 x 65536 pairs, twice', 'the rule', 'complete'),
'C10': ('configurations x queries, each configuration built through the public API, queries written by the reference writer', 'reference advertiser (`advmodel.rs`)', 'wrong matches need a query one change away from a configured name; wrong answers need a particular product of configuration and query'),
'C11': ('all histories from a pool; all flag words; damaged questions; long repetitions; logging on and off', 'fresh advertiser; silence rule', 'what an earlier query leaves behind shows only after particular histories'),
'C12': ('datagram histories x peers x faults on the virtual network', 'reference reply per datagram, order and peer; error returned', 'no test opens a socket'),
'C13': ('histories of datagrams x stopping points; reuse of one discoverer', 'reference set of announcements in order of first appearance', 'no test runs discovery'),
'C14': ('all placements of arrivals around both timers', 'exact send times and end time; with late timers and a clock that moves while computing, bounds on both', 'exact times, late timers and datagrams next to a timer cannot be staged by a test'),
'C15': ('SRV/TXT splits and orders, replies to other operations, every target name, port, priority, weight and metadata set, several servers of one name', 'first SRV, any TXT of the instance', 'needs particular orders of records and histories of operations on one object'),
'C16': ('datagrams right and subtly wrong in one respect, alias chains, names one change away, reuse', 'reference resolver', 'every single deviation of a response matters, in every position of a history'),
'C17': ('constructor/addition sequences, names of all lengths, faults, timeouts', 'queries decoded by the reference parser; error rule', 'needs sockets, faults at chosen calls, and names at every length limit'),
'C18': ('all short tables, all entries of up to 5 bytes, flags added in sequence', 'reference table', 'byte-exact edge cases'),
'C19': ('all label lists to length 5, all first bytes, pairs and triples, names one change away', 'the grammar; order laws (also transitivity) and hash consistency', 'grammar edges'),
'C20': ('real advertisers, discoverer and resolver on one virtual network that reorders and damages', 'what was configured', 'end to end across components'),
'C21': ('the histories of C16/C17, plus readiness, spurious wake-ups, late polls, drops at every await', 'blocking resolver on the same history, and the reference resolver', 'await points'),
'C22': ('the histories of C13-C15, plus the same', 'blocking discoverer and reference', 'await points'),
'C23': ('the histories of C12, plus the same', 'blocking advertiser and reference', 'await points'),
'C24': ('packets of all kinds through the real tap with its log captured', 'reference parse', 'the log of damaged packets'),
'C25': ('every system call of every constructor and loop failing with every error; other sockets on the host', 'rules of the virtual host; list of open sockets', 'faults and port sharing'),
'C26': ('every type, class, code and value printed', 'independent renderer', 'complete over codes'),
'C27': ('names x types x buffers; the datagram families of C13-C16 and all small changes of some messages x every stopping point x prior contents', 'reference parser', 'no test calls these functions'),
}
tab = []
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l); i = p['id']; s, o, w = T[i]
    e = json.load(open(f'{V}/evidence/{i}.json'))
    c = e['coverage']
    tab.append(f"### {i} {p['title']}\n\n*Enumerated:* {s}. *Oracle:* {o}. *Beyond tests because:* {w}.\n")
    for x in c['scenarios']: tab.append(f"* `{x['scenario']}`: {x['bounds']}")
    if e.get('assumptions'): tab.append('\nAssumes: ' + '; '.join(e['assumptions']) + '.')
    tab.append('')
bugs = ['| planted bug | check | what it breaks |', '|---|---|---|']
for d in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    bugs.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
s = open(f'{V}/tools/DESIGN.in.md').read()
import sys; sys.path.insert(0, f'{V}/tools')
import probes
s = s.replace('@@TABLE@@', '\n'.join(tab).strip()).replace('@@BUGS@@', '\n'.join(bugs)).replace('@@NPROBES@@', str(len(probes.PROBES)))
open(f'{V}/DESIGN.md', 'w').write(s)
