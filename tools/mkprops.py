import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,**({'state':state} if state else {}))))
M='ciscoconfparse/ciscoconfparse.py'; A='ciscoconfparse/ccp_abc.py'; U='ciscoconfparse/ccp_util.py'; MC='ciscoconfparse/models_cisco.py'
tree=[dict(name='line.parent / line.children',meaning='the hierarchy built from indentation',where=A),dict(name='line.linenum',meaning='position in the configuration',where=A)]
p('C01','Parsing keeps every line, its text and its order',
 'Parsing a configuration yields exactly one line object per input line, in input order, whose text is the input line without trailing whitespace; only blank lines may be dropped, and only when blank lines are to be ignored. Each line object reports a line number equal to its position in the parsed configuration, and an indent equal to the number of its leading whitespace characters.',
 ['inputs','configurations'],'every list of text lines (no unbalanced closing brace outside comments), with ignore_blank_lines on or off, factory on or off, each IOS-like syntax; lines of at least one visible character besides blank ones',
 'Tests parse about a dozen fixed configurations; a line that is lost, re-ordered, renumbered or re-indented only shows for line mixes (blank runs, odd indents, comments) they do not contain.',
 [M,A],[('ConfigList.bootstrap_obj_init_ng',M),('ConfigList.reassign_linenums',M),('BaseCfgLine.text setter',A),('CiscoConfParse.ioscfg',M)],['CiscoConfParse(...).ioscfg','obj.text','obj.linenum','obj.indent'],tree)
p('C02','Indentation alone decides the parent of a line',
 'In an indentation-based configuration without banners, macros or braces, the parent of every indented configuration line is the nearest preceding configuration line (neither blank nor comment) with a strictly smaller indent; lines at indent zero, and lines with no such predecessor, are their own parent. Comment lines and blank lines never become anybody\'s parent.',
 ['inputs'],'every list of lines with arbitrary indents, comments and blank lines, any depth',
 'The parent cache and its invalidation depend on the whole history of indents seen so far; tests contain only regular, cleanly nested configurations.',
 [M],[('ConfigList._maintain_bootstrap_parent_cache',M),('ConfigList._build_bootstrap_parent_child',M),('ConfigList.bootstrap_obj_init_ng',M)],['obj.parent'],tree)
p('C03','Parent and child links agree and form an ordered forest',
 'After a parse, a line X lists Y among its children exactly when Y names X (another line) as its parent; each child is listed once, children are in line order and come after their parent. Hence links never form a cycle and every line reaches a root by following parents.',
 ['inputs'],'every list of lines (comments, blank lines and any indents included; no unbalanced closing brace)',
 'Mutual consistency is a relation between all pairs of lines of every possible configuration; tests assert a few children lists.',
 [M,A],[('ConfigList._add_child_to_parent',M),('BaseCfgLine.add_child/add_parent',A),('ConfigList.bootstrap_obj_init_ng',M)],['obj.parent','obj.children'],tree)
p('C04','Family queries are the exact closure of the parent/child links',
 'For any parsed line, all_children is exactly the set of lines from which repeated parent steps lead to it, all_parents is exactly the chain of lines reached by repeated parent steps (excluding itself), and geneology is that chain from the root down, ending in the line itself; lineage is all_parents, the line and all_children in line order; family_endpoint is the number of the last of the descendants (its own number if there is none), and siblings are exactly the children of its parent that have its own indentation, in order.',
 ['inputs'],'every line of every parsed configuration, any nesting depth',
 'Closure over arbitrary depth is an inductive statement; tests use depth two or three.',
 [A],[('BaseCfgLine.all_children',A),('BaseCfgLine.all_parents',A),('BaseCfgLine.lineage',A),('BaseCfgLine.geneology',A),('BaseCfgLine.family_endpoint',A),('BaseCfgLine.siblings',A)],['obj.all_children','obj.all_parents','obj.lineage','obj.geneology','obj.family_endpoint','obj.siblings'],tree)
p('C05','Line search returns exactly the matching lines, in order',
 'Searching for a regular expression returns exactly the lines whose text the expression matches (the whole text when an exact match is asked for), each once and in configuration order; asking to ignore whitespace makes each blank run in the expression match any blank run. The existence test answers true exactly when that result is non-empty, and searching does not alter the configuration.',
 ['inputs'],'every configuration and every valid regular expression, exactmatch and ignore_ws on and off',
 'Completeness and exclusion range over all lines and patterns; the tests compare a handful of fixed results.',
 [M],[('CiscoConfParse.find_objects',M),('CiscoConfParse.find_lines',M),('CiscoConfParse._find_line_OBJ',M),('ConfigList.has_line_with',M),('build_space_tolerant_regex',M)],['find_objects','find_lines','has_line_with'])
p('C06','Parent search with and without a child partitions the parents',
 'Among the lines matching a parent expression, the with-child search returns exactly those having a matching child (a matching descendant when recursing) and the without-child search exactly the others, both in configuration order; a child matches when the expression is found in its text or is literally contained in it. With several child expressions, the all-children search returns exactly those where every expression is matched by some child and the missing-children search the rest.',
 ['inputs'],'every configuration, every pair/list of expressions, recurse and ignore_ws on and off',
 'Partition means for-all lines in exactly one side; tests sample a few positive results of each query separately.',
 [M,A],[('CiscoConfParse.find_parent_objects',M),('CiscoConfParse.find_parent_objects_wo_child',M),('CiscoConfParse.find_objects_w_all_children',M),('CiscoConfParse.find_objects_w_missing_children',M),('BaseCfgLine.re_search_children',A)],['find_parent_objects','find_parent_objects_wo_child','find_objects_w_all_children','find_objects_w_missing_children'])
p('C07','Child search returns exactly the children below matching parents',
 'The child search for a parent expression and a child expression returns exactly the lines matching the child expression that have a matching parent line above them (the immediate parent; any ancestor when recursing), each once, in configuration order; the text-only variant returns the texts of the lines below any matching ancestor.',
 ['inputs'],'every configuration and pair of expressions',
 'Duplicates and misses only appear for particular nestings (a child reachable by two matching ancestors, parents that are themselves children) not in the fixtures.',
 [M],[('CiscoConfParse.find_child_objects',M),('CiscoConfParse.find_children_w_parents',M)],['find_child_objects','find_objects_w_parents','find_children_w_parents'])
p('C08','Branch search enumerates exactly the matching root-to-leaf chains',
 'A branch search with n expressions returns exactly the chains of n lines in which the first matches the first expression and each next one is a child of the previous line matching its own expression; where a chain cannot be continued it is completed with None when empty branches are allowed and left out otherwise. Branches come in configuration order and each one occurs once; regex flags apply to every expression.',
 ['inputs'],'every configuration, every tuple of expressions, empty branches on/off',
 'The number of chains is combinatorial in the configuration; tests show a few three-level examples.',
 [M],[('CiscoConfParse.find_object_branches',M)],['find_object_branches'])
p('C09','Insertion puts exactly the new line at exactly the asked place',
 'Inserting a line before (after) the lines matching an expression yields the previous sequence of texts with the new text immediately before (after) each matching line and nothing else changed; inserting relative to one line object does so for that line alone, and appending or prepending adds the line at the end or the start. Line numbers equal positions again afterwards.',
 ['inputs','histories'],'every configuration, target expression and new line, and every sequence of such edits',
 'The frame condition (everything else unchanged) quantifies over all other lines; tests look at one or two resulting configurations.',
 [M,A],[('ConfigList.insert_before',M),('ConfigList.insert_after',M),('ConfigList.insert',M),('CiscoConfParse.insert_before/insert_after/append_line/prepend_line',M),('BaseCfgLine.insert_before/insert_after',A)],['ioscfg after the edit','obj.linenum'])
p('C10','Deletion removes the line and its descendants and nothing else',
 'Deleting a line object removes that line and all its descendants and leaves the texts and the order of all other lines unchanged; deleting by expression has that effect for every matching line. Line numbers equal positions again afterwards.',
 ['inputs','histories'],'every configuration and every line or expression, repeated deletions included',
 'Index shifts during multi-line removal depend on the shape of the family; tests delete in two fixed configurations.',
 [M,A],[('BaseCfgLine.delete',A),('CiscoConfParse.delete_lines',M),('ConfigList.__delitem__',M),('ConfigList.reassign_linenums',M)],['ioscfg after delete','obj.linenum'])
p('C11','Replacement rewrites only what it matched',
 'Replacing in lines changes exactly the lines matched by the expression, each to the regex substitution of its own text, keeps every other line and the number and order of lines, and returns the changed lines; with an exclusion expression, lines matching it stay untouched. A line whose text changed reports the indent of its new text; new text carries no trailing whitespace, and a line replaced by nothing is deleted.',
 ['inputs'],'every configuration, expression and replacement',
 'The frame over unmatched and excluded lines is universal; tests look at single replacements.',
 [M,A],[('CiscoConfParse.replace_lines',M),('BaseCfgLine.replace',A),('BaseCfgLine.re_sub',A),('BaseCfgLine.text setter',A)],['ioscfg after replace_lines','obj.text','obj.indent'])
p('C12','A committed configuration equals a fresh parse of its own text',
 'In an indentation-based syntax, after any sequence of edits followed by a commit, texts, line numbers, indents, parents and children are the same as those obtained by parsing the current text afresh with the same settings; committing again changes nothing.',
 ['inputs','histories'],'every configuration without blank lines inside banners or macros, and every edit history followed by commit',
 'Quantifies over edit histories; tests perform one edit and look at text only.',
 [M],[('CiscoConfParse.commit/atomic',M),('ConfigList.bootstrap_obj_init_ng',M),('CiscoConfParse.ioscfg',M)],['state after commit()'])
p('C13','Brace configurations become indentation, losing only braces',
 'Converting a brace-structured (Junos) configuration gives one line per statement, in order, with braces and statement terminators removed and an indent of the stop width times the number of blocks open around it, so that the parse makes each statement a child of the block it is in. Comment lines and quoted text survive unchanged.',
 ['inputs'],'every well-bracketed list of brace-syntax lines with one statement or brace per line and no brace inside quotes, any depth, any initial whitespace',
 'Depth tracking depends on the whole prefix of the input; tests convert four fixed files.',
 [M],[('convert_junos_to_ios',M),('parse_line_braces',M),('CiscoConfParse.handle_ccp_brace_syntax',M)],['ioscfg of a syntax=junos parse','obj.parent'])
p('C14','Line equality, hashing and ordering are lawful',
 'Two line objects are equal exactly when they have the same text and the same line number, equal objects have equal hashes, and the ordering of lines is the order of their line numbers: total, transitive and consistent with less-than, greater-than and sorting.',
 ['inputs'],'all pairs and triples of line objects',
 'Algebraic laws range over pairs and triples; no test compares more than two objects and none varies number and text together.',
 [A],[('BaseCfgLine.__eq__/__ne__/__hash__',A),('BaseCfgLine.__lt__/__gt__',A),('BaseCfgLine.get_unique_identifier / calculate_line_id',A)],['==, hash(), <, > on lines'])
p('C15','IPv4 objects: equality, hash, order and containment are exact',
 'Two IPv4 objects are equal exactly when address and prefix length are equal, equal objects hash equally, and ordering is a strict total order on (network, prefix length, address) information consistent with equality. Containment holds exactly when every address of the inner object\'s network is an address of the outer object\'s network.',
 ['inputs'],'all pairs (triples for transitivity) of non-empty IPv4 objects, prefix lengths 0..32',
 '2^37 objects squared; tests compare a dozen pairs and miss boundary addresses.',
 [U],[('IPv4Obj.__eq__/__ne__/__hash__',U),('IPv4Obj.__lt__/__gt__',U),('IPv4Obj.__contains__',U)],['==, hash, <, >, in'])
p('C16','IPv6 objects: equality, hash, order and containment are exact',
 'Two IPv6 objects are equal exactly when address and prefix length are equal, equal objects hash equally, and ordering is a strict total order consistent with equality. Containment holds exactly when every address of the inner object\'s network is an address of the outer object\'s network.',
 ['inputs'],'all pairs (triples) of non-empty IPv6 objects, prefix lengths 0..128',
 '2^135 objects; tests never touch the last addresses of a network or lengths 127/128.',
 [U],[('IPv6Obj.__eq__/__ne__/__hash__',U),('IPv6Obj.__lt__/__gt__',U),('IPv6Obj.__contains__',U)],['==, hash, <, >, in'])
p('C17','IP arithmetic and derived values stay within the address space',
 'Adding or subtracting an integer to an IP object gives the object with that address offset and the same prefix length, or an error when the result would leave the address space, never a wrapped or altered value; netmask, hostmask, network, last address, count of usable hosts and decimal views agree with the address and prefix length. Setting the prefix length or the offset within the network changes only that aspect and rejects values that do not fit.',
 ['inputs'],'all IPv4/IPv6 objects, all integers',
 'Boundary values (first and last address, offset 0, prefix 0/31/32/127/128) are a measure-zero part of the space, absent from the tests.',
 [U],[('IPv4Obj/IPv6Obj.__add__/__sub__',U),('prefixlen/prefixlength/masklen setters',U),('network_offset getter/setter',U),('as_decimal*, numhosts',U)],['+, -, int(), properties'])
p('C18','Range text expands to exactly the numbers it denotes, and compresses back',
 'A textual range such as "1-3,5,9-10" expands to exactly the union of its members in ascending order without duplicates; for integers, compressing gives a text that expands to the same set, with every maximal run of three or more written as one range. Appending a new member or removing a present one changes membership of that member alone; appending a present one or removing an absent one is an error.',
 ['inputs','histories'],'every comma/dash range text over integers, and over IOS interfaces that vary in their last component only; every sequence of append/remove',
 'Run detection at boundaries (adjacent, overlapping, single, two-element runs) is unbounded in the number of members; tests use a few constants.',
 [U],[('CiscoRange.parse_integers/parse_cisco_interfaces',U),('CiscoRange.as_compressed_str',U),('CiscoRange.append/remove',U)],['CiscoRange(...).as_list / as_compressed_str / len / in'])
p('C19','Interface names parse losslessly, render back and sort numerically',
 'Parsing an interface name yields its prefix, slot, card, port, subinterface, channel and class, and rendering the parsed object gives a name that parses to an equal object; equal interfaces hash equally. Sorting orders interfaces by those components numerically (missing components first), as a strict weak order.',
 ['inputs'],'every IOS interface name of the documented shapes (prefix, up to three slash-separated numbers, optional subinterface and channel)',
 'The components combine freely; tests list some dozens of names and few comparisons.',
 [U],[('CiscoIOSInterface.__init__/parse_single_interface',U),('CiscoIOSInterface.number/render',U),('CiscoIOSInterface.sort_list, __lt__, __gt__, __eq__, __hash__',U)],['CiscoIOSInterface(...) attributes, str, comparison'])
p('C20','Type-7 decryption inverts type-7 encryption',
 'Decrypting any well-formed type-7 string (a two-digit decimal salt followed by hexadecimal byte pairs) returns the plaintext whose encryption with that salt is the string: the i-th character is the i-th byte exclusive-or the key character at position salt+i, the key being used cyclically. The outcome depends on the string alone.',
 ['inputs'],'every salt, every password of any length',
 'Passwords long enough to wrap the key, and all salts, are not in the tests (three samples).',
 [M],[('CiscoPassword.decrypt',M)],['CiscoPassword().decrypt'])
p('C21','Typed regex extraction returns the matched group or the default',
 'Extracting a typed value from a line returns the converted value of the requested regex group when the line matches, and otherwise the default (converted only if asked); the child and configuration-wide variants return the value of the first matching line in order (the children, resp. the lines without a parent) and the default only if no line matches.',
 ['inputs'],'every line/children list, regex, group that takes part in the match, result type and default',
 'First-match and default semantics over arbitrary many children is universal; tests use one-child examples.',
 [A,M],[('BaseCfgLine.re_match_typed',A),('BaseCfgLine.re_match_iter_typed',A),('CiscoConfParse.re_match_iter_typed',M),('BaseCfgLine.re_match, re_search',A)],['re_match_typed','re_match_iter_typed','re_match'])
p('C22','Port specifications denote exactly the ports they describe',
 'A layer-4 port specification denotes exactly the ports it describes: eq the one port, range the closed interval, lt the ports below, gt the ports above up to 65535, neq all others, each in 1..65535, named ports as their numbers; equality agrees with protocol and port set, and a specification outside that space is rejected.',
 ['inputs'],'every protocol and every operator/port combination',
 'Boundary ports and operators such as neq are not in the tests.',
 [U],[('L4Object.__init__',U),('L4Object.__eq__',U)],['L4Object(...).port_list, =='])
p('C23','Allowed trunk VLANs are the exact result of applying the lines in order',
 'The allowed-VLAN set of a switchport is the result of applying its "switchport trunk allowed vlan" lines in order: starting from all of 1..4094, a plain list replaces it (a further plain list extends it), add unites, remove and except take the listed VLANs out, all fills and none empties it. Without any such line it is all VLANs on a switchport.',
 ['inputs','histories'],'every sequence of allowed-vlan lines on an interface',
 'Order-dependent accumulation over arbitrarily many lines; tests have a few fixed interfaces.',
 [MC],[('IOSIntfLine.trunk_vlans_allowed',MC)],['intf.trunk_vlans_allowed'])
p('C24','The diff of two configurations is a complete script of their differences',
 'For two configurations, up to the amount of blanks inside a line, every line (with its ancestors) present only in the old one is reported removed, every one present only in the new one added, and common ones are not reported as changes; identical configurations produce no additions or removals.',
 ['inputs'],'every pair of indentation-structured configurations',
 'Completeness ranges over all pairs; tests compare six fixed pairs.',
 [M],[('HDiff.build_diff_obj_lists',M),('HDiff.find_in_before_obj_list',M),('HDiff.compress_dict_diffs / dict_diffs',M)],['HDiff(...).unified_diffs / all_output_dicts'])
p('C25','Saving and re-reading a configuration is the identity on its text',
 'Saving a parsed configuration to a file writes exactly its lines in order, and reading that file back parses to the same lines; reading a file and parsing the list of its lines give the same result, for every line-ending convention (LF, CRLF, CR), with or without a final newline.',
 ['inputs'],'every configuration text, every line-ending convention, with and without a final newline; blank lines inside banners aside when they are to be ignored',
 'Line-ending and end-of-file combinations are not in the tests.',
 [M],[('CiscoConfParse.save_as',M),('CiscoConfParse.read_config_file',M)],['file content','ioscfg'])
p('C26','Banner and macro blocks swallow exactly their own lines',
 'The lines from a banner (or macro) header up to and including its terminating delimiter line become descendants of the header, and no line outside the block is affected: lines after it keep the parent their indentation gives them. A block whose terminator is missing does not make parsing fail.',
 ['inputs'],'every configuration containing banner/macro blocks with any delimiter and body',
 'The body is arbitrary text that may look like configuration; tests contain two banners.',
 [M],[('ConfigList._banner_mark_regex',M),('ConfigList._macro_mark_children',M),('ConfigList._build_banner_re_ios',M)],['obj.parent','obj.children'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
